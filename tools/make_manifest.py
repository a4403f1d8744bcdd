#!/usr/bin/env python3
"""Source of MANIFEST.json: every property of properties.jsonl with a checks/<id>.py is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(here, 'tools', 'technique.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')) and i in TECH:
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd='./run.sh %s --tier quick' % i, thorough_cmd='./run.sh %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t['technique'], level=t.get('level', 'exploration'),
                           level_note=t['note']))
    else:
        na.append(dict(property=i, reason='the check is not built yet'))
m = dict(version=1, setup_cmd='./run.sh --setup', checks=checks, not_applicable=na,
         notes='No hooks: the checks drive the public classes of cpnest in process, in threads under a generated schedule, or in real processes. '
               'Repairs of genuine defects are the "fix:" commits of /repo, listed in known_findings.txt.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
