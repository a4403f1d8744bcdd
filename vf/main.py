import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--facet')
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    t0 = time.time()
    from . import boot
    boot.boot()
    boot.quiet()
    from . import engine
    engine.adopt_orphans()
    mod = importlib.import_module('checks.' + a.property.lower())
    prop = mod.PROPERTY
    facets = mod.FACETS
    byname = {f.name: f for f in facets}
    if len(byname) != len(facets):
        raise boot.HarnessError('duplicate facet names')

    def replay_dir(d):
        """Violations of saved cases run one by one in a forked child (they may crash)."""
        out = []
        n = 0
        if not os.path.isdir(d):
            return out, n
        for name in sorted(os.listdir(d)):
            if name.endswith('.json'):
                p = os.path.join(d, name)
                n += 1
                msg = replay(p)
                if msg:
                    out.append((p, msg))
        return out, n

    def replay(path):
        with open(path) as f:
            doc = json.load(f)
        f = byname[doc['facet']]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.close(r)
                os.setsid()
                wd = tempfile.mkdtemp(prefix='vf-replay.')
                os.chdir(wd)
                try:
                    ctx, msg = engine.run_one(f, doc['case'])
                    os.write(w, (msg or '')[:30000].encode())
                    code = 0
                except engine.Inconclusive:
                    code = 0
                finally:
                    shutil.rmtree(wd, ignore_errors=True)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r) as fh:
            msg = fh.read()
        _, status = os.waitpid(pid, 0)
        try:
            os.killpg(pid, 9)
        except OSError:
            pass
        engine.reap()
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in engine.CRASH_SIGNALS:
            return 'the interpreter died with signal %d on this case' % os.WTERMSIG(status)
        if status != 0:
            raise boot.HarnessError('replay of %s failed' % path)
        return msg or None

    if a.replay:
        msg = replay(a.replay)
        if msg:
            print(msg)
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        print('replay of %s: no violation' % a.replay)
        return 0

    if a.facet:
        facets = [f for f in facets if f.name in a.facet.split(',')]
    scratch = tempfile.mkdtemp(prefix='vf-%s.' % prop)
    try:
        bad, nreg = replay_dir(os.path.join(boot.VERIF, 'regressions', prop))
        results = [] if bad else engine.run_jobs(mod, facets, a.tier, a.seed, scratch, a.jobs)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    violations = []
    for p, msg in bad:
        violations.append((p, msg))
    rdir = os.environ.get('VERIF_REPLAYS') or os.path.join(boot.VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for r in results:
        if r['violation']:
            v = r['violation']
            doc = dict(property=prop, facet=r['facet'], message=v['message'], seed=a.seed, case=v['case'])
            p = os.path.join(rdir, '%s-%s.json' % (prop, r['facet']))
            with open(p, 'w') as f:
                json.dump(doc, f, indent=1, sort_keys=True)
            violations.append((p, v['message']))
    errors = [r for r in results if r['error']]
    labels, per_facet = {}, {}
    distinct = set()
    samples = []
    for r in results:
        pf = per_facet.setdefault(r['facet'], dict(evaluations=0, distinct_nontrivial=0, inconclusive=0, truncated=False, wall_s=0.0, _d=set()))
        pf['evaluations'] += r['evaluations']
        pf['inconclusive'] += r['inconclusive']
        pf['truncated'] |= r['truncated']
        pf['wall_s'] = round(max(pf['wall_s'], r['wall']), 2)
        pf['_d'].update(r['nontrivial'])
        distinct.update((r['facet'], h) for h in r['nontrivial'])
        for k, v in r['labels'].items():
            labels.setdefault(r['facet'], {}).setdefault(k, 0)
            labels[r['facet']][k] += v
        if r['shard'] < 3:
            samples += [dict(facet=r['facet'], case=s) for s in r['samples'][-1:]]
    for pf in per_facet.values():
        pf['distinct_nontrivial'] = len(pf.pop('_d'))
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=dict(evaluations=sum(r['evaluations'] for r in results),
                            distinct_nontrivial=len(distinct),
                            rule=' || '.join('%s: %s' % (f.name, f.rule) for f in facets),
                            samples=engine.clean(samples) or ['no non-trivial case in this run'],
                            regressions_replayed=nreg,
                            facets=per_facet, classes={k: dict(sorted(v.items())) for k, v in labels.items()}),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for key, text in engine.known(prop).items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    for p, msg in violations:
        print(msg)
        print('VIOLATION property=%s replay=%s' % (prop, p))
    for r in errors:
        print('ERROR in facet %s shard %d:\n%s' % (r['facet'], r['shard'], r['error']), file=sys.stderr)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %d violation(s), %d error(s), %.1f s' % (
        prop, a.tier, a.seed, ev['coverage']['evaluations'], len(distinct),
        sum(r['inconclusive'] for r in results), len(violations), len(errors), time.time() - t0))
    if violations:
        return 1
    if errors:
        return 3
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
