#!/usr/bin/env python3
"""tools/automut.py N SEED OUT [file...]: sample N one-place mutants of cpnest's sources, run the checks on each in turn until one
reports a violation; mutants nothing reports are written to OUT as survivors, to be read by hand."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    'NestedSampling.py': 'C02 C03 C21 C04 C05 C17 C19 C12 C14 C16 C22 C13 C23 C15 C01',
    'cpnest.py': 'C17 C12 C19 C09 C23 C16 C14 C22 C13 C15',
    'model.py': 'C11 C06 C04 C19 C12 C07 C15',
    'nest2pos.py': 'C08 C09 C12 C15',
    'proposal.py': 'C18 C26 C06 C24 C22 C07 C01 C15',
    'plot.py': 'C28 C15',
    'sampler.py': 'C25 C06 C20 C24 C19 C14 C22 C23 C13 C07 C16 C15 C01',
    'utils.py': 'C17 C12 C16 C15',
    'parameter.pyx': 'C10',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['*']}


def skip_call(n):
    s = ast.unparse(n.func)
    return 'logger' in s or s.startswith('LOGGER') or s.startswith('logging') or s in ('print',) or 'plt' in s or 'add_argument' in s


def mutants(fn):
    src = open('/repo/cpnest/' + fn).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(a, e, new, line):
        out.append((fn, line, b[a:e].decode(), new, a, e))

    def walk(n, fun):
        if isinstance(n, ast.Call) and skip_call(n):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and ('plot' in n.name or n.name in ('LeapFrog', 'trace_analysis')):
            return
        if isinstance(n, ast.If) and 'periodic_checkpoint' in ast.unparse(n.test):
            pass
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = pos(n.left)[1], pos(n.comparators[0])[0]
            for o in CMP.get(type(n.ops[0]), []):
                # keep parentheses
                seg = b[l:r].decode()
                for old in ('is not', 'not in', '<=', '>=', '==', '!=', '<', '>', 'is', 'in'):
                    if old in seg:
                        add(l, r, seg.replace(old, ' ' + o + ' ', 1), n.lineno); break
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not isinstance(n.left, ast.Constant) or not isinstance(n.left.value, str):
                l, r = pos(n.left)[1], pos(n.right)[0]
                seg = b[l:r].decode()
                for old in ('**', '//', '+', '-', '*', '/', '%'):
                    if old in seg:
                        add(l, r, seg.replace(old, BIN[type(n.op)][0], 1), n.lineno); break
        elif isinstance(n, ast.BoolOp):
            l, r = pos(n.values[0])[1], pos(n.values[1])[0]
            seg = b[l:r].decode()
            if ' and ' in seg: add(l, r, seg.replace(' and ', ' or ', 1), n.lineno)
            elif ' or ' in seg: add(l, r, seg.replace(' or ', ' and ', 1), n.lineno)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            a, e = pos(n)
            if n.value is True: add(a, e, 'False', n.lineno)
            elif n.value is False: add(a, e, 'True', n.lineno)
            elif isinstance(n.value, (int, float)):
                add(a, e, repr(n.value + 1), n.lineno)
                if n.value not in (0, 1): add(a, e, repr(n.value * 2), n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, e = pos(n); o = pos(n.operand)
            add(a, e, b[o[0]:o[1]].decode() if b[a:e].count(b'(') == b[o[0]:o[1]].count(b'(') else '(' + b[o[0]:o[1]].decode() + ')', n.lineno)
        elif isinstance(n, (ast.If, ast.While)):
            a, e = pos(n.test); add(a, e, 'not (' + b[a:e].decode() + ')', n.lineno)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Break, ast.Continue)):
            if not (isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or isinstance(n.value, ast.Call) and skip_call(n.value))):
                a, e = pos(n); add(a, e, 'pass', n.lineno)
        elif isinstance(n, ast.Return) and n.value is not None:
            a, e = pos(n); add(a, e, 'return None', n.lineno)
        for c in ast.iter_child_nodes(n):
            walk(c, fun)
    if fn.endswith('.pyx'):
        import re
        for i, l in enumerate(lines):
            if l.strip().startswith(('#', '"', 'import', 'from', 'cimport', 'def ', 'cdef ', 'cpdef')) : continue
            for m in re.finditer(r' (<|>|\+|-|\*|/|==|\+=|-=) |\b(0|1)\b', l):
                old = m.group(0)
                new = {' < ': ' <= ', ' > ': ' >= ', ' + ': ' - ', ' - ': ' + ', ' * ': ' / ', ' / ': ' * ', ' == ': ' != ', ' += ': ' -= ', ' -= ': ' += ', '0': '1', '1': '0'}[old]
                a = off[i] + len(l[:m.start()].encode()); out.append((fn, i + 1, old, new, a, a + len(old)))
    else:
        walk(ast.parse(src), None)
    return [m for m in out if m[5] > m[4]]


def run(k, m):
    fn, line, old, new, a, e = m
    w = tempfile.mkdtemp(prefix='amut.')
    try:
        shutil.copytree('/repo', w + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git'))
        p = w + '/repo/cpnest/' + fn
        b = open(p, 'rb').read()
        s = b[:a] + new.encode() + b[e:]
        if not fn.endswith('.pyx'):
            try: compile(s, fn, 'exec')
            except SyntaxError: return dict(mut=m, res='syntax')
        open(p, 'wb').write(s)
        log = []
        for prop in ORDER[fn].split():
            try:
                r = subprocess.run([V + '/run.sh', prop], env=dict(os.environ, VERIF_REPO=w + '/repo', VERIF_EVIDENCE=w, VERIF_REPLAYS=w), capture_output=True, text=True, cwd=V, timeout=1500)
            except subprocess.TimeoutExpired:
                log.append(prop + ':timeout'); continue
            if r.returncode == 1:
                return dict(mut=m, res='killed', by=prop, why=[l for l in r.stdout.splitlines() if l][:1], log=log)
            if r.returncode != 0:
                log.append('%s:%d %s' % (prop, r.returncode, (r.stdout + r.stderr)[-200:]))
        return dict(mut=m, res='SURVIVED', log=log)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or list(ORDER)
    rng = random.Random(seed)
    pool = []
    for f in files:
        ms = mutants(f); rng.shuffle(ms)
        pool += ms[:max(1, int(n * len(ms) / 900.)) if not sys.argv[4:] else n]
    rng.shuffle(pool)
    pool = pool[:n]
    print(len(pool), 'mutants', flush=True)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 2))) as ex:
        for r in ex.map(lambda km: run(*km), enumerate(pool)):
            with open(out, 'a') as f: f.write(json.dumps(r) + '\n')
            fn, line, old, new = r['mut'][:4]
            print(r['res'], r.get('by', ''), fn, line, repr(old[:60]), '->', repr(new[:40]), r.get('log', ''), flush=True)
