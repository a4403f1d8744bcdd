"""C10: live points behave as independent vectors of double-precision values."""
import copy
import math
import multiprocessing as mp
import pickle
import struct
from array import array

import numpy as np
from hypothesis import strategies as st

from vf.engine import Facet, check, sut
from vf.gen import names
from cpnest.parameter import LivePoint

PROPERTY = 'C10'
ASSUMPTIONS = ['division may differ from the correctly rounded quotient by a few ulp: the extension is built with -ffast-math',
               'operands and results outside [1e-290, 1e290] in magnitude are not compared in arithmetic (same reason)']


def bits(x):
    return struct.pack('<d', x)


def close(got, want):
    if want == 0:
        return abs(got) <= 1e-290
    if not (1e-290 < abs(want) < 1e290):
        return True
    return abs(got - want) <= 4 * 2.3e-16 * abs(want)


SCALAR = {'float': float, 'int': lambda v: int(max(-1e15, min(1e15, v))), 'np': np.float64}


def run_history(case, ctx):
    """Interpret a history of operations on a few points against plain lists."""
    nm = case['names']
    d = len(nm)
    pts, model = [], []

    def agree(when):
        for k, (p, m) in enumerate(zip(pts, model)):
            vals = list(p.values)
            check(len(vals) == d and len(p) == d and p.dimension == d, '%s: dimension of point %d', when, k)
            check(list(p.names) == nm and list(p.keys()) == nm, '%s: names of point %d are %s', when, k, list(p.names))
            for j in range(d):
                check(close(vals[j], m['v'][j]), '%s: component %s of point %d is %r, expected %r', when, nm[j], k, vals[j], m['v'][j])
                check(p[nm[j]] == vals[j] or vals[j] != vals[j], '%s: indexing by name disagrees with values', when)
                m['v'][j] = vals[j]      # rounding differences are not accumulated
            check(bits(p.logL) == bits(m['L']) and bits(p.logP) == bits(m['P']),
                  '%s: logL/logP of point %d are %r/%r, expected %r/%r', when, k, p.logL, p.logP, m['L'], m['P'])

    def new(p, v, L=None, P=None):
        check(type(p) is LivePoint, 'operation returned %r', type(p))
        pts.append(p)
        model.append(dict(v=list(v), L=p.logL if L is None else L, P=p.logP if P is None else P))

    for v, L, P in case['init']:
        a = array('d', [float(v[j % len(v)]) for j in range(d)])
        keep = list(a)
        with sut('LivePoint(...)'):
            p = LivePoint(list(nm), d=a, logL=L, logP=P)
        for j in range(d):
            a[j] = 12345.0               # the point must not share the caller's array
        new(p, keep, L, P)
    agree('after construction')
    changed_after_copy = False
    ncopies = 0
    for step, (op, i, j, s, kind) in enumerate(case['ops']):
        i %= len(pts); j %= len(pts)
        p, q, mp_, mq = pts[i], pts[j], model[i], model[j]
        sc = SCALAR[kind](s)
        when = 'step %d %s point %d (other %d, scalar %r)' % (step, op, i, j, sc)
        with sut(when):
            if op == 'set':
                n = nm[j % d]
                p[n] = sc
                mp_['v'][j % d] = float(sc)
            elif op == 'setL':
                p.logL = sc; mp_['L'] = float(sc)
            elif op == 'setP':
                p.logP = sc; mp_['P'] = float(sc)
            elif op == 'add':
                new(p + q, [a + b for a, b in zip(mp_['v'], mq['v'])])
            elif op == 'sub':
                new(p - q, [a - b for a, b in zip(mp_['v'], mq['v'])])
            elif op == 'mul':
                new(p * sc, [a * float(sc) for a in mp_['v']])
            elif op == 'div' and sc != 0:
                new(p / sc, [a / float(sc) for a in mp_['v']])
            elif op == 'iadd':
                r = p; r += q
                check(r is p, '%s: in-place sum returned another object', when)
                mp_['v'] = [a + b for a, b in zip(mp_['v'], mq['v'])]
            elif op == 'isub':
                r = p; r -= q
                check(r is p, '%s: in-place difference returned another object', when)
                mp_['v'] = [a - b for a, b in zip(mp_['v'], mq['v'])]
            elif op == 'imul':
                r = p; r *= sc
                check(r is p, '%s: in-place product returned another object', when)
                mp_['v'] = [a * float(sc) for a in mp_['v']]
            elif op == 'idiv' and sc != 0:
                r = p; r /= sc
                check(r is p, '%s: in-place quotient returned another object', when)
                mp_['v'] = [a / float(sc) for a in mp_['v']]
            elif op == 'copy':
                new(p.copy(), mp_['v'], mp_['L'], mp_['P']); ncopies += 1
            elif op == 'pickle':
                new(pickle.loads(pickle.dumps(p, protocol=2 + step % 4)), mp_['v'], mp_['L'], mp_['P']); ncopies += 1
            elif op == 'badname':
                for f in (lambda: p['no such name'], lambda: p.__setitem__('no such name', 1.0)):
                    try:
                        f()
                    except KeyError:
                        pass
                    else:
                        check(False, '%s: unknown name accepted', when)
        agree(when)
        if ncopies and op in ('set', 'iadd', 'isub', 'imul', 'idiv', 'setL', 'setP'):
            changed_after_copy = True
        ctx.label(op)
        if len(pts) > 12:
            del pts[0], model[0]
    ctx.nontrivial(changed_after_copy)
    ctx.label('dimension %d' % d)


_pipe = []


def run_transport(case, ctx):
    """Bit-for-bit copies through every channel, independent of the original."""
    nm, vals, L, P = case['names'], case['values'], case['L'], case['P']
    d = len(nm)
    vals = [float(vals[j % len(vals)]) for j in range(d)]
    if not _pipe:
        _pipe.append(mp.Pipe(duplex=True))

    def pipe(p):
        _pipe[0][0].send(p)
        return _pipe[0][1].recv()

    def pair(p):       # two references to the same point inside a container
        a, b = pickle.loads(pickle.dumps((p, [p])))
        return b[0]
    chans = dict(copy=lambda p: p.copy(), deepcopy=copy.deepcopy, copycopy=lambda p: p.copy().copy(), pipe=pipe, pair=pair)
    for pr in range(2, pickle.HIGHEST_PROTOCOL + 1):
        chans['pickle%d' % pr] = lambda p, pr=pr: pickle.loads(pickle.dumps(p, pr))
    with sut('LivePoint(...)'):
        p = LivePoint(list(nm), d=array('d', vals), logL=L, logP=P)
    for ch, f in chans.items():
        with sut(ch):
            q = f(p)
        check(type(q) is LivePoint, '%s returned %r', ch, type(q))
        check(list(q.names) == nm and q.dimension == d and len(q) == d, '%s changed the names to %s', ch, list(q.names))
        check([bits(v) for v in q.values] == [bits(v) for v in vals], '%s changed the values %s to %s', ch, vals, list(q.values))
        check(bits(q.logL) == bits(L) and bits(q.logP) == bits(P), '%s changed logL/logP %r/%r to %r/%r', ch, L, P, q.logL, q.logP)
        k = case['which'] % d
        with sut('setitem'):
            q[nm[k]] = 7.5
            q.values[(k + 1) % d] = -2.25
            q.logL = 3.0
            q.logP = 4.0
        check([bits(v) for v in p.values] == [bits(v) for v in vals] and bits(p.logL) == bits(L) and bits(p.logP) == bits(P),
              'changing the result of %s changed the original', ch)
    with sut('defaults'):
        z = LivePoint(list(nm))
    check(list(z.values) == [0.0] * d, 'default values are %s', list(z.values))
    check(z.logL == -math.inf and z.logP == -math.inf, 'default logL/logP are %r/%r', z.logL, z.logP)
    with sut('asnparray'):
        a = p.asnparray()
    check(a.dtype.names == tuple(nm) + ('logL', 'logPrior'), 'record array has columns %s', a.dtype.names)
    check(a.shape == (1,), 'record array has shape %s', a.shape)
    check(all(a.dtype[i] == np.dtype('f8') for i in range(d + 2)), 'record array has types %s', a.dtype)
    for n, v in list(zip(nm, vals)) + [('logL', L), ('logPrior', P)]:
        check(bits(float(a[n][0])) == bits(v), 'record array holds %s=%r, the point has %r', n, float(a[n][0]), v)
    with sut('asnparray'):
        a[nm[0]] = 1.5 if vals[0] != 1.5 else 2.5
    check(bits(p[nm[0]]) == bits(vals[0]), 'changing the record array changed the point')
    ctx.nontrivial(any(v != 0 for v in vals))
    ctx.label('dimension %d' % d)
    if any(not math.isfinite(v) for v in vals + [L, P]):
        ctx.label('non-finite')


num = st.one_of(st.integers(-9, 9).map(float), st.floats(-1e3, 1e3, allow_nan=False), st.floats(-1e100, 1e100, allow_nan=False),
                st.sampled_from([0.1, 1 / 3, 1e-60, 1e60, 1e-45, 16777217.0, 123456789.123456789]))
anyd = st.one_of(num, st.floats(allow_nan=False), st.sampled_from([math.inf, -math.inf, math.nan, 5e-324, -0.0, 1.7976931348623157e308]))
OPS = ['set', 'setL', 'setP', 'add', 'sub', 'mul', 'div', 'iadd', 'isub', 'imul', 'idiv', 'copy', 'copy', 'pickle', 'badname']
init = st.tuples(st.lists(num, min_size=1, max_size=5), num, num)
FACETS = [
    Facet('history', st.fixed_dictionaries(dict(
        names=names(1, 5), init=st.lists(init, min_size=2, max_size=3),
        ops=st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 11), st.integers(0, 11), num, st.sampled_from(['float', 'float', 'int', 'np'])), min_size=4, max_size=20))),
        run_history, 8000, 150000, shards=6,
        rule='histories of assignments, arithmetic, copies and pickles over a few points (possibly the same point twice), every point compared with plain lists after every step; non-trivial = something is changed after a copy exists'),
    Facet('transport', st.fixed_dictionaries(dict(names=names(1, 6), values=st.lists(anyd, min_size=1, max_size=6), L=anyd, P=anyd, which=st.integers(0, 5))),
          run_transport, 3000, 60000, shards=2,
          rule='one point through copy, deepcopy, pickle protocols 2-5, a multiprocessing pipe and asnparray, bit for bit; non-trivial = some component non-zero'),
]
