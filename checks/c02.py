"""C02: the evidence accumulator is the quadrature of the recorded likelihood curve."""
import math
import pickle

import numpy as np
from hypothesis import strategies as st

from vf.engine import Facet, check, sut
from cpnest.NestedSampling import _NSintegralState
from cpnest.nest2pos import log_integrate_log_trap, logsubexp

PROPERTY = 'C02'
ASSUMPTIONS = ['the information is exact, or exact but for the volume term of the first point of non-zero likelihood (p1*log dX1), which the accumulator leaves out']
EPS = 2.3e-16
INF = math.inf


def lse(xs):
    xs = [x for x in xs if x > -INF]
    if not xs:
        return -INF
    m = max(xs)
    return m + math.log(math.fsum(math.exp(x - m) for x in xs))


def log1mexp(r):
    """log(1-exp(-r)), r>0"""
    return math.log(-math.expm1(-r))


class Ref:
    def __init__(self):
        self.rs, self.L = [], []

    def add(self, l, r):
        self.L.append(l)
        self.rs.append(r)

    def curve(self):
        V = [0.0]
        for k in range(len(self.rs)):
            V.append(-math.fsum(self.rs[:k + 1]))
        return V

    def terms(self, V):
        return [V[k] + log1mexp(self.rs[k]) + self.L[k] for k in range(len(self.L))]


def close(a, b, tol):
    if a == b:
        return True
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol


def feed(case, shift=0.0):
    s = _NSintegralState(case['nlive'])
    ref = Ref()
    for k, (l, nl, nr) in enumerate(case['steps']):
        kw = {}
        if nl is not None:
            kw['nlive'] = nl
        if nr != 1:
            kw['nreplace'] = nr
        if case['np']:
            l = np.float64(l)
        with sut('increment'):
            s.increment(l + shift, **kw)
        if k == case['pickle_at']:
            with sut('pickling the state'):
                s = pickle.loads(pickle.dumps(s))
        ref.add(float(l) + shift, nr / (nl or case['nlive']))
        yield s, ref


def info_ref(terms, L, logZ):
    p = [math.exp(t - logZ) for t in terms]
    base = math.fsum(pi * l for pi, l in zip(p, L) if pi > 0) - logZ
    first = next(i for i, t in enumerate(terms) if t > -INF)
    return base, base + p[first] * (terms[first] - L[first])


def run_state(case, ctx):
    n = len(case['steps'])
    scale = 1 + max([abs(l) for l, _, _ in case['steps'] if math.isfinite(l)] or [0.0])
    tol = 40 * (n + 1) * EPS * scale + 1e-11
    itol = 40 * tol + 8 * (n + 1) * EPS * scale ** 2
    for s, ref in feed(case):
        k = len(ref.L)
        V = ref.curve()
        check(len(s.log_vols) == k + 1 and len(s.logLs) == k + 1, 'after %d steps the curve has %d volumes and %d likelihoods', k, len(s.log_vols), len(s.logLs))
        check(s.log_vols[0] == 0.0 and s.logLs[0] == -INF, 'the curve does not start at the whole prior: %r, %r', s.log_vols[0], s.logLs[0])
        check(float(s.logLs[k]) == ref.L[-1], 'recorded log-likelihood %r, given %r', s.logLs[k], ref.L[-1])
        check(close(float(s.log_vols[k]), V[k], 1e-12 * (1 + abs(V[k]))), 'after %d steps the log-volume is %r, expected %r', k, s.log_vols[k], V[k])
        t = ref.terms(V)
        z = lse(t)
        check(close(float(s.logZ), z, tol), 'after %d steps logZ=%r, quadrature gives %r', k, s.logZ, z)
        if z > -INF and sum(x > -INF for x in t) >= 2:
            a, b = info_ref(t, ref.L, z)
            check(close(float(s.info), a, itol) or close(float(s.info), b, itol),
                  'after %d steps the information is %r, quadrature gives %r (or %r without the first volume)', k, s.info, a, b)
    check(s.iteration == n, 'iteration is %r after %d steps', s.iteration, n)
    # refined evidence
    Ls = [-INF] + ref.L
    dX = [V[k] + log1mexp(ref.rs[k]) for k in range(n)]
    trap = lse([lse([Ls[k], Ls[k + 1]]) - math.log(2) + dX[k] for k in range(n)])
    left = lse([Ls[k] + dX[k] for k in range(n)])
    ttol = tol + 20 * EPS * (1 + abs(V[-1])) / min(ref.rs)
    with sut('finalise'):
        out = s.finalise()
    check(out == s.logZ or (math.isnan(out) and math.isnan(s.logZ)), 'finalise returned %r but stores %r', out, s.logZ)
    check(close(float(s.logZ), trap, ttol), 'refined logZ=%r, trapezoid gives %r', s.logZ, trap)
    if trap > -INF:
        check(left - ttol <= s.logZ <= z + ttol, 'refined logZ=%r is not between the rectangle sums %r and %r', s.logZ, left, z)
    check(s.iteration == n and len(s.logLs) == n + 1 and len(s.log_vols) == n + 1, 'finalise changed the curve')
    with sut('log_integrate_log_trap'):
        again = log_integrate_log_trap(np.array(Ls), np.array(V))
    check(close(float(again), trap, ttol), 'log_integrate_log_trap gave %r, expected %r', again, trap)
    # a constant added to every log-likelihood
    c = case['shift']
    stol = tol + ttol + 40 * (n + 1) * EPS * (scale + abs(c))
    sitol = itol + 40 * stol + 8 * (n + 1) * EPS * (scale + abs(c)) ** 2
    for s2, _ in feed(case, c):
        pass
    if z > -INF:
        s1 = None
        for s1, _ in feed(case):
            pass
        check(close(float(s2.logZ), float(s1.logZ) + c, stol), 'adding %r moved logZ from %r to %r', c, s1.logZ, s2.logZ)
        check(close(float(s2.info), float(s1.info), sitol), 'adding %r moved the information from %r to %r', c, s1.info, s2.info)
        check([float(v) for v in s1.log_vols] == [float(v) for v in s2.log_vols], 'adding %r moved the volumes', c)
        with sut('finalise'):
            s2.finalise()
        check(close(float(s2.logZ), trap + c, stol), 'adding %r moved the refined logZ from %r to %r', c, trap, s2.logZ)
    fin = [l for l in ref.L if l > -INF]
    ctx.nontrivial(len(set(fin)) >= 3)
    ctx.label('starts at -inf' if ref.L[0] == -INF else 'finite', 'several replaced' if any(x[2] > 1 for x in case['steps']) else 'one replaced',
              'decreasing live counts' if any(x[1] for x in case['steps']) else 'fixed live count', 'ties' if len(set(fin)) < len(fin) else 'strict',
              'magnitude 1e%d' % int(math.log10(scale)), 'steps %d0s' % (n // 10))


def run_logsub(case, ctx):
    x, d = case['x'], case['d']
    with sut('logsubexp'):
        a = logsubexp(x, x - d)
        v = logsubexp(np.array([x, x]), np.array([x - d, x - 2 * d]))
    dd = x - (x - d)
    if dd > 0:
        want = x + log1mexp(dd)
        t = 1e-12 + 8 * EPS * abs(x) + 4 * EPS / min(dd, 1)
        check(close(float(a), want, t), 'logsubexp(%r, %r)=%r, expected %r', x, x - d, a, want)
        check(float(v[0]) == float(a) or close(float(v[0]), want, t), 'array form differs: %r', v)
    else:
        check(a == -INF, 'logsubexp(%r, %r)=%r, expected -inf', x, x - d, a)
    ctx.nontrivial(dd > 0)


@st.composite
def steps(draw):
    kind = draw(st.sampled_from(['smooth', 'random', 'ties', 'huge']))
    n = draw(st.integers(1, 60))
    nlive = draw(st.one_of(st.integers(1, 12), st.integers(10, 2000)))
    hi = {'smooth': 0.5, 'random': 20, 'ties': 3, 'huge': 1e4}[kind]
    l = draw(st.one_of(st.floats(-60, 60), st.floats(-1e4, 1e4), st.floats(-1e6, 1e6)))
    out = []
    ninf = draw(st.sampled_from([0, 0, 0, 1, 2, 5]))
    mode = draw(st.sampled_from(['plain', 'replace', 'mixed', 'final']))
    R = draw(st.integers(1, max(1, min(nlive, 8))))
    for k in range(n):
        if k < ninf:
            v = -INF
        else:
            v = l
            l = l + draw(st.one_of(st.just(0.0) if kind == 'ties' else st.floats(0, hi), st.floats(0, hi)))
        nl, nr = None, 1
        if mode == 'replace':
            nr = R
        elif mode == 'mixed':
            nl = draw(st.one_of(st.none(), st.integers(1, nlive)))
            nr = draw(st.integers(1, min(nl or nlive, 5)))
        elif mode == 'final' and n - k <= nlive:
            nl = n - k
        out.append((v, nl, nr))
    return dict(nlive=nlive, steps=out, np=draw(st.booleans()), pickle_at=draw(st.one_of(st.just(-1), st.integers(0, n - 1))),
                shift=draw(st.one_of(st.floats(-1e5, 1e5), st.sampled_from([1.0, -1000.0, 1e5, 1e6]), st.floats(-100, 100))))


FACETS = [
    Facet('state', steps(), run_state, 3000, 60000, shards=7,
          rule='random non-decreasing sequences (smooth, tied, huge, starting at -inf) with random live counts and replacements, checked after every step; non-trivial = at least 3 distinct finite log-likelihoods'),
    Facet('logsubexp', st.fixed_dictionaries(dict(x=st.floats(-1e3, 1e3), d=st.one_of(st.floats(1e-6, 50), st.floats(1e-6, 1e-2), st.floats(50, 1e4)))),
          run_logsub, 3000, 30000, rule='random pairs; non-trivial = distinct arguments'),
]
