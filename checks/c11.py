"""C11: the default prior is exactly the open box; normalisation maps are inverse."""
import math
from array import array

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vf.engine import Facet, Inconclusive, check, sut
from vf.gen import parnames, seeds
from cpnest.model import Model
from cpnest.parameter import LivePoint

PROPERTY = 'C11'
EPS = 2.3e-16


def make(bounds, tup=False):
    class M(Model):
        def log_likelihood(self, p):
            return 0.0
    m = M()
    m.names = parnames(len(bounds))
    m.bounds = [tuple(b) if tup else list(b) for b in bounds]
    return m


def point(m, vals):
    return LivePoint(list(m.names), d=array('d', vals))


def place(b, how, u):
    lo, hi = b
    return {'lo': lo, 'hi': hi, 'lo+': math.nextafter(lo, math.inf), 'hi-': math.nextafter(hi, -math.inf),
            'lo-': math.nextafter(lo, -math.inf), 'hi+': math.nextafter(hi, math.inf), 'inf': math.inf, '-inf': -math.inf,
            'in': lo + (hi - lo) * u, 'below': lo - (hi - lo) * (u + 0.1), 'above': hi + (hi - lo) * (u + 0.1),
            'zero': 0.0}[how]


def run_bounds(case, ctx):
    bs = case['bounds']
    m = make(bs, case['tuple'])
    vals = [place(b, h, u) for b, (h, u) in zip(bs, case['where'])]
    p = point(m, vals)
    inside = all(b[0] < v < b[1] for b, v in zip(bs, vals))
    with sut('in_bounds/log_prior/potential'):
        ib, lp, V = m.in_bounds(p), m.log_prior(p), m.potential(p)
    check(bool(ib) == inside, 'in_bounds gave %r for %s in %s', ib, vals, bs)
    check(lp == (0.0 if inside else -math.inf), 'log_prior gave %r for %s in %s', lp, vals, bs)
    check(V == -lp, 'potential gave %r, log-prior is %r', V, lp)
    check(list(p.values) == vals, 'the point was changed')
    ctx.label('inside' if inside else 'outside', 'dimension %d' % len(bs))
    nin = sum(b[0] < v < b[1] for b, v in zip(bs, vals))
    ctx.label('exactly one component out' if nin == len(bs) - 1 else 'other')
    ctx.nontrivial(inside or nin >= 1 or len(bs) == 1)


def run_norm(case, ctx):
    bs = case['bounds']
    m = make(bs, case['tuple'])
    us = [case['u'][j % len(case['u'])] for j in range(len(bs))]
    arr = array('d', us) if case['arr'] else list(us)
    with sut('from_normalised'):
        p = m.from_normalised(arr)
    check(isinstance(p, LivePoint) and list(p.names) == m.names and len(p) == len(bs), 'from_normalised returned %r', p)
    for j, (b, u) in enumerate(zip(bs, us)):
        lo, hi = b
        sc = max(abs(lo), abs(hi), hi - lo)
        check(abs(p.values[j] - (lo + u * (hi - lo))) <= 4 * EPS * sc, 'component %d: %r maps to %r in [%r, %r]', j, u, p.values[j], lo, hi)
        if u == 0:
            check(p.values[j] == lo, 'component %d: 0 maps to %r, not to the lower limit %r', j, p.values[j], lo)
        if u == 1:
            check(abs(p.values[j] - hi) <= 2 * EPS * sc, 'component %d: 1 maps to %r, not to the upper limit %r', j, p.values[j], hi)
    with sut('to_normalised'):
        w = m.to_normalised(p)
    check(len(w) == len(bs), 'to_normalised returned %d components', len(w))
    for j, (b, u) in enumerate(zip(bs, us)):
        sc = max(abs(b[0]), abs(b[1]), b[1] - b[0]) / (b[1] - b[0])
        check(abs(w[j] - u) <= 8 * EPS * sc, 'component %d: %r came back as %r through the box [%r, %r]', j, u, w[j], b[0], b[1])
    ctx.nontrivial(len(set(us)) > 1 or len(us) == 1)


REGIONS = {
    'all': (lambda x: True, None),
    'half': (lambda x: x[0] < 0.5, 0.5),
    'corner': (lambda x: all(v > 0.4 for v in x), None),
    'band': (lambda x: 0.3 < x[-1] < 0.7, None),
}


def run_draw(case, ctx):
    """new_point: inside, finite prior, uniform on the allowed part of the box."""
    bs, reg = case['bounds'], REGIONS[case['region']][0]
    base = make(bs)
    unit = lambda p: [(v - b[0]) / (b[1] - b[0]) for v, b in zip(p.values, bs)]

    class M(type(base)):
        def log_prior(self, p):
            if not self.in_bounds(p):
                return -math.inf
            return 0.25 if reg(unit(p)) else -math.inf
    m = M()
    m.names, m.bounds = base.names, base.bounds
    use = m if case['region'] != 'all' else base
    np.random.seed(case['seed'] % 2**32)
    n = 600
    X = np.empty((n, len(bs)))
    with sut('new_point'):
        for i in range(n):
            p = use.new_point()
            check(isinstance(p, LivePoint) and list(p.names) == use.names, 'new_point returned %r', p)
            X[i] = unit(p)
            check(all(b[0] < v < b[1] for v, b in zip(p.values, bs)), 'drawn point %s is not inside %s', list(p.values), bs)
            check(use.log_prior(p) > -math.inf, 'drawn point %s has zero prior', list(p.values))
    lo, hi = np.zeros(len(bs)), np.ones(len(bs))
    if case['region'] == 'half':
        hi[0] = 0.5
    elif case['region'] == 'corner':
        lo[:] = 0.4
    elif case['region'] == 'band':
        lo[-1], hi[-1] = 0.3, 0.7
    for j in range(len(bs)):
        pv = stats.kstest((X[:, j] - lo[j]) / (hi[j] - lo[j]), 'uniform').pvalue
        check(pv > 1e-11, 'component %d of drawn points is not uniform on its allowed range (KS p=%.3g)', j, pv)
        for k in range(j):
            r = stats.pearsonr(X[:, j], X[:, k])
            check(abs(r.statistic) < 7.5 / math.sqrt(n), 'components %d and %d are correlated (r=%.3f)', j, k, r.statistic)
    ctx.nontrivial(True)
    ctx.label('region ' + case['region'], 'dimension %d' % len(bs))


def bound(lo, w):
    return [lo, lo + w]


bounds1 = st.builds(bound, st.one_of(st.floats(-100, 100, allow_nan=False), st.integers(-5, 5).map(float), st.floats(-1e6, 1e6, allow_nan=False)),
                    st.one_of(st.floats(0.01, 100), st.integers(1, 10).map(float), st.floats(1e-3, 1e7)))
boundss = lambda hi: st.lists(bounds1, min_size=1, max_size=hi)
HOW = st.sampled_from(['in'] * 8 + ['lo', 'hi', 'lo+', 'hi-', 'lo-', 'hi+', 'inf', '-inf', 'below', 'above', 'zero'])
unit = st.floats(0.001, 0.999)


@st.composite
def bcase(draw):
    bs = draw(boundss(5))
    where = [draw(st.tuples(HOW, unit)) for _ in bs]
    if draw(st.booleans()) and len(bs) > 1:       # only one component decides
        k = draw(st.integers(0, len(bs) - 1))
        where = [w if i == k else ('in', w[1]) for i, w in enumerate(where)]
    return dict(bounds=bs, where=where, tuple=draw(st.booleans()))


FACETS = [
    Facet('bounds', bcase(), run_bounds, 6000, 100000, shards=3,
          rule='random boxes with components inside, on, one ulp beside and outside each limit; non-trivial = inside, or at least one component inside'),
    Facet('normalise', st.fixed_dictionaries(dict(bounds=boundss(5), tuple=st.booleans(), arr=st.booleans(),
                                                  u=st.lists(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1)), min_size=1, max_size=5))),
          run_norm, 3000, 60000, shards=2, rule='random boxes and unit-cube points, both maps; non-trivial = components differ'),
    Facet('draw', st.fixed_dictionaries(dict(bounds=boundss(3), region=st.sampled_from(sorted(REGIONS)), seed=seeds)),
          run_draw, 240, 4000, shards=3, shrink_s=30, rule='600 draws per random box and prior region: inside, uniform (KS p>1e-11), uncorrelated; all non-trivial'),
]
