"""C08: posterior weights computed from a chain are L dX / Z."""
import math

import numpy as np
from hypothesis import strategies as st

from vf.engine import Facet, check, sut
from cpnest.NestedSampling import _NSintegralState
from cpnest.nest2pos import compute_weights

PROPERTY = 'C08'
ASSUMPTIONS = ['at least two live points; volumes of the final N points are checked up to corrections of relative size 4/N (the code assigns them shares differing by 1/N)']
EPS = 2.3e-16


def lse(x):
    x = np.asarray(x, float)
    m = x.max()
    return m if m == -math.inf else m + math.log(math.fsum(np.exp(x - m)))


def chain(case):
    """non-decreasing log-likelihoods from the case"""
    n = case['N'] + case['extra']
    k = np.arange(n)
    if case['shape'] == 'gauss':
        L = -case['a'] * np.exp(-2.0 * k / (case['N'] * case['b']))
    elif case['shape'] == 'linear':
        L = case['a'] * k / n
    elif case['shape'] == 'random':
        L = np.cumsum(np.random.RandomState(case['seed']).exponential(case['a'] / n, size=n))
    elif case['shape'] == 'jumps':
        r = np.random.RandomState(case['seed'])
        L = np.cumsum(r.exponential(1.0, size=n) * (r.uniform(size=n) < 0.2) * case['a'])
    else:
        L = np.floor(case['a'] * k / n)
    L = L + case['offset']
    for i in range(min(case['ninf'], n - 1)):
        L[i] = -math.inf
    return np.ascontiguousarray(L)


def call(L, N):
    keep = L.copy()
    with sut('compute_weights'):
        ev, w = compute_weights(L, N)
    check(np.array_equal(keep, L), 'compute_weights changed its input')
    w = np.asarray(w)
    check(w.shape == L.shape, 'weights of shape %s for %d samples', w.shape, len(L))
    check(np.isfinite(ev), 'log-evidence %r', ev)
    check(not np.any(np.isnan(w)), 'nan among the weights')
    return float(ev), w


def run(case, ctx):
    N = case['N']
    L = chain(case)
    n = len(L)
    m = n - N
    fin = L > -math.inf
    scale = 1 + np.abs(L[fin]).max()
    tol = 60 * EPS * scale + 1e-9
    ev, w = call(L, N)
    check(np.all(w[~fin] == -math.inf), 'a sample of zero likelihood has weight %s', w[~fin])
    v = w[fin] - L[fin] + ev          # log-volume assigned to each sample
    # depends on the position in the chain only
    ev0, w0 = call(np.zeros(n), N)
    v0 = w0 + ev0
    check(np.abs(v - v0[fin]).max() <= tol, 'the volume of sample %d depends on the likelihoods: %r for these, %r for constant ones',
          int(np.argmax(np.abs(v - v0[fin]))), v[np.argmax(np.abs(v - v0[fin]))], v0[fin][np.argmax(np.abs(v - v0[fin]))])
    # discarded points
    if m >= 2:
        d = np.diff(v0[:m])
        check(np.abs(d - math.log1p(-1.0 / N)).max() <= 0.8 / N ** 2 + 1e-9, 'volumes of discarded samples shrink by %r, expected log(1-1/%d)=%r',
              d[np.argmax(np.abs(d - math.log1p(-1.0 / N)))], N, math.log1p(-1.0 / N))
    if m >= 1:
        check(abs(v0[0] + math.log(N)) <= 3.0 / N + 1e-9, 'the first sample has log-volume %r, expected about %r', v0[0], -math.log(N))
    # the final N points share what is left
    logXm = m * math.log1p(-1.0 / N)
    slack = 4.0 / N + m / N ** 2 + 1e-9
    tail = v0[m:]
    check(np.abs(tail - (logXm - math.log(N))).max() <= slack, 'the volumes of the final %d samples are not equal shares of the remaining volume: %s, expected %r', N, tail[:4], logXm - math.log(N))
    check(abs(lse(v0)) <= slack, 'the volumes sum to exp(%r), expected 1', lse(v0))
    # the evidence is the normalisation
    prev = np.concatenate(([-math.inf], L[:-1]))
    core = lse(np.logaddexp(prev, L) - math.log(2) + v0)
    right = lse(L + v0)
    hi = max(right, np.logaddexp(core, L[-1] + logXm - math.log(N) + slack)) + tol
    check(core - tol <= ev <= hi, 'log-evidence %r is not between the trapezoidal sum %r and %r', ev, core, hi)
    s = lse(w)
    lo_s, hi_s = right - hi - tol, right - core + tol
    check(lo_s <= s <= hi_s, 'the weights sum to exp(%r)', s)
    # a constant added to the log-likelihoods
    c = case['shift']
    ev2, w2 = call(L + c, N)
    stol = tol + 60 * EPS * (scale + abs(c))
    check(abs(ev2 - ev - c) <= stol, 'adding %r moved the log-evidence from %r to %r', c, ev, ev2)
    check(np.abs(w2[fin] - w[fin]).max() <= stol, 'adding %r moved the weights', c)
    # the integrator of the sampler, on smooth chains
    step = np.diff(L[fin]).max() if fin.sum() > 1 else 0.0
    if N >= 10:
        st_ = _NSintegralState(N)
        for x in L[:m]:
            st_.increment(x)
        for i, x in enumerate(L[m:]):
            st_.increment(x, nlive=N - i)
        own = float(st_.finalise())
        b = m / N ** 2 + 8.0 / N + step + stol
        check(abs(own - ev) <= b, 'log-evidence %r, the sampler computes %r from the same chain (allowed difference %.3g)', ev, own, b)
        ctx.label('compared with the sampler')
        if step < 0.2:
            ctx.label('smooth, compared with the sampler')
    ctx.nontrivial(N >= 10 and m >= 1 and len(set(L[fin])) > 2)
    ctx.label('shape ' + case['shape'], 'only live points' if m == 0 else 'chain', 'N<10' if N < 10 else 'N>=10', 'starts at -inf' if case['ninf'] else 'finite')


def run_equal(case, ctx):
    """Exact algebra for a constant likelihood: evidence = L up to the volume left out; weights = volumes."""
    N, n = case['N'], case['N'] + case['extra']
    ev, w = call(np.full(n, case['offset']), N)
    check(abs(ev - case['offset']) <= 6.0 / N + 1e-9 + 60 * EPS * abs(case['offset']), 'constant likelihood exp(%r) has log-evidence %r', case['offset'], ev)
    ctx.nontrivial(case['extra'] > 0)


base = dict(N=st.one_of(st.integers(2, 12), st.integers(10, 120), st.integers(100, 400)), extra=st.one_of(st.integers(0, 3), st.integers(0, 300), st.integers(200, 3000)),
            shape=st.sampled_from(['gauss', 'linear', 'random', 'jumps', 'steps']), a=st.one_of(st.floats(0.1, 50), st.floats(10, 1e5)), b=st.floats(0.5, 10),
            offset=st.one_of(st.just(0.0), st.floats(-1e3, 1e3), st.floats(-1e6, 1e6)), ninf=st.sampled_from([0, 0, 0, 1, 7]),
            seed=st.integers(0, 10**6), shift=st.one_of(st.floats(-1e6, 1e6), st.sampled_from([1.0, -1e3, 1e5])))
FACETS = [
    Facet('weights', st.fixed_dictionaries(base), run, 2400, 40000, shards=7,
          rule='sorted chains of several shapes with 0 to 3000 discarded samples; non-trivial = N >= 10, at least one discarded sample and three distinct likelihoods'),
    Facet('constant', st.fixed_dictionaries({k: base[k] for k in ('N', 'extra', 'offset')}), run_equal, 400, 4000, rule='constant likelihood; non-trivial = at least one discarded sample'),
]
