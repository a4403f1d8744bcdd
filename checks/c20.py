"""C20: autocorrelation length and chain thinning are those of the data."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vf.engine import Facet, check, sut
from vf.gen import seeds
from cpnest import nest2pos

PROPERTY = 'C20'


def series(kind, n, seed, a):
    r = np.random.RandomState(seed % 2**31)
    if kind == 'white':
        x = r.normal(size=n)
    elif kind == 'ar':
        x = np.zeros(n)
        v = 0.0
        for i in range(n):
            v = a * v + r.normal()
            x[i] = v
    elif kind == 'ramp':
        x = np.arange(n) * 0.1
    elif kind == 'sine':
        x = np.sin(np.arange(n) * (0.05 + a))
    elif kind == 'steps':
        x = np.repeat(r.normal(size=n // 5 + 1), 5)[:n]
    elif kind == 'alternating':
        x = np.where(np.arange(n) % 2 == 0, 1.0, -1.0) + 1e-3 * r.normal(size=n)
    else:
        x = np.round(r.normal(size=n) * 2)
    return np.ascontiguousarray(x)


def direct_acf(x):
    """Definition: circular autocovariance over variance, O(n^2)."""
    n = len(x)
    xp = x - x.mean()
    v = float((xp * xp).mean())
    return np.array([float((xp * np.roll(xp, -k)).mean()) for k in range(n)]) / v


def acl_of(acf, tol):
    """One plus twice the leading values above the tolerance; (value, safe) where not safe = the cut is within rounding."""
    T, safe = 1.0, True
    for c in acf:
        if abs(c - tol) < 1e-7:
            safe = False
        if not c > tol:
            break
        T += 2 * c
    return T, safe


def run_acf(case, ctx):
    x = series(case['kind'], case['n'], case['seed'], case['a'])
    if x.std() < 1e-6:
        x[0] += 1.0
    x = x * case['scale'] + case['shift'] * case['scale']
    want = direct_acf(x)
    keep = x.copy()
    with sut('autocorrelation'):
        c = np.asarray(nest2pos.autocorrelation(x))
    rel = 1e-9 * (1 + abs(case['shift'])) ** 2 / max(1e-3, np.std(keep) / case['scale']) ** 2
    check(c.shape == x.shape, '%d lags for %d values', len(c), len(x))
    check(np.abs(c - want).max() <= rel, 'autocorrelation at lag %d is %r, the definition gives %r', int(np.argmax(np.abs(c - want))), c[np.argmax(np.abs(c - want))], want[np.argmax(np.abs(c - want))])
    check(abs(c[0] - 1) <= rel and np.abs(c).max() <= 1 + rel, 'autocorrelation %r at lag zero, largest %r', c[0], np.abs(c).max())
    check(np.abs(c[1:] - c[1:][::-1]).max() <= 2 * rel if len(c) > 1 else True, 'autocorrelation is not symmetric in the lag')
    check(np.array_equal(keep, x), 'the chain was changed')
    for tol in (None, case['tol']):
        T, safe = acl_of(want, 0.01 if tol is None else tol)
        with sut('acl'):
            got = float(nest2pos.acl(x) if tol is None else nest2pos.acl(x, tolerance=tol))
        if safe:
            check(abs(got - T) <= len(x) * 2 * rel + 1e-9, 'autocorrelation length %r (tolerance %r), the definition gives %r', got, tol, T)
    # shift and scale
    y = x * case['k'] + case['s2'] * case['scale'] * abs(case['k'])
    with sut('autocorrelation'):
        c2 = np.asarray(nest2pos.autocorrelation(y))
    rel2 = rel + 1e-9 * (1 + abs(case['shift']) + abs(case['s2'])) ** 2 / max(1e-3, np.std(keep) / case['scale']) ** 2
    check(np.abs(c - c2).max() <= rel2, 'autocorrelation changed by %r under rescaling by %r and shifting', np.abs(c - c2).max(), case['k'])
    ctx.label('kind ' + case['kind'], 'odd' if case['n'] % 2 else 'even', 'length %s' % ('>3' if T > 3.5 else '3'))
    ctx.nontrivial(case['n'] >= 8 and T > 3.2)


def build(case):
    n, names = case['n'], case['names']
    dt = [(k, 'f8') for k in names + ['logL', 'logPrior']]
    d = np.zeros(n, dtype=dt)
    for j, k in enumerate(names):
        d[k] = series(case['kinds'][j % len(case['kinds'])], n, case['seed'] + j, case['a'])
    r = np.random.RandomState((case['seed'] + 77) % 2**31)
    d['logL'] = r.normal(size=n) * case['amp']
    d['logPrior'] = r.normal(size=n) * case['amp'] * case['pamp']
    if case['amp'] == 0:
        d['logL'] = 3.25
        d['logPrior'] = -1.5
    d[names[0]] += 1e-9 * np.arange(n)      # rows are distinguishable
    return d


def step_of(d, names):
    Ts = []
    safe = True
    for k in names:
        x = np.ascontiguousarray(d[k])
        if np.var(x) < 1e-8:
            return None, False
        T, s = acl_of(direct_acf(x), 0.01)
        Ts.append(T)
        safe &= s
    T = max(Ts)
    if abs(T % 1 - 0.5) < 1e-5:
        safe = False
    return int(round(T)), safe


def run_resample(case, ctx):
    d = build(case)
    n = len(d)
    rows = {d[i].tobytes(): i for i in range(n)}
    check(len(rows) == n, 'harness: rows are not distinct')
    first = n // 2 - 1 if case['burnin'] else 0
    seg = d[max(first, 0):] if case['burnin'] else d
    step, safe = step_of(seg, case['names'])
    np.random.seed(case['seed'] % 2**32)
    work = d.copy()
    kw = dict(burnin=True) if case['burnin'] else {}
    with sut('resample_mcmc_chain'):
        out = nest2pos.resample_mcmc_chain(work, **kw)
    check(out.dtype == d.dtype and out.ndim == 1, 'result of type %s and shape %s', out.dtype, out.shape)
    idx = []
    for row in out:
        check(row.tobytes() in rows, 'returned row %s is not a row of the chain', row)
        idx.append(rows[row.tobytes()])
    check(len(set(idx)) == len(idx), 'a row is returned twice: %s', sorted(idx))
    check(len(idx) >= 1, 'no row returned')
    if case['burnin']:
        check(min(idx) >= n // 2 - 1, 'row %d of %d is returned although the first half was to be dropped', min(idx), n)
    if safe:
        lim = -(-len(seg) // step)
        check(len(idx) <= lim, '%d rows returned, at most one per %d of %d is %d', len(idx), step, len(seg), lim)
        off = {(i - max(first, 0)) % step for i in idx}
        if step > 1:
            check(len(off) == 1, 'returned rows %s are not spaced by multiples of the autocorrelation length %d', sorted(idx)[:10], step)
        if case['amp'] == 0:
            check(len(idx) == lim, '%d rows returned for a chain of constant posterior, all %d thinned rows are expected', len(idx), lim)
    ctx.label('burn-in' if case['burnin'] else 'whole chain', 'constant posterior' if case['amp'] == 0 else 'varying', 'step %s' % ('?' if not safe else '3' if step == 3 else '>3'))
    ctx.nontrivial(safe and len(seg) // step >= 3)


def run_accept(case, ctx):
    """The acceptance rule, over many shuffles: the expected number of rows kept and how often each is."""
    d = build(dict(case, kinds=['white']))
    n = len(d)
    step, safe = step_of(d, case['names'])
    if not safe:
        return
    thin = d[::step]
    lp = thin['logL'] + thin['logPrior']
    m = len(lp)
    if m < 2 or m > 400:
        return
    # after a uniform shuffle each ordered pair is adjacent with probability 1/m at a given place
    A = np.minimum(1.0, np.exp(np.minimum(0.0, lp[:, None] - lp[None, :])))      # A[i, j]: i after j is kept
    np.fill_diagonal(A, 0.0)
    keep = 1.0 / m + (m - 1) / m * A.sum(axis=1) / (m - 1)
    mean = keep.sum()
    R = case['R']
    np.random.seed(case['seed'] % 2**32)
    cnt = {}
    tot = np.zeros(R)
    for r in range(R):
        with sut('resample_mcmc_chain'):
            out = nest2pos.resample_mcmc_chain(d.copy())
        tot[r] = len(out)
        for row in out:
            b = row.tobytes()
            cnt[b] = cnt.get(b, 0) + 1
    sd = max(tot.std(), 0.05 * math.sqrt(m), 0.2)
    check(abs(tot.mean() - mean) <= 8 * sd / math.sqrt(R), '%.3f of %d thinned rows are kept on average, the acceptance rule gives %.3f', tot.mean(), m, mean)
    for i in range(m):
        k = cnt.pop(thin[i].tobytes(), 0)
        p = min(1.0, keep[i])
        q = 1.0 if p == 1 and k == R else min(1.0, 2 * min(stats.binom.cdf(k, R, p), stats.binom.sf(k - 1, R, p)))
        check(q > 1e-11, 'thinned row %d with log-posterior %.3f is kept %d times of %d, the rule gives %.4f', i, lp[i], k, R, p)
    check(not cnt, 'rows outside the thinned chain are returned')
    ctx.nontrivial(0.15 * m < mean < 0.95 * m)
    ctx.label('kept %d0%%' % int(10 * mean / m))


kind = st.sampled_from(['white', 'ar', 'ramp', 'sine', 'steps', 'alternating', 'round'])
nm = st.sampled_from([['x'], ['x', 'y'], ['a', 'b', 'c'], ['logmass', 'L'], ['P', 'logPx']])
FACETS = [
    Facet('acf', st.fixed_dictionaries(dict(kind=kind, n=st.one_of(st.integers(2, 30), st.integers(20, 300)), seed=seeds, a=st.floats(0, 0.98), scale=st.sampled_from([1.0, 1e-6, 1e6, 3.0]),
                                            shift=st.one_of(st.just(0.0), st.floats(-100, 100)), tol=st.floats(0.005, 0.9), k=st.sampled_from([2.0, -1.0, 0.5, -1e3, 7.3]), s2=st.floats(-50, 50))),
          run_acf, 1200, 20000, shards=3, rule='white, autoregressive, periodic, stepped series against the O(n^2) definition; non-trivial = at least 8 values and a length above 3.2'),
    Facet('resample', st.fixed_dictionaries(dict(n=st.one_of(st.integers(4, 40), st.integers(40, 400)), names=nm, kinds=st.lists(kind, min_size=1, max_size=3), seed=seeds, a=st.floats(0, 0.95),
                                                 amp=st.sampled_from([0.0, 0.3, 1.0, 10.0]), pamp=st.sampled_from([0.0, 1.0]), burnin=st.booleans())),
          run_resample, 1200, 20000, shards=3, rule='chains of one to three parameters; non-trivial = at least three thinned rows'),
    Facet('accept', st.fixed_dictionaries(dict(n=st.integers(9, 90), names=nm, seed=seeds, a=st.just(0.0), amp=st.sampled_from([0.3, 1.0, 3.0]), pamp=st.sampled_from([0.0, 1.0]), R=st.just(300))),
          run_accept, 120, 2000, shards=2, rule='300 resamplings of a chain, frequency of every row against the exact rule; non-trivial = between 15% and 95% kept'),
]
