"""C09: posterior draws select rows of the input in proportion to their weights."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vf.engine import Facet, check, sut
from vf.gen import seeds
from cpnest import nest2pos

PROPERTY = 'C09'
PMIN = 1e-11


def table(n, run, rng, two_d=False):
    """n rows that identify themselves"""
    if two_d:
        d = rng.normal(size=(n, 3))
        d[:, 0] = run * 100000 + np.arange(n)
        return d
    d = np.zeros(n, dtype=[('id', 'f8'), ('x', 'f8'), ('logL', 'f8'), ('logPrior', 'f8')])
    d['id'] = run * 100000 + np.arange(n)
    for k in ('x', 'logL', 'logPrior'):
        d[k] = rng.normal(size=n)
    return d


def ids_of(rows, datas, two_d=False):
    """(run, index) of every returned row, which must be a whole row of the input."""
    out = []
    rows = np.asarray(rows)
    if len(rows) == 0:
        return out
    check(rows.dtype == datas[0].dtype, 'rows of type %s, input of type %s', rows.dtype, datas[0].dtype)
    check(rows.ndim == datas[0].ndim, 'result of shape %s for an input of shape %s', rows.shape, datas[0].shape)
    idc = rows[:, 0] if two_d else rows['id']
    for k, v in enumerate(idc):
        r, i = divmod(int(v), 100000)
        check(0 <= r < len(datas) and 0 <= i < len(datas[r]), 'returned row %s is not a row of the input', rows[k])
        check(rows[k].tobytes() == datas[r][i].tobytes(), 'returned row %s differs from the row of the input %s', rows[k], datas[r][i])
        out.append((r, i))
    return out


def binom(k, n, p, what):
    if p <= 0:
        check(k == 0, '%s: chosen %d times of %d, expected never', what, k, n)
    elif p >= 1:
        check(k == n, '%s: chosen %d times of %d, expected always', what, k, n)
    else:
        q = min(1.0, 2 * min(stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p)))
        check(q > PMIN, '%s: chosen %d times of %d, expected a fraction of %.5f (p=%.3g)', what, k, n, p, q)


def weights(case, n):
    r = np.random.RandomState(case['seed'] % 2**31)
    k = case['wkind']
    if k == 'uniform':
        w = np.zeros(n)
    elif k == 'random':
        w = np.log(r.uniform(size=n))
    elif k == 'rising':
        w = np.linspace(-6, 0, n)
    elif k == 'falling':
        w = np.linspace(0, -6, n)
    elif k == 'one':
        w = np.full(n, -math.inf)
        w[r.randint(n)] = 0.0
    else:
        w = r.normal(size=n) * 3
        w[r.uniform(size=n) < 0.3] = -math.inf
        w[-1] = 0.3
    return w - nest2pos.logaddexp.reduce(w) + case['norm']


def run_draw(case, ctx):
    n = case['n']
    rng = np.random.RandomState(case['seed'] % 2**31)
    two = case['two_d']
    data = table(n, 0, rng, two)
    w = weights(case, n)
    keep, wkeep = data.copy(), w.copy()
    p = np.exp(w - w.max())
    R = case['R']
    cnt = np.zeros(n, int)
    tot = np.zeros(R)
    np.random.seed(case['seed'] % 2**32)
    for r in range(R):
        with sut('draw_posterior'):
            out = nest2pos.draw_posterior(data, w)
        idx = [i for _, i in ids_of(out, [data], two)]
        check(len(set(idx)) == len(idx), 'a row is returned twice: %s', idx)
        check(idx == sorted(idx), 'rows are not in chain order: %s', idx)
        check(int(np.argmax(w)) in idx, 'the row of largest weight was not kept')
        cnt[idx] += 1
        tot[r] = len(idx)
    for i in range(n):
        binom(int(cnt[i]), R, float(p[i]), 'row %d of %d with relative weight %.4g' % (i, n, p[i]))
    var = float((p * (1 - p)).sum())
    if var > 1:
        check(0.5 < tot.var() / var < 2.0, 'rows are not drawn independently: the number kept varies by %.3g, expected %.3g', tot.var(), var)
    check(np.array_equal(wkeep, w) and keep.tobytes() == data.tobytes(), 'the input was changed')
    ctx.label('weights ' + case['wkind'], 'plain array' if two else 'records', 'normalised' if case['norm'] == 0 else 'not normalised')
    ctx.nontrivial(n >= 3 and case['wkind'] not in ('uniform', 'one'))


def run_drawN(case, ctx):
    n, N = case['n'], case['N']
    rng = np.random.RandomState(case['seed'] % 2**31)
    two = case['two_d']
    data = table(n, 0, rng, two)
    w = weights(case, n)
    keep, wkeep = data.copy(), w.copy()
    p = np.exp(w - nest2pos.logaddexp.reduce(w))
    np.random.seed(case['seed'] % 2**32)
    cnt = np.zeros(n, int)
    total = 0
    while total < 3000:
        with sut('draw_N_posterior'):
            out = nest2pos.draw_N_posterior(data, w, N)
        check(len(out) == N, '%d rows for a request of %d', len(out), N)
        if N == 0:
            break
        for _, i in ids_of(out, [data], two):
            cnt[i] += 1
        total += N
    if N:
        for i in range(n):
            binom(int(cnt[i]), total, float(p[i]), 'row %d of %d with weight %.4g' % (i, n, p[i]))
    check(np.array_equal(wkeep, w) and keep.tobytes() == data.tobytes(), 'the input was changed')
    ctx.label('weights ' + case['wkind'], 'nothing requested' if N == 0 else 'more than rows' if N > n else 'fewer than rows',
              'normalised' if case['norm'] == 0 else 'not normalised')
    ctx.nontrivial(n >= 3 and N > 1 and case['wkind'] not in ('uniform', 'one'))


def runs_of(case):
    rng = np.random.RandomState(case['seed'] % 2**31)
    datas, Nl = [], []
    for r, (N, extra, off, a) in enumerate(case['runs']):
        d = table(N + extra, r, rng)
        d['logL'] = off + np.cumsum(rng.exponential(a / (N + extra), size=N + extra))
        datas.append(d)
        Nl.append(N)
    return datas, Nl


def run_many(case, ctx):
    datas, Nl = runs_of(case)
    keep = [d.tobytes() for d in datas]
    ev, w = zip(*[nest2pos.compute_weights(d['logL'], N) for d, N in zip(datas, Nl)])
    ev = np.array(ev)
    f = np.exp(ev - ev.max()) / np.array([len(d) for d in datas])
    f /= f.max()
    R = case['R']
    cnt = [np.zeros(len(d), int) for d in datas]
    np.random.seed(case['seed'] % 2**32)
    for _ in range(R):
        with sut('draw_posterior_many'):
            out = nest2pos.draw_posterior_many(datas, Nl)
        got = ids_of(out, datas)
        check(len(set(got)) == len(got), 'a row is returned twice')
        check(got == sorted(got), 'rows are not in the order of the runs and chains')
        for r, i in got:
            cnt[r][i] += 1
    for r in range(len(datas)):
        p = np.exp(w[r] - w[r].max()) * f[r]
        for i in range(len(p)):
            binom(int(cnt[r][i]), R, float(p[i]), 'row %d of %d of run %d (relative weight %.4g, run kept at %.4g)' % (i, len(p), r, math.exp(w[r][i] - w[r].max()), f[r]))
        # all rows of the run together: far more powerful against a wrong share
        k, mean, var = int(cnt[r].sum()), float(R * p.sum()), float(R * (p * (1 - p)).sum())
        check(abs(k - mean) <= 7.5 * math.sqrt(var) + 10, 'run %d contributes %d rows in %d draws, expected %.1f', r, k, R, mean)
    check(keep == [d.tobytes() for d in datas], 'the input was changed')
    ctx.label('%d runs' % len(datas), 'equal lengths' if len({len(d) for d in datas}) == 1 else 'different lengths',
              'a run of no weight' if f.min() < 1e-4 else 'all runs matter')
    ctx.nontrivial(len(datas) > 1 and sorted(f)[-2] > 0.02)


def run_manyN(case, ctx):
    datas, Nl = runs_of(case)
    ev, w = zip(*[nest2pos.compute_weights(d['logL'], N) for d, N in zip(datas, Nl)])
    share = np.exp(np.array(ev) - nest2pos.logaddexp.reduce(ev))
    Np = case['Npost']
    np.random.seed(case['seed'] % 2**32)
    cnt = [np.zeros(len(d), int) for d in datas]
    reps = 8 if Np > 100 else 40
    tots = np.zeros(len(datas))
    for _ in range(reps):
        with sut('draw_N_posterior_many'):
            out = nest2pos.draw_N_posterior_many(datas, Nl, Np)
        got = ids_of(out, datas)
        for r in range(len(datas)):
            k = sum(1 for q, _ in got if q == r)
            x = Np * share[r]
            ok = {round(x), round(x + 1e-7 * (1 + x)), round(x - 1e-7 * (1 + x))}
            check(k in ok, 'run %d has a share of %.6g of the evidence and contributes %d rows of %d requested', r, share[r], k, Np)
        for r, i in got:
            cnt[r][i] += 1
            tots[r] += 1
    for r in range(len(datas)):
        p = np.exp(w[r] - nest2pos.logaddexp.reduce(w[r]))
        for i in range(len(p)):
            binom(int(cnt[r][i]), int(tots[r]), float(p[i]), 'row %d of %d of run %d with weight %.4g' % (i, len(p), r, p[i]))
    ns = [round(Np * s) for s in share]
    ctx.label('%d runs' % len(datas), 'a run rounds to zero' if 0 in ns else 'all contribute', 'different counts' if len(set(ns)) > 1 else 'equal counts')
    ctx.nontrivial(len(datas) > 1 and len([k for k in ns if k]) > 1)


wk = st.sampled_from(['uniform', 'random', 'rising', 'falling', 'one', 'sparse'])
norm = st.one_of(st.just(0.0), st.floats(-3, 3), st.floats(-700, 700), st.sampled_from([0.05, -0.05, -2000.0]))
runspec = st.tuples(st.integers(2, 12), st.integers(0, 25), st.one_of(st.just(0.0), st.floats(-2, 2), st.floats(-30, 30)), st.floats(0.5, 8))
runlist = st.lists(runspec, min_size=1, max_size=4)
FACETS = [
    Facet('draw', st.fixed_dictionaries(dict(n=st.integers(1, 30), wkind=wk, norm=norm, two_d=st.booleans(), R=st.sampled_from([150, 400]), seed=seeds)),
          run_draw, 600, 8000, shards=3, rule='weighted tables, 150-400 seeded draws each; non-trivial = at least three rows of different weights'),
    Facet('drawN', st.fixed_dictionaries(dict(n=st.integers(1, 30), N=st.one_of(st.integers(0, 40), st.integers(500, 1500)), wkind=wk, norm=norm, two_d=st.booleans(), seed=seeds)),
          run_drawN, 1000, 10000, shards=3, rule='weighted tables, at least 3000 rows drawn each; non-trivial = at least three rows of different weights, more than one requested'),
    Facet('many', st.fixed_dictionaries(dict(runs=runlist, R=st.just(200), seed=seeds)), run_many, 480, 6000, shards=4,
          rule='one to four runs of different lengths, live points and evidence, 200 draws; non-trivial = a second run is kept with probability above 0.02'),
    Facet('manyN', st.fixed_dictionaries(dict(runs=runlist, Npost=st.one_of(st.integers(0, 60), st.integers(200, 800)), seed=seeds)), run_manyN, 800, 8000, shards=2,
          rule='as many, with a number of samples requested; non-trivial = at least two runs contribute'),
]
