"""C19: prior sampling returns nlive draws from the prior and no evidence."""
import math
import os
import shutil
import tempfile
from collections import Counter

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from checks.c12 import rows_of, same_rows
from checks.c22 import key, system_cases
from vf.engine import Facet, Inconclusive, check, sut
from vf.gen import seeds
from vf.samplers import Mod
from vf.sim import SimMod, simulate

PROPERTY = 'C19'
ASSUMPTIONS = ['for non-uniform priors the chains must be long enough to forget the uniform initial draws; a shift of 0.05 in the mean of a component (in units of probability) is tolerated there',
               'that the points do not depend on the likelihood is decided for Metropolis and slice samplers and deterministic schedules']
INF = math.inf


class Likes(SimMod):
    """the same support, other values"""

    def llike(self, p):
        L = super().llike(p)
        v = self.variant
        if not math.isfinite(L) or v == 0:
            return L
        return {1: -L, 2: 1e3 * L + 7.0, 3: 0.25, 4: math.sin(1e4 * L)}[v]


def run(case, d, variant, rs=None, name=''):
    where = os.path.join(d, 'v%d%s' % (variant, name))
    os.mkdir(where)
    c = dict(case) if rs is None else dict(case, rs=rs, seed=rs % 10**6, sched=dict(case['sched'], seed=rs))
    m = Likes(c)
    m.variant = variant
    with sut('run'):
        return simulate(c, where, model=m, prior_sampling=True)


def run_contract(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        sim, cp = run(case, d, case['variant'][0])
        model, ns, N = cp.user, cp.NS, case['nlive']
        chain = list(ns.nested_samples)
        check(len(chain) == N, '%d points returned, nlive is %d', len(chain), N)
        check(cp.nested_samples.shape[0] == N and len(cp.get_nested_samples(filename=None)) == N, '%d nested samples', len(cp.nested_samples))
        L = [p.logL for p in chain]
        check(all(a <= b for a, b in zip(L, L[1:])), 'the points are not ordered by log-likelihood')
        for p in chain:
            check(all(a < v < b for v, (a, b) in zip(p.values, model.bounds)), '%r is outside the bounds', p)
            check(math.isfinite(p.logP) and p.logP == Mod.log_prior(model, p) and p.logL == model.llike(p) and p.logL != -INF, 'point %r: the model gives %r, %r', p, model.llike(p), Mod.log_prior(model, p))
        check(ns.iteration == 0 and not ns.insertion_indices, '%d points were replaced', ns.iteration)
        check(not np.isfinite(ns.state.logZ), 'an evidence of %r is reported', ns.state.logZ)
        usable = Counter(key(p) for c in sim.channels for p in c.consumed if p.logL != -INF and p.logP != -INF)
        got = Counter(key(p) for p in chain)
        check(got == usable, 'points returned which no sampler drew: %s, points drawn which are not returned: %s', list(got - usable)[:2], list(usable - got)[:2])
        for p, q in zip(cp.pool, sim.procs[1:]):
            check(q.done and p.exitcode == 0, 'sampler %d ends with %r: %s', q.idx, p.exitcode, q.error)
        for c in sim.channels:
            check(c.other == [None], 'sampler %d was sent %r', c.k, c.other)
        check(cp.manager.logLmin.value == INF, 'the bound is %r at the end', cp.manager.logLmin.value)
        # prior samples
        pri = rows_of(np.asarray(cp.prior_samples))
        rows = [tuple(p.values) + (p.logL, p.logP) for p in chain]
        missing = Counter(rows) - Counter(pri)
        check(not missing, 'points missing from the prior samples: %s', list(missing)[:2])
        rest = list((Counter(pri) - Counter(rows)).elements())
        check(len(pri) == N + case['nthreads'] * case['maxmcmc'], '%d prior samples: %d points and %d draws of each of %d samplers expected', len(pri), N, case['maxmcmc'], case['nthreads'])
        own = [getattr(getattr(p._target, '__self__', None), 'prior_samples', None) for p in cp.pool]
        if all(o is not None for o in own):
            exp = Counter(r for o in own for r in rows_of(np.asarray(o)))
            check(Counter(rest) == exp, 'the prior draws exposed are not those of the samplers')
        # another likelihood with the same support
        if case['nham'] == 0:
            sim2, cp2 = run(case, d, case['variant'][1])
            a = sorted(tuple(p.values) for p in chain)
            b = sorted(tuple(p.values) for p in cp2.NS.nested_samples)
            check(a == b, 'other values of the likelihood give other points: %s and %s', [x for x in a if x not in b][:2], [x for x in b if x not in a][:2])
        ctx.label('%d samplers' % case['nthreads'], case['prior'], case['like'], 'Hamiltonian' if case['nham'] else 'variants %s' % sorted(case['variant']))
        if sum(c.requests for c in sim.channels) > N + case['nthreads']:
            ctx.label('unusable answers')
        ctx.nontrivial(N >= 4)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def contract_cases(draw):
    c = draw(system_cases(hmc=draw(st.integers(0, 3)) == 0))
    c['prior'] = draw(st.sampled_from(['flat', 'gauss', 'linear', 'exp', 'hole']))
    c['like'] = draw(st.sampled_from(['gauss', 'cone', 'dead', 'ring']))
    if c['nham']:
        c['prior'], c['like'] = draw(st.sampled_from(['flat', 'gauss'])), 'gauss'
    c['variant'] = draw(st.lists(st.integers(0, 4), min_size=2, max_size=2, unique=True))
    return c


# ---------------------------------------------------------------- distribution

def cdfs(model):
    """distribution of each component (unit interval) on a grid"""
    g = (np.arange(4000) + 0.5) / 4000
    mid = [0.5 * (a + b) for a, b in model.bounds]
    out = []
    for i, (a, b) in enumerate(model.bounds):
        w = np.empty(len(g))
        for k, x in enumerate(g):
            v = list(mid)
            # the prior factorises; the likelihood cut depends on the first component only
            if i:
                v[0] = model.bounds[0][0] + 0.1 * (model.bounds[0][1] - model.bounds[0][0])
            v[i] = a + x * (b - a)
            p = V(v)
            w[k] = math.exp(model.lprior(p)) * (model.llike(p) != -INF)
        c = np.concatenate([[0.0], np.cumsum(w)])
        out.append(c / c[-1])
    return out


class V:
    def __init__(self, values):
        self.values = values


def run_distribution(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        cs = None
        phis = (('mean', lambda u: u, 0.5), ('spread', lambda u: (2 * u - 1) ** 2, 1 / 3.), ('lower tail', lambda u: (u < 0.1) * 1.0, 0.1), ('upper tail', lambda u: (u > 0.9) * 1.0, 0.1))
        T = []
        todo, rs = case['R'], case['rs']
        allow = 0.0 if case['prior'] in ('flat', 'hole') and case['like'] != 'dead' else 0.05
        for stage in range(3):
            for _ in range(todo):
                rs += 1
                sim, cp = run(case, d, 0, rs=rs, name='-%d' % rs)
                if cs is None:
                    cs = cdfs(cp.user)
                    grid = np.linspace(0, 1, len(cs[0]))
                x = np.array([cp.user.unit(p) for p in cp.NS.nested_samples])
                u = np.stack([np.interp(x[:, i], grid, cs[i]) for i in range(case['dim'])], 1)
                T.append([[f(u[:, i]).mean() for _, f, _ in phis] for i in range(case['dim'])])
                shutil.rmtree(os.path.join(d, 'v0-%d' % rs))
            A = np.array(T)
            R = len(A)
            worst = (1.0, '')
            for i in range(case['dim']):
                for j, (name, _, mu) in enumerate(phis):
                    m, s = A[:, i, j].mean(), A[:, i, j].std(ddof=1) / math.sqrt(R)
                    dev = max(0.0, abs(m - mu) - allow)
                    p = 2 * stats.t.sf(dev / max(s, 1e-3), R - 1)
                    worst = min(worst, (p, 'the %s of component %d (as a probability) is %.4g, expected %.4g, standard error %.2g over %d runs' % (name, i, m, mu, s, R)))
            check(worst[0] > 1e-10, 'the points are not distributed as the prior: %s', worst[1])
            if worst[0] > 1e-4:
                break
            todo = 2 * len(T)
            ctx.label('escalated')
        ctx.label(case['prior'], case['like'], 'slice' if case['nsli'] else 'Metropolis')
        ctx.nontrivial()
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def distribution_cases(draw):
    n = draw(st.integers(1, 3))
    d = draw(st.integers(1, 2))
    return dict(dim=d, bounds=[[draw(st.sampled_from([0.0, -3.0])), 1.0] for _ in range(d)], centre=[0.5] * d, prior=draw(st.sampled_from(['flat', 'gauss', 'exp', 'flat', 'hole'])),
                like=draw(st.sampled_from(['gauss', 'cone', 'dead'])), sig=draw(st.sampled_from([0.1, 0.2])), nlive=draw(st.integers(20, 40)), poolsize=draw(st.integers(30, 50)), maxmcmc=draw(st.integers(40, 60)),
                nthreads=n, nham=0, nsli=draw(st.sampled_from([0, n])), verbose=0, seed=1, rs=draw(seeds) % 10**6, budget=10**6,
                sched=dict(seed=0, weights=[10.0] + [1.0] * n, quantum=20), R=24)


FACETS = [Facet('contract', contract_cases(), run_contract, 200, 8000, shards=8,
                rule='complete simulated runs in prior sampling mode, repeated with other values of the likelihood; non-trivial = at least four points'),
          Facet('distribution', distribution_cases(), run_distribution, 32, 800, shards=8, shrink=False,
                rule='24 simulated runs of a configuration (up to 216 if suspicious), t-tests of moments of the points; all cases count')]
