"""C07: samplers leave the likelihood-constrained prior invariant."""
import math
from array import array
from collections import deque

import numpy as np
from hypothesis import strategies as st
from scipy.stats import ks_2samp

from checks.c06 import mixes
from vf.engine import Facet, Inconclusive, check, sut
from vf.gen import seeds
from vf.samplers import Mod, OneManager, make_sampler, seed_all
from cpnest.parameter import LivePoint

PROPERTY = 'C07'
ASSUMPTIONS = ['the ensemble used for the jumps is an independent draw from the same distribution and stays fixed, so the kernel is exactly reversible',
               'chain length fixed at maxmcmc, so that stopping does not depend on acceptance (the sampler otherwise stops once a move was accepted)',
               'Hamiltonian updates are outside this property: their trajectory sampling is not exactly invariant']
ALPHA = 1e-10
STAGES = [(1000, 0.03), (4000, 5e-3), (20000, 0)]
INF = math.inf


def draw_exact(model, case, n, bound, rng):
    """n exact draws from the prior restricted to logL > bound, by rejection"""
    out = []
    d = case['dim']
    lo, w = np.array([b[0] for b in model.bounds]), np.array(model.w)
    mx = dict(flat=0.0, linear=math.log(1.2), gauss=0.0, exp=0.0, hole=0.0)[model.prior]
    tries = 0
    while len(out) < n:
        u = rng.random((4 * n + 100, d))
        a = np.log(rng.random(len(u)))
        for x, t in zip(lo + u * w, a):
            tries += 1
            p = LivePoint(model.names, d=array('d', x.tolist()))
            lp = model.log_prior(p)
            if t < lp - mx:
                l = model.llike(p)
                if l > bound:
                    p.logP, p.logL = lp, l
                    out.append(p)
                    if len(out) == n:
                        break
        if tries > 400 * n + 20000:
            raise Inconclusive('constrained region too small for rejection')
    return out


def summaries(model, pts):
    u = np.array([model.unit(p) for p in pts])
    c = np.array([(v - a) / w for v, (a, b), w in zip(model.centre, model.bounds, model.w)])
    out = {'coordinate %d' % i: u[:, i] for i in range(u.shape[1])}
    out['distance to the peak'] = np.abs(u - c).max(axis=1)
    out['prior density'] = np.array([p.logP for p in pts])
    out['likelihood'] = np.array([p.logL for p in pts])
    if u.shape[1] > 1:
        out['sum'] = u[:, 0] + u[:, 1]
        out['difference'] = u[:, 0] - u[:, 1]
    return out


def batch(model, case, n, bound, rng, salt):
    """(updated points, exact draws, mean acceptance) of one more independent batch"""
    kind = case['kind']
    start = draw_exact(model, case, n, bound, rng)
    ref = draw_exact(model, case, 2 * n, bound, rng)
    ensemble = draw_exact(model, case, case['poolsize'], bound, rng)
    man = OneManager()
    seed_all((case['rs'] + 7919 * salt) % 2**31)
    with sut('sampler'):
        s = make_sampler(kind, model, man, case['maxmcmc'], n, 1, case['mix'])
    if kind == 'sli':
        s.mu, s.max_steps_out, s.max_slices, s.tuning_steps = case.get('mu') or 1.0, s.maxmcmc, s.maxmcmc, 10 * n if case['tune'] else 0
    s.evolution_points = deque([p.copy() for p in start], maxlen=n)
    s.Nmcmc = s.maxmcmc
    with sut('set_ensemble'):
        s.proposal.set_ensemble(deque(ensemble))
    acc = 0.0
    for k in range(n):
        with sut('yield_sample'):
            next(s.yield_sample(bound))
        acc += s.sub_acceptance
    end = list(s.evolution_points)
    check(len(end) == n, 'the pool changed size')
    return end, ref, acc / n


def run(case, ctx):
    kind = case['kind']
    model = Mod(case)
    rng = np.random.default_rng(case['rs'])
    # the bound as a quantile of the prior's likelihoods
    bound = -INF
    if case['q'] > 0:
        ls = sorted(p.logL for p in draw_exact(model, case, 300, -INF, rng))
        bound = ls[int(case['q'] * 299)]
        if bound >= ls[-1]:
            raise Inconclusive('plateau at the bound')
    end, ref = [], []
    # a suspicious configuration is looked at again with more points before it is judged
    for stage, (n, suspicious) in enumerate(STAGES):
        e, r, acc = batch(model, case, n, bound, rng, stage)
        end += e
        ref += r
        a, b = summaries(model, end), summaries(model, ref)
        worst = 1.0
        for k in a:
            if np.all(np.isfinite(a[k])) and np.all(np.isfinite(b[k])):
                t = ks_2samp(a[k], b[k], method='asymp')
                check(t.pvalue > ALPHA, '%s: the distribution of the %s after %d updates of %d points differs from the constrained prior (KS distance %.3f, p=%.2g)', kind, k, case['maxmcmc'], len(end), t.statistic, t.pvalue)
                worst = min(worst, t.pvalue)
        if worst > suspicious:
            break
        ctx.label('looked at again with more points (stage %d)' % (stage + 1))
    ctx.nontrivial(acc > 0.05)
    ctx.label(kind, 'prior ' + model.prior, 'likelihood ' + model.like, 'dim %d' % case['dim'], 'default mixture' if case['mix'] is None else '+'.join(m[0] for m in case['mix']) if len(case['mix']) == 1 else 'generated mixture',
              'no bound' if bound == -INF else 'bound')


def singles(names):
    return st.one_of(st.sampled_from(names).map(lambda n: [[n, 1.0]]), mixes(names))


@st.composite
def cases(draw, kind):
    dim = draw(st.integers(1, 3))
    mix = draw(singles(['walk', 'stretch', 'de', 'eigen'] if kind == 'mhs' else ['sdiff', 'sgauss', 'scorr']))
    b = []
    for _ in range(dim):
        lo = draw(st.sampled_from([0.0, -1.0, -10.0, 5.0]))
        b.append([lo, lo + draw(st.sampled_from([1.0, 2.0, 20.0, 0.25]))])
    return dict(kind=kind, dim=dim, bounds=b, centre=draw(st.lists(st.floats(0.1, 0.9), min_size=dim, max_size=dim)),
                prior=draw(st.sampled_from(['flat', 'linear', 'gauss', 'exp'] + (['hole'] if kind == 'mhs' else []))),
                like=draw(st.sampled_from(['gauss', 'cone', 'ramp', 'ring', 'dead'])), sig=draw(st.sampled_from([0.3, 1.0])),
                q=draw(st.sampled_from([0.0, 0.3, 0.6, 0.9])), poolsize=draw(st.sampled_from([12, 30, 80])), maxmcmc=draw(st.sampled_from([6, 12, 25])),
                mix=mix, tune=draw(st.booleans()), rs=draw(seeds))


@st.composite
def one_length(draw):
    """directions of one length, near that of the slice or a small part of it: here the random placement of the interval matters"""
    c = draw(cases('sli'))
    w = draw(st.sampled_from([1.0, 2.0, 20.0, 0.25]))
    c.update(dim=1, mix=[['sgauss', 1.0]], bounds=[[c['bounds'][0][0], c['bounds'][0][0] + w]], centre=c['centre'][:1], tune=False,
             mu=w * draw(st.sampled_from([1.2, 0.8, 0.55, 0.4, 0.3, 0.15, 0.06])), q=draw(st.sampled_from([0.0, 0.0, 0.3])), maxmcmc=draw(st.sampled_from([3, 6, 12])))
    return c


RULE = '1000 chains (up to 25000 when suspicious) from exact draws of the constrained prior, two-sample KS of every coordinate, sums, distance, prior density and likelihood against exact draws; p < 1e-10 is a violation; non-trivial = mean acceptance above 5%'
FACETS = [Facet('metropolis', cases('mhs'), run, 160, 3200, shards=8, rule=RULE, shrink_s=45),
          Facet('slice', cases('sli'), run, 96, 2000, shards=8, rule=RULE, shrink_s=45),
          Facet('interval', one_length(), run, 64, 1600, shards=8, rule=RULE + '; one dimension, directions of one length', shrink_s=45)]
