"""C06: every point a sampler returns is valid for the model and respects the bound."""
import math

from hypothesis import strategies as st

from vf.engine import Facet, Inconclusive, Violation, check, sut
from vf.gen import seeds
from vf.samplers import Budget, MaxBox, Mod, OneManager, make_sampler, same, seed_all

PROPERTY = 'C06'
ASSUMPTIONS = ['the shared maximum may rise at any moment (other samplers write it); no claim is made about two processes writing it at the same instant',
               'Hamiltonian samplers get continuous likelihoods, pools of at least 50 points and maxmcmc of at least 10']
INF = math.inf


def consistent(model, p, what):
    check(list(p.names) == model.names, '%s has parameters %r', what, p.names)
    inside = all(a < v < b for v, (a, b) in zip(p.values, model.bounds))
    check(inside, '%s lies outside the prior bounds: %r, bounds %r', what, list(p.values), model.bounds)
    check(p.logP == model.log_prior(p), '%s carries log-prior %r, the model gives %r', what, p.logP, model.log_prior(p))
    check(math.isfinite(p.logP), '%s has log-prior %r', what, p.logP)
    check(same(p.logL, model.llike(p)), '%s carries log-likelihood %r, the model gives %r', what, p.logL, model.llike(p))


def vals(p):
    return tuple(p.values)


def run(case, ctx):
    model = Mod(case)
    kind = case['kind']
    seed_all(case['rs'])
    man = OneManager()
    man.logLmax = MaxBox(-INF)
    outside = [0]
    bound, moved = None, 0

    def other_sampler(p):
        """another sampler reports a higher maximum while this one works"""
        outside[0] += 1
        if case['others'] and outside[0] % case['others'] == 0:
            man.logLmax._v = max(man.logLmax._v, -3.0) + 0.125
    model.hook = other_sampler
    try:
        with sut('%s sampler' % kind):
            s = make_sampler(kind, model, man, case['maxmcmc'], case['poolsize'], case['seed'], case['mix'])
        with sut('reset'):
            s.reset()
        check(len(s.evolution_points) == case['poolsize'], 'the pool has %d points after initialisation, poolsize is %d', len(s.evolution_points), case['poolsize'])
        pool = sorted(p.logL for p in s.evolution_points if not math.isnan(p.logL))
        for p in s.evolution_points:
            consistent(model, p, 'pool point after initialisation')
        bound = -INF
        unmoved = 0
        for op in case['ops']:
            if op == 'ensemble':
                with sut('set_ensemble'):
                    s.proposal.set_ensemble(s.evolution_points)
                continue
            if op == 'estimate':
                if len(s.samples):
                    with sut('estimate_nmcmc'):
                        s.estimate_nmcmc()
                continue
            what, q = op
            if what == 'raise' and pool:
                new = pool[min(len(pool) - 1, int(q * len(pool)))]
                if new > bound and new < INF:
                    bound = new
                continue
            if what == 'ask' and len(s.evolution_points):
                src = list(s.evolution_points)[int(q * (len(s.evolution_points) - 1))]
                s.evolution_points.append(src.copy())       # as a request does
            before = [(vals(p), p.logL) for p in s.evolution_points]
            n = len(s.evolution_points)
            lmax = man.logLmax.value
            calls = model.calls
            with sut('yield_sample'):
                steps, p = next(s.yield_sample(bound))
            used = model.calls - calls
            limit = case['maxmcmc'] + (1 if kind == 'sli' else 0)
            check(isinstance(steps, int) and steps >= 1, 'number of steps %r', steps)
            if kind != 'hmc':
                check(steps <= limit, '%d steps taken for one answer, maxmcmc is %d', steps, case['maxmcmc'])
            if kind == 'mhs':
                check(used <= limit, '%d likelihood evaluations for one answer, maxmcmc is %d', used, case['maxmcmc'])
            consistent(model, p, 'returned point (bound %r)' % bound)
            same_as = [l for v, l in before if v == vals(p)]
            if kind == 'sli' and not p.logL > bound:
                # slices start from a point of the pool above the bound when there is one
                check(not any(l > bound for v, l in before), 'the answer has log-likelihood %r, not above the bound %r, although the pool has points above it', p.logL, bound)
            if not p.logL > bound:
                check(bool(same_as), 'the returned point has log-likelihood %r, not above the bound %r, and is not a starting point', p.logL, bound)
                unmoved += 1
            if not same_as:
                moved += 1
                check(man.logLmax.value >= p.logL, 'the shared maximum is %r after accepting a point of log-likelihood %r', man.logLmax.value, p.logL)
            check(man.logLmax.value >= lmax, 'the shared maximum went from %r to %r', lmax, man.logLmax.value)
            check(len(s.evolution_points) == n, 'the pool went from %d to %d points', n, len(s.evolution_points))
            check(any(vals(x) == vals(p) and same(x.logL, p.logL) for x in s.evolution_points), 'the returned point is not in the pool')
            # every other point of the pool is one that was there
            known = set(v for v, _ in before) | {vals(p)}
            check(all(vals(x) in known for x in s.evolution_points), 'the pool has a point that was neither there nor returned')
            check(0 <= s.acceptance <= 1 and 0 <= s.sub_acceptance <= 1, 'acceptances %r, %r', s.acceptance, s.sub_acceptance)
        for x in list(s.samples)[-200:]:
            consistent(model, x, 'point of the chain')
        for x in s.evolution_points:
            consistent(model, x, 'pool point')
        ctx.nontrivial(moved >= 3 and bound > -INF)
        ctx.label(kind, 'likelihood ' + model.like, 'prior ' + model.prior, 'dim %d' % case['dim'])
        if unmoved:
            ctx.label(kind + ' unmoved answer')
        if moved:
            ctx.label(kind + ' moved answer')
    except Budget:
        if bound is None:
            raise Inconclusive('likelihood budget during initialisation')
        ctx.label('history cut short by the budget')
        ctx.nontrivial(moved >= 3 and bound > -INF)


@st.composite
def bounds(draw, dim, narrow=False):
    out = []
    for _ in range(dim):
        lo = draw(st.sampled_from([0.0, -1.0, -10.0, 5.0, -3.5, 100.0]))
        w = draw(st.sampled_from([1.0, 2.0, 3.0] if narrow else [1.0, 2.0, 20.0, 0.25, 7.5]))
        out.append([lo, lo + w])
    return out


def mixes(names):
    return st.one_of(st.none(), st.sampled_from(names).map(lambda n: [[n, 1.0]]),
                     st.lists(st.sampled_from(names), min_size=2, max_size=len(names), unique=True).flatmap(
                         lambda ns: st.tuples(*[st.sampled_from([1.0, 2.0, 5.0, 10.0]) for _ in ns]).map(lambda ws: [[n, w] for n, w in zip(ns, ws)])))


@st.composite
def cases(draw, kind):
    dim = draw(st.integers(1, 3))
    like = draw(st.sampled_from(['gauss', 'cone', 'ramp', 'ring'] if kind == 'hmc' else ['gauss', 'cone', 'ramp', 'ring', 'steps', 'dead', 'nan']))
    prior = draw(st.sampled_from(['flat', 'gauss', 'exp', 'linear'] if kind == 'hmc' else ['flat', 'flat', 'gauss', 'exp', 'linear', 'hole']))
    if kind == 'hmc':
        poolsize, maxmcmc, nops = draw(st.integers(50, 70)), draw(st.integers(10, 15)), 8
    else:
        poolsize, maxmcmc, nops = draw(st.integers(8, 24)), draw(st.one_of(st.integers(2, 30), st.integers(30, 60))), 25
    mix = None
    if kind == 'mhs':
        mix = draw(mixes(['walk', 'stretch', 'de', 'eigen']))
    if kind == 'sli':
        mix = draw(mixes(['sdiff', 'sgauss', 'scorr']))
    quantile = st.floats(0, 0.6 if kind == 'hmc' else 1)
    op = st.one_of(st.tuples(st.just('ask'), quantile), st.tuples(st.just('ask'), st.just(0.0)), st.tuples(st.just('free'), quantile),
                   st.tuples(st.just('raise'), quantile), st.tuples(st.just('raise'), quantile), st.sampled_from(['ensemble', 'estimate']))
    return dict(kind=kind, dim=dim, bounds=draw(bounds(dim, kind == 'hmc')), centre=draw(st.lists(st.floats(0.1, 0.9), min_size=dim, max_size=dim)), like=like, prior=prior,
                sig=draw(st.sampled_from([0.1, 0.3, 1.0, 0.03])), poolsize=poolsize, maxmcmc=maxmcmc, seed=draw(st.integers(0, 10**6)), rs=draw(seeds), mix=mix,
                others=draw(st.sampled_from([0, 3, 7])), budget=60000 if kind != 'hmc' else 40000,
                ops=draw(st.lists(op, min_size=6, max_size=nops)))


RULE = 'generated models, pools and histories of requests with a rising bound; non-trivial = at least three answers that moved under a finite bound'
FACETS = [Facet('metropolis', cases('mhs'), run, 3000, 60000, shards=4, rule=RULE),
          Facet('slice', cases('sli'), run, 1800, 36000, shards=4, rule=RULE),
          Facet('hamiltonian', cases('hmc'), run, 160, 3000, shards=8, rule=RULE)]
