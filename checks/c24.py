"""C24: the user's likelihood is asked only where the prior allows."""
import math
import os
import shutil
import tempfile

from hypothesis import strategies as st

from checks import c06
from checks.c22 import system_cases
from vf.engine import Facet, Inconclusive, Violation, check, sut
from vf.samplers import Budget, Mod, OneManager, make_sampler, seed_all
from vf.sim import SimMod, simulate

PROPERTY = 'C24'
ASSUMPTIONS = ['Hamiltonian samplers may evaluate exactly on a limit (their trajectories are reflected there), and where a prior with holes vanishes (their models here have none)']
INF = math.inf


def allowed(model, p, closed):
    """the point handed to the likelihood"""
    check(list(p.names) == model.names and len(p.values) == len(model.names), 'the likelihood is evaluated at a point with parameters %r', list(p.names))
    for v, (a, b), n in zip(p.values, model.bounds, model.names):
        check(a < v < b or closed and (v == a or v == b), 'the likelihood is evaluated at %s = %r, its limits are %r and %r', n, v, a, b)
    check(closed or model.lprior(p) > -INF, 'the likelihood is evaluated at %r, where the prior vanishes', list(p.values))


def run_sampler(case, ctx):
    model = Mod(case)
    kind = case['kind']
    seed_all(case['rs'])
    man = OneManager()
    seen = [0, 0]

    def look(p):
        # handed straight to the likelihood, so with nothing else known of it
        allowed(model, p, kind == 'hmc')
        seen[0] += 1
    model.hook = look
    out = [0]
    real = model.in_bounds

    def in_bounds(p):
        r = real(p)
        out[0] += not r
        return r
    model.in_bounds = in_bounds
    bound = -INF
    try:
        with sut('%s sampler' % kind):
            s = make_sampler(kind, model, man, case['maxmcmc'], case['poolsize'], case['seed'], case['mix'])
        with sut('reset'):
            s.reset()
        with sut('update_time_step'):       # a sampler that has accepted nearly every jump for long takes large steps
            for _ in range(case.get('tuned', 0)):
                for p in s.proposal.proposals:
                    p.update_time_step(1.0)
        pool = sorted(p.logL for p in s.evolution_points if not math.isnan(p.logL))
        for op in case['ops']:
            if op == 'ensemble':
                with sut('set_ensemble'):
                    s.proposal.set_ensemble(s.evolution_points)
                continue
            if op == 'estimate':
                continue
            what, q = op
            if what == 'raise' and pool:
                new = pool[min(len(pool) - 1, int(q * len(pool)))]
                bound = new if bound < new < INF else bound
                continue
            with sut('yield_sample'):
                next(s.yield_sample(bound))
        cut = False
    except Budget:
        cut = True
    ctx.label(kind, 'prior ' + model.prior, 'dim %d' % case['dim'], 'proposals out of bounds' if out[0] else 'no proposal out of bounds')
    if cut:
        ctx.label('cut short by the budget')
    ctx.nontrivial(seen[0] > 20 and (out[0] > 0 or kind == 'hmc'))


class Watched(SimMod):
    closed = False

    def llike(self, p):
        allowed(self, p, self.closed)
        return super().llike(p)


def run_system(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        model = Watched(case)
        model.closed = bool(case['nham'])
        sim, cp = simulate(case, d, model=model)
        ctx.label('%d samplers' % case['nthreads'], 'prior ' + model.prior)
        ctx.nontrivial(cp.NS.iteration > 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


RULE = 'generated models, pools and histories of updates; non-trivial = more than 20 evaluations and at least one proposal out of bounds (Hamiltonian: more than 20 evaluations)'
FACETS = [Facet('metropolis', c06.cases('mhs'), run_sampler, 1500, 30000, shards=4, rule=RULE),
          Facet('slice', c06.cases('sli'), run_sampler, 900, 20000, shards=4, rule=RULE),
          Facet('hamiltonian', st.tuples(c06.cases('hmc'), st.sampled_from([0, 4000, 9000, 12000])).map(lambda t: dict(t[0], tuned=t[1], budget=12000)), run_sampler, 120, 2000, shards=8, rule=RULE),
          Facet('system', system_cases(), run_system, 40, 1000, shards=8, rule='a complete run of CPNest with simulated processes, every evaluation examined; non-trivial = points were replaced')]
