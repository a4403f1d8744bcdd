"""C15: every valid configuration runs to completion and cleans up its processes."""
import math
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.c12 import NAMES
from checks.c13 import KINDS
from vf.engine import Facet, Inconclusive, check, sut
from vf.gen import seeds
from vf.real import RealMod, execute
from vf.sim import SimMod, simulate

PROPERTY = 'C15'
ASSUMPTIONS = ['pools of at least 20 points, at least 8 live points, fewer samplers than live points, chains of at least 5 steps; for Hamiltonian samplers pools of at least 50 points, at least 40 live points, chains of at least 10 steps and a continuous likelihood',
               'a Hamiltonian run that needs very many tries to cross the bound is set aside by an evaluation budget']
MH, HM, SL = KINDS['mhs'], KINDS['hmc'], KINDS['sli']


class Used:
    """custom proposals note who uses them"""
    log = []


def custom(base, name):
    def init(self, *a, **k):
        base.__init__(self, *a, **k)
        Used.log.append((name, id(self), 'made'))
    methods = dict(__init__=init)
    for m in ('get_sample', 'get_direction'):
        if hasattr(base, m):
            def call(self, *a, _m=getattr(base, m), **k):
                Used.log.append((name, id(self), 'used'))
                return _m(self, *a, **k)
            methods[m] = call
    c = type('Custom' + base.__name__, (base,), methods)
    c.__module__, c.__qualname__ = __name__, c.__name__        # checkpoints pickle proposals by reference to their class
    globals()[c.__name__] = c
    return c


def proposals_for(how):
    from cpnest import proposal as P
    if how == 'default':
        return None, (P.DefaultProposalCycle, P.HamiltonianProposalCycle, P.EnsembleSliceProposalCycle)
    if how == 'walk':
        cl = (custom(P.EnsembleWalk, 'mhs'), custom(P.HamiltonianProposalCycle, 'hmc'), custom(P.EnsembleSliceDifferential, 'sli'))
    else:
        cl = (custom(P.DefaultProposalCycle, 'mhs'), custom(P.HamiltonianProposalCycle, 'hmc'), custom(P.EnsembleSliceProposalCycle, 'sli'))
    return (list(cl) if how in ('list', 'walk') else dict(mhs=cl[0], hmc=cl[1], sli=cl[2])), cl


def threads(case):
    return case['nthreads'] if case['nthreads'] is not None else os.cpu_count()


def run_sim(case, ctx):
    import cpnest.cpnest as C
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    real_plot = C.CPNest.plot
    plots = []
    C.CPNest.plot = lambda self, *a, **k: plots.append(1)
    del Used.log[:]
    try:
        model = SimMod(case)
        model.names = list(case['names'])
        arg, classes = proposals_for(case['proposals'])
        kw = dict(proposals=arg, prior_sampling=case['prior_sampling'])
        if case['interval'] is not None:
            kw['periodic_checkpoint_interval'] = case['interval']
        if case['deprecated']:
            kw['n_periodic_checkpoint'] = 100
        with sut('CPNest'):
            sim, cp = simulate(case, d, model=model, **kw)
        n = threads(case)
        nmh = n - case['nham'] - case['nsli']
        check(len(sim.procs) == n + 1 and len(cp.pool) == n, '%d samplers started, %d requested', len(sim.procs) - 1, n)
        samplers = [getattr(p._target, '__self__', None) for p in cp.pool]
        if all(s is not None for s in samplers):
            kinds = [type(s).__name__ for s in samplers]
            want = dict(zip((MH, HM, SL), (nmh, case['nham'], case['nsli'])))
            check(all(kinds.count(k) == v for k, v in want.items()), 'samplers %s, requested %s', kinds, want)
            for s in samplers:
                cl = classes[(MH, HM, SL).index(type(s).__name__)]
                check(type(s.proposal) is cl, 'a %s has the proposal %s, %s was requested', type(s).__name__, type(s.proposal).__name__, cl.__name__)
            check(len({s.seed for s in samplers}) == n and all(s.seed is not None for s in samplers), 'the samplers have seeds %s', [s.seed for s in samplers])
            check(len({id(s.proposal) for s in samplers}) == n, 'samplers share a proposal')
            check(len({s.resume_file for s in samplers}) == n, 'samplers share a resume file')
        if case['proposals'] != 'default':
            used = {(k, i) for k, i, what in Used.log if what == 'used'}
            for k, m in (('mhs', nmh), ('hmc', case['nham']), ('sli', case['nsli'])):
                check(len([1 for kk, _ in used if kk == k]) == m, '%d custom %s proposals are used by %d samplers', len([1 for kk, _ in used if kk == k]), k, m)
        for p, q in zip(cp.pool, sim.procs[1:]):
            check(q.done and p.exitcode == 0, 'sampler %d ended with %r: %s', q.idx, p.exitcode, q.error)
        complete(case, cp.NS, cp, plots, n, os.path.join(d, 'out'), ctx)
        ctx.label(*(['%d samplers' % n, case['proposals'], 'verbose %d' % case['verbose']] + [k for k, v in zip((MH, HM, SL), (nmh, case['nham'], case['nsli'])) if v]))
        ctx.nontrivial(n > 1)
    finally:
        C.CPNest.plot = real_plot
        shutil.rmtree(d, ignore_errors=True)


def complete(case, ns, cp, plots, n, out, ctx):
    v = case['verbose']
    if case['prior_sampling']:
        check(len(cp.nested_samples) == case['nlive'], '%d prior samples for %d live points', len(cp.nested_samples), case['nlive'])
    else:
        check(math.isfinite(ns.state.logZ) and math.isfinite(ns.state.info), 'the run ends with log-evidence %r, information %r', ns.state.logZ, ns.state.info)
        check(len(cp.nested_samples) == ns.iteration + case['nlive'], '%d nested samples', len(cp.nested_samples))
        check(len(cp.posterior_samples) >= 1, 'no posterior samples')
    check((len(plots) > 0) == (v >= 2), '%d calls of plot() at verbosity %d', len(plots), v)
    files = set(os.listdir(out))
    want = {'chain_%d_%d.txt' % (case['nlive'], 1234 if case['seed'] is None else case['seed']), 'header.txt', 'cpnest.log'}
    if v >= 2:
        want |= {'nested_samples.dat', 'posterior.dat'}
        if not case['prior_sampling']:
            want |= {'insertion_indices.dat', 'logXlogL.png'}
    if v >= 3:
        want |= {'prior.dat'}
        if not case['prior_sampling']:
            want |= {'mcmc.dat'}
            check(cp.mcmc_samples is not None and len(cp.mcmc_samples) >= 1, 'no MCMC samples')
        check(cp.prior_samples is not None and len(cp.prior_samples) >= 1, 'no prior samples')
    check(want <= files, 'files missing: %s', sorted(want - files))
    if v == 0:
        check(not files & {'posterior.dat', 'prior.dat', 'mcmc.dat'}, 'files written at verbosity 0: %s', sorted(files))


@st.composite
def sim_cases(draw, real=False):
    mix = draw(st.sampled_from(['mhs', 'sli', 'both', 'both', 'both', 'mhs', 'both', 'mhs', 'hmc', 'all']))
    if mix in ('hmc', 'all'):
        n = draw(st.sampled_from([1, 1, 2] if mix == 'hmc' else [2, 3]))
    else:
        n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6] + ([] if real else [None, 8])))
    m = n or os.cpu_count()
    nham = 0 if mix not in ('hmc', 'all') else draw(st.integers(1, min(2, m)))
    nsli = m if mix == 'sli' else draw(st.integers(0, m - nham)) if mix in ('both', 'all') else 0
    hm = nham > 0
    d = draw(st.integers(1, 2 if hm else 3))
    return dict(dim=d, bounds=[[draw(st.sampled_from([0.0, -3.0])), draw(st.sampled_from([1.0, 7.5]))] for _ in range(d)], centre=[draw(st.sampled_from([0.5, 0.3])) for _ in range(d)],
                prior=draw(st.sampled_from(['flat', 'gauss', 'linear'])), like=draw(st.sampled_from(['gauss'] if hm else ['gauss', 'cone', 'ring', 'dead'])), sig=draw(st.sampled_from([0.3] if hm else [0.1, 0.3])),
                names=draw(st.lists(st.sampled_from(NAMES), min_size=d, max_size=d, unique=True)),
                nlive=draw(st.integers(50, 60) if hm else st.integers(max(m + 1, 8), 30)), poolsize=draw(st.integers(50, 60) if hm else st.integers(20, 30)), maxmcmc=draw(st.integers(10, 20) if hm else st.integers(5, 25)),
                nthreads=n, nham=nham, nsli=nsli, verbose=draw(st.sampled_from([0, 1, 2, 3])), seed=draw(st.one_of(st.none(), st.integers(0, 10**5), st.just(0))), rs=draw(seeds),
                proposals=draw(st.sampled_from(['default', 'default', 'list', 'dict', 'walk'])), prior_sampling=draw(st.sampled_from([False, False, False, True])),
                interval=draw(st.sampled_from([None, None, 3600] + [0.01] * (not hm))), deprecated=draw(st.sampled_from([False, False, False, True])), budget=250000 if hm else 100000,
                sched=dict(seed=draw(seeds), weights=[8.0] + [1.0] * m, quantum=draw(st.sampled_from([3, 20]))))


# ---------------------------------------------------------------- real processes

class NamedReal(RealMod):
    def __init__(self, case):
        super().__init__(case)
        self.names = list(case['names'])


def run_real(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        kw = dict(prior_sampling=case['prior_sampling'], resume=case['resume'])
        if case['interval'] is not None:
            kw['periodic_checkpoint_interval'] = case['interval']
        out = case['output']
        c = dict(case, kw=kw, output=out, model=NamedReal(case))
        if case['nham']:
            c['cpu'] = 60
        r = execute(c, d)
        if case['nham'] and r['end'] == 'runaway':
            raise Inconclusive('CPU budget of a Hamiltonian run')
        note = r.get('error') or '%s\n%s' % (r['log'][-1500:], r['stacks'])
        check(r['end'] == 'exited', 'the program %s\n%s', {'hung': 'hangs: every process sleeps for ever', 'left': 'leaves processes behind', 'runaway': 'does not end'}.get(r['end'], r['end']), note)
        check(r['code'] == 0 and r['stage'] == 'done', 'the run fails with status %r\n%s', r['code'], note)
        n = case['nthreads']
        nmh = n - case['nham'] - case['nsli']
        check(r['npool'] == n and r['exitcodes'] == [0] * n and not any(r['alive']), '%d samplers: exit codes %r, alive %r', r['npool'], r['exitcodes'], r['alive'])
        check(sorted(r['kinds']) == sorted([MH] * nmh + [HM] * case['nham'] + [SL] * case['nsli']), 'samplers %s', r['kinds'])
        check(len(set(r['seeds'])) == n, 'the samplers have seeds %s', r['seeds'])
        v = case['verbose']
        if case['prior_sampling']:
            check(len(r['nested']) == case['nlive'], '%d points', len(r['nested']))
        else:
            check(math.isfinite(r['logZ']) and math.isfinite(r['info']), 'log-evidence %r, information %r', r['logZ'], r['info'])
            check(len(r['nested']) == r['iteration'] + case['nlive'], '%d nested samples', len(r['nested']))
            check(len(r['posterior']) >= 1, 'no posterior samples')
        if v >= 3 or case['prior_sampling']:
            check(r['prior_samples'] and len(r['prior_samples']) == n * case['maxmcmc'] + (case['nlive'] if case['prior_sampling'] else 0), '%d prior samples', len(r['prior_samples'] or []))
        if v >= 3 and not case['prior_sampling']:
            check(r['mcmc_samples'] and len(r['mcmc_samples']) >= n, '%d MCMC samples', len(r['mcmc_samples'] or []))
        files = set(os.listdir(os.path.join(d, out)))
        if v >= 2:
            cols = list(case['names']) + ['logL', 'logPrior']
            want = {'nschain_%s.pdf' % c for c in cols}
            if not case['prior_sampling']:
                want |= {'posterior_%s.pdf' % c for c in cols} | {'insertion_indices.pdf', 'logXlogL.png'}
            check(want <= files, 'plots missing: %s', sorted(want - files))
            for f in want & files:
                check(os.path.getsize(os.path.join(d, out, f)) > 500, 'the plot %s is empty', f)
        ctx.label('%d samplers' % n, 'verbose %d' % v, *set(r['kinds']))
        ctx.nontrivial(n > 1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def real_cases(draw):
    c = draw(sim_cases(real=True))
    c['seed'] = c['seed'] or draw(st.integers(0, 99))
    c['resume'] = draw(st.booleans())
    c['output'] = draw(st.sampled_from(['out', './', 'a/b/c', 'out/']))
    c['proposals'] = 'default'
    if c['verbose'] >= 2:
        # plots are slow
        c['names'], c['dim'], c['bounds'], c['centre'] = c['names'][:1], 1, c['bounds'][:1], c['centre'][:1]
    return c


FACETS = [Facet('simulated', sim_cases(), run_sim, 240, 8000, shards=8, rule='complete runs of generated configurations with simulated processes (plots stubbed); non-trivial = more than one sampler'),
          Facet('real', real_cases(), run_real, 56, 1200, shards=8, shrink=False, budget_s=240, rule='complete runs of generated configurations in real processes, with plots; non-trivial = more than one sampler')]
