"""C23: the seed determines the initial draws and samplers do not share a random stream."""
import contextlib
import io
import os
import random
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.c13 import ScriptPipe
from vf.engine import Facet, Inconclusive, check, sut
from vf.gen import seeds
from vf.real import execute
from vf.samplers import Budget, Mod, OneManager, make_sampler, seed_all
from vf.sim import SimMod, simulate

PROPERTY = 'C23'
ASSUMPTIONS = ['the user model draws new points with numpy.random (the default of the base class); python\'s own random module is not seeded by cpnest',
               'initial draws are those before the first Monte Carlo step']
runseeds = st.one_of(st.integers(0, 3), st.integers(0, 10**6), st.sampled_from([0, 1234, 2**31 - 1, 2**32 - 10]))


def draws(case, kind, pool, variant):
    """values of the first likelihood evaluations of a sampler"""
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        model = Mod(dict(case, budget=40000))
        seen = []
        model.hook = lambda p: seen.append(tuple(p.values)) if len(seen) < pool else None
        seed_all(variant['rs'])
        for _ in range(variant['used']):
            np.random.uniform(size=7)
            random.random()
        man = OneManager(thread_id=variant['thread'])
        s = make_sampler(kind, model, man, 10, pool, case['seed'], verbose=variant['verbose'], output=d, sample_prior=variant['sample_prior'])
        np.random.seed(variant['rs'] % 1000)
        man.pipe = s.producer_pipe = ScriptPipe([None])
        with contextlib.redirect_stderr(io.StringIO()), sut('produce_sample'):
            s.produce_sample()
        return seen
    except Budget:
        raise Inconclusive('likelihood budget')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_sampler(case, ctx):
    a, b = case['variants']
    pa, pb = case['pools']
    if 'hmc' in case['kinds']:
        pa, pb = pa + 42, pb + 42
    x = draws(case, case['kinds'][0], pa, a)
    y = draws(case, case['kinds'][1], pb, b)
    n = min(len(x), len(y))
    check(len(x) == pa and len(y) == pb, '%d and %d initial draws for pools of %d and %d', len(x), len(y), pa, pb)
    check(x[:n] == y[:n], 'two samplers with seed %d draw different initial points: %s and %s', case['seed'], x[:3], y[:3])
    other = dict(case, seed=case['other'])
    z = draws(other, case['kinds'][0], pa, a)
    same = len(set(x) & set(z))
    check(same == 0, 'samplers with seeds %d and %d share %d of %d initial draws', case['seed'], case['other'], same, len(x))
    ctx.label(*case['kinds'])
    ctx.nontrivial(case['kinds'][0] != case['kinds'][1] or pa != pb or a != b)


@st.composite
def sampler_cases(draw):
    d = draw(st.integers(1, 3))
    var = st.fixed_dictionaries(dict(rs=seeds, used=st.integers(0, 5), thread=st.integers(0, 7), verbose=st.sampled_from([0, 0, 1, 3]), sample_prior=st.booleans()))
    seed = draw(runseeds)
    return dict(dim=d, bounds=[[draw(st.sampled_from([0.0, -3.0])), 1.0] for _ in range(d)], centre=[0.5] * d, prior=draw(st.sampled_from(['flat', 'gauss', 'hole'])), like='gauss', sig=0.3,
                kinds=draw(st.lists(st.sampled_from(['mhs', 'sli', 'mhs', 'sli', 'hmc']), min_size=2, max_size=2)), pools=draw(st.lists(st.integers(8, 16), min_size=2, max_size=2)),
                variants=draw(st.lists(var, min_size=2, max_size=2)), seed=seed, other=draw(runseeds.filter(lambda x: x != seed)))


class Recorder(SimMod):
    def __init__(self, case, keep):
        super().__init__(case)
        self.keep, self.first = keep, {}

    def log_likelihood(self, p):
        if self.sim is not None and self.sim.current.idx:
            l = self.first.setdefault(self.sim.current.idx - 1, [])
            if len(l) < self.keep:
                l.append(tuple(p.values))
        return super().log_likelihood(p)


def run_run(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        out = []
        for k, v in enumerate(case['variants'] + [dict(case['variants'][0], seed=case['other'])]):
            c = dict(case, **v)
            m = Recorder(c, case['poolsize'])
            with sut('run'):
                sim, cp = simulate(c, os.path.join(d, str(k)), model=m, prior_sampling=True)
            n = c['nthreads']
            seqs = [m.first.get(i, []) for i in range(n)]
            for i in range(n):
                check(len(seqs[i]) == case['poolsize'], 'sampler %d made %d initial draws', i, len(seqs[i]))
                for j in range(i):
                    share = len(set(seqs[i]) & set(seqs[j]))
                    check(share == 0, 'samplers %d and %d of a run with seed %r share %d of %d initial draws', j, i, c['seed'], share, len(seqs[i]))
            name = 'chain_%d_%d.txt' % (c['nlive'], 1234 if c['seed'] is None else c['seed'])
            check(os.path.exists(os.path.join(d, str(k), 'out', name)), 'no chain file %s: %s', name, sorted(os.listdir(os.path.join(d, str(k), 'out'))))
            out.append(seqs)
        for i, (x, y, z) in enumerate(zip(*out)):
            check(x == y, 'two runs with seed %r: sampler %d draws %s and %s', case['seed'], i, x[:2], y[:2])
            check(not set(x) & set(z), 'runs with seeds %r and %r: sampler %d makes the same draws', case['seed'], case['other'], i)
        if case['nham'] and case['nsli']:
            ctx.label('Hamiltonian and slice samplers')
        ctx.label('%d samplers' % case['nthreads'], 'seed %s' % ('given' if case['seed'] else case['seed']))
        ctx.nontrivial(case['nthreads'] > 1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def run_cases(draw):
    n = draw(st.integers(1, 5))
    d = draw(st.integers(1, 3))
    seed = draw(st.one_of(st.none(), runseeds))
    var = st.fixed_dictionaries(dict(rs=seeds, nlive=st.integers(n + 1, 12), verbose=st.sampled_from([0, 0, 1]),
                                     sched=st.fixed_dictionaries(dict(seed=seeds, weights=st.lists(st.sampled_from([1.0, 0.1, 0.3]), min_size=n, max_size=n).map(lambda w: [5.0] + w), quantum=st.sampled_from([1, 4, 15])))))
    nham = draw(st.sampled_from([0, 0, 0, 1, 1, 2]))
    nham = min(nham, n)
    nsli = draw(st.integers(0, n - nham))
    return dict(dim=d, bounds=[[0.0, 1.0]] * d, centre=[0.5] * d, prior=draw(st.sampled_from(['flat', 'gauss'] if nham else ['flat', 'gauss', 'hole'])), like='gauss', sig=0.3, nthreads=n, nham=nham, nsli=nsli,
                poolsize=50 if nham else draw(st.integers(8, 14)), maxmcmc=10, seed=seed, other=draw(runseeds.filter(lambda x: abs(x - (1234 if seed is None else seed)) > 8)),
                variants=draw(st.lists(var, min_size=2, max_size=2)), budget=10**5)


def run_real(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        out = []
        for k in range(2):
            where = os.path.join(d, str(k))
            os.mkdir(where)
            c = dict(case, rs=case['rs'] + k, kw=dict(prior_sampling=True), output='out', record=case['poolsize'])
            r = execute(c, where)
            check(r['end'] == 'exited' and r['code'] == 0 and not r.get('error'), 'the run ends as %s, status %r: %s', r['end'], r['code'], r.get('error') or r['log'][-1500:])
            seqs = []
            for f in os.listdir(where):
                if f.startswith('draws-'):
                    with open(os.path.join(where, f)) as fh:
                        seqs.append(fh.read().split('\n')[:-1])
            check(len(seqs) == case['nthreads'], '%d processes evaluate the model, %d samplers', len(seqs), case['nthreads'])
            for i in range(len(seqs)):
                for j in range(i):
                    check(not set(seqs[i]) & set(seqs[j]), 'two samplers of a run with seed %r share %d initial draws', case['seed'], len(set(seqs[i]) & set(seqs[j])))
            out.append(sorted(seqs))
        check(out[0] == out[1], 'two runs with seed %r make different initial draws', case['seed'])
        ctx.label('%d samplers' % case['nthreads'])
        ctx.nontrivial(case['nthreads'] > 1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def real_cases(draw):
    c = draw(run_cases())
    c.pop('variants')
    return dict(c, nlive=c['nthreads'] + 5, verbose=0, rs=draw(seeds))


def run_streams(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        for i, trig in enumerate([case['trigger'], None]):
            where = os.path.join(d, str(i))
            os.mkdir(where)
            r = execute(dict(case, rs=case['rs'] + i, trigger=trig, kw=dict(resume=True), output='../out', streams=True), where)
            check(r['end'] == 'exited' and not r.get('error') and r['code'] == (0 if r.get('stage') == 'done' else 130), 'the run ends as %s, status %r: %s', r['end'], r['code'], r.get('error') or r['log'][-1500:])
            seen = {}
            for f in os.listdir(where):
                if f.startswith('streams-'):
                    with open(os.path.join(where, f)) as fh:
                        for line in fh:
                            seen.setdefault(line.strip(), set()).add(f)
            for key, files in seen.items():
                check(len(files) == 1, '%d samplers of a %s draw from the same state of the %s generator', len(files), 'resumed run' if i else 'run', key.split()[0])
            n = len({f for files in seen.values() for f in files})
            ctx.label('%s, %d samplers observed' % ('resumed' if i else 'first run', n))
            ctx.nontrivial(n > 1)
            if r.get('stage') == 'done':
                return
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def stream_cases(draw):
    n = draw(st.integers(2, 4))
    nsli = draw(st.integers(0, n))
    return dict(dim=2, bounds=[[0.0, 1.0]] * 2, centre=[0.5] * 2, prior=draw(st.sampled_from(['flat', 'gauss'])), like='gauss', sig=0.2, nthreads=n, nham=0, nsli=nsli,
                nlive=draw(st.integers(12, 20)), poolsize=draw(st.integers(10, 20)), maxmcmc=10, seed=draw(runseeds), verbose=0, rs=draw(seeds),
                trigger=dict(proc=draw(st.integers(0, n - 1)), at=draw(st.integers(500, 1500)), sig=draw(st.sampled_from(['SIGTERM', 'SIGINT'])), group=False))


FACETS = [Facet('sampler', sampler_cases(), run_sampler, 1000, 20000, shards=8, rule='two samplers with the same seed and a third with another, otherwise generated differently; non-trivial = anything else differs between the first two'),
          Facet('run', run_cases(), run_run, 160, 6000, shards=8, rule='two simulated runs with the same seed and different schedules, live points and generator states, a third with another seed; non-trivial = more than one sampler'),
          Facet('real', real_cases(), run_real, 32, 400, shards=8, shrink=False, rule='two runs in real processes; non-trivial = more than one sampler'),
          Facet('streams', stream_cases(), run_streams, 32, 400, shards=8, shrink=False, rule='a run in real processes interrupted by a signal and resumed: no state of a random generator is used by two samplers; non-trivial = more than one sampler observed')]
