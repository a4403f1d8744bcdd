"""C27: periodic checkpoints are taken as often as requested."""
import contextlib
import io
import math
import os
import pickle
import shutil
import tempfile

from hypothesis import strategies as st

from checks.c13 import KINDS, ScriptPipe
from checks.nsgen import conserved, scripted
from vf.clock import Clock, Watch
from vf.engine import Facet, Inconclusive, check, sut
from vf.gen import seeds
from vf.samplers import Budget, Mod, OneManager, make_sampler, seed_all
from vf.sim import SimMod, simulate
from vf.simns import NSRun, SimManager
from vf.states import differences, points, sampler_state
from cpnest.NestedSampling import NestedSampler
from cpnest import sampler as S

PROPERTY = 'C27'
ASSUMPTIONS = ['time is what time.time() says (a generated clock replaces it); it does not go backwards',
               'elapsed times are never exactly equal to the interval']
INF = math.inf
TICK = 1.0 / 64
# odd multiples of half a tick: no elapsed time is equal to an interval
intervals = st.one_of(st.none(), st.integers(0, 60), st.integers(0, 60), st.integers(60, 2000)).map(lambda k: None if k is None else (k + 0.5) * TICK)
ticks = st.lists(st.one_of(st.just(0), st.just(1), st.integers(0, 8), st.integers(0, 300)), min_size=1, max_size=12)


def spaced(times, start, interval, who):
    for a, b in zip([start] + times, times):
        check(b - a > interval, '%s: a checkpoint %r s after the one before (or the start), the interval is %r s', who, b - a, interval)


# ---------------------------------------------------------------- integrator

def run_integrator(case, ctx):
    clock = Clock()
    with clock.patched():
        r = NSRun(case)
        w = r.world
        interval = INF if case['interval'] is None else case['interval']
        w.manager.periodic_checkpoint_interval = interval
        try:
            with sut('NestedSampler'):
                ns = r.make()
            path = ns.resume_file
            watch = Watch(path, clock)
            start = clock.now
            pos = [0]
            stop = case['die']
            last_round = [0]

            class Dead(BaseException):
                pass

            def on_answer():
                if watch.check():
                    with open(path, 'rb') as f:
                        saved = pickle.load(f)
                    k = len(saved.state.logLs) - 1
                    check(k == w.rounds and not w.in_round, 'a checkpoint after %d iterations holds a state of %d', w.rounds, k)
                    check(sorted(points(saved.params)) == sorted(points(w.sent[i] for _, _, i in w.live)), 'a checkpoint after %d iterations holds other live points', w.rounds)
                if len(w.initial) >= w.N and not w.in_round and w.rounds:
                    # a new iteration begins
                    since = clock.now - (watch.times[-1] if watch.times else begin[0])
                    check(since <= interval, 'iteration %d begins %r s after the last checkpoint, the interval is %r s', w.rounds + 1, since, interval)
                    if stop is not None and w.rounds >= stop + last_round[0]:
                        raise Dead()
                clock.now += case['ticks'][pos[0] % len(case['ticks'])] * TICK
                pos[0] += 1
            begin = [start]
            w.on_answer = on_answer
            out = None
            for life in range(3):
                try:
                    with sut('nested_sampling_loop'):
                        out = r.loop()
                    watch.check()
                except Dead:
                    pass
                spaced(watch.times, begin[0], interval, 'integrator')
                if out is not None or not os.path.exists(path):
                    break
                # it died: resume from what the file holds
                clock.now += case['pause'] * TICK
                w.attach(SimManager(w.n))
                w.manager.periodic_checkpoint_interval = interval
                with sut('NestedSampler.resume'):
                    ns = r.ns = NestedSampler.resume(path, w.manager, w.model)
                w.rollback(len(ns.state.logLs) - 1)
                last_round[0] = w.rounds
                if life == 1:
                    stop = None
                begin = [clock.now]
                ctx.label('saves before it died: %d' % min(len(watch.times), 3))
                watch = Watch(path, clock)
            if out is not None:
                conserved(w, ns, out)
            if interval == INF:
                check(not os.path.exists(path), 'no periodic checkpoint was requested, yet %s was saved', os.path.basename(path))
                ctx.label('no interval')
            ctx.label('completed' if out is not None else 'died before the first save')
            ctx.nontrivial(bool(watch.times) and len(watch.times) < w.rounds)
        finally:
            r.close()


@st.composite
def integrator_cases(draw):
    c = draw(scripted(maxlive=14, tols=st.sampled_from([0.1, 0.3])))
    c.update(interval=draw(intervals), ticks=draw(ticks), pause=draw(st.integers(0, 4000)), die=draw(st.one_of(st.none(), st.integers(1, 40))))
    return c


# ---------------------------------------------------------------- samplers

def run_sampler(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    clock = Clock()
    try:
        with clock.patched():
            model = Mod(case)
            kind = case['kind']
            path = os.path.join(d, 'sampler_0.pkl')
            seed_all(case['rs'])
            interval = INF if case['interval'] is None else case['interval']
            man = OneManager()
            man.periodic_checkpoint_interval = interval
            s = make_sampler(kind, model, man, 10, case['poolsize'], case['seed'], resume_file=path, output=d)
            pos = [0]
            saves = 0
            for life, ops in enumerate(case['lives']):
                begin = clock.now
                watch = Watch(path, clock)
                before = [None]

                def move(p):
                    watch.check()
                    clock.now += case['ticks'][pos[0] % len(case['ticks'])] * TICK
                    pos[0] += 1

                def at_poll(n):
                    new = watch.check()
                    if before[0] is not None:
                        last, t = before[0]
                        check(t - last <= interval or (watch.times and watch.times[-1] >= t), '%s went on %r s after the last checkpoint, the interval is %r s', KINDS[kind], t - last, interval)
                    before[0] = (watch.times[-1] if watch.times else begin, clock.now)
                    if new:
                        with open(path, 'rb') as f:
                            got = pickle.load(f)
                        if watch.times[-1] == clock.now and case['ticks'] != [0] and 0 not in case['ticks']:
                            got.manager = man
                            diff = differences(sampler_state(got), sampler_state(s))
                            check(not diff, 'the state saved differs from that of the sampler in %s', diff)

                def request(q, raising):
                    def make():
                        pool = sorted(s.evolution_points, key=lambda p: p.logL)
                        p = pool[min(len(pool) - 1, int(q * len(pool)))]
                        if raising:
                            man.logLmin.value = max(man.logLmin.value, p.logL)
                        return p.copy()
                    return make
                model.hook = move
                man.pipe = s.producer_pipe = ScriptPipe([False if op is None else request(*op) for op in ops] + [None], at_poll)
                with contextlib.redirect_stderr(io.StringIO()), sut('produce_sample'):
                    s.produce_sample()
                watch.check()
                spaced(watch.times, begin, interval, KINDS[kind])
                saves += len(watch.times)
                if life + 1 < len(case['lives']):
                    clock.now += case['pause'] * TICK
                    if not os.path.exists(path):
                        break
                    bound = man.logLmin.value
                    man = OneManager()
                    man.logLmin.value = bound
                    man.periodic_checkpoint_interval = interval
                    with sut('resume'):
                        s = getattr(S, KINDS[kind]).resume(path, man, model)
            check(saves == 0 or interval < INF, 'a sampler saved its state without being asked to')
            ctx.label(kind, '%d lives' % (life + 1), 'no interval' if interval == INF else 'saves' if saves else 'interval too long')
            ctx.nontrivial(0 < saves)
    except Budget:
        raise Inconclusive('likelihood budget')
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def sampler_cases(draw):
    kind = draw(st.sampled_from(['mhs', 'sli', 'mhs', 'sli', 'hmc']))
    d = draw(st.integers(1, 3))
    op = st.one_of(st.none(), st.none(), st.tuples(st.floats(0, 0.5 if kind == 'hmc' else 0.9), st.booleans()))
    return dict(kind=kind, dim=d, bounds=[[0.0, 1.0]] * d, centre=[0.5] * d, prior=draw(st.sampled_from(['flat', 'gauss'])), like='gauss', sig=0.3,
                poolsize=draw(st.integers(50, 60)) if kind == 'hmc' else draw(st.integers(8, 16)), seed=draw(st.integers(0, 999)), rs=draw(seeds), budget=8000 if kind == 'hmc' else 20000,
                lives=draw(st.lists(st.lists(op, min_size=1, max_size=30), min_size=1, max_size=3)),
                interval=draw(st.one_of(st.just(None), st.integers(0, 300), st.integers(0, 300), st.integers(300, 6000)).map(lambda k: None if k is None else (k + 0.5) * TICK)),
                ticks=draw(ticks), pause=draw(st.integers(0, 4000)))


# ---------------------------------------------------------------- the whole program

class TickMod(SimMod):
    """the clock moves at every evaluation of the prior"""
    clock = None
    step = 0.0

    def __getstate__(self):
        return dict(super().__getstate__(), clock=None)

    def log_prior(self, p):
        if self.clock is not None:
            self.clock.now += self.step
        return super().log_prior(p)


def run_program(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    clock = Clock()
    try:
        with clock.patched():
            m = TickMod(case)
            m.clock, m.step = clock, TICK
            t0 = clock.now
            kw = {} if case['interval'] is None and case['implicit'] else dict(periodic_checkpoint_interval=case['interval'])
            if case['deprecated'] is not None:
                kw['n_periodic_checkpoint'] = case['deprecated']
            with sut('run'):
                sim, cp = simulate(case, d, model=m, **kw)
            took = clock.now - t0
        files = sorted(f for f in os.listdir(os.path.join(d, 'out')) if f.endswith('.pkl') or f.endswith('.tmp'))
        want = ['nested_sampler_resume.pkl'] + ['sampler_%d.pkl' % i for i in range(case['nthreads'])]
        if case['interval'] is None or case['interval'] > took:
            check(not files, 'checkpoints %s without an interval (or with one longer than the run)', files)
            ctx.label('none due')
        else:
            check(set(files) <= set(want), 'files %s left', files)
            rounds = len(cp.NS.state.logLs) - 1 - case['nlive']
            if case['interval'] < TICK and rounds > 0:
                check('nested_sampler_resume.pkl' in files, 'no checkpoint of the integrator in %d iterations, an interval of %r s and a run of %r s', rounds, case['interval'], took)
            # a sampler that was started well before the end and never saw its interval elapse cannot be told apart by the clock of the program; with the shortest interval all save
            if case['interval'] < TICK:
                for i, p in enumerate(sim.procs[1:]):
                    # (it may take the stop message before its first turn)
                    if sim.channels and i < len(sim.channels) and len(sim.channels[i].sent) > case['nlive'] // case['nthreads'] + 2:
                        check('sampler_%d.pkl' % i in files, 'no checkpoint of sampler %d with an interval of %r s and a run of %r s', i, case['interval'], took)
            if 'nested_sampler_resume.pkl' in files:
                with open(os.path.join(d, 'out', 'nested_sampler_resume.pkl'), 'rb') as f:
                    saved = pickle.load(f)
                n = len(saved.nested_samples)
                check(points(saved.nested_samples) == points(list(cp.NS.nested_samples)[:n]), 'the last checkpoint does not hold the beginning of the chain')
                check(len(saved.params) == case['nlive'], 'the last checkpoint holds %d live points', len(saved.params))
            ctx.label('due')
        ctx.nontrivial(case['interval'] is None or bool(files))
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def program_cases(draw):
    n = draw(st.integers(1, 3))
    nsli = draw(st.integers(0, n))
    d = draw(st.integers(1, 2))
    return dict(dim=d, bounds=[[0.0, 1.0]] * d, centre=[0.5] * d, prior='flat', like='gauss', sig=0.3, nthreads=n, nham=0, nsli=nsli, poolsize=draw(st.integers(8, 12)), maxmcmc=10,
                nlive=draw(st.integers(n + 4, 14)), verbose=0, seed=draw(st.integers(1, 999)), rs=draw(seeds), budget=2 * 10**5, tol=draw(st.sampled_from([0.5, 1.0])),
                interval=draw(st.sampled_from([None, None, 0.0, TICK / 2, 20.0, 1e9])), implicit=draw(st.booleans()), deprecated=draw(st.sampled_from([None, None, 1, 5])),
                sched=dict(seed=draw(seeds), weights=[1.0] * (n + 1), quantum=draw(st.sampled_from([1, 4, 15]))))


FACETS = [Facet('integrator', integrator_cases(), run_integrator, 800, 20000, shards=8, rule='the real integrator with scripted samplers and a generated clock and interval, killed and resumed up to twice; non-trivial = it saved its state after some but not all iterations'),
          Facet('samplers', sampler_cases(), run_sampler, 500, 10000, shards=8, rule='a real sampler with scripted requests and a generated clock and interval, resumed up to twice; non-trivial = it saved its state'),
          Facet('program', program_cases(), run_program, 96, 2000, shards=8, rule='complete simulated runs with a clock moved by the user model; non-trivial = no interval, or states were saved')]
