"""C22: samplers answer each request exactly once under any schedule."""
import contextlib
import io
import math
import os
import shutil
import tempfile
from collections import Counter

from hypothesis import strategies as st

from checks.c13 import KINDS, ScriptPipe
from vf.engine import Facet, Inconclusive, check, sut
from vf.gen import seeds
from vf.samplers import Budget, Mod, OneManager, make_sampler, seed_all
from vf.sim import simulate

PROPERTY = 'C22'
ASSUMPTIONS = ['processes are simulated by threads that hand over at pipe operations and model evaluations; a context switch elsewhere is not explored (real processes are, under C13 and C15)',
               'a Hamiltonian sampler that needs very many tries to cross the bound is set aside by an evaluation budget']
INF = math.inf


class Idle(ScriptPipe):
    """Notes the work done between polls"""

    def __init__(self, script, model, at_poll=None):
        super().__init__(script, at_poll)
        self.model, self.last, self.stopped = model, None, None
        self.answered_at = []

    def poll(self, timeout=0):
        if self.last is not None:
            check(self.model.work > self.last, 'the sampler does nothing while it has no request')
        if self.stopped:
            check(False, 'the sampler goes on after the stop message')
        r = super().poll(timeout)
        self.last = None if r else self.model.work
        return r

    def recv(self):
        check(len(self.sent) == self.got, 'request %d is taken with %d answers sent', self.got + 1, len(self.sent))
        m = super().recv()
        if m is None or isinstance(m, str):
            self.got -= 1
            self.stopped = True
        return m

    def send(self, m):
        check(not self.stopped, 'an answer is sent after the stop message')
        check(len(self.sent) < self.got, 'an answer is sent although there is no request')
        super().send(m)


class Work(Mod):
    work = 0

    def log_prior(self, p):
        self.work += 1
        return super().log_prior(p)


def run_sampler(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        model = Work(case)
        man = OneManager()
        seed_all(case['rs'])
        path = os.path.join(d, 's.pkl')
        s = make_sampler(case['kind'], model, man, case['maxmcmc'], case['poolsize'], case['seed'], resume_file=path, verbose=case['verbose'], output=d, sample_prior=case['sample_prior'])
        script, flag_at, inf_at = [], None, None

        def request(q, raising):
            def make():
                pool = sorted(s.evolution_points, key=lambda p: p.logL)
                p = pool[min(len(pool) - 1, int(q * len(pool)))]
                if raising:
                    man.logLmin.value = max(man.logLmin.value, p.logL)
                return p.copy()
            return make
        for op in case['ops']:
            # several requests may wait in the pipe at the same poll
            script.append(False if op is None else request(*op))
        how = case['how']
        bursts = case['burst']
        nreq = sum(m is not False for m in script)
        if how == 'stop':
            script.append(None)
        elif how == 'message':
            script.append('checkpoint')

        def at_poll(n):
            # `bursts` requests more arrive together with the n-th
            if n in bursts and n <= len(case['ops']):
                for q in bursts[n]:
                    pipe.inbox.append(request(q, False)())
                    at_poll.more += 1
            if n >= len(script):
                if how == 'infinite' and man.logLmin.value < INF:
                    man.logLmin.value = INF
                    model.budget = max(model.budget, model.calls + 40000)
                if how == 'flag':
                    man.checkpoint_flag.value = 1
        at_poll.more = 0
        bursts = {i + 1: qs for i, qs in bursts}
        man.pipe = s.producer_pipe = pipe = Idle(script, model, at_poll)
        end = None
        try:
            with contextlib.redirect_stderr(io.StringIO()), sut('produce_sample'):
                s.produce_sample()
            end = 'returned'
        except SystemExit as e:
            end = e.code
        if how in ('stop', 'infinite'):
            check(end == 'returned', 'the sampler ends with status %r when told to stop (%s)', end, how)
            check(not os.path.exists(path), 'a state was saved when told to stop')
        else:
            check(end == 130, 'the sampler %s when asked to checkpoint (%s)', 'returns' if end == 'returned' else 'exits with status %r' % end, how)
            check(os.path.exists(path), 'no state was saved')
        if how in ('stop', 'message'):
            check(len(pipe.sent) == nreq + at_poll.more, '%d answers to %d requests', len(pipe.sent), nreq + at_poll.more)
        # once the bound is infinite a request taken cannot be met
        check(len(pipe.sent) == pipe.got or (how == 'infinite' and len(pipe.sent) == pipe.got - 1), '%d answers to the %d requests taken', len(pipe.sent), pipe.got)
        if how in ('infinite', 'flag'):
            check(pipe.polls <= len(script) + 1 or pipe.got == pipe.polls, 'the sampler goes on after %s', how)
            check(pipe.polls <= len(script), 'the sampler went on polling (%d times) after being told to stop (%s) at poll %d', pipe.polls, how, len(script))
        for m in pipe.sent:
            check(len(m) == 4, 'the answer is %r', m)
            p = m[3]
            check(all(a < v < b for v, (a, b) in zip(p.values, model.bounds)) and p.logL == model.llike(p) and p.logP == Mod.log_prior(model, p), 'answer %r does not have the values of the model', p)
        ctx.label(case['kind'], how)
        if at_poll.more:
            ctx.label('several requests waiting')
        if None in case['ops']:
            ctx.label('sampling without a request')
        ctx.nontrivial(nreq >= 1)
    except Budget:
        check(man.logLmin.value < INF, 'the sampler has not stopped 40000 evaluations after the bound became infinite')
        raise Inconclusive('likelihood budget')
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def sampler_cases(draw):
    kind = draw(st.sampled_from(['mhs', 'sli', 'mhs', 'sli', 'hmc']))
    d = draw(st.integers(1, 3))
    q = st.floats(0, 0.15 if kind == 'hmc' else 0.9)
    ops = draw(st.lists(st.one_of(st.none(), st.tuples(q, st.booleans())), min_size=1, max_size=14))
    return dict(kind=kind, dim=d, bounds=[[0.0, 1.0]] * d, centre=[0.5] * d, prior=draw(st.sampled_from(['flat', 'gauss', 'linear'])), like=draw(st.sampled_from(['gauss', 'cone'])), sig=0.3,
                poolsize=draw(st.integers(50, 60)) if kind == 'hmc' else draw(st.integers(8, 16)), maxmcmc=draw(st.integers(10, 20)), seed=draw(st.integers(0, 999)), rs=draw(seeds),
                budget=24000 if kind == 'hmc' else 20000, verbose=draw(st.sampled_from([0, 0, 0, 3])), sample_prior=draw(st.sampled_from([False, False, True])), ops=ops,
                burst=draw(st.lists(st.tuples(st.integers(0, len(ops) - 1), st.lists(q, min_size=1, max_size=3)), max_size=3, unique_by=lambda x: x[0])),
                how=draw(st.sampled_from(['stop', 'infinite', 'flag', 'message'])))


def key(p):
    return (tuple(p.names), bytes(p.values), p.logL, p.logP)


def run_system(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        sim, cp = simulate(case, d)
        n, N = case['nthreads'], case['nlive']
        model = cp.user
        for p, q in zip(cp.pool, sim.procs[1:]):
            check(p.exitcode == 0, 'sampler %d ends with %r: %s', q.idx, p.exitcode, q.error)
        check(len(sim.procs) == n + 1, '%d samplers for %d processes', len(sim.procs) - 1, n)
        used = [c for c in sim.channels if c.users[0] or c.users[1]]
        check(len(used) == n and len({min(c.users[1]) for c in used if c.users[1]}) == n, '%d samplers use %d channels', n, len(used))
        sent = Counter()
        for c in used:
            check(c.answers in (c.taken, c.taken - 1) and c.taken <= c.requests, 'sampler %d answered %d of %d requests taken, %d sent', c.k, c.answers, c.taken, c.requests)
            check(c.other == [None], 'sampler %d was sent %r at the end', c.k, c.other)
            for p in c.sent:
                check(all(a < v < b for v, (a, b) in zip(p.values, model.bounds)), 'sampler %d answers %r outside the bounds', c.k, p)
                if p.logL == p.logP == -INF:
                    continue         # a fresh point of the integrator, unmoved
                check(p.logL == model.llike(p) and p.logP == Mod.log_prior(model, p), 'sampler %d answers %r, the model gives %r, %r', c.k, p, model.llike(p), Mod.log_prior(model, p))
                sent[key(p)] += 1
        chain = cp.NS.nested_samples
        check(len(chain) == cp.NS.iteration + N, '%d nested samples after %d replacements with %d live points', len(chain), cp.NS.iteration, N)
        L = [p.logL for p in chain]
        check(all(a <= b for a, b in zip(L, L[1:])), 'the nested samples are not ordered')
        got = Counter(key(p) for p in chain)
        check(all(p.logL > -INF and p.logP > -INF for p in chain), 'a nested sample was never evaluated')
        check(not got - sent, 'nested samples which no sampler has sent (so many times): %s', list((got - sent).items())[:3])
        check(sum(sent.values()) >= N + cp.NS.iteration, 'more samples than answers')
        check(cp.NS.iteration % n == 0, '%d replacements by %d samplers', cp.NS.iteration, n)
        ctx.label('%d samplers' % n, 'nlive not a multiple' if N % n else 'nlive a multiple')
        if any(c.requests > c.taken for c in used):
            ctx.label('stopped with requests waiting')
        if cp.NS.rejected > 1:
            ctx.label('refused answers')
        ctx.nontrivial(n > 1 and sim.switches > 50)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def system_cases(draw, hmc=True):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    kind = draw(st.sampled_from(['mhs', 'sli', 'both', 'both', 'both', 'hmc'] if hmc else ['mhs', 'sli', 'both']))
    nham = 1 if kind == 'hmc' else 0
    nsli = n if kind == 'sli' else draw(st.integers(0, n - nham)) if kind != 'mhs' else 0
    d = draw(st.integers(1, 3))
    return dict(dim=d, bounds=[[draw(st.sampled_from([0.0, -3.0])), 1.0] for _ in range(d)], centre=[draw(st.sampled_from([0.5, 0.3])) for _ in range(d)], prior=draw(st.sampled_from(['flat', 'gauss', 'linear'])),
                like=draw(st.sampled_from(['gauss', 'gauss', 'cone', 'ring'])), sig=draw(st.sampled_from([0.1, 0.3])),
                nlive=draw(st.integers(40, 50)) if nham else draw(st.integers(n + 1, 24)), poolsize=50 if nham else draw(st.integers(8, 20)), maxmcmc=draw(st.integers(10, 16)), nthreads=n, nham=nham, nsli=nsli,
                verbose=0, seed=draw(st.integers(0, 10**4)), rs=draw(seeds), tol=draw(st.sampled_from([0.1, 0.5])), budget=80000,
                sched=dict(seed=draw(seeds), weights=[draw(st.sampled_from([2.0, 5.0, 20.0]))] + draw(st.lists(st.sampled_from([1.0, 1.0, 0.05, 0.3]), min_size=n, max_size=n)),
                           quantum=draw(st.sampled_from([1, 3, 8, 20])), prefix=draw(st.lists(st.integers(0, n), max_size=30))))


FACETS = [Facet('sampler', sampler_cases(), run_sampler, 1200, 30000, shards=8,
                rule='a real sampler with scripted arrivals of requests (also several at once), of a stop message, an infinite bound or a checkpoint request; non-trivial = at least one request'),
          Facet('system', system_cases(), run_system, 320, 10000, shards=8,
                rule='a complete run of CPNest with simulated processes under a generated schedule; non-trivial = more than one sampler and more than 50 context switches')]
