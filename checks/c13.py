"""C13: an interrupted run resumes as if it had not been interrupted."""
import contextlib
import dis
import io
import math
import os
import pickle
import shutil
import sys
import tempfile
from collections import Counter

from hypothesis import strategies as st

from checks.nsgen import conserved, scripted
from vf.boot import REPO
from vf.engine import Facet, Inconclusive, Violation, check, sut
from vf.gen import seeds
from vf.real import execute
from vf.samplers import Budget, Mod, OneManager, make_sampler, seed_all
from vf.sim import simulate
from vf.simns import NSRun, SimManager, same_point
from vf.states import differences, point, sampler_state
from cpnest.cpnest import CheckPoint
from cpnest.NestedSampling import NestedSampler
from cpnest import sampler as S

PROPERTY = 'C13'
ASSUMPTIONS = ['one signal per run is delivered; a second signal while the first is being handled is not covered',
               'a sampler interrupted in the middle of a step may lose the one point it is moving (its pool fills up again with the next request)',
               'the user model can be pickled when Hamiltonian samplers are used (their proposals hold it)']
INF = math.inf
KINDS = dict(mhs='MetropolisHastingsSampler', hmc='HamiltonianMonteCarloSampler', sli='SliceSampler')


class Kill(BaseException):
    """the process dies here"""


class Injector:
    """Raises `exc` in a frame of one of `files` after `ops` bytecodes counted from arming."""

    def __init__(self, files, exc, ops):
        self.files = tuple(os.path.join(REPO, 'cpnest', f) for f in files)
        self.exc, self.left = exc, ops
        self.armed = self.fired = False

    def local(self, frame, event, arg):
        frame.f_trace_opcodes = True
        if self.armed and not self.fired and event == 'opcode':
            self.left -= 1
            # (no signal is delivered between a test and the jump it decides, and the jump back of a loop is not covered by the "try" around it)
            if self.left < 0 and not dis.opname[frame.f_code.co_code[frame.f_lasti]].startswith('JUMP_'):
                self.fired = True
                raise self.exc()
        return self.local

    def glob(self, frame, event, arg):
        return self.local(frame, event, arg) if frame.f_code.co_filename in self.files else None

    def lost(self, unraisable):
        """raised while a generator was being disposed of: the interpreter drops it, as it does with a signal; try again"""
        if self.fired and isinstance(unraisable.exc_value, self.exc):
            self.fired, self.left = False, 20
            sys.settrace(self.glob)

    def __enter__(self):
        self.hook, sys.unraisablehook = sys.unraisablehook, self.lost
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        sys.unraisablehook = self.hook


# ---------------------------------------------------------------- integrator

def state_matches(ns, w, k, logLmax):
    s = w.snaps[k]
    who = 'the resumed integrator (%d iterations done, %d when interrupted%s)' % (k, w.rounds, ', in the middle of one' if w.in_round else '')
    check(ns.iteration == s['iteration'], '%s has iteration %r, expected %r', who, ns.iteration, s['iteration'])
    ids = [p['id'] for p in ns.params]
    check(sorted(ids) == sorted(i for _, _, i in s['live']), '%s has live points %s, at a completed iteration they are %s', who, sorted(ids), sorted(i for _, _, i in s['live']))
    check([p.logL for p in ns.params] == sorted(l for l, _, _ in s['live']), '%s has unordered live points', who)
    got = [p['id'] for p in ns.nested_samples]
    want = [i for _, _, i in w.dead[:s['dead']]]
    check(sorted(got) == sorted(want) and [p.logL for p in ns.nested_samples] == [l for l, _, _ in w.dead[:s['dead']]], '%s has nested samples %s, expected %s', who, got, want)
    for p in list(ns.params) + list(ns.nested_samples):
        check(same_point(p, w.sent[p['id']]), '%s has a point %r, which was %r', who, p, w.sent[p['id']])
    check([float(x) for x in ns.state.logLs] == [-INF] + [b for b, _ in w.deaths[:s['deaths']]], '%s has another likelihood curve', who)
    check(len(ns.state.log_vols) == len(ns.state.logLs) and abs(float(ns.state.log_vols[-1]) - s['logX']) <= 1e-9 * (1 + abs(s['logX'])), '%s has log-volume %r, expected %r', who, ns.state.log_vols[-1], s['logX'])
    z = float(ns.state.logZ)
    check(z == s['logZ'] or abs(z - s['logZ']) <= 1e-8 * (1 + abs(s['logZ'])), '%s has log-evidence %r, expected %r', who, z, s['logZ'])
    check(len(ns.insertion_indices) == s['indices'] and all(abs(a - b) < 1e-12 for a, b in zip(ns.insertion_indices, w.indices)), '%s has other insertion indices', who)
    check(len(ns.rolling_p) == s['tests'], '%s has %d rolling p-values, %d tests were due', who, len(ns.rolling_p), s['tests'])
    check(float(ns.logLmin.value) == s['bound'], '%s publishes the bound %r, expected %r', who, ns.logLmin.value, s['bound'])
    check(float(ns.logLmax.value) == logLmax, '%s has the maximum %r, it was %r', who, ns.logLmax.value, logLmax)


def run_integrator(case, ctx):
    r = NSRun(case)
    w = r.world
    try:
        with sut('NestedSampler'):
            ns = r.make()
        path = ns.resume_file
        interruptions = 0
        resumed_at = 0
        for after, ops, how, *more in case['interrupt']:
            newn = more[0] if more else None
            w.manager.periodic_checkpoint_interval = 0.0 if how in ('kill', 'periodic') else INF
            inj = Injector(('NestedSampling.py', 'nest2pos.py'), Kill if how == 'kill' else CheckPoint, ops)
            start = w.answers

            def arm():
                if w.answers - start >= after:
                    inj.armed = True
            w.on_answer = arm
            if after == 0:
                inj.armed = True
            out = end = None
            if ns is None:
                break
            r.ns = ns
            try:
                with inj:
                    out = r.loop()
                end = 'completed'
            except SystemExit as e:
                sys.settrace(None)
                check(inj.fired, 'the loop exits (status %r) without having been interrupted', e.code)
                check(e.code == 130, 'the interrupted loop exits with status %r', e.code)
                end = 'saved'
            except (CheckPoint, Kill) as e:
                sys.settrace(None)
                end = 'dead' if isinstance(e, Kill) else 'raised'
            if end == 'completed':
                break
            populating = w.rounds == 0 and not w.in_round
            if end == 'raised':
                ending = any(p.stopped for p in w.pipes) or w.manager.logLmin.value == INF or (not w.in_round and w.rounds and w.cond <= case['tol'])
                nothing = interruptions > 0 and w.rounds == resumed_at and not w.in_round
                check(populating or ending or nothing, 'a signal in iteration %d left the loop without saving', w.rounds + 1)
                ctx.label('interrupted while populating' if populating else 'interrupted after the last iteration' if ending else 'interrupted before going on')
                if not os.path.exists(path) or ending:
                    return
            if end == 'saved':
                check(w.manager.checkpoint_flag.value or all(p.stopped or 'checkpoint' in p.other for p in w.pipes), 'not every sampler was asked to checkpoint')
                check(os.path.exists(path), 'no state was saved')
            elif not os.path.exists(path):
                check(w.rounds <= 1, 'no state was saved although %d iterations were completed with periodic checkpoints', w.rounds)
                ctx.label('died before the first checkpoint')
                return
            interruptions += 1
            logLmax = w.manager.logLmax.value
            if newn is not None:
                ctx.label('resumed with %s samplers' % ('fewer' if newn < w.n else 'more' if newn > w.n else 'as many'))
                w.n = newn
            w.attach(SimManager(w.n))
            with sut('NestedSampler.resume'):
                ns = NestedSampler.resume(path, w.manager, w.model)
            k = len(ns.state.logLs) - 1
            if any(p is None for p in ns.params) or len(w.initial) < w.N or not w.snaps and not ns.initialised:
                check(populating, 'an unpopulated state was saved in iteration %d', w.rounds)
                ctx.label('unpopulated state saved')
                return
            if not w.snaps:
                w.snap()
            check(max(resumed_at, w.rounds - 1) <= k <= w.rounds, 'the saved state has %d iterations, %d were completed', k, w.rounds)
            if end == 'dead':
                w.manager.logLmax._v = ns.logLmax.value         # of the time of the checkpoint
                check(ns.logLmax.value <= logLmax, 'the maximum %r was saved, it is %r', ns.logLmax.value, logLmax)
                logLmax = ns.logLmax.value
            state_matches(ns, w, k, logLmax)
            ctx.label('resumed from a periodic checkpoint' if end == 'dead' else 'signal', 'interrupted in the middle of an iteration' if w.in_round else 'interrupted between iterations')
            w.rollback(k)
            resumed_at = k
        if end != 'completed':
            w.on_answer = None
            w.manager.periodic_checkpoint_interval = INF
            r.ns = ns
            with sut('resumed loop'):
                out = r.loop()
        conserved(w, ns, out)
        check([float(x) for x in ns.state.logLs] == [-INF] + [b for b, _ in w.deaths] + sorted(l for l, _, _ in w.live), 'the likelihood curve of the resumed run is not that of its samples')
        check(w.cond <= case['tol'] + 1e-7, 'the resumed run stopped with %r remaining, the tolerance is %r', w.cond, case['tol'])
        check(len(ns.insertion_indices) == len(w.indices), '%d insertion indices for %d accepted points', len(ns.insertion_indices), len(w.indices))
        check(len(ns.rolling_p) == len(w.tests), '%d rolling p-values, %d tests were due', len(ns.rolling_p), len(w.tests))
        ctx.nontrivial(interruptions > 0 and w.rounds > 1)
        ctx.label('%d interruptions' % interruptions)
    finally:
        sys.settrace(None)
        r.close()


# ---------------------------------------------------------------- samplers

class ScriptPipe:
    """The sampler's end of its pipe: requests come at generated polls."""

    def __init__(self, script, at_poll=None):
        self.script, self.polls, self.at_poll = list(script), 0, at_poll
        self.inbox, self.sent = [], []
        self.got = 0

    def poll(self, timeout=0):
        if self.polls < len(self.script):
            m = self.script[self.polls]
            if m is not False:
                self.inbox.append(m() if callable(m) else m)
        self.polls += 1
        if self.at_poll:
            self.at_poll(self.polls)
        return bool(self.inbox)

    def recv(self):
        check(self.inbox, 'the sampler waits for a message although none was sent')
        self.got += 1
        return pickle.loads(pickle.dumps(self.inbox.pop(0)))

    def send(self, m):
        self.sent.append(pickle.loads(pickle.dumps(m)))


class Guarded(Mod):
    """a likelihood that takes care of its own errors"""

    def log_likelihood(self, p):
        try:
            return super().log_likelihood(p)
        except (Violation, Budget):
            raise
        except Exception:
            return -INF


def run_sampler(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    real_checkpoint = S.Sampler.checkpoint
    saved, count = [], [0]
    try:
        model = Guarded(case)
        kind = case['kind']
        path = os.path.join(d, 'sampler_0.pkl')
        seed_all(case['rs'])
        man = OneManager()
        s = make_sampler(kind, model, man, case['maxmcmc'], case['poolsize'], case['seed'], resume_file=path, verbose=case['verbose'], output=d)

        def recording(self):
            saved.append(sampler_state(self))
            count[0] += 1
            del saved[:-2]
            return real_checkpoint(self)
        S.Sampler.checkpoint = recording
        interruptions = 0
        for seg in case['segments'] + [None]:
            def request(q, raising):
                def make():
                    pool = sorted(s.evolution_points, key=lambda p: p.logL)
                    p = pool[min(len(pool) - 1, int(q * len(pool)))]
                    if raising:
                        man.logLmin.value = max(man.logLmin.value, p.logL)
                    return p.copy()
                return make
            script = [False if op is None else request(*op) for op in (seg or case['segments'][0])['ops']]
            nreq = sum(1 for m in script if m is not False)
            how = seg['how'] if seg else 'stop'
            man.periodic_checkpoint_interval = 0.0 if how == 'kill' else INF
            inj = Injector(('sampler.py', 'proposal.py', 'model.py'), Kill if how == 'kill' else CheckPoint, seg['bytecodes'] if seg else 0)

            def at_poll(n):
                if how in ('kill', 'signal', 'likelihood') and n >= len(script):
                    inj.armed = True
                if how == 'flag' and n >= len(script):
                    man.checkpoint_flag.value = 1
            if how == 'message':
                script.append('checkpoint')
            if how == 'stop':
                script.append(None)
            man.pipe = s.producer_pipe = pipe = ScriptPipe(script, at_poll)
            model.hook = None
            if seg and seg['early'] and how in ('kill', 'signal'):
                def hook(p, inj=inj):
                    inj.armed = True
                model.hook = hook
            if how == 'likelihood':
                inj.left = 10**9
                countdown = [seg['bytecodes'] % 60]

                def deliver(p, inj=inj, countdown=countdown, early=seg['early']):
                    check(not inj.fired, 'a signal that came during an evaluation of the likelihood is ignored')
                    if inj.armed or early:
                        countdown[0] -= 1
                        if countdown[0] < 0:
                            inj.fired = True
                            raise CheckPoint()
                model.hook = deliver
            before = count[0]
            end = None
            try:
                with inj, contextlib.redirect_stderr(io.StringIO()):
                    s.produce_sample()
                end = 'returned'
            except SystemExit as e:
                sys.settrace(None)
                check(e.code == 130, 'the sampler exits with status %r', e.code)
                end = 'exit'
            except Kill:
                sys.settrace(None)
                end = 'killed'
            if how == 'stop':
                check(end == 'returned', 'the sampler ended with %r after the stop message', end)
            elif how in ('message', 'flag'):
                check(end == 'exit', 'the sampler returned instead of exiting with status 130 after a checkpoint request')
            elif how in ('signal', 'likelihood'):
                check(inj.fired and end == 'returned', 'an interrupted sampler ended with %r', end)
            if how != 'kill' and not inj.fired:
                check(pipe.got >= nreq and len(pipe.sent) == nreq, '%d requests, %d answers', nreq, len(pipe.sent))
            for m in pipe.sent:
                p = m[3]
                check(all(a < v < b for v, (a, b) in zip(p.values, model.bounds)) and p.logL == model.llike(p) and p.logP == model.log_prior(p), 'answer %r does not have the values of the model', p)
            if seg is None:
                break
            # ------------- resume
            if how == 'kill':
                if not os.path.exists(path):
                    check(not saved, 'no state was saved')
                    ctx.label('died before the first checkpoint')
                    return
            else:
                check(os.path.exists(path) and count[0] > before, 'no state was saved (%s)', how)
                check(not differences(sampler_state(s), saved[-1]), 'the sampler changed after saving: %s', differences(sampler_state(s), saved[-1]))
                if s.initialised:
                    size = len(s.evolution_points)
                    check(case['poolsize'] - (how in ('signal', 'likelihood')) - lost(interruptions) <= size <= case['poolsize'], 'the pool saved has %d points, poolsize is %d', size, case['poolsize'])
            old = man
            man = OneManager()
            man.logLmin.value, man.logLmax.value = old.logLmin.value, old.logLmax.value
            with sut('%s.resume' % KINDS[kind]):
                s = getattr(S, KINDS[kind]).resume(path, man, model)
            got = sampler_state(s)
            check(any(not differences(got, x) for x in saved[-2 if how == 'kill' else -1:]), 'the resumed sampler differs from the saved state in %s', differences(got, saved[-1]))
            check(type(s).__name__ == KINDS[kind], 'a %s was resumed as %s', KINDS[kind], type(s).__name__)
            check(s.resume_file == path and os.path.join(s.output, '') == os.path.join(d, ''), 'the resumed sampler has files %r, %r', s.resume_file, s.output)
            interruptions += 1
            ctx.label(how, 'initialised' if s.initialised else 'not initialised')
        ctx.label(kind)
        check(len(s.evolution_points) <= case['poolsize'], 'the pool grew to %d', len(s.evolution_points))
        ctx.nontrivial(interruptions > 0)
    except Budget:
        raise Inconclusive('likelihood budget')
    finally:
        sys.settrace(None)
        S.Sampler.checkpoint = real_checkpoint
        shutil.rmtree(d, ignore_errors=True)


def lost(interruptions):
    """points in flight at earlier interruptions; the pool fills up again with later requests"""
    return interruptions


@st.composite
def sampler_cases(draw):
    kind = draw(st.sampled_from(['mhs', 'sli', 'mhs', 'sli', 'hmc']))
    d = draw(st.integers(1, 3))
    op = st.one_of(st.none(), st.tuples(st.floats(0, 0.5 if kind == 'hmc' else 0.9), st.booleans()))
    seg = st.fixed_dictionaries(dict(ops=st.lists(op, min_size=1, max_size=8), how=st.sampled_from(['message', 'flag', 'signal', 'signal', 'likelihood', 'kill']),
                                     bytecodes=st.one_of(st.integers(0, 300), st.integers(0, 6000)), early=st.sampled_from([False, False, False, True])))
    return dict(kind=kind, dim=d, bounds=[[0.0, 1.0]] * d, centre=[0.5] * d, prior=draw(st.sampled_from(['flat', 'gauss'])), like='gauss', sig=0.3,
                poolsize=draw(st.integers(50, 60)) if kind == 'hmc' else draw(st.integers(8, 16)), maxmcmc=10, seed=draw(st.integers(0, 999)), rs=draw(seeds), budget=8000 if kind == 'hmc' else 20000,
                verbose=draw(st.sampled_from([0, 0, 0, 3])), segments=draw(st.lists(seg, min_size=1, max_size=3)))


# ---------------------------------------------------------------- real processes

def healthy(r, what):
    note = '%s\n%s' % (r.get('error') or r['log'][-1500:], r['stacks'])
    check(r['end'] != 'hung', '%s: every process sleeps for ever\n%s', what, note)
    check(r['end'] != 'runaway', '%s: the run does not end\n%s', what, note)
    check(r['end'] != 'left', '%s: the program ended with status %r and left processes behind\n%s', what, r['code'], note)


def run_real(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    nmh = case['nthreads'] - case['nham'] - case['nsli']
    kinds = ['MetropolisHastingsSampler'] * nmh + ['HamiltonianMonteCarloSampler'] * case['nham'] + ['SliceSampler'] * case['nsli']
    try:
        saved = None
        interrupted = 0
        for i, trig in enumerate(case['triggers'] + [None]):
            kw = dict(resume=True)
            if i and case.get('resize'):
                case = dict(case, nthreads=case['resize'][i - 1], nsli=case['resize'][i - 1] if case['nsli'] else 0)
                kinds = kinds[:1] * case['nthreads']
                trig = trig and dict(trig, proc=trig['proc'] % case['nthreads'])
                ctx.label('resumed with another number of samplers')
            killed = trig is not None and trig['sig'] == 'SIGKILL'
            if killed or case['periodic']:
                kw['periodic_checkpoint_interval'] = 0.02
            cfg = dict(case, trigger=trig, kw=kw, output='out', rs=case['rs'] + i)
            if case['nham']:
                cfg['cpu'] = 60
            r = execute(cfg, d, 'run%d' % i)
            if case['nham'] and r['end'] == 'runaway':
                # a Hamiltonian sampler starts from the discarded point and tries until it crosses the bound, however unlikely that is
                raise Inconclusive('CPU budget of a Hamiltonian run')
            what = 'run %d (%s)' % (i, 'to the end' if trig is None else '%(sig)s from sampler %(proc)d at its evaluation %(at)d' % trig + (' to the group' if trig['group'] else ''))
            out = os.path.join(d, 'out')
            nspath = os.path.join(out, 'nested_sampler_resume.pkl')
            finished = any(f.startswith('chain_') and f.endswith('.txt') for f in os.listdir(out))
            if killed and r['code'] == -9:
                ctx.label('killed')
            else:
                healthy(r, what)
                check(not r.get('error'), '%s: %s', what, r.get('error'))
                check(r['code'] == (0 if r['stage'] == 'done' else 130), '%s: the program exits with status %r\n%s', what, r['code'], r['log'][-1500:])
                check(trig is not None or r['stage'] == 'done', '%s: exits with status %r without having been interrupted', what, r['code'])
                check(r['kinds'] == kinds, '%s: samplers %r, expected %r', what, r['kinds'], kinds)
            if r.get('stage') == 'done':
                L = [row[-2] for row in r['chain']]
                check(len(L) == r['iteration'] + case['nlive'], '%s: %d nested samples after %d replacements with %d live points', what, len(L), r['iteration'], case['nlive'])
                check(all(a <= b for a, b in zip(L, L[1:])), '%s: the chain is not ordered', what)
                check(math.isfinite(r['logZ']), '%s: log-evidence %r', what, r['logZ'])
                check(r['exitcodes'] == [0] * len(kinds), '%s: the samplers ended with %r', what, r['exitcodes'])
                if saved:
                    done, live = saved
                    got = [tuple(row[:-2]) for row in r['chain']]
                    check(got[:len(done)] == done, '%s: the chain does not begin with the %d nested samples saved', what, len(done))
                    rest = Counter(got[len(done):])
                    check(not Counter(live) - rest, '%s: live points saved are not in the final chain: %s', what, list((Counter(live) - rest))[:3])
                    ctx.label('completed from a saved state')
                    ctx.nontrivial(True)
                if interrupted == 0 and trig is not None:
                    ctx.label('not reached')
                return
            interrupted += 1
            if finished:
                ctx.label('interrupted after the last iteration')
                return
            if not killed:
                for k, kind in enumerate(kinds):
                    f = os.path.join(out, 'sampler_%d.pkl' % k)
                    check(os.path.exists(f), '%s: sampler %d saved no state', what, k)
            for k, kind in enumerate(kinds):
                f = os.path.join(out, 'sampler_%d.pkl' % k)
                if os.path.exists(f):
                    with open(f, 'rb') as fh:
                        s = pickle.load(fh)
                    check(type(s).__name__ == kind, '%s: the state of sampler %d is of a %s', what, k, type(s).__name__)
                    check(not s.initialised or len(s.evolution_points) >= case['poolsize'] - 1, '%s: sampler %d saved a pool of %d points', what, k, len(s.evolution_points))
            if os.path.exists(nspath):
                with open(nspath, 'rb') as fh:
                    ns = pickle.load(fh)
                check(len(ns.params) == case['nlive'] and all(p is not None for p in ns.params), '%s: the state saved has %d live points', what, len(ns.params))
                check(len(ns.nested_samples) == ns.iteration and (ns.iteration % case['nthreads'] == 0 or case.get('resize')), '%s: the state saved has %d nested samples after %d replacements', what, len(ns.nested_samples), ns.iteration)
                new = [tuple(p.values) for p in ns.nested_samples], [tuple(p.values) for p in ns.params]
                if saved:
                    check(new[0][:len(saved[0])] == saved[0], '%s: the nested samples saved do not begin with those saved before', what)
                saved = new
                ctx.label('interrupted while replacing')
            else:
                check(not saved, '%s: the saved state is gone', what)
                ctx.label('interrupted while populating')
            ctx.label(*({trig['sig'], 'group' if trig['group'] else 'main process only'} | set(kinds)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def real_cases(draw):
    nthreads = draw(st.integers(1, 4))
    mix = draw(st.sampled_from(['mhs', 'sli', 'both', 'both', 'mhs', 'all']))
    nham = 1 if mix == 'all' else 0
    nsli = nthreads if mix == 'sli' else 0 if mix == 'mhs' else (nthreads - nham) // 2
    # the larger the number the later in the run; most are reached
    trig = st.fixed_dictionaries(dict(proc=st.integers(0, nthreads - 1), at=st.one_of(st.integers(1, 60), st.integers(100, 1500), st.integers(300, 4000)),
                                      sig=st.sampled_from(['SIGINT', 'SIGTERM', 'SIGINT', 'SIGQUIT', 'SIGALRM', 'SIGUSR1', 'SIGUSR2', 'SIGKILL', 'SIGKILL']), group=st.booleans()))
    trigs = draw(st.lists(trig, min_size=1, max_size=2))
    for t in trigs:
        if t['sig'] not in ('SIGINT', 'SIGTERM'):
            t['group'] = t['sig'] == 'SIGKILL'
    d = draw(st.integers(1, 2))
    resize = draw(st.lists(st.integers(1, 5), min_size=2, max_size=2)) if mix in ('mhs', 'sli') and draw(st.booleans()) else None
    return dict(dim=d, bounds=[[0.0, 1.0]] * d, centre=[0.5] * d, prior=draw(st.sampled_from(['flat', 'gauss'])), like='gauss', sig=draw(st.sampled_from([0.1, 0.2])), resize=resize,
                nlive=draw(st.integers(40, 60) if nham else st.integers(10, 30)), poolsize=50 if nham else draw(st.integers(10, 30)), maxmcmc=draw(st.integers(10, 25)), nthreads=nthreads, nham=nham, nsli=nsli,
                verbose=0, seed=draw(st.integers(1, 10**4)), rs=draw(seeds), triggers=trigs, periodic=draw(st.sampled_from([False, False, True])))


@st.composite
def integrator_cases(draw):
    c = draw(scripted(maxlive=16, tols=st.sampled_from([0.1, 0.3, 0.02])))
    n = c['nlive']
    after = st.one_of(st.integers(0, 40), st.integers(n, n + 60), st.integers(n, n + 60))
    ops = st.one_of(st.integers(0, 60), st.integers(0, 700))
    newn = st.one_of(st.none(), st.none(), st.integers(1, min(6, n - 1)))
    c['interrupt'] = draw(st.lists(st.tuples(after, ops, st.sampled_from(['signal', 'signal', 'periodic', 'kill']), newn), min_size=1, max_size=4))
    return c


# ---------------------------------------------------------------- runs that are not resumed

def outcome(cp, out):
    """what a completed run says"""
    files = {}
    for f in sorted(os.listdir(out)):
        if f.startswith('chain_') or f in ('header.txt', 'nested_samples.dat', 'posterior.dat', 'insertion_indices.dat'):
            with open(os.path.join(out, f)) as fh:
                files[f] = fh.read()
    return dict(chain=[point(p) for p in cp.NS.nested_samples], logZ=float(cp.NS.logZ), info=float(cp.NS.state.info), indices=[float(x) for x in cp.NS.insertion_indices],
                posterior=cp.posterior_samples.tolist(), files=files)


def run_scratch(case, ctx):
    """a run that is not to be resumed, or has nothing to resume from, starts from scratch"""
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        def go(c, where, **kw):
            os.makedirs(where, exist_ok=True)
            with sut('run'):
                sim, cp = simulate(c, where, **kw)
            return outcome(cp, os.path.join(where, 'out'))
        new = case['new']
        want = go(new, os.path.join(d, 'fresh'), resume=False)
        there = os.path.join(d, 'there')
        go(dict(case['old'], dim=new['dim'], bounds=new['bounds'], centre=new['centre']), there, resume=False, periodic_checkpoint_interval=0.0)
        saved = [f for f in os.listdir(os.path.join(there, 'out')) if f.endswith('.pkl')]
        for f in os.listdir(os.path.join(there, 'out')):
            if not f.endswith('.pkl') or (f.startswith('sampler') and hash_of(f) % 4 == case['lost']):
                os.remove(os.path.join(there, 'out', f))
        got = go(new, there, resume=False)
        for k in want:
            check(got[k] == want[k], 'a run with resume=False in a folder with the saved states %s of another run differs from one in an empty folder (%s)', sorted(saved), k)
        got = go(new, os.path.join(d, 'empty'), resume=True)
        for k in want:
            check(got[k] == want[k], 'a run with resume=True and nothing to resume from differs from one with resume=False (%s)', k)
        ctx.nontrivial('nested_sampler_resume.pkl' in saved and any(f.startswith('sampler') for f in saved))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hash_of(s):
    return sum(map(ord, s))


@st.composite
def scratch_cases(draw):
    d = draw(st.integers(1, 2))

    def one(hmc=0):
        n = draw(st.integers(1 + hmc, 3))
        c = plain(n)
        if hmc:
            c.update(nham=1, nsli=draw(st.integers(0, n - 1)), poolsize=50, nlive=40, tol=5.0)
        return c

    def plain(n):
        return dict(dim=d, bounds=[[0.0, 1.0]] * d, centre=[0.5] * d, prior='flat', like='gauss', sig=0.3, nthreads=n, nham=0, nsli=draw(st.integers(0, n)), poolsize=draw(st.integers(8, 12)),
                    maxmcmc=10, nlive=draw(st.integers(n + 4, 12)), verbose=0, seed=draw(st.integers(1, 5)), rs=draw(seeds), budget=2 * 10**5, tol=draw(st.sampled_from([0.5, 1.0])),
                    sched=dict(seed=draw(seeds), weights=[1.0] * (n + 1), quantum=draw(st.sampled_from([1, 4, 15]))))
    hmc = draw(st.integers(0, 7)) == 0
    return dict(old=one(), new=one(hmc), lost=draw(st.integers(0, 7)))


FACETS = [Facet('integrator', integrator_cases(), run_integrator, 1600, 40000, shards=8,
                rule='the real integrator with scripted samplers is interrupted at a generated bytecode of its code (signal, or death with periodic checkpoints), up to four times; non-trivial = a resumed run that completes'),
          Facet('samplers', sampler_cases(), run_sampler, 500, 10000, shards=8,
                rule='a real sampler with scripted requests is asked to checkpoint (message, flag, signal at a generated bytecode, or death with periodic checkpoints) and resumed; non-trivial = a resumed sampler that goes on to the stop message'),
          Facet('processes', real_cases(), run_real, 64, 1000, shards=8, shrink=False, budget_s=240,
                rule='complete real runs: a signal (or SIGKILL with periodic checkpoints) is sent by a sampler at its n-th evaluation to the program or to the whole group, the run is resumed, up to twice; non-trivial = a run completed from a saved state'),
          Facet('scratch', scratch_cases(), run_scratch, 96, 2000, shards=8,
                rule='complete simulated runs, once in an empty folder and once among the saved states of another run; non-trivial = integrator and samplers had saved states')]
