"""Complete runs of CPNest with its processes simulated in one process.

multiprocessing.Process and Pipe are replaced while CPNest is constructed and run: a process is a thread, and only
one of them runs at a time.  Control is handed over at scheduling points (every use of a pipe, every evaluation of
the user model) as a generated schedule says.  What processes do not share is swapped at the hand-over: the state
of both random generators and the process id; what is sent through a pipe is pickled.  The likelihood bounds live
in real shared memory, as in the program.

Anything that is not a wait for another process's work is found without a clock: receiving from a sampler that has
no request to answer, and joining one that does not stop."""
import contextlib
import io
import math
import multiprocessing
import multiprocessing.managers
import os
import pickle
import random
import sys
import threading
import traceback

import numpy as np

from .engine import HarnessError, Inconclusive, Violation, check
from .samplers import Mod
from cpnest.parameter import LivePoint

INF = math.inf


class Abort(BaseException):
    """ends the thread of a simulated process"""


class Proc:
    def __init__(self, sim, idx, target):
        self.sim, self.idx, self.target = sim, idx, target
        self.sem = threading.Semaphore(0)
        self.rng = None
        self.blocked = None         # function: may it go on?
        self.started = self.done = False
        self.exitcode = None
        self.thread = None
        self.calls = 0              # evaluations of the model
        self.polls = 0
        self.late = 0               # evaluations after the end of the run
        self.idle_from = None       # calls when a poll said there is no request
        self.error = None
        self.stop_polls = 0


class Channel:
    """Two ends; end 0 is the integrator's, end 1 the sampler's."""

    def __init__(self, sim, k):
        self.sim, self.k = sim, k
        self.queues = ([], [])       # messages to end 0, to end 1
        self.requests = self.taken = self.answers = 0
        self.users = (set(), set())
        self.stop = False            # the stop message was taken
        self.other = []
        self.sent = []               # answers
        self.consumed = []           # answers received by the integrator
        self.ends = (End(self, 0), End(self, 1))


class End:
    def __init__(self, ch, side):
        self.ch, self.side = ch, side

    def use(self):
        sim, ch = self.ch.sim, self.ch
        ch.users[self.side].add(sim.current.idx)
        check(len(ch.users[self.side]) == 1, 'processes %s use the same end of channel %d', sorted(ch.users[self.side]), ch.k)
        sim.point()

    def send(self, obj):
        ch = self.ch
        self.use()
        data = pickle.dumps(obj)
        if self.side == 0:
            if isinstance(obj, LivePoint):
                ch.requests += 1
            else:
                ch.other.append(obj)
        else:
            check(ch.answers < ch.taken, 'sampler %d sends an answer although it has answered all the %d requests it has received', ch.k, ch.taken)
            check(not ch.stop, 'sampler %d sends an answer after the stop message', ch.k)
            check(isinstance(obj, tuple) and len(obj) == 4 and isinstance(obj[3], LivePoint), 'sampler %d answers %r', ch.k, obj)
            ch.answers += 1
            ch.sent.append(pickle.loads(data)[3])
        ch.queues[1 - self.side].append(data)
        ch.sim.point()

    def recv(self):
        ch, sim = self.ch, self.ch.sim
        self.use()
        q = ch.queues[self.side]
        if not q:
            if self.side == 0:
                def ready():
                    if q:
                        return True
                    check(ch.requests > ch.answers, 'deadlock: the integrator waits for sampler %d, which has answered all its %d requests (received %s)', ch.k, ch.requests, ch.other)
                    for i in ch.users[1]:
                        check(not sim.procs[i].done, 'deadlock: the integrator waits for sampler %d, which has ended\n%s', ch.k, sim.procs[i].error)
                    return False
            else:
                def ready():
                    return bool(q)
            sim.block(ready)
        obj = pickle.loads(q.pop(0))
        if self.side == 1:
            if isinstance(obj, LivePoint):
                check(ch.answers == ch.taken, 'sampler %d takes request %d before answering the one before', ch.k, ch.taken + 1)
                ch.taken += 1
            elif obj is None:
                ch.stop = True
        else:
            ch.consumed.append(obj[3])
        sim.point()
        return obj

    def poll(self, timeout=0):
        ch, sim = self.ch, self.ch.sim
        self.use()
        me = sim.current
        me.polls += 1
        r = bool(ch.queues[self.side])
        if self.side == 1:
            if me.idle_from is not None:
                check(me.calls > me.idle_from, 'sampler %d does nothing while it has no request', ch.k)
            me.idle_from = None if r else me.calls
            if ch.stop or (sim.bound is not None and sim.bound() == INF):
                me.stop_polls += 1
                check(me.stop_polls < 40, 'sampler %d goes on after it was told to stop', ch.k)
        sim.point()
        return r

    def close(self):
        pass

    def fileno(self):
        raise OSError('simulated')


class Sim:
    def __init__(self, case):
        s = case['sched']
        self.rng = random.Random(s['seed'])
        self.prefix = list(s.get('prefix', []))
        self.weights = list(s['weights'])
        self.quantum = s['quantum']
        self.procs = []
        self.channels = []
        self.current = None
        self.left = 1
        self.failure = None
        self.aborting = False
        self.switches = 0
        self.budget = case.get('budget', 10**9)
        self.total = 0
        self.bound = None
        self.getpid = os.getpid
        self.base = os.getpid() * 100

    # ---- scheduling
    def point(self):
        """a scheduling point of the current process"""
        if self.aborting:
            raise Abort()
        self.left -= 1
        if self.left <= 0:
            self.switch()

    def evaluation(self):
        self.current.calls += 1
        self.total += 1
        if self.bound is not None and self.bound() == INF:
            self.current.late += 1
            check(self.current.late < 40000, 'sampler %d has not stopped 40000 evaluations after the bound became infinite', self.current.idx - 1)
        elif self.total > self.budget:
            raise Inconclusive('evaluation budget')
        self.point()

    def runnable(self):
        out = []
        for p in self.procs:
            if p.started and not p.done:
                if p.blocked is None:
                    out.append(p)
                elif p.blocked():
                    p.blocked = None
                    out.append(p)
        return out

    def switch(self):
        me = self.current
        ready = self.runnable()
        check(ready, 'deadlock: every process waits for another')
        if self.prefix:
            nxt = ready[self.prefix.pop(0) % len(ready)]
        else:
            w = [self.weights[p.idx % len(self.weights)] for p in ready]
            nxt = self.rng.choices(ready, w)[0]
        self.left = 1 if self.prefix else 1 + int(self.rng.expovariate(1.0) * self.quantum)
        if nxt is not me:
            self.switches += 1
            self.hand(nxt)

    def hand(self, nxt, wait=True):
        me = self.current
        me.rng = (random.getstate(), np.random.get_state())
        random.setstate(nxt.rng[0])
        np.random.set_state(nxt.rng[1])
        self.current = nxt
        nxt.sem.release()
        if wait:
            me.sem.acquire()
            if self.aborting:
                raise Abort()

    def block(self, ready):
        me = self.current
        me.blocked = ready
        try:
            if ready():
                me.blocked = None
                return
            self.switch()
        finally:
            me.blocked = None

    # ---- processes
    def body(self, p):
        p.sem.acquire()
        try:
            if self.aborting:
                raise Abort()
            p.target()
            p.exitcode = 0
        except SystemExit as e:
            p.exitcode = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Abort:
            p.exitcode = -1
        except (Violation, Inconclusive, HarnessError) as e:
            self.failure = self.failure or e
        except BaseException as e:
            p.exitcode = 1
            p.error = ''.join(traceback.format_exception(e))[-3000:]
        p.done = True
        if self.aborting:
            self.ended.release()
            return
        if self.failure is None:
            try:
                ready = self.runnable()
                check(ready, 'deadlock: every process waits for another')
            except (Violation, Inconclusive) as e:
                self.failure = e
        main = self.procs[0]
        if self.failure is not None:
            self.aborting = True         # the main thread cleans up
            nxt = main
        else:
            w = [self.weights[q.idx % len(self.weights)] for q in ready]
            nxt = self.rng.choices(ready, w)[0]
            self.left = 1 + int(self.rng.expovariate(1.0) * self.quantum)
        self.hand(nxt, wait=False)

    def start(self, p):
        # a fork: the child inherits the state of numpy's generator, python seeds its own anew
        p.rng = (random.Random(self.rng.getrandbits(64)).getstate(), np.random.get_state())
        p.started = True
        p.thread = threading.Thread(target=self.body, args=(p,), daemon=True)
        p.thread.start()
        self.point()

    def join(self, p):
        self.block(lambda: p.done)

    @contextlib.contextmanager
    def patched(self):
        sim = self
        real = {n: getattr(multiprocessing, n) for n in ('Process', 'Pipe')}

        def Pipe(duplex=True):
            ch = Channel(sim, len(sim.channels))
            sim.channels.append(ch)
            return ch.ends

        class Process:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
                self._proc = Proc(sim, len(sim.procs), lambda: target(*args, **kwargs))
                self._target = target
                self.name, self.daemon = name or 'Process-%d' % len(sim.procs), daemon
                sim.procs.append(self._proc)

            def start(self):
                sim.start(self._proc)

            def join(self, timeout=None):
                sim.join(self._proc)

            def is_alive(self):
                return self._proc.started and not self._proc.done

            @property
            def exitcode(self):
                return self._proc.exitcode

            @property
            def pid(self):
                return sim.base + self._proc.idx

            def terminate(self):
                raise Violation('a sampler is terminated')
            kill = terminate
        new = dict(Process=Process, Pipe=Pipe)
        import cpnest.cpnest as C
        mods = [(m, k, n) for m in (multiprocessing, C) for n, v in real.items() for k, w in list(vars(m).items()) if w == v]
        M = multiprocessing.managers.SyncManager
        mstart = M.__dict__.get('start')
        for m, k, n in mods:
            setattr(m, k, new[n])
        M.start = lambda self, *a, **kw: None
        os.getpid = lambda: sim.base + sim.current.idx
        try:
            yield
        finally:
            os.getpid = self.getpid
            if mstart is None:
                del M.start
            else:
                M.start = mstart
            for m, k, n in mods:
                setattr(m, k, real[n])

    def run(self, fn):
        """fn() is the main program"""
        main = Proc(self, 0, None)
        main.started = True
        self.procs.append(main)
        self.current = main
        err = io.StringIO()
        try:
            with self.patched(), contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
                try:
                    out = fn()
                except Abort:
                    if self.failure is None:
                        raise HarnessError('aborted without a reason')
                    raise self.failure
                finally:
                    self.cleanup()
        finally:
            self.aborting = True
        return out

    def cleanup(self):
        """end every thread left"""
        self.aborting = True
        self.ended = threading.Semaphore(0)
        for p in self.procs[1:]:
            if p.started and not p.done:
                p.sem.release()
                if not self.ended.acquire(timeout=60):
                    raise HarnessError('a simulated process does not end')


class SimMod(Mod):
    """Every evaluation is a scheduling point"""
    sim = None
    tick = 0

    def __getstate__(self):
        return dict(super().__getstate__(), sim=None)

    def log_prior(self, p):
        if self.sim is not None and self.sim.current.idx:
            self.sim.evaluation()
        return super().log_prior(p)


def simulate(case, where, model=None, after=None, **kw):
    """A complete simulated run; returns (sim, cp)."""
    from cpnest.cpnest import CPNest
    sim = Sim(case)
    model = model or SimMod(case)
    model.sim = sim
    random.seed(case['rs'])
    np.random.seed(case['rs'] % 2**32)
    holder = {}

    def program():
        cp = holder['cp'] = CPNest(model, output=os.path.join(where, 'out'), nlive=case['nlive'], poolsize=case['poolsize'], maxmcmc=case['maxmcmc'], nthreads=case['nthreads'],
                                   nhamiltonian=case['nham'], nslice=case['nsli'], verbose=case['verbose'], seed=case['seed'], **kw)
        cp.pool = list(cp.process_pool)
        sim.bound = lambda: cp.manager.logLmin.value
        if 'tol' in case:
            cp.NS.tolerance = case['tol']
        cp.run()
        if after:
            after(cp)
        return cp
    try:
        cp = sim.run(program)
    finally:
        model.sim = None
    return sim, cp
