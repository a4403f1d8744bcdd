"""The real NestedSampler against scripted samplers, with a reference nested sampler run alongside.

The manager and its pipes are stand-ins: a request sent on a pipe is answered, when the answer is received,
by a script that decides whether the answer is acceptable, refused, tied, unusable...  Receiving with no
request outstanding is the deadlock the real program would run into."""
import contextlib
import io
import math
import os
import pickle
import random
import shutil
import tempfile
from array import array

import numpy as np

from .engine import Inconclusive, Violation, check
from cpnest.model import Model
from cpnest.parameter import LivePoint

INF = math.inf


class Box:
    """Stands for multiprocessing.Value"""

    def __init__(self, v, on_write=None):
        self._v = v
        self.on_write = on_write

    @property
    def value(self):
        return self._v

    @value.setter
    def value(self, v):
        self._v = float(v) if isinstance(self._v, float) else int(v)
        if self.on_write:
            self.on_write(self._v)

    def get_lock(self):
        return contextlib.nullcontext()


class Pipe:
    def __init__(self, world, i):
        self.world, self.i = world, i
        self.pending = []
        self.stopped = False
        self.other = []

    def send(self, obj):
        obj = pickle.loads(pickle.dumps(obj))
        if obj is None:
            self.stopped = True
            return
        if isinstance(obj, str):
            self.other.append(obj)
            return
        if self.stopped:
            raise Violation('a point was sent to sampler %d after it was told to stop' % self.i)
        if not isinstance(obj, LivePoint) or list(obj.names) != self.world.model.names:
            raise Violation('sampler %d was sent %r instead of a live point' % (self.i, obj))
        self.pending.append(obj)

    def recv(self):
        if not self.pending:
            raise Violation('deadlock: an answer is awaited from sampler %d, which has no request (requests outstanding: %s)'
                            % (self.i, [len(p.pending) for p in self.world.pipes]))
        req = self.pending.pop(0)
        return pickle.loads(pickle.dumps(self.world.answer(self.i, req)))

    def poll(self, timeout=0):
        return bool(self.pending)

    def close(self):
        pass


class SimManager:
    def __init__(self, nthreads):
        self.nthreads = nthreads
        self.logLmin = Box(-INF)
        self.logLmax = Box(-INF)
        self.checkpoint_flag = Box(0)
        self.periodic_checkpoint_interval = INF
        self.consumer_pipes = [None] * nthreads
        self.producer_pipes = []


class IdModel(Model):
    """Points carry a unique id; the likelihood is the script's business."""
    names = ['id', 'x']
    bounds = [[-1e9, 1e9], [0.0, 1.0]]

    def log_likelihood(self, p):
        return 0.0


def lse2(a, b):
    return np.logaddexp(a, b)


class World:
    """Answers requests by the script and runs the reference alongside."""

    def __init__(self, case, model=None):
        self.case = case
        self.N, self.n = case['nlive'], case['nthreads']
        self.model = model or IdModel()
        self.rng = random.Random(case['rs'])
        self.script = case['script']
        self.pos = 0
        self.nextid = 0
        self.cap = float(case['cap'])
        self.base = float(case['base'])
        self.lift = 0.1
        self.above = 0.5
        self.refusals = 0
        self.stats = dict(accepted=0, refused=0, tie=0, below=0, echo=0, unusable=0, tied_insert=0, new_max=0)
        self.budget = case.get('budget', 60000)
        self.answers = 0
        # reference
        self.live = []           # (logL, id, order)
        self.sent = {}           # id -> point as answered
        self.initial, self.accepted, self.dead = [], [], []
        self.in_round = False
        self.rounds = 0
        self.iteration = 0
        self.logX = 0.0
        self.Zterms = []
        self.logZ = -INF
        self.cond = INF
        self.ambiguous = False
        self.indices = []
        self.tests = []          # number of indices known at each rolling test
        self.deaths = []         # per round: (bound, logLmax then)
        self.snaps = []          # after populating and after each round
        self.on_answer = None
        self.attach(SimManager(self.n))

    def attach(self, manager):
        self.manager = manager
        self.pipes = [Pipe(self, i) for i in range(self.n)]
        manager.consumer_pipes = list(self.pipes)

    # ---- script
    def code(self):
        c = self.script[self.pos % len(self.script)]
        self.pos += 1
        return c

    def point(self, logL, logP=0.0):
        p = LivePoint(list(self.model.names), d=array('d', self.values()), logL=logL, logP=logP)
        self.sent[p['id']] = p.copy()
        return p

    def values(self):
        self.nextid += 1
        return [float(self.nextid), self.rng.random()]

    def see(self, logL):
        if logL > self.manager.logLmax.value:
            self.manager.logLmax._v = logL
            self.stats['new_max'] += 1

    def answer(self, i, req):
        self.answers += 1
        if self.answers > self.budget:
            raise Inconclusive('answer budget')
        if self.on_answer:
            self.on_answer()
        if len(self.initial) < self.N:
            p = self.initial_answer(req)
        else:
            p = self.loop_answer(req)
        return (self.rng.random(), self.rng.random(), self.rng.randrange(1, 50), p)

    def initial_answer(self, req):
        c = self.code()
        if c in (7, 8) and self.refusals < 12:
            self.refusals += 1
            self.stats['unusable'] += 1
            return self.point(-INF, 0.0) if c == 7 else self.point(self.base, -INF)
        self.refusals = 0
        L = self.base + (self.cap - self.base) * self.grid() * 0.8
        self.see(L)
        p = self.point(L, self.rng.choice([0.0, -1.25]))
        self.initial.append(p['id'])
        self.live.append((L, len(self.initial), p['id']))
        return p

    def grid(self):
        """in (0,1], coarse half of the time so that ties happen"""
        if self.case['ties'] and self.rng.random() < 0.5:
            return self.rng.randrange(1, 9) / 8.0
        return 1.0 - self.rng.random()

    def start_round(self):
        if not self.snaps:
            self.snap()
        if self.rounds and not self.cond > self.case['tol']:
            if abs(self.cond - self.case['tol']) < 1e-7:
                self.ambiguous = True
                raise Inconclusive('stopping condition within rounding of the tolerance')
            raise Violation('the run goes on although the remaining evidence %r is within the tolerance %r (iteration %d)' % (self.cond, self.case['tol'], self.iteration))
        self.live.sort()
        gone, self.live = self.live[:self.n], self.live[self.n:]
        self.bound = gone[-1][0]
        self.dead += gone
        r = self.n / self.N
        w = self.logX + self.bound + math.log(-math.expm1(-r))
        self.logZ = float(lse2(self.logZ, w))
        self.logX -= r
        lmax = self.manager.logLmax.value
        self.cond = float(lse2(self.logZ, lmax - self.iteration / self.N)) - self.logZ
        self.deaths.append((self.bound, lmax))
        self.left = self.n
        self.in_round = True
        self.refusals = 0

    def check_bound(self):
        got = self.manager.logLmin.value
        check(got == self.bound, 'the bound published is %r, the highest log-likelihood discarded so far is %r (iteration %d)', got, self.bound, self.iteration)

    def loop_answer(self, req):
        if not self.in_round:
            self.start_round()
        self.check_bound()
        c = self.code()
        if c in (1, 2, 3) and self.refusals < 6:
            self.refusals += 1
            self.stats['refused'] += 1
            if c == 1:
                self.stats['tie'] += 1
                return self.point(self.bound)
            if c == 2:
                self.stats['below'] += 1
                return self.point(self.bound - self.rng.choice([1e-9 * (1 + abs(self.bound)), 0.5, 10.0, INF]))
            self.stats['echo'] += 1
            return req
        self.refusals = 0
        above = [l for l, _, _ in self.live if l > self.bound]
        if self.bound >= self.cap:
            self.cap = max(self.bound + self.lift, math.nextafter(self.bound, INF))
            self.lift /= 2
        if c == 4 and above:
            L = self.rng.choice(above)
            self.stats['tied_insert'] += 1
        elif c == 5 and above:
            L = max(above)
        elif c == 6:
            L = math.nextafter(self.bound, INF)
        else:
            L = self.bound + (self.cap - self.bound) * self.grid()
            if not L > self.bound:
                L = math.nextafter(self.bound, INF)
        self.see(L)
        if c == 9:      # a chain saw something higher on the way
            self.see(L + self.above * self.rng.random())
            self.above /= 2
        p = self.point(L, self.rng.choice([0.0, -1.25]))
        rank = sum(1 for l, _, _ in self.live if l <= L)
        self.indices.append(rank / len(self.live))
        self.accepted.append(p['id'])
        self.stats['accepted'] += 1
        self.live.append((L, self.N + len(self.accepted), p['id']))
        self.iteration += 1
        self.left -= 1
        if self.left == 0:
            self.end_round()
        return p

    def end_round(self):
        self.in_round = False
        self.rounds += 1
        if (self.iteration % self.N) < self.n:
            self.tests.append(len(self.indices))
        self.snap()

    def snap(self):
        self.snaps.append(dict(live=list(self.live), dead=len(self.dead), accepted=len(self.accepted), indices=len(self.indices), tests=len(self.tests), deaths=len(self.deaths),
                               rounds=self.rounds, iteration=self.iteration, logX=self.logX, logZ=self.logZ, cond=self.cond, bound=self.deaths[-1][0] if self.deaths else -INF))

    def rollback(self, k):
        """forget everything after round k"""
        del self.snaps[k + 1:]
        s = self.snaps[k]
        self.live = list(s['live'])
        for name in ('dead', 'accepted', 'indices', 'tests', 'deaths'):
            del getattr(self, name)[s[name]:]
        self.rounds, self.iteration, self.logX, self.logZ, self.cond = s['rounds'], s['iteration'], s['logX'], s['logZ'], s['cond']
        self.in_round = False
        self.refusals = 0


class NSRun:
    """One complete run of the real NestedSampler in a scratch folder."""

    def __init__(self, case, model=None, world=None):
        self.case = case
        self.world = world or World(case, model)
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='ns.', dir='.'))
        self.ns = None

    def make(self, **kw):
        from cpnest.NestedSampling import NestedSampler
        c = self.case
        self.ns = NestedSampler(self.world.model, nlive=c['nlive'], output=os.path.join(self.dir, ''), verbose=c.get('verbose', 0), seed=c.get('seed', 1),
                                prior_sampling=c.get('prior_sampling', False), stopping=c['tol'], manager=self.world.manager, **kw)
        return self.ns

    def loop(self):
        with contextlib.redirect_stderr(io.StringIO()):
            return self.ns.nested_sampling_loop()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def same_point(p, q):
    return list(p.names) == list(q.names) and bytes(p.values) == bytes(q.values) and p.logL == q.logL and p.logP == q.logP
