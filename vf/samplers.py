"""Models and manager stand-ins for driving the real samplers in process."""
import math
import random

import numpy as np

from .engine import Inconclusive, Violation
from .gen import parnames
from .simns import Box, INF
from cpnest.model import Model
from cpnest.parameter import LivePoint


class Budget(BaseException):
    """raised from the user model when a case has used its likelihood evaluations"""


class Mod(Model):
    """A deterministic model described by a case; counts its evaluations."""

    def __init__(self, case):
        d = case['dim']
        self.names = parnames(d)
        self.bounds = [list(b) for b in case['bounds'][:d]]
        self.prior, self.like = case['prior'], case['like']
        self.mid = [0.5 * (a + b) for a, b in self.bounds]
        self.w = [b - a for a, b in self.bounds]
        self.centre = [a + c * w for (a, b), c, w in zip(self.bounds, case['centre'][:d], self.w)]
        self.sig = case['sig']
        self.calls = 0
        self.budget = case.get('budget', 10**9)
        self.hook = None

    def __getstate__(self):
        return dict(self.__dict__, hook=None)

    def unit(self, p):
        return [(v - a) / w for v, (a, b), w in zip(p.values, self.bounds, self.w)]

    def lprior(self, p):
        u = self.unit(p)
        if self.prior == 'flat':
            return 0.0
        if self.prior == 'linear':          # density proportional to 0.2 + u0
            return math.log(0.2 + u[0])
        if self.prior == 'gauss':
            return -0.5 * sum(((x - 0.4) / 0.3) ** 2 for x in u)
        if self.prior == 'exp':
            return -3.0 * sum(u)
        if self.prior == 'hole':            # a slab without prior
            return -INF if 0.3 < u[0] < 0.5 else 0.0
        raise ValueError(self.prior)

    def log_prior(self, p):
        if not self.in_bounds(p):
            return -INF
        return self.lprior(p)

    def llike(self, p):
        r = [(v - c) / (w * self.sig) for v, c, w in zip(p.values, self.centre, self.w)]
        k = self.like
        if k == 'gauss':
            return -0.5 * sum(x * x for x in r)
        if k == 'cone':
            return -sum(abs(x) for x in r)
        if k == 'ramp':
            return sum(r)
        if k == 'steps':                    # plateaus
            return -math.floor(sum(abs(x) for x in r))
        if k == 'dead':                     # zero likelihood on one side
            return -INF if r[0] > 0.5 else -0.5 * sum(x * x for x in r)
        if k == 'nan':
            return math.nan if r[0] > 1.0 else -0.5 * sum(x * x for x in r)
        if k == 'ring':
            q = math.sqrt(sum(x * x for x in r))
            return -0.5 * ((q - 1.0) / 0.3) ** 2
        raise ValueError(k)

    def log_likelihood(self, p):
        self.calls += 1
        if self.calls > self.budget:
            raise Budget()
        if self.hook:
            self.hook(p)
        return self.llike(p)

    def force(self, p):
        """minus the gradient of the log prior"""
        f = np.zeros(1, dtype={'names': p.names, 'formats': ['f8' for _ in p.names]})
        u = self.unit(p)
        for i, n in enumerate(p.names):
            g = 0.0
            if self.prior == 'linear' and i == 0:
                g = -1.0 / (0.2 + u[0]) / self.w[0]
            elif self.prior == 'gauss':
                g = (u[i] - 0.4) / 0.09 / self.w[i]
            elif self.prior == 'exp':
                g = 3.0 / self.w[i]
            f[n] = g
        return f


class DummyPipe:
    def poll(self, timeout=0):
        return False


class OneManager:
    """What a sampler needs of the manager."""

    def __init__(self, pipe=None, thread_id=0):
        self.history = []
        self.logLmin = Box(-INF)
        self.logLmax = Box(-INF)
        self.checkpoint_flag = Box(0)
        self.periodic_checkpoint_interval = INF
        self.pipe = pipe or DummyPipe()
        self.thread_id = thread_id

    def connect_producer(self):
        return self.pipe, self.thread_id


class MaxBox(Box):
    """the shared maximum: no sampler may lower it"""

    @property
    def value(self):
        return self._v

    @value.setter
    def value(self, v):
        v = float(v)
        if not v >= self._v:
            raise Violation('the shared maximum log-likelihood was lowered from %r to %r' % (self._v, v))
        self._v = v


def proposals_for(kind, mix, model):
    """the default cycle, or one cycle of a single named proposal / generated weights"""
    from cpnest import proposal as P
    if kind == 'hmc':
        return P.HamiltonianProposalCycle(model=model)
    if mix is None:
        return P.DefaultProposalCycle() if kind == 'mhs' else P.EnsembleSliceProposalCycle()
    table = dict(walk=P.EnsembleWalk, stretch=P.EnsembleStretch, de=P.DifferentialEvolution, eigen=P.EnsembleEigenVector,
                 sdiff=P.EnsembleSliceDifferential, sgauss=P.EnsembleSliceGaussian, scorr=P.EnsembleSliceCorrelatedGaussian)
    names = [n for n, w in mix]
    if kind == 'mhs':
        return P.ProposalCycle([table[n]() for n in names], [w for n, w in mix])
    if len(names) == 1:
        return table[names[0]]()
    c = P.EnsembleSliceProposalCycle()
    c.proposals = [table[n]() for n in names]
    c.weights = [w for n, w in mix]
    c.set_cycle()
    return c


def make_sampler(kind, model, manager, maxmcmc, poolsize, seed, mix=None, **kw):
    from cpnest import sampler as S
    cls = dict(mhs=S.MetropolisHastingsSampler, hmc=S.HamiltonianMonteCarloSampler, sli=S.SliceSampler)[kind]
    return cls(model, maxmcmc, seed=seed, poolsize=poolsize, proposal=proposals_for(kind, mix, model), manager=manager,
               verbose=kw.pop('verbose', 0), output=kw.pop('output', '.'), resume_file=kw.pop('resume_file', 'sampler_0.pkl'), **kw)


def seed_all(n):
    random.seed(n)
    np.random.seed(n % 2**32)


def same(a, b):
    return a == b or (a != a and b != b)
