"""A tiny stand-in for the manager: scripted samplers answering the real NestedSampler."""
import os, sys, math, random, tempfile, shutil, logging
sys.path.insert(0, os.getcwd())
from array import array
import numpy as np
import cpnest
cpnest.console_handler.setLevel(100)
from cpnest.model import Model
from cpnest.parameter import LivePoint
from cpnest.NestedSampling import NestedSampler

class V:
    def __init__(self, v): self.value = v

class M(Model):
    names = ['id', 'x']
    bounds = [[-1e9, 1e9], [0, 1]]
    def log_likelihood(self, p): return 0.0

class Pipe:
    def __init__(self, man): self.man, self.q = man, []
    def send(self, p): self.q.append(p)
    def recv(self):
        if not self.q:
            print('deadlock'); sys.exit(1)
        return (0.5, 0.5, 3, self.man.answer(self.man, self.q.pop(0)))
    def poll(self): return bool(self.q)

class Man:
    periodic_checkpoint_interval = math.inf
    def __init__(self, n, answer):
        self.nthreads, self.answer = n, answer
        self.logLmin, self.logLmax, self.checkpoint_flag = V(-math.inf), V(-math.inf), V(0)
        self.consumer_pipes = [Pipe(self) for _ in range(n)]
        self.count = 0
        self.rng = random.Random(7)
    def new(self, L, logP=0.0):
        self.count += 1
        if L > self.logLmax.value: self.logLmax.value = L
        return LivePoint(['id', 'x'], d=array('d', [self.count, self.rng.random()]), logL=L, logP=logP)

def above(man, req):
    b = man.logLmin.value
    lo = b if b > -math.inf else -5.0
    return man.new(lo + (1 - lo) * man.rng.random())

def run(nlive, n, answer=above, stopping=0.1, seed=1, **kw):
    d = tempfile.mkdtemp()
    man = Man(n, answer)
    try:
        ns = NestedSampler(M(), nlive=nlive, output=os.path.join(d, ''), verbose=0, seed=seed, stopping=stopping, manager=man, **kw)
        ns.out = ns.nested_sampling_loop()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ns, man

class Pp:
    """a sampler's end of its pipe"""
    def __init__(self): self.q, self.out = [], []
    def poll(self): return bool(self.q)
    def recv(self): return self.q.pop(0)
    def send(self, m): self.out.append(m)

class Mn:
    """what a sampler needs of the manager"""
    periodic_checkpoint_interval = math.inf
    nthreads = 1
    def __init__(self, pipe=None):
        self.logLmin, self.logLmax, self.checkpoint_flag = V(-math.inf), V(-math.inf), V(0)
        self.pipe = pipe or Pp()
    def connect_producer(self): return self.pipe, 0

class Flat(Model):
    names = ['a']
    bounds = [[0, 1]]
    def log_likelihood(self, p): return -p['a']
    def force(self, p): return np.zeros(1, dtype={'names': p.names, 'formats': ['f8' for _ in p.names]})

def sampler(kind, model, maxmcmc=20, poolsize=20, seed=1, man=None, **kw):
    import cpnest.proposal as P, cpnest.sampler as S
    cls = dict(mhs=S.MetropolisHastingsSampler, hmc=S.HamiltonianMonteCarloSampler, sli=S.SliceSampler)[kind]
    pr = dict(mhs=P.DefaultProposalCycle, sli=P.EnsembleSliceProposalCycle, hmc=lambda: P.HamiltonianProposalCycle(model=model))[kind]()
    random.seed(seed); np.random.seed(seed)
    return cls(model, maxmcmc, seed=seed, poolsize=poolsize, proposal=pr, manager=man or Mn(), output='.', verbose=0, **kw)
