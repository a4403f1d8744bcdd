CP='cpnest/cpnest.py'; PR='cpnest/proposal.py'; SM='cpnest/sampler.py'
PLANTS=[
dict(id='b44-slice-always-resumed', prop='C13', edits=[(CP,"""                if not os.path.exists(resume_file) or resume == False:
                    sampler = SliceSampler(self.user,""","""                if not os.path.exists(resume_file):
                    sampler = SliceSampler(self.user,""")],
 needs='a run with slice samplers and resume=False in a folder holding the state of an earlier run',
 breaks='the slice samplers continue the old run (its pool, seed and settings) although a fresh run was asked for',
 demo='''
from nsim import *
import pickle
class U(Model):
    names = ['a']; bounds = [[0, 1]]
    def log_likelihood(self, p): return -p['a']
d = tempfile.mkdtemp()
try:
    kw = dict(nlive=20, maxmcmc=30, verbose=0, seed=3, nthreads=1, nslice=1, output=d)
    old = cpnest.CPNest(U(), poolsize=17, resume=True, **kw)
    s = old.process_pool[0]._target.__self__
    s.checkpoint()
    old.manager.shutdown()
    new = cpnest.CPNest(U(), poolsize=40, resume=False, **kw)
    n = new.process_pool[0]._target.__self__.poolsize
    new.manager.shutdown()
    print('poolsize', n)
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if n == 40 else 1)
'''),
dict(id='b45-slice-cycle-stuck', prop='C18', edits=[(PR,"""        self.idx = (self.idx + 1) % self.N
        p = self.cycle[self.idx]
        new = p.get_direction(mu = mu, **kwargs)
""","""        p = self.cycle[self.idx]
        new = p.get_direction(mu = mu, **kwargs)
""")],
 needs='slice samplers',
 breaks='the mixture of slice directions is stuck at one of its three moves between two updates of the ensemble',
 demo='''
from nsim import *
import cpnest.proposal as P
np.random.seed(2); random.seed(2)
c = P.EnsembleSliceProposalCycle()
m = Flat()
c.set_ensemble([LivePoint(['a'], d=array('d', [random.random()])) for _ in range(20)])
n = [0, 0, 0]
for k, p in enumerate(c.proposals):
    def f(mu=1.0, k=k): n[k] += 1; return 0.0
    p.get_direction = f
for _ in range(300): c.get_direction(mu=1.0)
print(n)
sys.exit(0 if min(n) > 20 else 1)
'''),
dict(id='b46-added-later', prop='C18', edits=[(PR,"""        self.weights = self.weights + [weight]
        self.set_cycle()
""","""        self.weights = self.weights + [weight]
        if self.idx != 0: self.set_cycle()
""")],
 needs='a proposal added to a mixture before it was used',
 breaks='the added proposal is never used',
 demo='''
from nsim import *
import cpnest.proposal as P
np.random.seed(2); random.seed(2)
n = [0]
class Own(P.Proposal):
    log_J = 0.0
    def get_sample(self, old): n[0] += 1; return old
c = P.DefaultProposalCycle()
c.add_proposal(Own(), 1.0)
c.set_ensemble([LivePoint(['a'], d=array('d', [random.random()])) for _ in range(20)])
o = LivePoint(['a'], d=array('d', [0.5]))
for _ in range(300): c.get_sample(o.copy())
print(n)
sys.exit(0 if n[0] > 60 else 1)
'''),
]
