NS='cpnest/NestedSampling.py'; PYX='cpnest/parameter.pyx'; SM='cpnest/sampler.py'; PR='cpnest/proposal.py'; N2='cpnest/nest2pos.py'; MO='cpnest/model.py'; CP='cpnest/cpnest.py'; UT='cpnest/utils.py'
PLANTS=[
dict(id='b39-checkpoint-grid', prop='C27', edits=[(SM,"""                self.checkpoint()
                self.last_checkpoint_time = time.time()
""","""                self.checkpoint()
                # keep to a regular schedule
                self.last_checkpoint_time += self.manager.periodic_checkpoint_interval
""")],
 needs='a step that takes several intervals (a slow likelihood, a suspended machine)',
 breaks='after it the sampler saves its state after every sample until it has caught up',
 demo='''
from nsim import *
import time, shutil
d = tempfile.mkdtemp()
now = [1e9]
time.time = lambda: now[0]
class G(Flat):
    def log_likelihood(self, p):
        now[0] += 0.001
        return -p['a']
man = Mn(); man.periodic_checkpoint_interval = 50.0
s = sampler('mhs', G(), man=man, resume_file=os.path.join(d, 's.pkl'))
saves = []
real = s.checkpoint
s.checkpoint = lambda: saves.append(now[0])
n = [0]
def poll():
    n[0] += 1
    if n[0] == 5: now[0] += 1000.0
    if n[0] == 40: man.pipe.q.append(None)
    return bool(man.pipe.q)
man.pipe.poll = poll
s.produce_sample()
shutil.rmtree(d)
print(saves)
sys.exit(1 if len(saves) > 2 else 0)
'''),
dict(id='b40-checkpoint-with-test', prop='C27', edits=[(NS,"""                    self.check_insertion_indices()

                if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                    self.checkpoint()
                    self.last_checkpoint_time = time.time()
""","""                    self.check_insertion_indices()

                    if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                        self.checkpoint()
                        self.last_checkpoint_time = time.time()
""")],
 needs='an interval shorter than nlive replacements',
 breaks='the integrator saves its state only after every nlive replacements, however short the interval: a crash loses more than was asked',
 demo='''
from nsim import *
import time
now = [1e9]
time.time = lambda: now[0]
import cpnest.NestedSampling as N
saves = []
def answer(man, req):
    now[0] += 1.0
    return above(man, req)
N.NestedSampler.checkpoint = lambda self: saves.append(self.iteration)
Man.periodic_checkpoint_interval = 5.0
ns, man = run(40, 1, answer)
gaps = [b - a for a, b in zip(saves, saves[1:])]
print(saves[:10])
sys.exit(1 if not gaps or max(gaps) > 8 else 0)
'''),
dict(id='b41-mcmc-is-prior', prop='C28', edits=[(CP,"""                               mcmc_samples = self.mcmc_samples[n].ravel() if mc is not None else None,
""","""                               mcmc_samples = pri[n].ravel() if mc is not None else None,
""")],
 needs='a run at verbosity 3',
 breaks='the histogram of the MCMC samples shows the prior samples',
 demo='''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import cpnest, cpnest.cpnest as C, cpnest.plot as P
cpnest.console_handler.setLevel(100)
class U: names = ['a']
cp = C.CPNest.__new__(C.CPNest)
r = np.random.RandomState(1)
def arr(loc): 
    a = np.zeros(200, dtype=[('a', 'f8')]); a['a'] = loc + r.rand(200); return a
cp.posterior_samples, cp.prior_samples, cp.mcmc_samples, cp.nested_samples = arr(0), arr(10), arr(20), arr(30)
cp.verbose, cp.output, cp.user = 3, '.', U()
class NS: prior_sampling = False; insertion_indices = [0.5] * 10
cp.NS = NS()
seen = {}
def hist(x, name=None, prior_samples=None, mcmc_samples=None, filename=None): seen.update(x=x, p=prior_samples, m=mcmc_samples)
P.plot_hist = hist
P.plot_chain = P.plot_indices = lambda *a, **k: None
cp.plot(corner=False)
print(seen['x'].mean(), seen['p'].mean(), seen['m'].mean())
sys.exit(0 if seen['m'].mean() > 20 and 10 < seen['p'].mean() < 12 else 1)
'''),
dict(id='b42-last-indices', prop='C28', edits=[(CP,"plot.plot_indices(self.NS.insertion_indices, filename","plot.plot_indices(self.NS.insertion_indices[-self.nlive:], filename")],
 needs='a run at verbosity 2 with more replacements than live points',
 breaks='the histogram of insertion indices shows only the last nlive of them',
 demo='''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import cpnest, cpnest.cpnest as C, cpnest.plot as P
cpnest.console_handler.setLevel(100)
class U: names = ['a']
cp = C.CPNest.__new__(C.CPNest)
r = np.random.RandomState(1)
a = np.zeros(200, dtype=[('a', 'f8')]); a['a'] = r.rand(200)
cp.posterior_samples = cp.nested_samples = a
cp.prior_samples = cp.mcmc_samples = {'a': None}
cp.verbose, cp.output, cp.user, cp.nlive = 2, '.', U(), 50
class NS: prior_sampling = False; insertion_indices = list(r.rand(170)); Nlive = 50
cp.NS = NS()
seen = []
P.plot_hist = P.plot_chain = lambda *a, **k: None
P.plot_indices = lambda indices, *a, **k: seen.append(len(indices))
cp.plot(corner=False)
print(seen)
sys.exit(0 if seen == [170] else 1)
'''),
dict(id='b43-nreplace-kept', prop='C13', edits=[(NS,"""        self.params         = [None] * self.Nlive
        self.last""","""        self.params         = [None] * self.Nlive
        self.nreplace       = self.manager.nthreads
        self.last"""),(NS,"        nreplace = len(self.manager.consumer_pipes)\n","        nreplace = self.nreplace\n")],
 needs='a run resumed with another number of sampler processes than it was interrupted with',
 breaks='the resumed integrator goes on replacing as many points at once as before: it fails with fewer samplers, and leaves some idle with more',
 demo='''
from nsim import *
import pickle
d = tempfile.mkdtemp()
try:
    man = Man(3, above)
    ns = NestedSampler(M(), nlive=12, output=os.path.join(d, ''), verbose=0, seed=1, manager=man)
    ns.reset()
    for k in range(5): ns.consume_sample()
    ns.checkpoint()
    m2 = Man(2, above); m2.rng = random.Random(3)
    new = NestedSampler.resume(ns.resume_file, m2, M())
    try:
        new.nested_sampling_loop()
    except Exception as e:
        print(type(e).__name__, e); sys.exit(1)
    steps = len(new.state.logLs) - 1 - 12 - 5
    print(new.iteration, steps)
    sys.exit(0 if new.iteration == 15 + 2 * steps else 1)
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
]
