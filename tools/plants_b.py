NS='cpnest/NestedSampling.py'; PYX='cpnest/parameter.pyx'; SM='cpnest/sampler.py'; PR='cpnest/proposal.py'; N2='cpnest/nest2pos.py'; MO='cpnest/model.py'; CP='cpnest/cpnest.py'; UT='cpnest/utils.py'
PLANTS=[
dict(id='b06-tie-order', prop='C03', edits=[(NS,'return bisect.bisect(self._keys, self._key(item))','return bisect.bisect_left(self._keys, self._key(item))')],
 needs='two live points with the same log-likelihood',
 breaks='a point inserted among points of equal likelihood goes before them and its rank is too low',
 demo='''
from nsim import *
from cpnest.NestedSampling import OrderedLivePoints
P = lambda L: LivePoint(['a'], logL=L)
o = OrderedLivePoints([P(1.0), P(2.0), P(2.0), P(3.0)])
sys.exit(0 if o.insert_live_point(P(2.0)) == 3 else 1)
'''),
dict(id='b07-populate-zero-like', prop='C04', edits=[(NS,'if params[i].logP!=-np.inf and params[i].logL!=-np.inf:','if params[i].logP!=-np.inf or params[i].logL!=-np.inf:')],
 needs='a sampler that answers with a point of non-zero prior and zero likelihood (or the other way round) while the live points are populated',
 breaks='points of zero likelihood enter the initial live set',
 demo='''
from nsim import *
def ans(man, req):
    man.k = getattr(man, 'k', 0) + 1
    if man.k in (2, 5):
        return man.new(-math.inf)
    return above(man, req)
ns, man = run(8, 1, ans)
sys.exit(0 if all(p.logL > -math.inf for p in ns.nested_samples) else 1)
'''),
dict(id='b09-shrink-log1p', prop='C02', edits=[(NS,'        logt=-nreplace/nlive','        logt=np.log1p(-nreplace/(nlive+1.0))')],
 needs='a look at the volumes recorded (the evidence moves by about 1/nlive per unit of information only)',
 breaks='each step shrinks the volume by log(1-n/(N+1)) instead of n/N',
 demo='''
from nsim import *
from cpnest.NestedSampling import _NSintegralState
s = _NSintegralState(4)
for l in (-3.0, -2.0): s.increment(l)
sys.exit(0 if abs(s.log_vols[2] + 0.5) < 1e-12 else 1)
'''),
dict(id='b10-slice-plateau', prop='C06', edits=[(SM,'                        if newparam.logL > Y:','                        if newparam.logL >= Y:')],
 needs='a likelihood with plateaus and a bound equal to the value of one',
 breaks='the slice sampler returns points whose likelihood equals the bound',
 demo='''
from nsim import *
import cpnest.proposal as P
from cpnest.sampler import SliceSampler
class G(Model):
    names = ['a', 'b']; bounds = [[-5, 5], [-5, 5]]
    def log_likelihood(self, p): return -float(int(abs(p['a'])))
class Mn:
    periodic_checkpoint_interval = math.inf
    nthreads = 1
    def __init__(self): self.logLmin, self.logLmax, self.checkpoint_flag = V(-math.inf), V(-math.inf), V(0)
    def connect_producer(self): return None, 0
random.seed(1); np.random.seed(1)
m, man = G(), Mn()
s = SliceSampler(m, 20, seed=1, poolsize=20, proposal=P.EnsembleSliceProposalCycle(), manager=man, output='.', verbose=0)
s.reset()
bad = 0
for _ in range(100):
    old = {(p['a'], p['b']) for p in s.evolution_points}
    n, p = next(s.yield_sample(-2.0))
    bad += (p['a'], p['b']) not in old and not p.logL > -2.0
print(bad)
sys.exit(1 if bad else 0)
'''),
dict(id='b11-prior-ratio-start', prop='C07', edits=[(SM,"""                        logp_old = newparam.logP
                        sub_accepted+=1""","""                        sub_accepted+=1""")],
 needs='a prior that is not flat, and a chain that accepts more than one jump',
 breaks='the Metropolis rule compares each new point with the prior at the start of the chain, not at the current point',
 demo='''
from nsim import *
import cpnest.proposal as P
from cpnest.sampler import MetropolisHastingsSampler
class G(Model):
    names = ['a']; bounds = [[0, 10]]
    def log_likelihood(self, p): return 0.0
    def log_prior(self, p): return -p['a'] if self.in_bounds(p) else -math.inf
class Step(P.Proposal):
    def get_sample(self, old, **kw):
        out = old.copy(); out['a'] += random.gauss(0, 2.0); return out
    def set_ensemble(self, e): pass
class Mn:
    periodic_checkpoint_interval = math.inf
    nthreads = 1
    def __init__(self): self.logLmin, self.logLmax, self.checkpoint_flag = V(-math.inf), V(-math.inf), V(0)
    def connect_producer(self): return None, 0
random.seed(1); np.random.seed(1)
s = MetropolisHastingsSampler(G(), 100, seed=1, poolsize=20, proposal=Step(), manager=Mn(), output='.', verbose=0)
for _ in range(20):
    s.evolution_points.append(LivePoint(['a'], d=array('d', [min(9.9, random.expovariate(1))]), logL=0.0, logP=0.0))
s.Nmcmc = 30
x = [next(s.yield_sample(-math.inf))[1]['a'] for _ in range(4000)]
print(np.mean(x))
sys.exit(0 if abs(np.mean(x) - 1.0) < 0.15 else 1)
'''),
dict(id='b12-end-volumes', prop='C08', edits=[(N2,'        log_vols_end[i+1]=log_vols_end[i]+np.log1p(-1.0/(Nlive-i))','        log_vols_end[i+1]=log_vols_end[i]+np.log1p(-1.0/Nlive)')],
 needs='a posterior with appreciable weight in the last live points',
 breaks='the volumes of the final live points keep shrinking by a constant factor, so most of the remaining volume goes to the last point',
 demo='''
from nsim import *
from cpnest.nest2pos import compute_weights
L = np.zeros(60); L[:50] = np.linspace(-5, -0.1, 50)
z, w = compute_weights(L, 10)
e = w[-10:]
sys.exit(0 if max(e[:-1]) - min(e[:-1]) < 0.3 else 1)
'''),
dict(id='b13-truncated-shares', prop='C09', edits=[(N2,'Ns=[int(round(Npost*np.exp(log_ev-log_total_evidence))) for log_ev in log_evs]','Ns=[int(Npost*np.exp(log_ev-log_total_evidence)) for log_ev in log_evs]')],
 needs='several runs combined, or a share just below an integer in floating point',
 breaks='the number of samples of each run is rounded down',
 demo='''
from nsim import *
from cpnest.nest2pos import draw_N_posterior_many
np.random.seed(1)
dt = [('x', 'f8'), ('logL', 'f8'), ('logPrior', 'f8')]
def chain(n, s):
    a = np.zeros(n, dtype=dt); a['logL'] = np.sort(np.random.uniform(-10, 0, n)); a['x'] = s; return a
a = chain(200, 1)
out = draw_N_posterior_many([a, a.copy(), a.copy()], [20, 20, 20], 101)
sys.exit(0 if len(out) == 102 else 1)
'''),
dict(id='b14-divide-reciprocal', prop='C10', edits=[(PYX,'            result.values[i]=self.values[i]/other','            result.values[i]=self.values[i]*(1.0/other)')],
 needs='a divisor whose reciprocal is not exact (or overflows)',
 breaks='division by a number multiplies with the rounded reciprocal: last bits differ, and tiny divisors give infinity',
 demo='''
from nsim import *
p = LivePoint(['a', 'b'], d=array('d', [5.0, 1e-310]))
q = p / 3.0
r = p / 1e-310
sys.exit(0 if q['a'] == 5.0 / 3.0 and r['b'] == 1.0 and 49.0 * 1.0 == (LivePoint(['a'], d=array('d', [49.0 * 49.0])) / 49.0)['a'] else 1)
'''),
dict(id='b15-closed-upper', prop='C11', edits=[(MO,'return all(self.bounds[i][0] < param.values[i] < self.bounds[i][1] for i in range(param.dimension))','return all(self.bounds[i][0] < param.values[i] <= self.bounds[i][1] for i in range(param.dimension))')],
 needs='a point exactly at an upper limit',
 breaks='the upper limit counts as inside',
 demo='''
from nsim import *
class G(Model):
    names = ['a', 'b']; bounds = [[0, 1], [-2, 3]]
m = G()
sys.exit(0 if not m.in_bounds(m.from_normalised([0.5, 1.0])) and m.log_prior(m.from_normalised([1.0, 0.5])) == -math.inf else 1)
'''),
dict(id='b16-evidence-live-max', prop='C12', edits=[(NS,"f.write('{0:.5f} {1:.5f} {2:.2f}\\n'.format(self.state.logZ, self.logLmax.value, self.state.info))","f.write('{0:.5f} {1:.5f} {2:.2f}\\n'.format(self.state.logZ, self.nested_samples[-1].logL, self.state.info))")],
 needs='a sampler that visited a higher likelihood than any nested sample has',
 breaks='the evidence file gives the highest likelihood of the chain instead of the maximum likelihood found',
 demo='''
from nsim import *
d = tempfile.mkdtemp()
def ans(man, req):
    p = above(man, req)
    man.logLmax.value = 3.25
    return p
man = Man(1, ans)
try:
    ns = NestedSampler(M(), nlive=10, output=os.path.join(d, ''), verbose=0, seed=1, manager=man)
    ns.nested_sampling_loop()
    row = open(ns.evidence_file).read().split('\\n')[1].split()
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if abs(float(row[1]) - 3.25) < 1e-4 else 1)
'''),
dict(id='b17-resume-maximum', prop='C13', edits=[(NS,'        obj.logLmax.value = obj.llmax','        obj.logLmax.value = obj.params[-1].logL if obj.initialised else obj.llmax')],
 needs='a run interrupted when a sampler had seen a higher likelihood than any live point has, then resumed',
 breaks='the maximum likelihood found before the interruption is forgotten',
 demo='''
from nsim import *
from cpnest.cpnest import CheckPoint
d = tempfile.mkdtemp()
def ans(man, req):
    man.k = getattr(man, 'k', 0) + 1
    if man.k == 40:
        raise CheckPoint()
    p = above(man, req)
    man.logLmax.value = 3.25
    return p
man = Man(1, ans)
try:
    ns = NestedSampler(M(), nlive=20, output=os.path.join(d, ''), verbose=0, seed=1, manager=man)
    try:
        ns.nested_sampling_loop()
        sys.exit(1)
    except SystemExit:
        pass
    man2 = Man(1, above)
    NestedSampler.resume(ns.resume_file, man2, M())
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if man2.logLmax.value == 3.25 else 1)
'''),
dict(id='b18-drop-before-write', prop='C14', edits=[(NS,"        self.logger.critical('Checkpointing nested sampling')","        self.logger.critical('Checkpointing nested sampling in {0!s}'.format(self.resume_file))\n        self.last_checkpoint_time = time.time()\n        if os.path.exists(self.resume_file):\n            os.remove(self.resume_file)")],
 needs='a crash, or a full disk, while a second checkpoint is being written',
 breaks='the previous checkpoint is removed before the new one is complete',
 demo='''
from nsim import *
d = tempfile.mkdtemp()
man = Man(1, above)
try:
    ns = NestedSampler(M(), nlive=10, output=os.path.join(d, ''), verbose=0, seed=1, manager=man)
    ns.checkpoint()
    class Bad:
        def __reduce__(self): raise OSError(28, 'No space left on device')
    ns.extra = Bad()
    try:
        ns.checkpoint()
    except OSError:
        pass
    ok = os.path.exists(ns.resume_file)
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if ok else 1)
'''),
dict(id='b19-home-folder', prop='C16', edits=[(CP,"        output = os.path.join(output, '')","        output = os.path.join(os.path.expanduser(output), '')")],
 needs='a relative output folder whose name begins with a tilde',
 breaks='the run writes in the home folder of the user instead of the folder named',
 demo='''
from nsim import *
d = os.path.realpath(tempfile.mkdtemp())
os.environ['HOME'] = os.path.join(d, 'home')
os.makedirs(os.path.join(d, 'home'))
os.makedirs(os.path.join(d, 'w'))
repo = os.getcwd()
os.chdir(os.path.join(d, 'w'))
class G(Model):
    names = ['a']; bounds = [[0, 1]]
    def log_likelihood(self, p): return 0.0
try:
    cp = cpnest.CPNest(G(), nlive=10, output='~', nthreads=1, maxmcmc=10, poolsize=8)
    cp.manager.shutdown()
    ok = os.path.isdir(os.path.join(d, 'w', '~')) and not os.listdir(os.path.join(d, 'home'))
finally:
    os.chdir(repo)
    shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if ok else 1)
'''),
dict(id='b20-log-left-open', prop='C17', edits=[(UT,"""    def __exit__(self, type, value, traceback):
        self.close()""","""    def __exit__(self, type, value, traceback):
        if type is None:
            self.close()""")],
 needs='a context left by an exception',
 breaks='the file handler stays attached after an exception and keeps recording',
 demo='''
from nsim import *
from cpnest.utils import LogFile
d = tempfile.mkdtemp()
lg = logging.getLogger('cpnest')
n = len(lg.handlers)
try:
    try:
        with LogFile(os.path.join(d, 'x.log')):
            raise RuntimeError
    except RuntimeError:
        pass
    ok = len(lg.handlers) == n
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if ok else 1)
'''),
dict(id='b21-ensemble-cached', prop='C18', edits=[(PR,"""        self.ensemble=ensemble
        for p in self.proposals:
            if isinstance(p,EnsembleProposal):""","""        if ensemble is self.ensemble:
            return
        self.ensemble=ensemble
        for p in self.proposals:
            if isinstance(p,EnsembleProposal):""")],
 needs='the same ensemble object passed again after its points have changed, as the samplers do',
 breaks='the covariance used by eigenvector jumps is never updated',
 demo='''
from nsim import *
import cpnest.proposal as P
from collections import deque
np.random.seed(1); random.seed(1)
pool = deque([LivePoint(['a', 'b'], d=array('d', np.random.normal(0, 10, 2))) for _ in range(30)], maxlen=30)
c = P.DefaultProposalCycle()
c.set_ensemble(pool)
for _ in range(30):
    pool.append(LivePoint(['a', 'b'], d=array('d', np.random.normal(0, 0.01, 2))))
c.set_ensemble(pool)
e = [p for p in c.proposals if isinstance(p, P.EnsembleEigenVector)][0]
sys.exit(0 if max(np.abs(e.eigen_values)) < 1e-2 else 1)
'''),
dict(id='b22-prior-without-nested', prop='C19', edits=[(CP,"""        if self.NS.prior_sampling:
            prior_samples.append(self.get_nested_samples())""","""        if self.NS.prior_sampling and not prior_samples:
            prior_samples.append(self.get_nested_samples())""")],
 needs='prior sampling, where every sampler leaves draws of its own',
 breaks='the nlive draws collected by the integrator are left out of the prior samples',
 demo='''
from nsim import *
class G(Model):
    names = ['a']; bounds = [[0, 1]]
    def log_likelihood(self, p): return -p['a']
d = tempfile.mkdtemp()
try:
    cp = cpnest.CPNest(G(), nlive=20, output=d, nthreads=2, maxmcmc=30, poolsize=20, prior_sampling=True, verbose=0)
    cp.run()
    have = set(np.asarray(cp.prior_samples['a']).ravel().tolist())
    ok = all(p['a'] in have for p in cp.NS.nested_samples)
    cp.manager.shutdown()
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if ok else 1)
'''),
dict(id='b23-ratio-to-last-kept', prop='C20', edits=[(N2,'        if logpost[i] - logpost[i-1] > np.log(uniform()):','        if output[-1][\'logL\']+output[-1][\'logPrior\'] < logpost[i] - np.log(uniform()) and logpost[i] >= logpost[i-1] - 2.0:')],
 needs='consecutive thinned points whose log-posterior falls by more than 2',
 breaks='thinned points are compared with the last kept one and large decreases are always refused',
 demo='''
from nsim import *
from cpnest.nest2pos import resample_mcmc_chain
dt = [('x', 'f8'), ('logL', 'f8'), ('logPrior', 'f8')]
np.random.seed(3)
n = down = kept = 0
for k in range(400):
    c = np.zeros(60, dtype=dt)
    c['x'] = np.random.normal(size=60); c['logL'] = np.random.uniform(-3.0, 0.0, 60)
    out = resample_mcmc_chain(c.copy())
    n += len(out)
print(n / 400)
# mean acceptance of independent points: 1 for increases, exp(-d) for decreases
u = np.random.uniform(-3, 0, (200000, 2)); p = np.minimum(1, np.exp(u[:, 1] - u[:, 0])).mean()
print(p)
from cpnest.nest2pos import acl
np.random.seed(3)
m = 0.0
for k in range(400):
    c = np.random.normal(size=60); np.random.uniform(-3, 0, 60)
    m += 1 + (len(range(0, 60, int(round(acl(c))))) - 1) * p
sys.exit(0 if abs(n / m - 1) < 0.05 else 1)
'''),
dict(id='b24-rolling-saved', prop='C21', edits=[(NS,"""                self.insertion_indices,
                newline""","""                indices,
                newline""")],
 needs='the rolling test asked to save the indices after more than nlive replacements',
 breaks='only the last nlive indices are saved',
 demo='''
from nsim import *
d = tempfile.mkdtemp()
man = Man(1, above)
try:
    ns = NestedSampler(M(), nlive=10, output=os.path.join(d, ''), verbose=0, seed=1, manager=man)
    ns.nested_sampling_loop()
    ns.check_insertion_indices(rolling=True, filename='i.dat')
    n = len(np.loadtxt(os.path.join(d, 'i.dat')))
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if n == len(ns.insertion_indices) > 10 else 1)
'''),
dict(id='b25-drain-requests', prop='C22', edits=[(SM,"""                p = self.producer_pipe.recv()
""","""                p = self.producer_pipe.recv()
                while self.producer_pipe.poll():
                    # only the latest request matters
                    p = self.producer_pipe.recv()
""")],
 needs='two requests waiting in the pipe of one sampler (populating with nlive not a multiple of the samplers leaves one over)',
 breaks='a request that waited is dropped without an answer',
 demo='''
from nsim import *
from cpnest.sampler import MetropolisHastingsSampler
import cpnest.proposal as P
class G(Model):
    names = ['a']; bounds = [[0, 1]]
    def log_likelihood(self, p): return -p['a']
class Pp:
    def __init__(self): self.q, self.out = [], []
    def poll(self): return bool(self.q)
    def recv(self): return self.q.pop(0)
    def send(self, m): self.out.append(m)
pipe = Pp()
class Mn:
    periodic_checkpoint_interval = math.inf
    nthreads = 1
    def __init__(self): self.logLmin, self.logLmax, self.checkpoint_flag = V(-math.inf), V(-math.inf), V(0)
    def connect_producer(self): return pipe, 0
random.seed(1); np.random.seed(1)
m = G()
s = MetropolisHastingsSampler(m, 10, seed=1, poolsize=10, proposal=P.DefaultProposalCycle(), manager=Mn(), output='.', verbose=0)
s.reset()
pipe.q = [m.new_point(), m.new_point(), None]
s.produce_sample()
sys.exit(0 if len(pipe.out) == 2 else 1)
'''),
dict(id='b26-slice-seeds', prop='C23', edits=[(CP,'seed        = self.seed+nmhs+nhamiltonian+i,','seed        = self.seed+nmhs+i,')],
 needs='Hamiltonian and slice samplers in the same run',
 breaks='slice samplers get the seeds of the Hamiltonian ones and start from the same draws',
 demo='''
from nsim import *
class G(Model):
    names = ['a']; bounds = [[0, 1]]
    def log_likelihood(self, p): return 0.0
    def force(self, p): return np.zeros(1, dtype={'names': p.names, 'formats': ['f8']})
d = tempfile.mkdtemp()
try:
    cp = cpnest.CPNest(G(), nlive=10, output=d, nthreads=3, nhamiltonian=1, nslice=1, maxmcmc=10, poolsize=8)
    seeds = [p._target.__self__.seed for p in cp.process_pool]
    cp.manager.shutdown()
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if len(set(seeds)) == 3 else 1)
'''),
dict(id='b27-join-timeout', prop='C15', edits=[(CP,"""                self.NS.nested_sampling_loop()
                for each in self.process_pool:
                    each.join()""","""                self.NS.nested_sampling_loop()
                for each in self.process_pool:
                    each.join(0.05)""")],
 needs='a sampler that is busy (slow likelihood, long chain to save) when the run ends',
 breaks='the run goes on before its samplers have ended: their chains may be missing and processes are left behind',
 demo='''
from nsim import *
import time
class G(Model):
    names = ['a']; bounds = [[0, 1]]
    def log_likelihood(self, p):
        time.sleep(0.004); return -50 * p['a'] ** 2
d = tempfile.mkdtemp()
try:
    cp = cpnest.CPNest(G(), nlive=12, output=d, nthreads=2, nslice=1, maxmcmc=60, poolsize=8, verbose=0)
    cp.run()
    alive = [p.exitcode for p in cp.process_pool]
    for p in cp.process_pool: p.join()
    cp.manager.shutdown()
finally:
    shutil.rmtree(d, ignore_errors=True)
print(alive)
sys.exit(0 if alive == [0, 0] else 1)
'''),
dict(id='b28-slice-prior', prop='C01', edits=[(SM,'                Yp = oldparam.logP-np.random.exponential()','                Yp = oldparam.logP-0.1*np.random.exponential()')],
 needs='the slice sampler with a prior that is not flat',
 breaks='the slice under the prior density is far too thin, so the chains climb the prior: evidence and posterior are biased',
 demo='''
from nsim import *
import cpnest.proposal as P
from cpnest.sampler import SliceSampler
class G(Model):
    names = ['a']; bounds = [[0, 10]]
    def log_likelihood(self, p): return 0.0
    def log_prior(self, p): return -p['a'] if self.in_bounds(p) else -math.inf
class Mn:
    periodic_checkpoint_interval = math.inf
    nthreads = 1
    def __init__(self): self.logLmin, self.logLmax, self.checkpoint_flag = V(-math.inf), V(-math.inf), V(0)
    def connect_producer(self): return None, 0
random.seed(1); np.random.seed(1)
s = SliceSampler(G(), 30, seed=1, poolsize=20, proposal=P.EnsembleSliceProposalCycle(), manager=Mn(), output='.', verbose=0)
s.reset()
x = [next(s.yield_sample(-1.0))[1]['a'] for _ in range(600)]
print(np.mean(x))
sys.exit(0 if abs(np.mean(x) - 1.0) < 0.25 else 1)
'''),
]
