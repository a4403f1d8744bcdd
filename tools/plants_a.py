NS='cpnest/NestedSampling.py'; PYX='cpnest/parameter.pyx'; SM='cpnest/sampler.py'; PR='cpnest/proposal.py'; N2='cpnest/nest2pos.py'; MO='cpnest/model.py'; CP='cpnest/cpnest.py'; UT='cpnest/utils.py'
PLANTS=[
dict(id='b01-tie-accepted', prop='C04', edits=[(NS,'if proposed.logL > self.logLmin.value:','if proposed.logL >= self.logLmin.value:')],
 needs='a chain that returns the point it was given unchanged (no move accepted), or another point exactly at the bound',
 breaks='a point whose likelihood equals the bound is accepted, so an unchanged request enters the result twice',
 demo='''
from nsim import *
def ans(man, req):
    man.k = getattr(man, 'k', 0) + 1
    if man.k > 20 and man.k % 3 == 0:
        return req
    return above(man, req)
ns, man = run(10, 1, ans)
ids = [p['id'] for p in ns.nested_samples]
sys.exit(0 if len(set(ids)) == len(ids) else 1)
'''),
dict(id='b02-live-maximum', prop='C05', edits=[(NS,'self.condition = logaddexp(self.state.logZ,self.logLmax.value - self.iteration/(float(self.Nlive))) - self.state.logZ','self.condition = logaddexp(self.state.logZ,self.params[-1].logL - self.iteration/(float(self.Nlive))) - self.state.logZ')],
 needs='a sampler that has seen a higher likelihood than any live point has',
 breaks='the stopping condition ignores the maximum reported by the samplers and the run stops early',
 demo='''
from nsim import *
def ans(man, req):
    p = above(man, req)
    man.logLmax.value = 6.0
    return p
ns, man = run(20, 1, ans, stopping=0.5)
z = ns.state
# condition recomputed at the last iteration of the run
N = 20
import numpy as np
logZ, w = -math.inf, 0.0
for L in z.logLs[1:-N]:
    logZ = np.logaddexp(logZ, w + L + math.log(-math.expm1(-1 / N))); w -= 1 / N
k = len(z.logLs) - 1 - N
cond = np.logaddexp(logZ, 6.0 - (k - 1) / N) - logZ
print(cond)
sys.exit(0 if cond <= 0.5 else 1)
'''),
dict(id='b03-volume-lag', prop='C02', edits=[(NS,"""        self.logw += logt
        self.iteration += 1
        self.logLs.append(logL)
        self.log_vols.append(self.logw)""","""        self.iteration += 1
        self.logLs.append(logL)
        self.log_vols.append(self.logw)
        self.logw += logt""")],
 needs='comparison of the recorded volumes with the number of points discarded (the running evidence stays right, the refined one is off by about 1/nlive)',
 breaks='recorded volumes lag one step behind the likelihoods',
 demo='''
from nsim import *
from cpnest.NestedSampling import _NSintegralState
s = _NSintegralState(10)
for l in (-3.0, -2.0, -1.0): s.increment(l)
sys.exit(0 if abs(s.log_vols[1] + 0.1) < 1e-12 and abs(s.log_vols[3] + 0.3) < 1e-12 else 1)
'''),
dict(id='b04-logp-state', prop='C10', edits=[(PYX,"          self.logP = state[1]","          self.logP = state[0]")],
 needs='a point whose log-prior differs from its log-likelihood, copied or sent to another process',
 breaks='copies and unpickled points carry the log-likelihood as log-prior',
 demo='''
from nsim import *
import pickle
p = LivePoint(['a'], d=array('d', [1.0]), logL=-2.0, logP=-0.5)
sys.exit(0 if p.copy().logP == -0.5 and pickle.loads(pickle.dumps(p)).logP == -0.5 else 1)
'''),
dict(id='b05-rank-count', prop='C21', edits=[(NS,'(index - nreplace) / (self.Nlive - k - 1)','(index - nreplace) / (self.Nlive - nreplace)')],
 needs='several samplers (with one the two numbers agree)',
 breaks='insertion indices are divided by the wrong number of live points and exceed 1',
 demo='''
from nsim import *
def top(man, req):
    b = man.logLmin.value
    if b == -math.inf:
        return above(man, req)
    man.t = getattr(man, 't', 1.0) + 1e-3
    return man.new(man.t)
ns, man = run(12, 3, top)
ok = all(0 <= x <= 1 for x in ns.insertion_indices) and ns.insertion_indices[1] == 1.0
sys.exit(0 if ok else 1)
'''),
]
