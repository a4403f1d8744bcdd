NS='cpnest/NestedSampling.py'; PYX='cpnest/parameter.pyx'; SM='cpnest/sampler.py'; PR='cpnest/proposal.py'; N2='cpnest/nest2pos.py'; MO='cpnest/model.py'; CP='cpnest/cpnest.py'; UT='cpnest/utils.py'
PLANTS=[
dict(id='b29-likelihood-first', prop='C24', edits=[(SM,"""                newparam.logP = self.model.log_prior(newparam)

                if newparam.logP-logp_old + self.proposal.log_J > log(random()):
                    newparam.logL = self.model.log_likelihood(newparam)
                    if newparam.logL > logLmin:""","""                newparam.logP = self.model.log_prior(newparam)
                newparam.logL = self.model.log_likelihood(newparam)

                if newparam.logP-logp_old + self.proposal.log_J > log(random()):
                    if newparam.logL > logLmin:""")],
 needs='a jump out of the prior bounds, with a likelihood that is not defined there',
 breaks='the Metropolis sampler evaluates the likelihood of every proposal, also out of bounds',
 demo='''
from nsim import *
class G(Flat):
    def log_likelihood(self, p):
        if not 0 < p['a'] < 1:
            print('evaluated at', p['a']); sys.exit(1)
        return math.log(p['a'])
s = sampler('mhs', G())
s.reset()
for k in range(50): next(s.yield_sample(-3.0))
'''),
dict(id='b30-single-reflection', prop='C24', edits=[(PR,"""            while q[k] < l or q[k] > u:
                if q[k] > u:""","""            if q[k] < l or q[k] > u:
                if q[k] > u:""")],
 needs='a Hamiltonian step longer than the box (step size grown by a long high acceptance)',
 breaks='the trajectory leaves the prior bounds and the likelihood is evaluated there',
 demo='''
from nsim import *
class G(Flat):
    names = ['a', 'b']; bounds = [[0, 1], [0, 1]]
    def log_likelihood(self, p):
        if not (0 <= p['a'] <= 1 and 0 <= p['b'] <= 1):
            print('evaluated at', p['a'], p['b']); sys.exit(1)
        return -p['a'] - p['b']
s = sampler('hmc', G(), poolsize=60)
s.reset()
p = s.proposal.proposals[0]
for _ in range(9000): p.update_time_step(1.0)
for k in range(5): s.proposal.get_sample(s.evolution_points[k].copy(), logLmin=-math.inf)
'''),
dict(id='b31-update-on-request', prop='C25', edits=[(SM,"""            # Update the ensemble every now and again
            if (self.counter%(self.poolsize//4))==0:
                self.proposal.set_ensemble(self.evolution_points)
                self.estimate_nmcmc()
""","""                # Update the ensemble every now and again
                if (self.counter%(self.poolsize//4))==0:
                    self.proposal.set_ensemble(self.evolution_points)
                    self.estimate_nmcmc()
"""),(SM,"""            # otherwise, keep on sampling from the previous boundary
            else:
                _, _ = next(self.yield_sample(logLmin))
""",""),(SM,"""            if self.producer_pipe.poll():

                p = self""","""            if not self.producer_pipe.poll():
                # keep on sampling from the previous boundary
                _, _ = next(self.yield_sample(logLmin))
            else:
                p = self""")],
 needs='a sampler that is asked for nothing for a while (many samplers, slow integrator)',
 breaks='ensemble and chain length are not updated by the samples made without a request',
 demo='''
from nsim import *
class Late(Pp):
    n = 0
    def poll(self):
        self.n += 1
        if self.n > 60: self.q = [None]
        return bool(self.q)
s = sampler('mhs', Flat(), man=Mn(Late()))
s.reset()
k = [0]
real = s.proposal.set_ensemble
def f(e): k[0] += 1; real(e)
s.proposal.set_ensemble = f
s.produce_sample()
print(k)
sys.exit(0 if k[0] >= 8 else 1)
'''),
dict(id='b32-length-of-first-states', prop='C25', edits=[(SM,'self.samples[-5*self.maxmcmc:]','self.samples[:5*self.maxmcmc]')],
 needs='a chain longer than 5*maxmcmc states whose autocorrelation has changed since its beginning',
 breaks='the chain length stays that of the very first states',
 demo='''
from nsim import *
s = sampler('mhs', Flat(), maxmcmc=100)
r = np.random.RandomState(1)
x = list(r.normal(size=500)) + list(np.sin(np.arange(500) / 40.))
s.samples = [LivePoint(['a'], d=array('d', [v])) for v in x]
s.estimate_nmcmc()
print(s.Nmcmc)
sys.exit(0 if s.Nmcmc > 40 else 1)
'''),
dict(id='b33-mass-kept', prop='C26', edits=[(PR,"""        self.mass_matrix            = np.linalg.inv(self.inverse_mass_matrix)
""","""        if self.mass_matrix is None:
            self.mass_matrix        = np.linalg.inv(self.inverse_mass_matrix)
""")],
 needs='an ensemble set again after it has shrunk or changed its correlation',
 breaks='momenta keep the mass matrix of the first ensemble while positions move with the new one',
 demo='''
from nsim import *
import cpnest.proposal as P
class G(Flat):
    names = ['a', 'b']; bounds = [[0, 1], [0, 1]]
    def log_likelihood(self, p): return -p['a'] - p['b']
m = G()
c = P.HamiltonianProposalCycle(model=m)
r = np.random.RandomState(1)
def ens(w):
    out = []
    for k in range(80):
        p = LivePoint(m.names, d=array('d', list(0.5 + w * (r.rand(2) - 0.5)))); p.logL = m.log_likelihood(p); p.logP = 0.0
        out.append(p)
    return out
c.set_ensemble(ens(1.0)); c.set_ensemble(ens(0.1))
np.random.seed(1)
z = np.array([c.proposals[0].momenta_distribution.rvs() for _ in range(500)])
print(z.std())
sys.exit(0 if z.std() > 20 else 1)
'''),
dict(id='b34-lower-limit-momentum', prop='C26', edits=[(PR,"""            while q[k] < l or q[k] > u:
                if q[k] > u:
                    q[k] = u - (q[k] - u)
                    p[j] *= -1
                if q[k] < l:
                    q[k] = l + (l - q[k])
                    p[j] *= -1
        return p, q""","""            while q[k] < l or q[k] > u:
                if q[k] > u:
                    q[k] = u - (q[k] - u)
                    p[j] *= -1
                if q[k] < l:
                    q[k] = l + (l - q[k])
        return p, q""")],
 needs='a constrained Hamiltonian trajectory that reaches a lower prior limit',
 breaks='the momentum is not reversed at lower limits, so the trajectory bounces there for ever',
 demo='''
from nsim import *
import cpnest.proposal as P
m = Flat()
c = P.HamiltonianProposalCycle(model=m)
r = np.random.RandomState(1)
e = []
for k in range(80):
    p = LivePoint(['a'], d=array('d', [r.rand()])); p.logL = m.log_likelihood(p); p.logP = 0.0
    e.append(p)
c.set_ensemble(e)
q = LivePoint(['a'], d=array('d', [0.05])); p = np.array([-3.0])
t = c.proposals[0]
x = []
for k in range(12):
    p, q = t.evolve_trajectory_one_step_position(p, q); x.append(q['a'])
print(x)
sys.exit(0 if max(x) > 0.5 else 1)
'''),
dict(id='b35-first-live-count', prop='C09', edits=[(N2,"""    # get log_evidences, log_weights.
    log_evs,log_wts=zip(*[compute_weights(data['logL'],Nlive) for data,Nlive in zip(datas, Nlives)])
""","""    # get log_evidences, log_weights.
    log_evs,log_wts=zip(*[compute_weights(data['logL'],Nlives[0]) for data in datas])
""")],
 needs='a number of samples drawn from runs with different numbers of live points',
 breaks='every run is weighted with the number of live points of the first',
 demo='''
from nsim import *
from cpnest.nest2pos import draw_N_posterior_many, compute_weights
r = np.random.RandomState(1)
def chain(n):
    d = np.zeros(n, dtype=[('a', 'f8'), ('logL', 'f8')]); d['a'] = r.rand(n); d['logL'] = np.sort(r.rand(n)) * 5
    return d
a, b = chain(200), chain(200)
e = [compute_weights(a['logL'], 100)[0], compute_weights(b['logL'], 10)[0]]
want = 1000 * np.exp(e[1] - np.logaddexp(*e))
np.random.seed(1)
out = draw_N_posterior_many([a, b], [100, 10], 1000)
got = np.isin(out['a'], b['a']).sum()
print(want, got)
sys.exit(0 if abs(got - want) < 2 else 1)
'''),
dict(id='b36-own-header', prop='C12', edits=[(NS,"            f.write('{0:s}\\n'.format(self.model.header().rstrip()))","            f.write('{0:s}\\n'.format('\\t'.join(self.model.names) + '\\tlogL'))")],
 needs='a model that overrides header()',
 breaks='the chain file has the default header although the rows have the columns of the user',
 demo='''
from nsim import *
class H(M):
    def header(self): return 'id x logL twice'
d = tempfile.mkdtemp()
try:
    ns = NestedSampler(H(), nlive=8, output=os.path.join(d, ''), verbose=0, seed=1, manager=Man(1, above))
    ns.nested_sampling_loop()
    l = open(ns.output_file).readline().strip()
finally:
    shutil.rmtree(d, ignore_errors=True)
print(l)
sys.exit(0 if l.endswith('id x logL twice') else 1)
'''),
dict(id='b37-chain-till-first-move', prop='C07', edits=[(SM,'if (sub_counter >= self.Nmcmc and sub_accepted > 0 ) or sub_counter >= self.maxmcmc:','if sub_accepted > 0 or sub_counter >= self.maxmcmc:')],
 needs='statistics of many updates: ending a chain at its first move favours the places that are easily left',
 breaks='chains end at their first accepted move, which does not leave the prior invariant',
 demo='''
from nsim import *
s = sampler('mhs', Flat(), maxmcmc=60, poolsize=60)
s.reset()
s.Nmcmc = 20
x = np.array([next(s.yield_sample(-math.inf))[1]['a'] for _ in range(6000)])
print(np.abs(x - 0.5).mean())
sys.exit(0 if abs(np.abs(x - 0.5).mean() - 0.25) < 0.012 else 1)
'''),
dict(id='b38-saved-chain-cut', prop='C13', edits=[(SM,"""        del state['logger']
        return state""","""        del state['logger']
        state['samples'] = state['samples'][-self.maxmcmc:]
        return state""")],
 needs='a sampler interrupted after more than maxmcmc states, then resumed',
 breaks='the sampler resumes with the last maxmcmc states only, so its chain and chain length differ from an uninterrupted run',
 demo='''
from nsim import *
import cpnest.sampler as S
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 's.pkl')
    m = Flat()
    s = sampler('mhs', m, maxmcmc=10, poolsize=10, resume_file=f)
    s.reset(); n = len(s.samples); s.checkpoint()
    r = S.MetropolisHastingsSampler.resume(f, Mn(), m)
finally:
    shutil.rmtree(d, ignore_errors=True)
print(n, len(r.samples))
sys.exit(0 if len(r.samples) == n else 1)
'''),
]
