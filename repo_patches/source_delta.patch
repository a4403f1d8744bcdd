From 096d77bff48d8fdbffc4b00f37b6786e8d520b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 01/29] fix: LivePoint arithmetic with a number uses double
 precision

---
 cpnest/parameter.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/parameter.pyx b/cpnest/parameter.pyx
index 1bfa767..cd42197 100644
--- a/cpnest/parameter.pyx
+++ b/cpnest/parameter.pyx
@@ -93,27 +93,27 @@ cdef class LivePoint:
             self.values[i]-=other.values[i]
         return self
 
-    def __mul__(LivePoint self, float other):
+    def __mul__(LivePoint self, double other):
         cdef LivePoint result=LivePoint(self.names)
         cdef Py_ssize_t i
         for i in range(self.dimension):
             result.values[i]=other*self.values[i]
         return result
 
-    def __imul__(LivePoint self, float other):
+    def __imul__(LivePoint self, double other):
         cdef Py_ssize_t i
         for i in range(self.dimension):
             self.values[i]*=other
         return self
 
-    def __truediv__(LivePoint self, float other):
+    def __truediv__(LivePoint self, double other):
         cdef LivePoint result = LivePoint(self.names)
         cdef Py_ssize_t i
         for i in range(self.dimension):
             result.values[i]=self.values[i]/other
         return result
 
-    def __itruediv__(LivePoint self, float other):
+    def __itruediv__(LivePoint self, double other):
         cdef Py_ssize_t i
         for i in range(self.dimension):
             self.values[i]/=other
-- 
2.43.0


From d51bb79d6a87d49fe807f1f5a8d11a422c61bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 02/29] fix: Model.to_normalised uses its argument

---
 cpnest/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpnest/model.py b/cpnest/model.py
index e2ac12e..7a64425 100644
--- a/cpnest/model.py
+++ b/cpnest/model.py
@@ -146,7 +146,7 @@ class Model(object):
 
     def to_normalised(self, point):
         """
-        Maps the bounds of the parameters onto [-1,1]
+        Maps the bounds of the parameters onto [0,1]
         ----------
         Parameter:
             point: :obj:`cpnest.parameter.LivePoint`
@@ -156,4 +156,4 @@ class Model(object):
                 The values of the parameter mapped into the Ndim-cube
         """
         return array('d', [(v-b[0])/(b[1]-b[0]) for v, b
-                           in zip(value.values, self.bounds)])
+                           in zip(point.values, self.bounds)])
-- 
2.43.0


From 9cbad9004d948d34a14f94eca07111d7e99e72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 03/29] fix: give every sampler its own resume file, whatever
 its kind

---
 cpnest/cpnest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 29fa9d5..5fcc20e 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -219,7 +219,7 @@ class CPNest(object):
 
             for i in range(nhamiltonian):
                 resume_file = os.path.join(output,
-                                           "sampler_{0:d}.pkl".format(i))
+                                           "sampler_{0:d}.pkl".format(nmhs+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = HamiltonianMonteCarloSampler(
                         self.user,
@@ -241,7 +241,8 @@ class CPNest(object):
                 self.process_pool.append(p)
 
             for i in range(nslice):
-                resume_file = os.path.join(output, "sampler_{0:d}.pkl".format(i))
+                resume_file = os.path.join(output,
+                                           "sampler_{0:d}.pkl".format(nmhs+nhamiltonian+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = SliceSampler(self.user,
                                     maxmcmc,
-- 
2.43.0


From 23c4efb67f3896c3f33d3bc51ba7ec615b7b1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 04/29] fix: Hamiltonian proposals can be pickled, so their
 samplers can checkpoint

---
 cpnest/proposal.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index fdcc3fe..05807af 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -399,7 +399,7 @@ class HamiltonianProposal(EnsembleEigenVector):
         self.TARGET         = 0.500
         self.ADAPTATIONSIZE = 0.001
         self._initialised   = False
-        self.c              = self.counter()
+        self.c              = 0
         self.DEBUG          = 0
 
     def set_ensemble(self, ensemble):
@@ -705,12 +705,6 @@ class ConstrainedLeapFrog(LeapFrog):
         """
         return super(ConstrainedLeapFrog,self).get_sample(q0, logLmin)
 
-    def counter(self):
-        n = 0
-        while True:
-            yield n
-            n += 1
-
     def evolve_trajectory_one_step_position(self, p, q):
         """
         One leap frog step in position
@@ -848,7 +842,8 @@ class ConstrainedLeapFrog(LeapFrog):
         save trajectory for diagnostic purposes
         """
         if filename is None:
-            filename = 'trajectory_'+str(next(self.c))+'.txt'
+            filename = 'trajectory_'+str(self.c)+'.txt'
+            self.c  += 1
         f = open(filename,'w')
         names = trajectory[0][0].names
 
@@ -863,4 +858,3 @@ class ConstrainedLeapFrog(LeapFrog):
                 f.write(repr(q[n])+'\t'+repr(p[j])+'\t')
             f.write(repr(q.logP)+'\t'+repr(q.logL)+'\t'+repr(logLmin)+'\n')
         f.close()
-        if self.c == 3: exit()
-- 
2.43.0


From 0c32ec62675898aac4c3c0d8535650eb9baccd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 05/29] fix: ask again for an initial live point that cannot be
 used instead of waiting for an answer nobody sends

---
 cpnest/NestedSampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index e068c98..6da4e55 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -416,14 +416,16 @@ class NestedSampler(object):
                 for j in range(nthreads):
                     while i < self.Nlive:
                         acceptance,sub_acceptance,self.jumps,params[i] = self.manager.consumer_pipes[self.queue_counter].recv()
-                        self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                         if np.isnan(params[i].logL):
                             self.logger.warn("Likelihood function returned NaN for params "+str(params))
                             self.logger.warn("You may want to check your likelihood function")
                         if params[i].logP!=-np.inf and params[i].logL!=-np.inf:
+                            self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                             i+=1
                             pbar.update()
                             break
+                        # ask the same sampler for another one
+                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
         self.params = OrderedLivePoints(params)
         if self.verbose:
             sys.stderr.write("\n")
-- 
2.43.0


From 3dd4c98f6b28f38fa68f49993a097681fc3f202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 06/29] fix: get_prior_samples and get_mcmc_samples save the
 samples they return

---
 cpnest/cpnest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 5fcc20e..fadb2ad 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -443,8 +443,8 @@ class CPNest(object):
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.prior_samples.ravel(),
-                       header=' '.join(self.prior_samples.dtype.names),
+                       prior_samples.ravel(),
+                       header=' '.join(prior_samples.dtype.names),
                        newline='\n',delimiter=' ')
 
         return prior_samples
@@ -482,8 +482,8 @@ class CPNest(object):
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.mcmc_samples.ravel(),
-                       header=' '.join(self.mcmc_samples.dtype.names),
+                       mcmc_samples.ravel(),
+                       header=' '.join(mcmc_samples.dtype.names),
                        newline='\n',delimiter=' ')
         return mcmc_samples
 
-- 
2.43.0


From e817da326343d8adc39d28b70f496170d3093b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 07/29] fix: remove merged sample files without a shell

---
 cpnest/cpnest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index fadb2ad..74104de 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -373,10 +373,10 @@ class CPNest(object):
             for file in os.listdir(self.NS.output_folder):
                 if 'prior_samples' in file:
                     prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                    os.remove(os.path.join(self.NS.output_folder,file))
                 elif 'mcmc_chain' in file:
                     mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                    os.remove(os.path.join(self.NS.output_folder,file))
 
             # first deal with the prior samples
             if len(prior_samples)>0:
@@ -429,7 +429,7 @@ class CPNest(object):
         for file in os.listdir(self.NS.output_folder):
             if 'prior_samples' in file:
                 prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                os.remove(os.path.join(self.NS.output_folder,file))
 
         # if we sampled the prior, the nested samples are samples from the prior
         if self.NS.prior_sampling:
@@ -471,7 +471,7 @@ class CPNest(object):
         for file in os.listdir(self.NS.output_folder):
             if 'mcmc_chain' in file:
                 mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                os.remove(os.path.join(self.NS.output_folder,file))
 
         if not mcmc_samples:
             self.logger.critical('ERROR, no MCMC samples found!')
-- 
2.43.0


From b5d6e8d9589b5ca1fa6717560f7a75352e321e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 08/29] fix: histograms of short runs have at least one bin

---
 cpnest/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/plot.py b/cpnest/plot.py
index 2b5ac7c..d10b6ac 100644
--- a/cpnest/plot.py
+++ b/cpnest/plot.py
@@ -54,13 +54,13 @@ def plot_hist(x, name=None, prior_samples=None, mcmc_samples=None, filename=None
     fig = plt.figure()
     ax  = fig.add_subplot(111)
     ax.hist(x, density = True, color='black', linewidth = 1.25,
-                histtype='step', bins=len(x)//50, label = 'posterior')
+                histtype='step', bins=max(1, len(x)//50), label = 'posterior')
     if prior_samples is not None:
         ax.hist(prior_samples, density = True, color='green', linewidth = 1.0,
-                histtype='step', bins=len(x)//50, label = 'prior')
+                histtype='step', bins=max(1, len(x)//50), label = 'prior')
     if mcmc_samples is not None:
         ax.hist(mcmc_samples, density = True, color='red', linewidth = 1.0,
-                histtype='step', bins=len(x)//50, label = 'mcmc')
+                histtype='step', bins=max(1, len(x)//50), label = 'mcmc')
     ax.legend(loc='upper left')
     ax.set_ylabel('probability density')
     if name is not None:
@@ -90,7 +90,7 @@ def plot_indices(indices, filename=None, max_bins=30):
     ax  = fig.add_subplot(111)
 
     ax.hist(indices, density=True, color='tab:blue', linewidth=1.25,
-                histtype='step', bins=min(len(indices) // 100, max_bins))
+                histtype='step', bins=max(1, min(len(indices) // 100, max_bins)))
     # Theoretical distribution
     ax.axhline(1, color='black', linewidth=1.25, linestyle=':', label='pdf')
 
-- 
2.43.0


From 2e156e30340c4cadec8d1e6893b5584d3b9604d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 09/29] fix: a checkpoint replaces the previous one only once
 it is complete

---
 cpnest/NestedSampling.py | 5 ++++-
 cpnest/sampler.py        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 6da4e55..a43f662 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -496,8 +496,11 @@ class NestedSampler(object):
         Checkpoint its internal state
         """
         self.logger.critical('Checkpointing nested sampling')
-        with open(self.resume_file,"wb") as f:
+        # never leave a truncated file in place of the previous checkpoint
+        tmp = self.resume_file + '.tmp'
+        with open(tmp,"wb") as f:
             pickle.dump(self, f)
+        os.replace(tmp, self.resume_file)
 
     @classmethod
     def resume(cls, filename, manager, usermodel):
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 382ab02..94aa712 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -273,8 +273,11 @@ class Sampler(object):
         Checkpoint its internal state
         """
         self.logger.info('Checkpointing Sampler')
-        with open(self.resume_file, "wb") as f:
+        # never leave a truncated file in place of the previous checkpoint
+        tmp = self.resume_file + '.tmp'
+        with open(tmp, "wb") as f:
             pickle.dump(self, f)
+        os.replace(tmp, self.resume_file)
 
     @classmethod
     def resume(cls, resume_file, manager, model):
-- 
2.43.0


From 674b8f735d71e74c106480a4c08b7f5829b2f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 10/29] fix: burn-in of resample_mcmc_chain slices with an
 integer

---
 cpnest/nest2pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index 30f3a54..38a5cb2 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -147,7 +147,7 @@ def resample_mcmc_chain(chain, verbose=False, burnin=False):
     each one of them against the Metropolis-Hastings rule
     """
     LOGGER.critical('Number of input samples: {0!s}'.format(chain.shape[0]))
-    if burnin: chain = chain[chain.shape[0]/2-1:]
+    if burnin: chain = chain[chain.shape[0]//2-1:]
     # thin according to the autocorrelation length
     ACL = []
     for n in chain.dtype.names:
-- 
2.43.0


From 545d06b463d24a3e0dd1725433f8267885865e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 11/29] fix: draw_N_posterior samples all rows whatever the
 normalisation of the weights

---
 cpnest/nest2pos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index 38a5cb2..e08ba49 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -121,6 +121,9 @@ def draw_N_posterior(data,log_wts, N, verbose=False):
     for i,log_wt in enumerate(log_wts):
         log_cumsums[i+1]=logaddexp(log_cumsums[i], log_wt)
 
+    # the weights need not be normalised
+    log_cumsums-=log_cumsums[-1]
+
     us=np.log(uniform(size=N))
     idxs=np.digitize(us, log_cumsums)
 
-- 
2.43.0


From b5f6e348958dbaadb59e9078c39b6411cb6a2bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 12/29] fix: draw_N_posterior_many combines runs of which it
 draws different numbers of samples

---
 cpnest/nest2pos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index e08ba49..946bcbd 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -1,6 +1,6 @@
 import logging
 import numpy as np
-from numpy import logaddexp, vstack
+from numpy import logaddexp
 from numpy.random import uniform
 from functools import reduce
 from scipy.stats import pearsonr
@@ -142,7 +142,8 @@ def draw_N_posterior_many(datas, Nlives, Npost, verbose=False):
     log_total_evidence=reduce(logaddexp, log_evs)
     Ns=[int(round(Npost*np.exp(log_ev-log_total_evidence))) for log_ev in log_evs]
     posts=[draw_N_posterior(data,logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]
-    return vstack(posts).flatten()
+    # a run whose share rounds to zero contributes no sample
+    return np.concatenate([datas[0][:0]]+[post for post in posts if len(post)>0], axis=None)
 
 def resample_mcmc_chain(chain, verbose=False, burnin=False):
     """
-- 
2.43.0


From 0bc788715cefee00573e3dc54b0f93a68f958761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 13/29] fix: tell the samplers to checkpoint when the signal
 comes before the main loop

---
 cpnest/cpnest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 74104de..ed23919 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -278,9 +278,9 @@ class CPNest(object):
                 signal.signal(signal.SIGUSR2, sighandler)
 
             #self.p_ns.start()
-            for each in self.process_pool:
-                each.start()
             try:
+                for each in self.process_pool:
+                    each.start()
                 self.NS.nested_sampling_loop()
                 for each in self.process_pool:
                     each.join()
@@ -548,7 +548,7 @@ class CPNest(object):
             each.start()
 
     def checkpoint(self):
-        self.manager.checkpoint_flag=1
+        self.manager.checkpoint_flag.value=1
 
 
 class RunManager(SyncManager):
-- 
2.43.0


From 7b6b327fb017d94d77f4aca25e0aab86a9d3ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 14/29] fix: slice samplers produce prior samples too when
 sampling the prior

---
 cpnest/cpnest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index ed23919..0839913 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -252,6 +252,7 @@ class CPNest(object):
                                     seed        = self.seed+nmhs+nhamiltonian+i,
                                     proposal    = proposals['sli'](),
                                     resume_file = resume_file,
+                                    sample_prior = prior_sampling,
                                     manager     = self.manager
                                     )
                 else:
-- 
2.43.0


From 2450a735c86fae53dd4b7da88af8aa45c31fbcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 15/29] fix: the Hamiltonian sampler never lowers the shared
 maximum likelihood

---
 cpnest/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 94aa712..b3a2149 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -391,7 +391,7 @@ class HamiltonianMonteCarloSampler(Sampler):
             self.mcmc_accepted += sub_accepted
             self.mcmc_counter  += sub_counter
             self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)
-            self.logLmax.value = global_lmax
+            self.logLmax.value = max(self.logLmax.value, global_lmax)
 
             for p in self.proposal.proposals:
                 p.update_time_step(self.acceptance)
-- 
2.43.0


From 150c12a8cb01e3b17ee270922c69b387f099b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 16/29] fix: prior and MCMC samples merged at verbosity 3 are
 available after the run

---
 cpnest/cpnest.py | 45 ++++++---------------------------------------
 1 file changed, 6 insertions(+), 39 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 0839913..b098f5d 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -308,10 +308,14 @@ class CPNest(object):
                     filename=None
                 )
 
+            self.prior_samples = {n:None for n in self.user.names}
+            self.mcmc_samples  = {n:None for n in self.user.names}
             if self.verbose>=3 or self.NS.prior_sampling:
-                self.prior_samples = self.get_prior_samples(filename=None)
+                self.prior_samples = self.get_prior_samples(
+                    filename='prior.dat' if self.verbose>=3 else None
+                )
             if self.verbose>=3 and not self.NS.prior_sampling:
-                self.mcmc_samples = self.get_mcmc_samples(filename=None)
+                self.mcmc_samples = self.get_mcmc_samples()
             if self.verbose>=2:
                 self.plot(corner = False)
 
@@ -361,43 +365,6 @@ class CPNest(object):
         nested_samples     = self.get_nested_samples()
         posterior_samples  = draw_posterior_many([nested_samples],[self.nlive],verbose=self.verbose)
         posterior_samples  = np.array(posterior_samples)
-        self.prior_samples = {n:None for n in self.user.names}
-        self.mcmc_samples  = {n:None for n in self.user.names}
-        # if we run with full verbose, read in and output
-        # the mcmc thinned posterior samples
-        if self.verbose >= 3:
-            from .nest2pos import resample_mcmc_chain
-            from numpy.lib.recfunctions import stack_arrays
-
-            prior_samples = []
-            mcmc_samples  = []
-            for file in os.listdir(self.NS.output_folder):
-                if 'prior_samples' in file:
-                    prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                    os.remove(os.path.join(self.NS.output_folder,file))
-                elif 'mcmc_chain' in file:
-                    mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                    os.remove(os.path.join(self.NS.output_folder,file))
-
-            # first deal with the prior samples
-            if len(prior_samples)>0:
-                self.prior_samples = stack_arrays([p for p in prior_samples])
-                if filename:
-                    np.savetxt(os.path.join(
-                           self.NS.output_folder,'prior.dat'),
-                           self.prior_samples.ravel(),
-                           header=' '.join(self.prior_samples.dtype.names),
-                           newline='\n',delimiter=' ')
-            # now stack all the mcmc chains
-            if len(mcmc_samples)>0:
-                self.mcmc_samples = stack_arrays([p for p in mcmc_samples])
-                if filename:
-                    np.savetxt(os.path.join(
-                           self.NS.output_folder,'mcmc.dat'),
-                           self.mcmc_samples.ravel(),
-                           header=' '.join(self.mcmc_samples.dtype.names),
-                           newline='\n',delimiter=' ')
-
         # TODO: Replace with something to output samples in whatever format
         if filename:
             np.savetxt(os.path.join(
-- 
2.43.0


From 0170464ade800e1b0ac27891734ec1f44c9870ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 17/29] fix: merge and remove only sample files written by the
 samplers

---
 cpnest/cpnest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index b098f5d..211be52 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -5,6 +5,7 @@ import multiprocessing as mp
 from ctypes import c_double, c_int
 import numpy as np
 import os
+import re
 import sys
 import signal
 import logging
@@ -395,7 +396,7 @@ class CPNest(object):
         # read in the samples from the prior coming from each sampler
         prior_samples = []
         for file in os.listdir(self.NS.output_folder):
-            if 'prior_samples' in file:
+            if re.fullmatch(r'prior_samples_\d+\.dat', file):
                 prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
                 os.remove(os.path.join(self.NS.output_folder,file))
 
@@ -437,7 +438,7 @@ class CPNest(object):
 
         mcmc_samples  = []
         for file in os.listdir(self.NS.output_folder):
-            if 'mcmc_chain' in file:
+            if re.fullmatch(r'mcmc_chain_\d+\.dat', file):
                 mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
                 os.remove(os.path.join(self.NS.output_folder,file))
 
-- 
2.43.0


From 071b8802a138bb106da63c814d7ae9640ad18c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 18/29] fix: an interrupted iteration is undone before
 checkpointing, so resuming does not count points twice

---
 cpnest/NestedSampling.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index a43f662..fdaf683 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -432,6 +432,30 @@ class NestedSampler(object):
             sys.stderr.flush()
         self.initialised=True
 
+    def save_iteration(self):
+        """
+        Record the state at the end of an iteration, so that the
+        next one can be undone if it is interrupted
+        """
+        return (self.__dict__.copy(), self.state.__dict__.copy(), list(self.params),
+                [len(x) for x in self.growing_lists()], self.logLmin.value)
+
+    def undo_iteration(self, saved):
+        """
+        Go back to the state recorded by `save_iteration`
+        """
+        attributes, state, params, lengths, logLmin = saved
+        self.__dict__.update(attributes)
+        self.state.__dict__.update(state)
+        self.params = OrderedLivePoints(params)
+        for x, n in zip(self.growing_lists(), lengths):
+            del x[n:]
+        self.logLmin.value = logLmin
+
+    def growing_lists(self):
+        return (self.nested_samples, self.insertion_indices, self.rolling_p,
+                self.state.logLs, self.state.log_vols)
+
     def nested_sampling_loop(self):
         """
         main nested sampling loop
@@ -449,7 +473,9 @@ class NestedSampler(object):
             self.logger.warning("Nested Sampling process {0!s}, exiting".format(os.getpid()))
             return 0
 
+        saved = None
         try:
+            saved = self.save_iteration()
             while self.condition > self.tolerance:
                 self.consume_sample()
                 if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
@@ -458,8 +484,12 @@ class NestedSampler(object):
 
                 if (self.iteration % self.Nlive) < self.manager.nthreads:
                     self.check_insertion_indices()
+                saved = self.save_iteration()
 
         except CheckPoint:
+            # drop the iteration that was interrupted, if any
+            if saved is not None:
+                self.undo_iteration(saved)
             self.checkpoint()
             # Run each pipe to get it to checkpoint
             for c in self.manager.consumer_pipes:
-- 
2.43.0


From ec0302670c6bfbd081cd7a0133e5cd28e63080be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 19/29] fix: take the periodic checkpoint after the rolling
 insertion index test

A run resumed from a periodic checkpoint taken in an iteration in which
the test was due never made that test.
---
 cpnest/NestedSampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index fdaf683..47d11fd 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -478,12 +478,13 @@ class NestedSampler(object):
             saved = self.save_iteration()
             while self.condition > self.tolerance:
                 self.consume_sample()
+                if (self.iteration % self.Nlive) < self.manager.nthreads:
+                    self.check_insertion_indices()
+
                 if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                     self.checkpoint()
                     self.last_checkpoint_time = time.time()
 
-                if (self.iteration % self.Nlive) < self.manager.nthreads:
-                    self.check_insertion_indices()
                 saved = self.save_iteration()
 
         except CheckPoint:
-- 
2.43.0


From 086209f55658117eefafe336559f75cba5622e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:44 +0000
Subject: [PATCH 20/29] fix: do not let "except Exception" swallow the
 checkpoint signal

A signal while tqdm starts its monitor thread, or inside a user
likelihood with an "except Exception", was lost and the run went on.
---
 cpnest/cpnest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 211be52..225c01e 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -21,7 +21,8 @@ from .utils import LEVELS, LogFile
 # module logger takes name according to its path
 LOGGER = logging.getLogger('cpnest.cpnest')
 
-class CheckPoint(Exception):
+class CheckPoint(BaseException):
+    # like KeyboardInterrupt, not to be swallowed by an "except Exception"
     pass
 
 
-- 
2.43.0


From 49206d8b9351eace4c4fca15ffd2583bf0c6e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:44 +0000
Subject: [PATCH 21/29] fix: do not interrupt the samplers by a signal sent to
 the process group

Ctrl-C reaches every process. A sampler stopped while starting, or while
holding the lock of a shared value, left the run waiting for ever.
---
 cpnest/cpnest.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 225c01e..eeb088a 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -281,9 +281,18 @@ class CPNest(object):
                 signal.signal(signal.SIGUSR2, sighandler)
 
             #self.p_ns.start()
+            signals = {signal.SIGTERM, signal.SIGALRM, signal.SIGQUIT,
+                       signal.SIGINT, signal.SIGUSR1, signal.SIGUSR2}
             try:
+                if self.resume:
+                    # The samplers are asked to checkpoint by this process:
+                    # a signal sent to the whole group should not stop them
+                    # half way, or be lost while they are being started
+                    signal.pthread_sigmask(signal.SIG_BLOCK, signals)
                 for each in self.process_pool:
                     each.start()
+                if self.resume:
+                    signal.pthread_sigmask(signal.SIG_UNBLOCK, signals)
                 self.NS.nested_sampling_loop()
                 for each in self.process_pool:
                     each.join()
-- 
2.43.0


From 298d4dcfa560794d506fbaee7dc73c1603f927e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:44 +0000
Subject: [PATCH 22/29] fix: do not lock the shared likelihood bounds

A checkpoint signal between acquiring and releasing the lock left it held
by the main process, and the samplers waiting for it at exit.
---
 cpnest/cpnest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index eeb088a..1c391b4 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -549,8 +549,10 @@ class RunManager(SyncManager):
 
     def start(self):
         super(RunManager, self).start()
-        self.logLmin = mp.Value(c_double,-np.inf)
-        self.logLmax = mp.Value(c_double,-np.inf)
+        # No locks: a double is read and written at once, and a signal in the
+        # middle of an access would leave the lock held for ever
+        self.logLmin = mp.Value(c_double,-np.inf,lock=False)
+        self.logLmax = mp.Value(c_double,-np.inf,lock=False)
         self.checkpoint_flag=mp.Value(c_int,0)
 
     def connect_producer(self):
-- 
2.43.0


From 67ac900f29da9cd27f4b9cdf796c84fdbf04f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 23/29] fix: keep the parameter names when reading the samples
 of the samplers

numpy.genfromtxt removes punctuation from the column names, so a run at
verbose 3 failed for parameters such as "log(m)".
---
 cpnest/cpnest.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 1c391b4..0c19a9c 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -385,6 +385,15 @@ class CPNest(object):
                 newline='\n',delimiter=' ')
         return posterior_samples
 
+    def read_samples(self, filename):
+        """
+        Reads a file of samples written by a sampler, with
+        the parameter names as the user chose them
+        """
+        import numpy as np
+        dtype = [(n, float) for n in list(self.user.names) + ['logL', 'logPrior']]
+        return np.loadtxt(filename, dtype=dtype, ndmin=1)
+
     def get_prior_samples(self, filename='prior.dat'):
         """
         Returns prior samples
@@ -407,7 +416,7 @@ class CPNest(object):
         prior_samples = []
         for file in os.listdir(self.NS.output_folder):
             if re.fullmatch(r'prior_samples_\d+\.dat', file):
-                prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
+                prior_samples.append(self.read_samples(os.path.join(self.NS.output_folder,file)))
                 os.remove(os.path.join(self.NS.output_folder,file))
 
         # if we sampled the prior, the nested samples are samples from the prior
@@ -449,7 +458,7 @@ class CPNest(object):
         mcmc_samples  = []
         for file in os.listdir(self.NS.output_folder):
             if re.fullmatch(r'mcmc_chain_\d+\.dat', file):
-                mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
+                mcmc_samples.append(resample_mcmc_chain(self.read_samples(os.path.join(self.NS.output_folder,file))))
                 os.remove(os.path.join(self.NS.output_folder,file))
 
         if not mcmc_samples:
-- 
2.43.0


From d6f5d0204eea587bb7b4d28d0411faf0098a831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 24/29] fix: histograms of prior samples with a vanishing
 likelihood

---
 cpnest/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpnest/plot.py b/cpnest/plot.py
index d10b6ac..ff121f7 100644
--- a/cpnest/plot.py
+++ b/cpnest/plot.py
@@ -1,3 +1,4 @@
+import numpy as np
 import matplotlib as mpl
 from matplotlib import pyplot as plt
 
@@ -55,11 +56,12 @@ def plot_hist(x, name=None, prior_samples=None, mcmc_samples=None, filename=None
     ax  = fig.add_subplot(111)
     ax.hist(x, density = True, color='black', linewidth = 1.25,
                 histtype='step', bins=max(1, len(x)//50), label = 'posterior')
+    # samples of the prior may have a vanishing likelihood
     if prior_samples is not None:
-        ax.hist(prior_samples, density = True, color='green', linewidth = 1.0,
+        ax.hist(prior_samples[np.isfinite(prior_samples)], density = True, color='green', linewidth = 1.0,
                 histtype='step', bins=max(1, len(x)//50), label = 'prior')
     if mcmc_samples is not None:
-        ax.hist(mcmc_samples, density = True, color='red', linewidth = 1.0,
+        ax.hist(mcmc_samples[np.isfinite(mcmc_samples)], density = True, color='red', linewidth = 1.0,
                 histtype='step', bins=max(1, len(x)//50), label = 'mcmc')
     ax.legend(loc='upper left')
     ax.set_ylabel('probability density')
-- 
2.43.0


From 27aeec1630eeec3600199e6bbecf1ec31cae631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 25/29] fix: a resumed run writes in the folder it is given

---
 cpnest/NestedSampling.py | 5 +++++
 cpnest/sampler.py        | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 47d11fd..8c7fedf 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -547,6 +547,11 @@ class NestedSampler(object):
         obj.logLmax = obj.manager.logLmax
         obj.logLmax.value = obj.llmax
         obj.model = usermodel
+        # the folder may have been moved since, or be named relative to
+        # another directory
+        obj.output_folder = os.path.join(os.path.dirname(filename), '')
+        obj.output_file, obj.evidence_file, obj.resume_file = \
+            obj.setup_output(obj.output_folder)
         obj.logger = logging.getLogger("cpnest.NestedSampling.NestedSampler")
         del obj.__dict__['llmin']
         del obj.__dict__['llmax']
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index b3a2149..72b1970 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -289,6 +289,10 @@ class Sampler(object):
             obj = pickle.load(f)
         obj.model   = model
         obj.manager = manager
+        # the folder may have been moved since, or be named relative to
+        # another directory
+        obj.resume_file = resume_file
+        obj.output  = os.path.join(os.path.dirname(resume_file), '')
         obj.logLmin = obj.manager.logLmin
         obj.logLmax = obj.manager.logLmax
         obj.logger = logging.getLogger("cpnest.sample.Sampler")
-- 
2.43.0


From 45f7887e069f1e2f9a6d1627d5afdff12797c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 26/29] fix: a sampler does not start a chain above an infinite
 bound

---
 cpnest/sampler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 72b1970..9a88056 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -221,7 +221,10 @@ class Sampler(object):
                 self.checkpoint()
                 sys.exit(130)
 
-            if self.logLmin.value==np.inf:
+            # The bound is read before it is tested: a chain asked to go above
+            # an infinite one might never end
+            logLmin = self.logLmin.value
+            if logLmin==np.inf:
                 break
 
             if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
@@ -241,13 +244,17 @@ class Sampler(object):
                     sys.exit(130)
 
                 self.evolution_points.append(p)
-                (Nmcmc, outParam) = next(self.yield_sample(self.logLmin.value))
+                # it may have been raised with the request
+                logLmin = self.logLmin.value
+                if logLmin==np.inf:
+                    break
+                (Nmcmc, outParam) = next(self.yield_sample(logLmin))
                 # Send the sample to the Nested Sampler
                 self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))
 
             # otherwise, keep on sampling from the previous boundary
             else:
-                _, _ = next(self.yield_sample(self.logLmin.value))
+                _, _ = next(self.yield_sample(logLmin))
             # Update the ensemble every now and again
             if (self.counter%(self.poolsize//4))==0:
                 self.proposal.set_ensemble(self.evolution_points)
-- 
2.43.0


From c69854b4180fea7e38849b46bfe7ca849db0dfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 27/29] fix: unconstrained leap-frog trajectories end with half
 a momentum step

After the initial half step every one of the L steps was a full one, and
another half was added at the end: the momentum was one step ahead of the
position and trajectories could not be followed back.
---
 cpnest/proposal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 05807af..efebd7f 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -667,8 +667,8 @@ class LeapFrog(HamiltonianProposal):
             dV = self.gradient(q)
             # take a full momentum step
             p += - self.dt * dV
-        # Do a final update of the momentum for a half step
-        p += - 0.5 * self.dt * dV
+        # The last momentum step should have been a half step only
+        p += 0.5 * self.dt * dV
 
         return q, -p
 
-- 
2.43.0


From 00e50e504482a59409226e3a9b03cf7c08e3f65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:02 +0000
Subject: [PATCH 28/29] fix: a run can be resumed with fewer samplers than it
 was interrupted with

---
 cpnest/NestedSampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 8c7fedf..eee5707 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -557,6 +557,8 @@ class NestedSampler(object):
         del obj.__dict__['llmax']
         obj.logger.critical('Resuming NestedSampler from ' + filename)
         obj.last_checkpoint_time = time.time()
+        # there may be fewer samplers than before
+        obj.queue_counter %= len(manager.consumer_pipes)
         return obj
 
     def __getstate__(self):
-- 
2.43.0


From 2f4c7568b1adb00fd38f065dafadff439eb98609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:02 +0000
Subject: [PATCH 29/29] fix: the samplers of a resumed run do not share a
 random stream

---
 cpnest/sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 9a88056..065dd91 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -212,6 +212,10 @@ class Sampler(object):
         """
         if not self.initialised:
             self.reset()
+        elif hasattr(self, 'random_state'):
+            # resumed: carry on with the stream of this sampler, not with
+            # the one every process inherits from the main process
+            np.random.set_state(self.random_state)
 
         self.counter=1
         __checkpoint_flag=False
@@ -318,6 +322,7 @@ class Sampler(object):
         del state['producer_pipe']
         del state['thread_id']
         del state['logger']
+        state['random_state'] = np.random.get_state()
         return state
 
     def __setstate__(self, state):
-- 
2.43.0

