From 09f49a5cdcc5b7e56372fcc2e32ce7fb271fb429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 01/29] fix: Model.to_normalised used an undefined name

Every call raised NameError; use the point that was passed in.
---
 cpnest/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/model.py b/cpnest/model.py
index e2ac12e..bf91f1c 100644
--- a/cpnest/model.py
+++ b/cpnest/model.py
@@ -156,4 +156,4 @@ class Model(object):
                 The values of the parameter mapped into the Ndim-cube
         """
         return array('d', [(v-b[0])/(b[1]-b[0]) for v, b
-                           in zip(value.values, self.bounds)])
+                           in zip(point.values, self.bounds)])
-- 
2.43.0


From 2aa0131ace9e5635c89f9a090448c50841018c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 02/29] fix: lost updates of the shared maximum likelihood

The samplers read, compared and wrote logLmax without holding its lock, so
that one sampler could overwrite a higher value written by another in the
meantime (the Hamiltonian sampler wrote back a value read before its whole
trajectory). Take the lock of the shared value around the update.
---
 cpnest/sampler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 382ab02..6a827c2 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -333,7 +333,8 @@ class MetropolisHastingsSampler(Sampler):
                 if newparam.logP-logp_old + self.proposal.log_J > log(random()):
                     newparam.logL = self.model.log_likelihood(newparam)
                     if newparam.logL > logLmin:
-                        self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                        with self.logLmax.get_lock():
+                            self.logLmax.value = max(self.logLmax.value, newparam.logL)
                         oldparam = newparam.copy()
                         logp_old = newparam.logP
                         sub_accepted+=1
@@ -388,7 +389,8 @@ class HamiltonianMonteCarloSampler(Sampler):
             self.mcmc_accepted += sub_accepted
             self.mcmc_counter  += sub_counter
             self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)
-            self.logLmax.value = global_lmax
+            with self.logLmax.get_lock():
+                self.logLmax.value = max(self.logLmax.value, global_lmax)
 
             for p in self.proposal.proposals:
                 p.update_time_step(self.acceptance)
@@ -532,7 +534,8 @@ class SliceSampler(Sampler):
                         # compute the new value of logL
                         newparam.logL = self.model.log_likelihood(newparam)
                         if newparam.logL > Y:
-                            self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                            with self.logLmax.get_lock():
+                                self.logLmax.value = max(self.logLmax.value, newparam.logL)
                             oldparam     = newparam.copy()
                             sub_accepted += 1
                             break
-- 
2.43.0


From 9023f489b8b5d475d939cfe402e27db9d13b0c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 03/29] fix: deadlock when a sampler returns an invalid initial
 live point

reset() sends one request per sampler and then waits for as many valid
replies. A reply with logL or logP = -inf was skipped without asking for
another one, so that the nested sampler ended up waiting for a reply that no
sampler owed (with one sampler: immediately). Ask the same sampler again.
A point with NaN likelihood was accepted as live point, after which no reply
could ever exceed the NaN threshold; treat it as invalid as well.
---
 cpnest/NestedSampling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index e068c98..370a492 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -416,14 +416,16 @@ class NestedSampler(object):
                 for j in range(nthreads):
                     while i < self.Nlive:
                         acceptance,sub_acceptance,self.jumps,params[i] = self.manager.consumer_pipes[self.queue_counter].recv()
-                        self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                         if np.isnan(params[i].logL):
-                            self.logger.warn("Likelihood function returned NaN for params "+str(params))
-                            self.logger.warn("You may want to check your likelihood function")
-                        if params[i].logP!=-np.inf and params[i].logL!=-np.inf:
+                            self.logger.warning("Likelihood function returned NaN for params "+str(params[i]))
+                            self.logger.warning("You may want to check your likelihood function")
+                        elif params[i].logP!=-np.inf and params[i].logL!=-np.inf:
+                            self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                             i+=1
                             pbar.update()
                             break
+                        # unusable point: ask the same sampler for another one
+                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
         self.params = OrderedLivePoints(params)
         if self.verbose:
             sys.stderr.write("\n")
-- 
2.43.0


From 51db6547457a1e678621923e7150d4812df6e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 04/29] fix: Hamiltonian sampler never exits if the run ends
 during its chain

The chain loops until a point is accepted. If the nested sampler raises the
threshold to +inf to end the run after the sampler has passed its own check
(always the case for a request still queued when nlive is not a multiple of
the number of samplers), no point is ever accepted and run() never returns.
---
 cpnest/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 6a827c2..7b9de30 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -381,6 +381,10 @@ class HamiltonianMonteCarloSampler(Sampler):
                         oldparam        = newparam.copy()
                         sub_accepted   += 1
 
+                # the run is over: no point will ever be accepted again
+                if self.logLmin.value == np.inf:
+                    break
+
             # append the sample to the array of samples
             self.samples.append(oldparam)
             self.evolution_points.append(oldparam)
-- 
2.43.0


From 148ee32966aed3379f31542bcd93eb7908be5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 05/29] fix: checkpoint flag was never seen by the samplers

CPNest.checkpoint() replaced the shared value by an int in the parent only.
A signal during the initialisation of the live points then left the samplers
running forever and the exiting parent waiting for them.
---
 cpnest/cpnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 29fa9d5..d975cbc 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -547,7 +547,7 @@ class CPNest(object):
             each.start()
 
     def checkpoint(self):
-        self.manager.checkpoint_flag=1
+        self.manager.checkpoint_flag.value = 1
 
 
 class RunManager(SyncManager):
-- 
2.43.0


From 819066b050419080d42697b6f66d364dde7c2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 06/29] fix: samplers of different types shared their resume
 files

Every type numbered its files from 0, so that mixtures of samplers overwrote
each other's state and resumed as the wrong type.
---
 cpnest/cpnest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index d975cbc..002842b 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -219,7 +219,7 @@ class CPNest(object):
 
             for i in range(nhamiltonian):
                 resume_file = os.path.join(output,
-                                           "sampler_{0:d}.pkl".format(i))
+                                           "sampler_{0:d}.pkl".format(nmhs+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = HamiltonianMonteCarloSampler(
                         self.user,
@@ -241,7 +241,8 @@ class CPNest(object):
                 self.process_pool.append(p)
 
             for i in range(nslice):
-                resume_file = os.path.join(output, "sampler_{0:d}.pkl".format(i))
+                resume_file = os.path.join(output,
+                                           "sampler_{0:d}.pkl".format(nmhs+nhamiltonian+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = SliceSampler(self.user,
                                     maxmcmc,
-- 
2.43.0


From 4b3a0488855c17a6d32787e86573d3abbdbbfd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 07/29] fix: temporary sampler files were removed through the
 shell

With a space or shell character in the output path the files stayed behind
and other files could be removed instead.
---
 cpnest/cpnest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 002842b..b180247 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -373,10 +373,10 @@ class CPNest(object):
             for file in os.listdir(self.NS.output_folder):
                 if 'prior_samples' in file:
                     prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                    os.remove(os.path.join(self.NS.output_folder,file))
                 elif 'mcmc_chain' in file:
                     mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                    os.remove(os.path.join(self.NS.output_folder,file))
 
             # first deal with the prior samples
             if len(prior_samples)>0:
@@ -429,7 +429,7 @@ class CPNest(object):
         for file in os.listdir(self.NS.output_folder):
             if 'prior_samples' in file:
                 prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                os.remove(os.path.join(self.NS.output_folder,file))
 
         # if we sampled the prior, the nested samples are samples from the prior
         if self.NS.prior_sampling:
@@ -471,7 +471,7 @@ class CPNest(object):
         for file in os.listdir(self.NS.output_folder):
             if 'mcmc_chain' in file:
                 mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                os.remove(os.path.join(self.NS.output_folder,file))
 
         if not mcmc_samples:
             self.logger.critical('ERROR, no MCMC samples found!')
-- 
2.43.0


From 3d85114f2d520fad3242451a8aa0afc4ac8b14be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 08/29] fix: a crash while checkpointing destroyed the previous
 checkpoint

The resume file was truncated and rewritten in place. Write a temporary file
and move it over the old one.
---
 cpnest/NestedSampling.py | 5 ++++-
 cpnest/sampler.py        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 370a492..8965251 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -496,8 +496,11 @@ class NestedSampler(object):
         Checkpoint its internal state
         """
         self.logger.critical('Checkpointing nested sampling')
-        with open(self.resume_file,"wb") as f:
+        # write to a temporary file first, so that the previous checkpoint
+        # survives if the process dies while writing
+        with open(self.resume_file+".tmp","wb") as f:
             pickle.dump(self, f)
+        os.replace(self.resume_file+".tmp", self.resume_file)
 
     @classmethod
     def resume(cls, filename, manager, usermodel):
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 7b9de30..81128dc 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -273,8 +273,11 @@ class Sampler(object):
         Checkpoint its internal state
         """
         self.logger.info('Checkpointing Sampler')
-        with open(self.resume_file, "wb") as f:
+        # write to a temporary file first, so that the previous checkpoint
+        # survives if the process dies while writing
+        with open(self.resume_file+".tmp", "wb") as f:
             pickle.dump(self, f)
+        os.replace(self.resume_file+".tmp", self.resume_file)
 
     @classmethod
     def resume(cls, resume_file, manager, model):
-- 
2.43.0


From 9aa0b74294a58d3be2264c4afc84325e7dedadd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 09/29] fix: interrupted iterations were checkpointed half-done

The CheckPoint exception is usually raised while consume_sample() waits for a
sampler, after the evidence and the nested samples were updated but before the
live points were replaced. The resumed run then counted the same points twice
and could keep more than Nlive live points. Return to the state before the
interrupted iteration before checkpointing.
---
 cpnest/NestedSampling.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 8965251..44f4be1 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -449,8 +449,10 @@ class NestedSampler(object):
             self.logger.warning("Nested Sampling process {0!s}, exiting".format(os.getpid()))
             return 0
 
+        mark = self._mark()
         try:
             while self.condition > self.tolerance:
+                mark = self._mark()
                 self.consume_sample()
                 if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                     self.checkpoint()
@@ -460,6 +462,8 @@ class NestedSampler(object):
                     self.check_insertion_indices()
 
         except CheckPoint:
+            # the signal may have arrived in the middle of an iteration
+            self._rollback(mark)
             self.checkpoint()
             # Run each pipe to get it to checkpoint
             for c in self.manager.consumer_pipes:
@@ -491,6 +495,28 @@ class NestedSampler(object):
           self.state.plot(os.path.join(self.output_folder,'logXlogL.png'))
         return self.state.logZ, self.nested_samples
 
+    def _mark(self):
+        """
+        Remember the current state (which must be that between
+        two iterations) for `_rollback`
+        """
+        histories = [self.nested_samples, self.insertion_indices, self.rolling_p,
+                     self.state.logLs, self.state.log_vols]
+        return (self.__dict__.copy(), self.state.__dict__.copy(), list(self.params),
+                self.logLmin.value, [(h, len(h)) for h in histories])
+
+    def _rollback(self, mark):
+        """
+        Return to the state remembered by `_mark`
+        """
+        attributes, state, params, logLmin, histories = mark
+        self.__dict__.update(attributes)
+        self.state.__dict__.update(state)
+        self.params = OrderedLivePoints(params)
+        self.logLmin.value = logLmin
+        for history, length in histories:
+            del history[length:]
+
     def checkpoint(self):
         """
         Checkpoint its internal state
-- 
2.43.0


From 2cd33e74fd25104630298e8e32ce6f8ddddcddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 10/29] fix: Hamiltonian samplers could not be checkpointed

Their proposal held a generator (a counter for debugging output), which
cannot be pickled.
---
 cpnest/proposal.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index fdcc3fe..0571f56 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -399,7 +399,7 @@ class HamiltonianProposal(EnsembleEigenVector):
         self.TARGET         = 0.500
         self.ADAPTATIONSIZE = 0.001
         self._initialised   = False
-        self.c              = self.counter()
+        self.c              = 0
         self.DEBUG          = 0
 
     def set_ensemble(self, ensemble):
@@ -705,12 +705,6 @@ class ConstrainedLeapFrog(LeapFrog):
         """
         return super(ConstrainedLeapFrog,self).get_sample(q0, logLmin)
 
-    def counter(self):
-        n = 0
-        while True:
-            yield n
-            n += 1
-
     def evolve_trajectory_one_step_position(self, p, q):
         """
         One leap frog step in position
@@ -848,7 +842,8 @@ class ConstrainedLeapFrog(LeapFrog):
         save trajectory for diagnostic purposes
         """
         if filename is None:
-            filename = 'trajectory_'+str(next(self.c))+'.txt'
+            filename = 'trajectory_'+str(self.c)+'.txt'
+            self.c += 1
         f = open(filename,'w')
         names = trajectory[0][0].names
 
@@ -863,4 +858,3 @@ class ConstrainedLeapFrog(LeapFrog):
                 f.write(repr(q[n])+'\t'+repr(p[j])+'\t')
             f.write(repr(q.logP)+'\t'+repr(q.logL)+'\t'+repr(logLmin)+'\n')
         f.close()
-        if self.c == 3: exit()
-- 
2.43.0


From b4bfbeed643531a760e2e7ba83a92ea1cdeff337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 11/29] fix: samplers resumed without the nested sampler

If a run was killed after the samplers, but not the nested sampler, had been
checkpointed, the next run drew its initial live points from sampler pools
that were already constrained in likelihood.
---
 cpnest/cpnest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index b180247..aa2703f 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -188,6 +188,8 @@ class CPNest(object):
                             seed           = self.seed,
                             prior_sampling = self.prior_sampling,
                             manager        = self.manager)
+                # the samplers must start from the prior together with it
+                resume = False
             else:
                 self.NS = NestedSampler.resume(resume_file, self.manager,
                                                self.user)
-- 
2.43.0


From daa825b092b955a8e93c7a7b09b510a99a983cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 12/29] fix: IndexError on resuming with fewer samplers

The position in the list of pipes was restored even if there were not as many
pipes any more.
---
 cpnest/NestedSampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 44f4be1..8edbbdb 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -545,6 +545,8 @@ class NestedSampler(object):
         obj.logger = logging.getLogger("cpnest.NestedSampling.NestedSampler")
         del obj.__dict__['llmin']
         del obj.__dict__['llmax']
+        # nothing is pending on the new pipes, of which there may be fewer
+        obj.queue_counter = 0
         obj.logger.critical('Resuming NestedSampler from ' + filename)
         obj.last_checkpoint_time = time.time()
         return obj
-- 
2.43.0


From 1cb5fe3f5e2854f6a6cf6c573daa5a140f009ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 13/29] fix: posterior weights of a resumed run used the wrong
 number of live points

A resumed run keeps the number of live points it was started with, whatever
nlive is passed when it is resumed.
---
 cpnest/cpnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index aa2703f..fcb45da 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -360,7 +360,7 @@ class CPNest(object):
         import os
         from .nest2pos import draw_posterior_many
         nested_samples     = self.get_nested_samples()
-        posterior_samples  = draw_posterior_many([nested_samples],[self.nlive],verbose=self.verbose)
+        posterior_samples  = draw_posterior_many([nested_samples],[self.NS.Nlive],verbose=self.verbose)
         posterior_samples  = np.array(posterior_samples)
         self.prior_samples = {n:None for n in self.user.names}
         self.mcmc_samples  = {n:None for n in self.user.names}
-- 
2.43.0


From 4fb787152d0d300714d4bab9961d4d6ac1994936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 14/29] fix: best likelihood ignored the initial points of the
 samplers

An initial point from which the chain never moves can become a live point, so
that the maximum likelihood reported was lower than that of the samples.
---
 cpnest/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 81128dc..210132f 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -123,6 +123,9 @@ class Sampler(object):
             if p.logL is None or not np.isfinite(p.logL):
                 self.logger.warning("Received non-finite logL value {0} with parameters {1}".format(str(p.logL), str(p)))
                 self.logger.warning("You may want to check your likelihood function to improve sampling")
+            else:
+                with self.logLmax.get_lock():
+                    self.logLmax.value = max(self.logLmax.value, p.logL)
             self.evolution_points.append(p)
 
         self.proposal.set_ensemble(self.evolution_points)
-- 
2.43.0


From e09294efccfaead4315fffb957cb57806fd7c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 15/29] fix: runs with few samples failed in the diagnostic
 plots

The number of histogram bins was rounded down to 0.
---
 cpnest/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/plot.py b/cpnest/plot.py
index 2b5ac7c..d10b6ac 100644
--- a/cpnest/plot.py
+++ b/cpnest/plot.py
@@ -54,13 +54,13 @@ def plot_hist(x, name=None, prior_samples=None, mcmc_samples=None, filename=None
     fig = plt.figure()
     ax  = fig.add_subplot(111)
     ax.hist(x, density = True, color='black', linewidth = 1.25,
-                histtype='step', bins=len(x)//50, label = 'posterior')
+                histtype='step', bins=max(1, len(x)//50), label = 'posterior')
     if prior_samples is not None:
         ax.hist(prior_samples, density = True, color='green', linewidth = 1.0,
-                histtype='step', bins=len(x)//50, label = 'prior')
+                histtype='step', bins=max(1, len(x)//50), label = 'prior')
     if mcmc_samples is not None:
         ax.hist(mcmc_samples, density = True, color='red', linewidth = 1.0,
-                histtype='step', bins=len(x)//50, label = 'mcmc')
+                histtype='step', bins=max(1, len(x)//50), label = 'mcmc')
     ax.legend(loc='upper left')
     ax.set_ylabel('probability density')
     if name is not None:
@@ -90,7 +90,7 @@ def plot_indices(indices, filename=None, max_bins=30):
     ax  = fig.add_subplot(111)
 
     ax.hist(indices, density=True, color='tab:blue', linewidth=1.25,
-                histtype='step', bins=min(len(indices) // 100, max_bins))
+                histtype='step', bins=max(1, min(len(indices) // 100, max_bins)))
     # Theoretical distribution
     ax.axhline(1, color='black', linewidth=1.25, linestyle=':', label='pdf')
 
-- 
2.43.0


From badd5cb569ad70f813ca3ac57294f6f915be16ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 16/29] fix: resumed samplers all used the same random numbers

---
 cpnest/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 210132f..539281e 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -215,6 +215,10 @@ class Sampler(object):
         """
         if not self.initialised:
             self.reset()
+        else:
+            # all resumed samplers inherit the same random state from the
+            # parent process
+            np.random.seed()
 
         self.counter=1
         __checkpoint_flag=False
-- 
2.43.0


From 0774b60e62dc7f8542025be8c958911c063a3aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 17/29] fix: drawing a fixed number of posterior samples failed

draw_N_posterior could index past the end of the samples (the weights are not
exactly normalised), and draw_N_posterior_many could only combine runs that
contribute the same number of samples.
---
 cpnest/nest2pos.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index 30f3a54..111ed14 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -1,6 +1,6 @@
 import logging
 import numpy as np
-from numpy import logaddexp, vstack
+from numpy import logaddexp
 from numpy.random import uniform
 from functools import reduce
 from scipy.stats import pearsonr
@@ -121,6 +121,10 @@ def draw_N_posterior(data,log_wts, N, verbose=False):
     for i,log_wt in enumerate(log_wts):
         log_cumsums[i+1]=logaddexp(log_cumsums[i], log_wt)
 
+    # the weights are normalised by the trapezoidal evidence, which differs
+    # slightly from their sum
+    log_cumsums-=log_cumsums[-1]
+
     us=np.log(uniform(size=N))
     idxs=np.digitize(us, log_cumsums)
 
@@ -139,7 +143,7 @@ def draw_N_posterior_many(datas, Nlives, Npost, verbose=False):
     log_total_evidence=reduce(logaddexp, log_evs)
     Ns=[int(round(Npost*np.exp(log_ev-log_total_evidence))) for log_ev in log_evs]
     posts=[draw_N_posterior(data,logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]
-    return vstack(posts).flatten()
+    return np.concatenate([post for post in posts if len(post)>0], axis=None)
 
 def resample_mcmc_chain(chain, verbose=False, burnin=False):
     """
-- 
2.43.0


From af45bdbd062fbd9dacc27ec23f160f105f6a13e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 18/29] fix: prior and MCMC samples were lost or written from
 the wrong array

At verbose>=3 run() collected (and removed) the samplers' files, then looked for
them again and replaced the samples by None. get_prior_samples() and
get_mcmc_samples() wrote the attribute of an earlier call instead of the samples
they had just collected. Every file whose name contains 'prior_samples' or
'mcmc_chain' was read as a chain and removed, not only those the samplers write.
---
 cpnest/cpnest.py | 78 +++++++++++++++++++-----------------------------
 1 file changed, 30 insertions(+), 48 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index fcb45da..b41e43d 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -5,6 +5,7 @@ import multiprocessing as mp
 from ctypes import c_double, c_int
 import numpy as np
 import os
+import re
 import sys
 import signal
 import logging
@@ -163,6 +164,8 @@ class CPNest(object):
             self.nlive    = nlive
             self.poolsize = poolsize
             self.posterior_samples = None
+            self.prior_samples = {n:None for n in usermodel.names}
+            self.mcmc_samples  = {n:None for n in usermodel.names}
             self.prior_sampling = prior_sampling
             self.manager = RunManager(
                 nthreads=self.nthreads,
@@ -309,10 +312,10 @@ class CPNest(object):
                     filename=None
                 )
 
-            if self.verbose>=3 or self.NS.prior_sampling:
+            # for verbose>=3 get_posterior_samples has already collected the
+            # prior and mcmc samples
+            if self.verbose<3 and self.NS.prior_sampling:
                 self.prior_samples = self.get_prior_samples(filename=None)
-            if self.verbose>=3 and not self.NS.prior_sampling:
-                self.mcmc_samples = self.get_mcmc_samples(filename=None)
             if self.verbose>=2:
                 self.plot(corner = False)
 
@@ -362,42 +365,16 @@ class CPNest(object):
         nested_samples     = self.get_nested_samples()
         posterior_samples  = draw_posterior_many([nested_samples],[self.NS.Nlive],verbose=self.verbose)
         posterior_samples  = np.array(posterior_samples)
-        self.prior_samples = {n:None for n in self.user.names}
-        self.mcmc_samples  = {n:None for n in self.user.names}
         # if we run with full verbose, read in and output
         # the mcmc thinned posterior samples
         if self.verbose >= 3:
-            from .nest2pos import resample_mcmc_chain
-            from numpy.lib.recfunctions import stack_arrays
-
-            prior_samples = []
-            mcmc_samples  = []
-            for file in os.listdir(self.NS.output_folder):
-                if 'prior_samples' in file:
-                    prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                    os.remove(os.path.join(self.NS.output_folder,file))
-                elif 'mcmc_chain' in file:
-                    mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                    os.remove(os.path.join(self.NS.output_folder,file))
-
-            # first deal with the prior samples
-            if len(prior_samples)>0:
-                self.prior_samples = stack_arrays([p for p in prior_samples])
-                if filename:
-                    np.savetxt(os.path.join(
-                           self.NS.output_folder,'prior.dat'),
-                           self.prior_samples.ravel(),
-                           header=' '.join(self.prior_samples.dtype.names),
-                           newline='\n',delimiter=' ')
-            # now stack all the mcmc chains
-            if len(mcmc_samples)>0:
-                self.mcmc_samples = stack_arrays([p for p in mcmc_samples])
-                if filename:
-                    np.savetxt(os.path.join(
-                           self.NS.output_folder,'mcmc.dat'),
-                           self.mcmc_samples.ravel(),
-                           header=' '.join(self.mcmc_samples.dtype.names),
-                           newline='\n',delimiter=' ')
+            prior_samples = self.get_prior_samples(filename='prior.dat' if filename else None)
+            if prior_samples is not None:
+                self.prior_samples = prior_samples
+            if not self.NS.prior_sampling:
+                mcmc_samples = self.get_mcmc_samples(filename='mcmc.dat' if filename else None)
+                if mcmc_samples is not None:
+                    self.mcmc_samples = mcmc_samples
 
         # TODO: Replace with something to output samples in whatever format
         if filename:
@@ -408,6 +385,13 @@ class CPNest(object):
                 newline='\n',delimiter=' ')
         return posterior_samples
 
+    def _sampler_files(self, prefix):
+        """
+        Names of the files written by the samplers (see `cpnest.sampler`)
+        """
+        return [f for f in os.listdir(self.NS.output_folder)
+                if re.fullmatch(prefix + r'_\d+\.dat', f)]
+
     def get_prior_samples(self, filename='prior.dat'):
         """
         Returns prior samples
@@ -428,10 +412,9 @@ class CPNest(object):
 
         # read in the samples from the prior coming from each sampler
         prior_samples = []
-        for file in os.listdir(self.NS.output_folder):
-            if 'prior_samples' in file:
-                prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                os.remove(os.path.join(self.NS.output_folder,file))
+        for file in self._sampler_files('prior_samples'):
+            prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
+            os.remove(os.path.join(self.NS.output_folder,file))
 
         # if we sampled the prior, the nested samples are samples from the prior
         if self.NS.prior_sampling:
@@ -445,8 +428,8 @@ class CPNest(object):
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.prior_samples.ravel(),
-                       header=' '.join(self.prior_samples.dtype.names),
+                       prior_samples.ravel(),
+                       header=' '.join(prior_samples.dtype.names),
                        newline='\n',delimiter=' ')
 
         return prior_samples
@@ -470,10 +453,9 @@ class CPNest(object):
         from numpy.lib.recfunctions import stack_arrays
 
         mcmc_samples  = []
-        for file in os.listdir(self.NS.output_folder):
-            if 'mcmc_chain' in file:
-                mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                os.remove(os.path.join(self.NS.output_folder,file))
+        for file in self._sampler_files('mcmc_chain'):
+            mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
+            os.remove(os.path.join(self.NS.output_folder,file))
 
         if not mcmc_samples:
             self.logger.critical('ERROR, no MCMC samples found!')
@@ -484,8 +466,8 @@ class CPNest(object):
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.mcmc_samples.ravel(),
-                       header=' '.join(self.mcmc_samples.dtype.names),
+                       mcmc_samples.ravel(),
+                       header=' '.join(mcmc_samples.dtype.names),
                        newline='\n',delimiter=' ')
         return mcmc_samples
 
-- 
2.43.0


From 04c69d8d227ae047233e91fa13ce1544dd862688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 19/29] fix: the stopping rule ignored the points found during
 the iteration

The condition was evaluated before the replacement points arrived, with the
best likelihood and the prior volume of the previous iteration, so that a run
could stop although a point just found dominated the evidence.
---
 cpnest/NestedSampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 8edbbdb..e8486f3 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -329,7 +329,6 @@ class NestedSampler(object):
 
         # Make sure we are mixing the chains
         for i in np.random.permutation(range(nreplace)): self.manager.consumer_pipes[self.worst[i]].send(self.params[self.worst[i]])
-        self.condition = logaddexp(self.state.logZ,self.logLmax.value - self.iteration/(float(self.Nlive))) - self.state.logZ
 
         # Replace the points we just consumed with the next acceptable ones
         # Reversed since the for the first point the current number of
@@ -365,6 +364,9 @@ class NestedSampler(object):
         # samplers if rejected
         self.params.remove_n_worst_points(nreplace)
 
+        # only now is the best likelihood up to date with the new points
+        self.condition = logaddexp(self.state.logZ,self.logLmax.value - self.iteration/(float(self.Nlive))) - self.state.logZ
+
     def get_worst_n_live_points(self, n):
         """
         selects the lowest likelihood N live points
-- 
2.43.0


From 845500f549fad34b2b688ddd5c851fd07b5fb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 20/29] fix: interrupted samplers lost the point they were
 evolving

---
 cpnest/sampler.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 539281e..352ba1a 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -248,13 +248,13 @@ class Sampler(object):
                     sys.exit(130)
 
                 self.evolution_points.append(p)
-                (Nmcmc, outParam) = next(self.yield_sample(self.logLmin.value))
+                (Nmcmc, outParam) = self._evolve(self.logLmin.value)
                 # Send the sample to the Nested Sampler
                 self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))
 
             # otherwise, keep on sampling from the previous boundary
             else:
-                _, _ = next(self.yield_sample(self.logLmin.value))
+                _, _ = self._evolve(self.logLmin.value)
             # Update the ensemble every now and again
             if (self.counter%(self.poolsize//4))==0:
                 self.proposal.set_ensemble(self.evolution_points)
@@ -275,6 +275,19 @@ class Sampler(object):
         self.logger.critical("Sampler process {0!s} - mean acceptance {1:.3f}: exiting".format(os.getpid(), float(self.mcmc_accepted)/float(self.mcmc_counter)))
         return 0
 
+    def _evolve(self, logLmin):
+        """
+        Get the next sample. If interrupted, put the point
+        being evolved back into the pool.
+        """
+        pool = list(self.evolution_points)
+        try:
+            return next(self.yield_sample(logLmin))
+        except CheckPoint:
+            self.evolution_points.clear()
+            self.evolution_points.extend(pool)
+            raise
+
     def checkpoint(self):
         """
         Checkpoint its internal state
-- 
2.43.0


From 52afc4b1301bd93944b8cf7c68bede071d814f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 21/29] fix: information ignored the first sample

---
 cpnest/NestedSampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index e8486f3..0a48d24 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -122,7 +122,10 @@ class _NSintegralState(object):
         Wt = self.logw + logL + logsubexp(0,logt)
         self.logZ = logaddexp(self.logZ,Wt)
         # Update information estimate
-        if np.isfinite(oldZ) and np.isfinite(self.logZ) and np.isfinite(logL):
+        if np.isfinite(self.logZ) and np.isfinite(logL) and not np.isfinite(oldZ):
+            # first sample with a finite contribution
+            self.info = logL - self.logZ
+        elif np.isfinite(oldZ) and np.isfinite(self.logZ) and np.isfinite(logL):
             self.info = np.exp(Wt - self.logZ)*logL + np.exp(oldZ - self.logZ)*(self.info + oldZ) - self.logZ
             if isnan(self.info):
                 self.info = 0
-- 
2.43.0


From 1cfde3d9c021c256aa28e9c0c080e7f48844b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 22/29] fix: Hamiltonian samplers failed with maxmcmc below ten

---
 cpnest/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 352ba1a..8db43cd 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -77,7 +77,7 @@ class Sampler(object):
 
         self.seed = seed
         self.model = model
-        self.initial_mcmc = maxmcmc//10
+        self.initial_mcmc = max(1, maxmcmc//10)
         self.maxmcmc = maxmcmc
         self.resume_file = resume_file
         self.manager = manager
-- 
2.43.0


From 864f15af49f9b4000b0c8751dac909e2eb8645a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 23/29] fix: vanishing likelihood derivatives crashed the
 Hamiltonian samplers

---
 cpnest/proposal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 0571f56..57651e6 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -482,6 +482,9 @@ class HamiltonianProposal(EnsembleEigenVector):
         """
         v               = np.array([self.normal[i](q[n]) for i,n in enumerate(q.names)])
         v[np.isnan(v)]  = -1.0
+        # no direction is defined where the derivatives vanish
+        if not np.any(v):
+            v[:]        = -1.0
         n               = v/np.linalg.norm(v)
         return n
 
-- 
2.43.0


From fd462967a251c0150cfbded911c408b3ab3e406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 24/29] fix: drawing posterior samples failed when every run's
 share rounds to none

---
 cpnest/nest2pos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index 111ed14..a535fb5 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -115,7 +115,7 @@ def draw_N_posterior(data,log_wts, N, verbose=False):
     Draw N samples from the input data, weighted by log_wt.
     For large N there may be repeated samples
     """
-    if(N==0): return []
+    if(N==0): return data[:0]
     log_cumsums=np.zeros(log_wts.shape[0]+1)
     log_cumsums[0]=-float('inf')
     for i,log_wt in enumerate(log_wts):
@@ -143,7 +143,7 @@ def draw_N_posterior_many(datas, Nlives, Npost, verbose=False):
     log_total_evidence=reduce(logaddexp, log_evs)
     Ns=[int(round(Npost*np.exp(log_ev-log_total_evidence))) for log_ev in log_evs]
     posts=[draw_N_posterior(data,logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]
-    return np.concatenate([post for post in posts if len(post)>0], axis=None)
+    return np.concatenate(posts, axis=None)
 
 def resample_mcmc_chain(chain, verbose=False, burnin=False):
     """
-- 
2.43.0


From 4bab5f45ebf18a370f513b7313bf96615dd78211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 25/29] fix: slice samplers were not told of prior sampling and
 left their chains behind

---
 cpnest/cpnest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index b41e43d..e41f0fa 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -257,6 +257,7 @@ class CPNest(object):
                                     seed        = self.seed+nmhs+nhamiltonian+i,
                                     proposal    = proposals['sli'](),
                                     resume_file = resume_file,
+                                    sample_prior = prior_sampling,
                                     manager     = self.manager
                                     )
                 else:
-- 
2.43.0


From a2d2ef1225f58ef12b5cbe21cf309af565ab056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 26/29] fix: histograms of samples failed where a likelihood or
 prior was zero

---
 cpnest/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpnest/plot.py b/cpnest/plot.py
index d10b6ac..2e7bfc0 100644
--- a/cpnest/plot.py
+++ b/cpnest/plot.py
@@ -1,3 +1,4 @@
+import numpy as np
 import matplotlib as mpl
 from matplotlib import pyplot as plt
 
@@ -51,6 +52,9 @@ def plot_hist(x, name=None, prior_samples=None, mcmc_samples=None, filename=None
     """
     Produce a histogram
     """
+    # a likelihood or prior may be zero somewhere: there is no room for -inf
+    x, prior_samples, mcmc_samples = [s if s is None else np.asarray(s)[np.isfinite(s)]
+                                      for s in (x, prior_samples, mcmc_samples)]
     fig = plt.figure()
     ax  = fig.add_subplot(111)
     ax.hist(x, density = True, color='black', linewidth = 1.25,
-- 
2.43.0


From b0ea534d7851f356b307f3608095739c6f0cea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 27/29] fix: the free Hamiltonian move does not end when it
 lands exactly on a prior bound

---
 cpnest/proposal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 57651e6..ba8387a 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -659,7 +659,7 @@ class LeapFrog(HamiltonianProposal):
                 q[k] += self.dt * p[j] * self.inverse_mass[j]
                 # check and reflect against the bounds
                 # of the allowed parameter range
-                while q[k] <= l or q[k] >= u:
+                while q[k] < l or q[k] > u:
                     if q[k] > u:
                         q[k] = u - (q[k] - u)
                         p[j] *= -1
-- 
2.43.0


From 6951db540b1137c7db893e026277a894184b924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 28/29] fix: the free Hamiltonian trajectory ends with one and
 a half kicks instead of half of one, and is not reversible

---
 cpnest/proposal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index ba8387a..ea0fb58 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -668,8 +668,9 @@ class LeapFrog(HamiltonianProposal):
                         p[j] *= -1
 
             dV = self.gradient(q)
-            # take a full momentum step
-            p += - self.dt * dV
+            # take a full momentum step, except at the end of the trajectory
+            if i < self.L - 1:
+                p += - self.dt * dV
         # Do a final update of the momentum for a half step
         p += - 0.5 * self.dt * dV
 
-- 
2.43.0


From b3a3a4fa826e89b1babbde8465605199cf05fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 29/29] fix: a Hamiltonian move without any state within the
 prior ends the sampler with a ValueError

---
 cpnest/proposal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index ea0fb58..f1b6844 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -838,6 +838,9 @@ class ConstrainedLeapFrog(LeapFrog):
         """
         logw = np.array([-self.hamiltonian(p,q) for q,p in trajectory[1:-1]])
         norm = logsumexp(logw)
+        # no state within the support of the prior: stay at the start
+        if norm == -np.inf:
+            return trajectory[0]
         idx  = np.random.choice(range(1,len(trajectory)-1), p = np.exp(logw  - norm))
         return trajectory[idx]
 
-- 
2.43.0

