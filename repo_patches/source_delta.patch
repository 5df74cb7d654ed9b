From cd55ef120fb595be4776d235d33aa316431dc1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 01/18] fix: ask for another initial point when a sampler
 returns an invalid one

A rejected initial point was never asked for again, so that the nested
sampler ended up waiting for ever for an answer it had not requested, and a
point with NaN likelihood became a live point.
---
 cpnest/NestedSampling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index e068c98..e262e39 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -416,14 +416,16 @@ class NestedSampler(object):
                 for j in range(nthreads):
                     while i < self.Nlive:
                         acceptance,sub_acceptance,self.jumps,params[i] = self.manager.consumer_pipes[self.queue_counter].recv()
-                        self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                         if np.isnan(params[i].logL):
-                            self.logger.warn("Likelihood function returned NaN for params "+str(params))
-                            self.logger.warn("You may want to check your likelihood function")
-                        if params[i].logP!=-np.inf and params[i].logL!=-np.inf:
+                            self.logger.warning("Likelihood function returned NaN for params "+str(params[i]))
+                            self.logger.warning("You may want to check your likelihood function")
+                        if params[i].logP!=-np.inf and params[i].logL!=-np.inf and not np.isnan(params[i].logL):
+                            self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                             i+=1
                             pbar.update()
                             break
+                        # not a valid live point: ask the same sampler for another one
+                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
         self.params = OrderedLivePoints(params)
         if self.verbose:
             sys.stderr.write("\n")
-- 
2.43.0


From 7705add79814e5ed20c4bebd517913318159faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 02/18] fix: undo an interrupted iteration before checkpointing

A signal arriving while points were being replaced saved a half-done
iteration: the points it was replacing were both in the nested samples and
among the live points, so that the resumed run had too many live points and
counted samples twice.
---
 cpnest/NestedSampling.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index e262e39..31ba7fd 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -432,6 +432,30 @@ class NestedSampler(object):
             sys.stderr.flush()
         self.initialised=True
 
+    def get_iteration_start(self):
+        """
+        Remember the state between two iterations, such that
+        an interrupted iteration can be undone
+        """
+        counters = {k: self.__dict__[k] for k in ('iteration', 'condition', 'worst', 'acceptance', 'accepted', 'rejected')}
+        integral = {k: self.state.__dict__[k] for k in ('iteration', 'logZ', 'oldZ', 'logw', 'info')}
+        lengths  = (len(self.state.logLs), len(self.nested_samples), len(self.insertion_indices))
+        return list(self.params), self.logLmin.value, counters, integral, lengths
+
+    def restore_iteration_start(self, iteration_start):
+        """
+        Go back to the state remembered by `get_iteration_start`
+        """
+        params, logLmin, counters, integral, lengths = iteration_start
+        self.params        = OrderedLivePoints(params)
+        self.logLmin.value = logLmin
+        self.__dict__.update(counters)
+        self.state.__dict__.update(integral)
+        del self.state.logLs[lengths[0]:]
+        del self.state.log_vols[lengths[0]:]
+        del self.nested_samples[lengths[1]:]
+        del self.insertion_indices[lengths[2]:]
+
     def nested_sampling_loop(self):
         """
         main nested sampling loop
@@ -449,9 +473,11 @@ class NestedSampler(object):
             self.logger.warning("Nested Sampling process {0!s}, exiting".format(os.getpid()))
             return 0
 
+        iteration_start = self.get_iteration_start()
         try:
             while self.condition > self.tolerance:
                 self.consume_sample()
+                iteration_start = self.get_iteration_start()
                 if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                     self.checkpoint()
                     self.last_checkpoint_time = time.time()
@@ -460,6 +486,8 @@ class NestedSampler(object):
                     self.check_insertion_indices()
 
         except CheckPoint:
+            # the signal can arrive in the middle of an iteration: undo it
+            self.restore_iteration_start(iteration_start)
             self.checkpoint()
             # Run each pipe to get it to checkpoint
             for c in self.manager.consumer_pipes:
-- 
2.43.0


From 58fca0d625739be8a480f9aa22e9137f892b9723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 03/18] fix: stop all processes when a checkpoint signal
 arrives outside the loop

The flag asking the samplers to stop was replaced in the parent instead of
being set in shared memory, so that the parent waited for ever for samplers
that never stopped, and a signal arriving while the samplers were being
started or the results written ended the run with a traceback.
---
 cpnest/cpnest.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 29fa9d5..bcced3c 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -264,7 +264,14 @@ class CPNest(object):
         """
         Run the sampler
         """
-
+        try:
+            self._run()
+        except CheckPoint:
+            # the signal arrived outside of the nested sampling loop
+            self.checkpoint()
+            sys.exit(130)
+
+    def _run(self):
         with self.log_file:
             # Everything in this context is logged to `log_file`
 
@@ -547,7 +554,7 @@ class CPNest(object):
             each.start()
 
     def checkpoint(self):
-        self.manager.checkpoint_flag=1
+        self.manager.checkpoint_flag.value=1
 
 
 class RunManager(SyncManager):
-- 
2.43.0


From 72e23180692c9ac58fd639acd49ef4bd1c1ee873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 04/18] fix: write checkpoint files atomically

A crash, full disk or second signal while a checkpoint was being written
left a truncated file in place of the previous checkpoint, and the run
could not be resumed at all.
---
 cpnest/NestedSampling.py |  4 ++--
 cpnest/sampler.py        |  4 ++--
 cpnest/utils.py          | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 31ba7fd..aa8c761 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -17,6 +17,7 @@ from . import nest2pos
 from .nest2pos import logsubexp
 from operator import attrgetter
 from .cpnest import CheckPoint
+from .utils import dump_atomically
 
 
 logger = logging.getLogger('cpnest.NestedSampling')
@@ -524,8 +525,7 @@ class NestedSampler(object):
         Checkpoint its internal state
         """
         self.logger.critical('Checkpointing nested sampling')
-        with open(self.resume_file,"wb") as f:
-            pickle.dump(self, f)
+        dump_atomically(self, self.resume_file)
 
     @classmethod
     def resume(cls, filename, manager, usermodel):
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 382ab02..0974cc5 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -12,6 +12,7 @@ from . import parameter
 from .proposal import DefaultProposalCycle
 from . import proposal
 from .cpnest import CheckPoint, RunManager
+from .utils import dump_atomically
 from tqdm import tqdm
 from operator import attrgetter
 import numpy.lib.recfunctions as rfn
@@ -273,8 +274,7 @@ class Sampler(object):
         Checkpoint its internal state
         """
         self.logger.info('Checkpointing Sampler')
-        with open(self.resume_file, "wb") as f:
-            pickle.dump(self, f)
+        dump_atomically(self, self.resume_file)
 
     @classmethod
     def resume(cls, resume_file, manager, model):
diff --git a/cpnest/utils.py b/cpnest/utils.py
index cb3dc1d..453c54d 100644
--- a/cpnest/utils.py
+++ b/cpnest/utils.py
@@ -1,5 +1,6 @@
 import os
 import logging
+import pickle
 
 # Default formats and level names
 FORMATTER = logging.Formatter(
@@ -10,6 +11,19 @@ LEVELS = ['CRITICAL', 'WARNING', 'INFO', 'DEBUG']
 LOGGER = logging.getLogger('cpnest.utils')
 
 
+def dump_atomically(obj, filename):
+    """
+    Pickle `obj` to `filename`, such that at any time the file
+    is either the complete old one or the complete new one
+    """
+    tmp = filename + '.tmp'
+    with open(tmp, "wb") as f:
+        pickle.dump(obj, f)
+        f.flush()
+        os.fsync(f.fileno())
+    os.replace(tmp, filename)
+
+
 class _Handler(logging.Handler):
 
     def __init__(self, verbose=0, **kwargs):
-- 
2.43.0


From 190e12c88d54b6a63a350f5d4aa121e2dbd3e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 05/18] fix: do not sample above an infinite threshold at the
 end of a run

The threshold becomes infinite when the run is over. A Hamiltonian sampler
that read it after having tested it searched for ever for a point above it,
and the run never ended.
---
 cpnest/sampler.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 0974cc5..bbe8ba4 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -241,14 +241,22 @@ class Sampler(object):
                     self.checkpoint()
                     sys.exit(130)
 
+                logLmin = self.logLmin.value
+                # the run may have ended since the request was sent
+                if logLmin == np.inf:
+                    break
+
                 self.evolution_points.append(p)
-                (Nmcmc, outParam) = next(self.yield_sample(self.logLmin.value))
+                (Nmcmc, outParam) = next(self.yield_sample(logLmin))
                 # Send the sample to the Nested Sampler
                 self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))
 
             # otherwise, keep on sampling from the previous boundary
             else:
-                _, _ = next(self.yield_sample(self.logLmin.value))
+                logLmin = self.logLmin.value
+                if logLmin == np.inf:
+                    break
+                _, _ = next(self.yield_sample(logLmin))
             # Update the ensemble every now and again
             if (self.counter%(self.poolsize//4))==0:
                 self.proposal.set_ensemble(self.evolution_points)
-- 
2.43.0


From 5033751206f069e19a8476e8c141394a4c65cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 06/18] fix: never lower the shared best likelihood

Samplers updated it with an unprotected read-modify-write (the Hamiltonian
sampler with a value read long before), so that concurrent updates were
lost, and points delivered without having moved were never counted. The
stopping test could then end a run too early.
---
 cpnest/NestedSampling.py |  4 +++-
 cpnest/sampler.py        | 11 ++++-------
 cpnest/utils.py          | 10 ++++++++++
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index aa8c761..fb5e2be 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -17,7 +17,7 @@ from . import nest2pos
 from .nest2pos import logsubexp
 from operator import attrgetter
 from .cpnest import CheckPoint
-from .utils import dump_atomically
+from .utils import dump_atomically, raise_to
 
 
 logger = logging.getLogger('cpnest.NestedSampling')
@@ -346,6 +346,7 @@ class NestedSampler(object):
                     # return the index at which is was inserted, this will
                     # include the n worst points, so this subtracted next
                     index = self.params.insert_live_point(proposed)
+                    raise_to(self.logLmax, proposed.logL)
                     # the index is then coverted to a value between [0, 1]
                     # accounting for the variable number of live points
                     self.insertion_indices.append((index - nreplace) / (self.Nlive - k - 1))
@@ -428,6 +429,7 @@ class NestedSampler(object):
                         # not a valid live point: ask the same sampler for another one
                         self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
         self.params = OrderedLivePoints(params)
+        raise_to(self.logLmax, self.params[-1].logL)
         if self.verbose:
             sys.stderr.write("\n")
             sys.stderr.flush()
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index bbe8ba4..74a83bb 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -12,7 +12,7 @@ from . import parameter
 from .proposal import DefaultProposalCycle
 from . import proposal
 from .cpnest import CheckPoint, RunManager
-from .utils import dump_atomically
+from .utils import dump_atomically, raise_to
 from tqdm import tqdm
 from operator import attrgetter
 import numpy.lib.recfunctions as rfn
@@ -341,7 +341,7 @@ class MetropolisHastingsSampler(Sampler):
                 if newparam.logP-logp_old + self.proposal.log_J > log(random()):
                     newparam.logL = self.model.log_likelihood(newparam)
                     if newparam.logL > logLmin:
-                        self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                        raise_to(self.logLmax, newparam.logL)
                         oldparam = newparam.copy()
                         logp_old = newparam.logP
                         sub_accepted+=1
@@ -368,8 +368,6 @@ class HamiltonianMonteCarloSampler(Sampler):
     """
     def yield_sample(self, logLmin):
 
-        global_lmax = self.logLmax.value
-
         while True:
 
             sub_accepted    = 0
@@ -384,7 +382,7 @@ class HamiltonianMonteCarloSampler(Sampler):
                 if self.proposal.log_J > np.log(random()):
 
                     if newparam.logL > logLmin:
-                        global_lmax = max(global_lmax, newparam.logL)
+                        raise_to(self.logLmax, newparam.logL)
                         oldparam        = newparam.copy()
                         sub_accepted   += 1
 
@@ -396,7 +394,6 @@ class HamiltonianMonteCarloSampler(Sampler):
             self.mcmc_accepted += sub_accepted
             self.mcmc_counter  += sub_counter
             self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)
-            self.logLmax.value = global_lmax
 
             for p in self.proposal.proposals:
                 p.update_time_step(self.acceptance)
@@ -540,7 +537,7 @@ class SliceSampler(Sampler):
                         # compute the new value of logL
                         newparam.logL = self.model.log_likelihood(newparam)
                         if newparam.logL > Y:
-                            self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                            raise_to(self.logLmax, newparam.logL)
                             oldparam     = newparam.copy()
                             sub_accepted += 1
                             break
diff --git a/cpnest/utils.py b/cpnest/utils.py
index 453c54d..cd25a24 100644
--- a/cpnest/utils.py
+++ b/cpnest/utils.py
@@ -24,6 +24,16 @@ def dump_atomically(obj, filename):
     os.replace(tmp, filename)
 
 
+def raise_to(shared, value):
+    """
+    Set a `multiprocessing.Value` shared with other processes to
+    the larger of `value` and its present value
+    """
+    with shared.get_lock():
+        if value > shared.value:
+            shared.value = value
+
+
 class _Handler(logging.Handler):
 
     def __init__(self, verbose=0, **kwargs):
-- 
2.43.0


From fef2b10e441c88925d7dcf335e10e7106b0e1c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 07/18] fix: give every sampler a checkpoint file of its own

The first Metropolis-Hastings, Hamiltonian and slice samplers all saved
their state to sampler_0.pkl, and all resumed from whichever came last.
---
 cpnest/cpnest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index bcced3c..9a0a950 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -219,7 +219,7 @@ class CPNest(object):
 
             for i in range(nhamiltonian):
                 resume_file = os.path.join(output,
-                                           "sampler_{0:d}.pkl".format(i))
+                                           "sampler_{0:d}.pkl".format(nmhs+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = HamiltonianMonteCarloSampler(
                         self.user,
@@ -241,7 +241,7 @@ class CPNest(object):
                 self.process_pool.append(p)
 
             for i in range(nslice):
-                resume_file = os.path.join(output, "sampler_{0:d}.pkl".format(i))
+                resume_file = os.path.join(output, "sampler_{0:d}.pkl".format(nmhs+nhamiltonian+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = SliceSampler(self.user,
                                     maxmcmc,
-- 
2.43.0


From aa55483718e956e85e18fe0c0efef0000f09340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 08/18] fix: let Hamiltonian samplers be checkpointed and
 resumed

Their proposal holds a generator, which cannot be pickled, so that every
checkpoint of a Hamiltonian sampler failed, and methods of the model of the
run that was interrupted.
---
 cpnest/proposal.py | 43 +++++++++++++++++++++++++++++++++++++++++++
 cpnest/sampler.py  |  1 +
 2 files changed, 44 insertions(+)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index fdcc3fe..669e7f2 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -33,6 +33,12 @@ class Proposal(object):
         """
         pass
 
+    def set_model(self, model):
+        """
+        Set the model to use, for the proposals that need one
+        """
+        pass
+
 class EnsembleProposal(Proposal):
     """
     Base class for ensemble proposals
@@ -106,6 +112,13 @@ class ProposalCycle(EnsembleProposal):
             if isinstance(p,EnsembleProposal):
                 p.set_ensemble(self.ensemble)
 
+    def set_model(self, model):
+        """
+        Sets the model of each proposal
+        """
+        for p in self.proposals:
+            p.set_model(model)
+
     def add_proposal(self, proposal, weight):
         self.proposals = self.proposals + [proposal]
         self.weights = self.weights + [weight]
@@ -402,6 +415,27 @@ class HamiltonianProposal(EnsembleEigenVector):
         self.c              = self.counter()
         self.DEBUG          = 0
 
+    def set_model(self, model):
+        """
+        Set the functions provided by the model
+        """
+        self.V = model.potential
+
+    def __getstate__(self):
+        """
+        Remove the model, which is not part of the state, and the counter,
+        which cannot be pickled
+        """
+        state = self.__dict__.copy()
+        for k in ('V', 'dV', 'log_likelihood', 'T', 'c'):
+            state.pop(k, None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__ = state
+        self.T = self.kinetic_energy
+        self.c = self.counter()
+
     def set_ensemble(self, ensemble):
         """
         override the set ensemble method
@@ -602,6 +636,11 @@ class LeapFrog(HamiltonianProposal):
         self.dV             = model.force
         self.prior_bounds   = model.bounds
 
+    def set_model(self, model):
+        super(LeapFrog, self).set_model(model)
+        self.dV             = model.force
+        self.prior_bounds   = model.bounds
+
     def get_sample(self, q0, *args):
         """
         Propose a new sample, starting at q0
@@ -687,6 +726,10 @@ class ConstrainedLeapFrog(LeapFrog):
         super(ConstrainedLeapFrog, self).__init__(model=model, **kwargs)
         self.log_likelihood = model.log_likelihood
 
+    def set_model(self, model):
+        super(ConstrainedLeapFrog, self).set_model(model)
+        self.log_likelihood = model.log_likelihood
+
     def get_sample(self, q0, logLmin=-np.inf):
         """
         Generate new sample with constrained HMC, starting at q0.
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 74a83bb..14f8398 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -293,6 +293,7 @@ class Sampler(object):
         with open(resume_file, "rb") as f:
             obj = pickle.load(f)
         obj.model   = model
+        obj.proposal.set_model(model)
         obj.manager = manager
         obj.logLmin = obj.manager.logLmin
         obj.logLmax = obj.manager.logLmax
-- 
2.43.0


From 70b1028562e5596e04ab493b1841579e38d8ebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 09/18] fix: give every resumed sampler a random stream of its
 own

Resumed samplers were not seeded, and all went on from the copy of the
parent process' numpy generator they were forked with.
---
 cpnest/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 14f8398..3e88779 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -213,6 +213,9 @@ class Sampler(object):
         """
         if not self.initialised:
             self.reset()
+        else:
+            # resumed: the state of numpy's generator is the parent's, shared by all samplers
+            np.random.seed()
 
         self.counter=1
         __checkpoint_flag=False
-- 
2.43.0


From 1224225a7461a92ff6ec483d25b8c9ab20ae2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 10/18] fix: allow resuming with fewer samplers

The position in the list of samplers was restored even if it lay beyond the
samplers of the resumed run, which then ended with an IndexError.
---
 cpnest/NestedSampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index fb5e2be..43c6d97 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -542,6 +542,8 @@ class NestedSampler(object):
         obj.logLmin.value = obj.llmin
         obj.logLmax = obj.manager.logLmax
         obj.logLmax.value = obj.llmax
+        # there may be fewer samplers now
+        obj.queue_counter = 0
         obj.model = usermodel
         obj.logger = logging.getLogger("cpnest.NestedSampling.NestedSampler")
         del obj.__dict__['llmin']
-- 
2.43.0


From 64b38fa53ac39e72288a8d3aed0fca733c19d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 11/18] fix: start from at least one MCMC step

With maxmcmc below 10 the initial number of steps was zero, and a
Hamiltonian sampler died drawing its trajectory length.
---
 cpnest/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 3e88779..aef4785 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -78,7 +78,7 @@ class Sampler(object):
 
         self.seed = seed
         self.model = model
-        self.initial_mcmc = maxmcmc//10
+        self.initial_mcmc = max(1, maxmcmc//10)
         self.maxmcmc = maxmcmc
         self.resume_file = resume_file
         self.manager = manager
-- 
2.43.0


From d020220ef5e69d83cbba1fea61573c5dc5295ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 12/18] fix: return the prior and MCMC samples of a fully
 verbose run

run() read them in twice, and the second time found nothing and returned
None for both; a fully verbose prior run returned only part of its samples,
and both functions failed when given a filename.
---
 cpnest/cpnest.py | 49 +++++++++++-------------------------------------
 1 file changed, 11 insertions(+), 38 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 9a0a950..f9dba1b 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -313,10 +313,9 @@ class CPNest(object):
                     filename=None
                 )
 
-            if self.verbose>=3 or self.NS.prior_sampling:
+            # with full verbose, get_posterior_samples has read them in
+            if self.verbose<3 and self.NS.prior_sampling:
                 self.prior_samples = self.get_prior_samples(filename=None)
-            if self.verbose>=3 and not self.NS.prior_sampling:
-                self.mcmc_samples = self.get_mcmc_samples(filename=None)
             if self.verbose>=2:
                 self.plot(corner = False)
 
@@ -371,37 +370,11 @@ class CPNest(object):
         # if we run with full verbose, read in and output
         # the mcmc thinned posterior samples
         if self.verbose >= 3:
-            from .nest2pos import resample_mcmc_chain
-            from numpy.lib.recfunctions import stack_arrays
-
-            prior_samples = []
-            mcmc_samples  = []
-            for file in os.listdir(self.NS.output_folder):
-                if 'prior_samples' in file:
-                    prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
-                elif 'mcmc_chain' in file:
-                    mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
-
-            # first deal with the prior samples
-            if len(prior_samples)>0:
-                self.prior_samples = stack_arrays([p for p in prior_samples])
-                if filename:
-                    np.savetxt(os.path.join(
-                           self.NS.output_folder,'prior.dat'),
-                           self.prior_samples.ravel(),
-                           header=' '.join(self.prior_samples.dtype.names),
-                           newline='\n',delimiter=' ')
-            # now stack all the mcmc chains
-            if len(mcmc_samples)>0:
-                self.mcmc_samples = stack_arrays([p for p in mcmc_samples])
-                if filename:
-                    np.savetxt(os.path.join(
-                           self.NS.output_folder,'mcmc.dat'),
-                           self.mcmc_samples.ravel(),
-                           header=' '.join(self.mcmc_samples.dtype.names),
-                           newline='\n',delimiter=' ')
+            self.prior_samples = self.get_prior_samples(
+                filename='prior.dat' if filename else None)
+            if not self.NS.prior_sampling:
+                self.mcmc_samples = self.get_mcmc_samples(
+                    filename='mcmc.dat' if filename else None)
 
         # TODO: Replace with something to output samples in whatever format
         if filename:
@@ -449,8 +422,8 @@ class CPNest(object):
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.prior_samples.ravel(),
-                       header=' '.join(self.prior_samples.dtype.names),
+                       prior_samples.ravel(),
+                       header=' '.join(prior_samples.dtype.names),
                        newline='\n',delimiter=' ')
 
         return prior_samples
@@ -488,8 +461,8 @@ class CPNest(object):
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.mcmc_samples.ravel(),
-                       header=' '.join(self.mcmc_samples.dtype.names),
+                       mcmc_samples.ravel(),
+                       header=' '.join(mcmc_samples.dtype.names),
                        newline='\n',delimiter=' ')
         return mcmc_samples
 
-- 
2.43.0


From 8de6e242372150ce071cfa14ede0ac36a10095fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 13/18] fix: keep the normal vector complete when interrupted
 by a checkpoint

---
 cpnest/proposal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 669e7f2..2053c3a 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -462,7 +462,7 @@ class HamiltonianProposal(EnsembleEigenVector):
             tracers_array[i,:] = samp.values
         V_vals = np.atleast_1d([p.logL for p in self.ensemble])
 
-        self.normal = []
+        normal = []
         for i,x in enumerate(tracers_array.T):
             # sort the values
 #            self.normal.append(lambda x: -x)
@@ -497,8 +497,10 @@ class HamiltonianProposal(EnsembleEigenVector):
                               mode='mirror' # Reflective boundary conds.
                               )
             # construct a LSQ spline interpolant
-            self.normal.append(LSQUnivariateSpline(xs, f, knots, ext = 3, k = 3))
-            if self.DEBUG: np.savetxt('dlogL_spline_%d.txt'%i,np.column_stack((xs,Vs,self.normal[-1](xs),f)))
+            normal.append(LSQUnivariateSpline(xs, f, knots, ext = 3, k = 3))
+            if self.DEBUG: np.savetxt('dlogL_spline_%d.txt'%i,np.column_stack((xs,Vs,normal[-1](xs),f)))
+        # a checkpoint signal can arrive at any time: never keep a partial list
+        self.normal = normal
 
     def unit_normal(self, q):
         """
-- 
2.43.0


From 0146cfeb18ed4f9d16f6c636683751954fe1a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 14/18] fix: keep writing to the output folder a run is resumed
 from

The folder may have been moved or copied since the checkpoint was taken.
---
 cpnest/NestedSampling.py | 3 +++
 cpnest/sampler.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 43c6d97..a25444e 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -537,6 +537,9 @@ class NestedSampler(object):
         """
         with open(filename,"rb") as f:
             obj = pickle.load(f)
+        # the output folder may have been moved or copied
+        obj.output_folder = os.path.dirname(filename)
+        obj.output_file, obj.evidence_file, obj.resume_file = obj.setup_output(obj.output_folder)
         obj.manager = manager
         obj.logLmin = obj.manager.logLmin
         obj.logLmin.value = obj.llmin
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index aef4785..8a95636 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -295,6 +295,9 @@ class Sampler(object):
         """
         with open(resume_file, "rb") as f:
             obj = pickle.load(f)
+        # the output folder may have been moved or copied
+        obj.resume_file = resume_file
+        obj.output      = os.path.dirname(resume_file)
         obj.model   = model
         obj.proposal.set_model(model)
         obj.manager = manager
-- 
2.43.0


From 798e9867a53190f9f8d037352fd966fb886fef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 15/18] fix: weight the posterior samples by the live points of
 the run

A resumed run goes on with the number of live points it was started with,
whatever nlive is given when it is resumed.
---
 cpnest/cpnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index f9dba1b..6049b25 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -363,7 +363,7 @@ class CPNest(object):
         import os
         from .nest2pos import draw_posterior_many
         nested_samples     = self.get_nested_samples()
-        posterior_samples  = draw_posterior_many([nested_samples],[self.nlive],verbose=self.verbose)
+        posterior_samples  = draw_posterior_many([nested_samples],[self.NS.Nlive],verbose=self.verbose)
         posterior_samples  = np.array(posterior_samples)
         self.prior_samples = {n:None for n in self.user.names}
         self.mcmc_samples  = {n:None for n in self.user.names}
-- 
2.43.0


From 2981c1c38005566eaa36cdb83952e9a85a6d9cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 16/18] fix: leave out samples left behind by an earlier run

A run that was killed leaves the files of samples of its sampler processes,
which the next run in that folder, even one that does not resume it, took for
its own.
---
 cpnest/cpnest.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 6049b25..d988dad 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -385,6 +385,14 @@ class CPNest(object):
                 newline='\n',delimiter=' ')
         return posterior_samples
 
+    def is_from_this_run(self, filename):
+        """
+        Whether a file of samples was saved by a sampler process of this run, or
+        of the runs it resumes, and not left behind by an earlier run
+        """
+        pids = [str(each.pid) for each in self.process_pool]
+        return self.resume or os.path.splitext(filename)[0].split('_')[-1] in pids
+
     def get_prior_samples(self, filename='prior.dat'):
         """
         Returns prior samples
@@ -406,7 +414,7 @@ class CPNest(object):
         # read in the samples from the prior coming from each sampler
         prior_samples = []
         for file in os.listdir(self.NS.output_folder):
-            if 'prior_samples' in file:
+            if 'prior_samples' in file and self.is_from_this_run(file):
                 prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
                 os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
 
@@ -448,7 +456,7 @@ class CPNest(object):
 
         mcmc_samples  = []
         for file in os.listdir(self.NS.output_folder):
-            if 'mcmc_chain' in file:
+            if 'mcmc_chain' in file and self.is_from_this_run(file):
                 mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
                 os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
 
-- 
2.43.0


From 738662c8c1eef6881e407382933ee7d9f23fc388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 17/18] fix: combine runs that contribute different numbers of
 samples

---
 cpnest/nest2pos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index 30f3a54..51dce1e 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -1,6 +1,6 @@
 import logging
 import numpy as np
-from numpy import logaddexp, vstack
+from numpy import logaddexp
 from numpy.random import uniform
 from functools import reduce
 from scipy.stats import pearsonr
@@ -115,7 +115,7 @@ def draw_N_posterior(data,log_wts, N, verbose=False):
     Draw N samples from the input data, weighted by log_wt.
     For large N there may be repeated samples
     """
-    if(N==0): return []
+    if(N==0): return data[:0]
     log_cumsums=np.zeros(log_wts.shape[0]+1)
     log_cumsums[0]=-float('inf')
     for i,log_wt in enumerate(log_wts):
@@ -139,7 +139,7 @@ def draw_N_posterior_many(datas, Nlives, Npost, verbose=False):
     log_total_evidence=reduce(logaddexp, log_evs)
     Ns=[int(round(Npost*np.exp(log_ev-log_total_evidence))) for log_ev in log_evs]
     posts=[draw_N_posterior(data,logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]
-    return vstack(posts).flatten()
+    return np.concatenate(posts)
 
 def resample_mcmc_chain(chain, verbose=False, burnin=False):
     """
-- 
2.43.0


From 263bdb702c8efa6bad13f90d1930bc354a3aef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 18/18] fix: save the files of samples of a sampler process
 whole or not at all

A sampler killed while it wrote its file of prior samples or of its chain left
a part of it, on which the resumed run stopped with an error when it read the
samples, or from which it took a truncated number.
---
 cpnest/cpnest.py  |  2 ++
 cpnest/sampler.py | 10 +++-------
 cpnest/utils.py   | 13 +++++++++++++
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index d988dad..494e472 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -390,6 +390,8 @@ class CPNest(object):
         Whether a file of samples was saved by a sampler process of this run, or
         of the runs it resumes, and not left behind by an earlier run
         """
+        if not filename.endswith('.dat'):
+            return False    # left behind by a process that was killed
         pids = [str(each.pid) for each in self.process_pool]
         return self.resume or os.path.splitext(filename)[0].split('_')[-1] in pids
 
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 8a95636..08a1b91 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -12,7 +12,7 @@ from . import parameter
 from .proposal import DefaultProposalCycle
 from . import proposal
 from .cpnest import CheckPoint, RunManager
-from .utils import dump_atomically, raise_to
+from .utils import dump_atomically, savetxt_atomically, raise_to
 from tqdm import tqdm
 from operator import attrgetter
 import numpy.lib.recfunctions as rfn
@@ -146,9 +146,7 @@ class Sampler(object):
                 prior_samples.append(p)
             prior_samples = rfn.stack_arrays([prior_samples[j].asnparray()
                 for j in range(0,len(prior_samples))],usemask=False)
-            np.savetxt(os.path.join(self.output,'prior_samples_%s.dat'%os.getpid()),
-                       prior_samples.ravel(),header=' '.join(prior_samples.dtype.names),
-                       newline='\n',delimiter=' ')
+            savetxt_atomically(prior_samples, os.path.join(self.output,'prior_samples_%s.dat'%os.getpid()))
             self.logger.critical("Sampler process {0!s}: saved {1:d} prior samples in {2!s}".format(os.getpid(),self.maxmcmc,'prior_samples_%s.dat'%os.getpid()))
             self.prior_samples = prior_samples
         self.proposal.set_ensemble(self.evolution_points)
@@ -273,9 +271,7 @@ class Sampler(object):
         if self.verbose >=3 and not(self.sample_prior):
             self.mcmc_samples = rfn.stack_arrays([self.samples[j].asnparray()
                                                   for j in range(0,len(self.samples))],usemask=False)
-            np.savetxt(os.path.join(self.output,'mcmc_chain_%s.dat'%os.getpid()),
-                       self.mcmc_samples.ravel(),header=' '.join(self.mcmc_samples.dtype.names),
-                       newline='\n',delimiter=' ')
+            savetxt_atomically(self.mcmc_samples, os.path.join(self.output,'mcmc_chain_%s.dat'%os.getpid()))
             self.logger.critical("Sampler process {0!s}: saved {1:d} mcmc samples in {2!s}".format(os.getpid(),len(self.samples),'mcmc_chain_%s.dat'%os.getpid()))
         self.logger.critical("Sampler process {0!s} - mean acceptance {1:.3f}: exiting".format(os.getpid(), float(self.mcmc_accepted)/float(self.mcmc_counter)))
         return 0
diff --git a/cpnest/utils.py b/cpnest/utils.py
index cd25a24..6beee28 100644
--- a/cpnest/utils.py
+++ b/cpnest/utils.py
@@ -1,6 +1,7 @@
 import os
 import logging
 import pickle
+import numpy as np
 
 # Default formats and level names
 FORMATTER = logging.Formatter(
@@ -24,6 +25,18 @@ def dump_atomically(obj, filename):
     os.replace(tmp, filename)
 
 
+def savetxt_atomically(samples, filename):
+    """
+    Save a structured array of samples to the text file `filename`, which
+    never holds only a part of them
+    """
+    tmp = filename + '.tmp'
+    np.savetxt(tmp, samples.ravel(),
+               header=' '.join(samples.dtype.names),
+               newline='\n', delimiter=' ')
+    os.replace(tmp, filename)
+
+
 def raise_to(shared, value):
     """
     Set a `multiprocessing.Value` shared with other processes to
-- 
2.43.0

