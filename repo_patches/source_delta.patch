From 7b5134a040843568108db4dae5cc8fb9e6c77d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:13 +0000
Subject: [PATCH 01/73] fix: seed the problem generator of remote actors

The actor called a method that does not exist, so every seeded problem with
remote actors died while its actors were being created.
---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index e2b4324..a7f0b57 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -137,7 +137,7 @@ class EvaluationActor:
         np.random.seed(np_global)
         torch.manual_seed(torch_global)
         if self._problem.has_own_generator:
-            self._problem.seed(probseed)
+            self._problem.manual_seed(probseed)
         self._problem._use_pickle_data_from_main(state)
         self._problem.remote_hook(self._problem)
         if isinstance(self._problem._num_gpus_per_actor, str) and (self._problem._num_gpus_per_actor == "all"):
-- 
2.43.0


From e9f66d11e1f452637c675278cfc85f9bb0ff1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:13 +0000
Subject: [PATCH 02/73] fix: apply max_num_envs on remote actors of VecGymNE

The limit was sent with a wrong argument list, which made the evaluation fail
as soon as a limit was combined with remote actors. It is also sent again
when new actors are created later.
---
 src/evotorch/neuroevolution/vecgymne.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index f46e7c1..5dea6ec 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -438,16 +438,18 @@ class VecGymNE(BaseNEProblem):
         self.after_eval_hook.append(self._extra_status)
 
     def _parallelize(self):
+        already_parallelized = self._actors is not None
         super()._parallelize()
         if self.is_main:
-            if not self._actor_max_num_envs_ready:
+            newly_parallelized = (self._actors is not None) and (not already_parallelized)
+            if newly_parallelized or (not self._actor_max_num_envs_ready):
                 if self._actors is None:
                     self._actor_max_num_envs = self._max_num_envs
                 else:
                     if self._max_num_envs is not None:
                         max_num_envs_per_actor = split_workload(self._max_num_envs, len(self._actors))
                         for i_actor, actor in enumerate(self._actors):
-                            actor.call.remote("_set_actor_max_num_envs", max_num_envs_per_actor[i_actor])
+                            actor.call.remote("_set_actor_max_num_envs", [max_num_envs_per_actor[i_actor]], {})
                 self._actor_max_num_envs_ready = True
 
     def _set_actor_max_num_envs(self, n: int):
-- 
2.43.0


From 799aa12719ea2efbe466c74fab0809e3b7c2661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:13 +0000
Subject: [PATCH 03/73] fix: keep the network definition of an evaluated
 NEProblem

The instantiated network is not part of the serialized state. With the
definition cleared as well, a copy of an already evaluated problem could not
make its network any more.
---
 src/evotorch/neuroevolution/neproblem.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/neproblem.py b/src/evotorch/neuroevolution/neproblem.py
index 4f03195..3bd6119 100644
--- a/src/evotorch/neuroevolution/neproblem.py
+++ b/src/evotorch/neuroevolution/neproblem.py
@@ -317,8 +317,6 @@ class NEProblem(BaseNEProblem):
     def _prepare(self) -> None:
         """Instantiate the network on the target device, if not already done"""
         self.instantiated_network = self._instantiate_net(self._original_network)
-        # Clear reference to original network
-        self._original_network = None
 
     def make_net(self, parameters: Iterable) -> nn.Module:
         """
-- 
2.43.0


From f4f4bd065ed40ec7faf302569d9b34d90fc5aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:13 +0000
Subject: [PATCH 04/73] fix: allow copying a SupervisedNE after its first
 evaluation

The iterator of the data loader can not be serialized, so cloning or pickling
failed once a minibatch had been taken. The copy makes its own iterator.
---
 src/evotorch/neuroevolution/supervisedne.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/neuroevolution/supervisedne.py b/src/evotorch/neuroevolution/supervisedne.py
index 9366e3b..7f54018 100644
--- a/src/evotorch/neuroevolution/supervisedne.py
+++ b/src/evotorch/neuroevolution/supervisedne.py
@@ -305,6 +305,10 @@ class SupervisedNE(NEProblem):
         else:
             return self._loss_func(y_hat, y)
 
+    @property
+    def _nonserialized_attribs(self) -> list:
+        return super()._nonserialized_attribs + ["dataloader_iterator"]
+
     def _prepare(self) -> None:
         self.dataloader = self.make_dataloader()
 
-- 
2.43.0


From 1f55b105345cf7121e4261ac6d5a075a1b70fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:13 +0000
Subject: [PATCH 05/73] fix: make kill_actors safe without actors and drop
 outdated actor states

kill_actors raised a TypeError when no actors were created yet. It also kept
the actor states of the last serialization, which the next actors would load.
---
 src/evotorch/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index a7f0b57..95901c3 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2122,8 +2122,11 @@ class Problem(TensorMakerMixin, Serializable):
                 " Problem instance."
                 " However, this Problem instance is on a remote actor."
             )
-        for actor in self._actors:
-            ray.kill(actor)
+        if self._actors is not None:
+            for actor in self._actors:
+                ray.kill(actor)
+            # The states which were collected from these actors (if any) are outdated now.
+            self._remote_states = None
         self._actors = None
         self._actor_pool = None
 
-- 
2.43.0


From 8c745173ad47ad660402a5aeeb805b624d12c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:13 +0000
Subject: [PATCH 06/73] fix: keep interaction and episode totals when actors
 are replaced

After kill_actors, each of the new actors started counting from the total of
the main problem, so the next total was a multiple of the true one.
---
 src/evotorch/neuroevolution/gymne.py    | 14 ++++++++++++++
 src/evotorch/neuroevolution/vecgymne.py | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 74d1ba9..1e3ed16 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -572,6 +572,20 @@ class GymNE(NEProblem):
         self.set_episode_count(total_episode_count)
         self.set_interaction_count(total_interaction_count)
 
+    def kill_actors(self):
+        had_actors = self._actors is not None
+        super().kill_actors()
+        if had_actors:
+            # The counters of this main instance are the sums of the counters of its actors. Therefore, among the
+            # actors that might be created later, only one of them continues from the current counters.
+            self._remote_states = [
+                dict(
+                    interaction_count=(self.interaction_count if i == 0 else 0),
+                    episode_count=(self.episode_count if i == 0 else 0),
+                )
+                for i in range(self._num_actors)
+            ]
+
     def _make_pickle_data_for_main(self) -> dict:
         # For when the main Problem object (the non-remote one) gets pickled,
         # this function returns the counters of this remote Problem instance,
diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 5dea6ec..685217c 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -716,6 +716,20 @@ class VecGymNE(BaseNEProblem):
         self.set_episode_count(total_episode_count)
         self.set_interaction_count(total_interaction_count)
 
+    def kill_actors(self):
+        had_actors = self._actors is not None
+        super().kill_actors()
+        if had_actors:
+            # The counters of this main instance are the sums of the counters of its actors. Therefore, among the
+            # actors that might be created later, only one of them continues from the current counters.
+            self._remote_states = [
+                dict(
+                    interaction_count=(self.interaction_count if i == 0 else 0),
+                    episode_count=(self.episode_count if i == 0 else 0),
+                )
+                for i in range(self._num_actors)
+            ]
+
     def _make_pickle_data_for_main(self) -> dict:
         # For when the main Problem object (the non-remote one) gets pickled,
         # this function returns the counters of this remote Problem instance,
-- 
2.43.0


From f1c648927bfc48400363f8de2394cad5eeb060d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:13 +0000
Subject: [PATCH 07/73] fix: respect num_subbatches in GymNE

The argument was accepted and documented but never passed on.
---
 src/evotorch/neuroevolution/gymne.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 1e3ed16..de8161f 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -285,6 +285,7 @@ class GymNE(NEProblem):
             initial_bounds=initial_bounds,
             num_actors=num_actors,
             actor_config=actor_config,
+            num_subbatches=num_subbatches,
             subbatch_size=subbatch_size,
             device="cpu",
         )
-- 
2.43.0


From 2e35c728bcc2a8ceaf218a1250b975a4ab420f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:13 +0000
Subject: [PATCH 08/73] fix: let VecGymNE evaluate fewer solutions than it has
 actors

An actor which receives no solution failed, and so did merging the missing
observation statistics of an idle actor.
---
 src/evotorch/neuroevolution/vecgymne.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 685217c..2f8fd5f 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -697,6 +697,8 @@ class VecGymNE(BaseNEProblem):
     def update_observation_stats(self, rn: RunningNorm):
         """Update the observation stats via another RunningNorm instance"""
         self._ensure_obsnorm()
+        if rn is None:
+            return
         if self._obs_stats is None:
             self._obs_stats = rn
         else:
@@ -750,6 +752,9 @@ class VecGymNE(BaseNEProblem):
                 raise ValueError(f"When restoring the inner state of a remote worker, unrecognized state key: {k}")
 
     def _evaluate_batch(self, batch: SolutionBatch):
+        if len(batch) == 0:
+            # With more actors than solutions, some of the actors receive no solutions.
+            return
         if self._actor_max_num_envs is None:
             self._evaluate_subbatch(batch)
         else:
-- 
2.43.0


From 9fdfd239fabefc6f14d384613738f9547a261f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:13 +0000
Subject: [PATCH 09/73] fix: report the status of IPOP right after a restart

A freshly started distribution-based search has no population yet, so reading
(or logging) the status of IPOP failed right after each restart.
---
 src/evotorch/algorithms/restarter/modify_restart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 47c6599..1898eb7 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -59,7 +59,8 @@ class IPOP(ModifyingRestart):
 
     def _search_algorithm_terminated(self) -> bool:
         # Additional check on standard deviation of fitnesses of population
-        if self.search_algorithm.population.evals.std() < self.min_fitness_stdev:
+        population = self.search_algorithm.population
+        if (population is not None) and (population.evals.std() < self.min_fitness_stdev):
             return True
         return super()._search_algorithm_terminated()
 
-- 
2.43.0


From db9bdd806e09b7525e492230a281ff005a03481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:45 +0000
Subject: [PATCH 10/73] fix: prepare newly created actors even if earlier ones
 were prepared

Actors which replace killed ones (and actors of a restored copy) never ran
_prepare() and never received the shared attributes.
---
 src/evotorch/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 95901c3..44b8782 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -1994,6 +1994,10 @@ class Problem(TensorMakerMixin, Serializable):
         ensure_ray()
         number_of_actors = self._num_actors
 
+        # The actors that are about to be created still have to make their own preparations
+        # (and to receive the shared attributes), even if earlier actors had done that.
+        self._prepared = False
+
         # numpy's RandomState uses 32-bit unsigned integers
         # for random seeds.
         # So, the following value is the exclusive upper bound
-- 
2.43.0


From e9902af7f886ccb835f7393fb6dbb85d560603ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:35 +0000
Subject: [PATCH 11/73] fix: allow distributed gradients without an explicit
 objective index

With actors, sample_and_compute_gradients(...) sent obj_index=None to the
actors, which failed although None is documented for single-objective problems.
---
 src/evotorch/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 44b8782..d1c6879 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2894,6 +2894,9 @@ class Problem(TensorMakerMixin, Serializable):
             # If this is the main process and the problem is parallelized, then we need to split the request
             # into multiple tasks, and then execute those tasks in parallel using the problem's actor pool.
 
+            # The remote tasks expect the objective index as an integer
+            obj_index = self.normalize_obj_index(obj_index)
+
             if self._subbatch_size is not None:
                 # If `subbatch_size` is provided, then we first make sure that `popsize` is divisible by
                 # `subbatch_size`
-- 
2.43.0


From 2b146e45818656b0922da90256934f9558352fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:51 +0000
Subject: [PATCH 12/73] fix: respect with_stats in distributed gradient
 computations

---
 src/evotorch/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index d1c6879..e46ad1a 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2987,6 +2987,10 @@ class Problem(TensorMakerMixin, Serializable):
                 # If the main device of this problem instance is not CPU, then we move the tensors to the main device.
                 result = cast_tensors_in_container(result, device=self.device)
 
+            if not with_stats:
+                # If the additional stats are not requested, we keep only the gradients of each remote result.
+                result = [remote_result["gradients"] for remote_result in result]
+
             if must_sync_after:
                 # If a post-gradient synchronization is required, we trigger the synchronization operations.
                 self._sync_after()
-- 
2.43.0


From 6769e70bde725109fb57635bb1bec801a1454734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:21 +0000
Subject: [PATCH 13/73] fix: sample from an own random state in PyCMAES

---
 src/evotorch/algorithms/pycmaes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/pycmaes.py b/src/evotorch/algorithms/pycmaes.py
index ab583ee..41ba4a4 100644
--- a/src/evotorch/algorithms/pycmaes.py
+++ b/src/evotorch/algorithms/pycmaes.py
@@ -251,7 +251,14 @@ class PyCMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
 
         # Generate a random seed using the problem object for the sake of reproducibility.
         if "seed" not in inopts:
-            inopts["seed"] = int(self._problem.make_randint(tuple(), n=(2**32) - 100) + 100)
+            seed = int(self._problem.make_randint(tuple(), n=(2**32) - 100) + 100)
+            if "randn" in inopts:
+                inopts["seed"] = seed
+            else:
+                # Sample from a random state of our own, so that the search neither depends on
+                # the global random state of numpy, nor modifies it.
+                inopts["randn"] = np.random.RandomState(seed).randn
+                inopts["seed"] = np.nan
 
         # Instantiate the CMAEvolutionStrategy with the prepared configuration items.
         self._es = cma.CMAEvolutionStrategy(x0, sigma0, inopts)
-- 
2.43.0


From e1b1d2acd7d375ecb0b932dfdfc79a868e4eaa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:21 +0000
Subject: [PATCH 14/73] fix: choose non-elitist GA parents among the evaluated
 ones

---
 src/evotorch/algorithms/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/ga.py b/src/evotorch/algorithms/ga.py
index 701a143..c2d7db0 100644
--- a/src/evotorch/algorithms/ga.py
+++ b/src/evotorch/algorithms/ga.py
@@ -673,7 +673,7 @@ class GeneticAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin, Extended
             if num_children < popsize:
                 # If the number of children is less than the population size, then we keep the best m solutions from
                 # the parents, m being `popsize - num_children`.
-                chosen_parents = self._population.take_best(popsize - num_children)
+                chosen_parents = parents.take_best(popsize - num_children)
 
                 # Combine the children with the chosen parents, and declare them as the new population.
                 self._population = SolutionBatch.cat([chosen_parents, children])
-- 
2.43.0


From 55e2ca95a781d4a07b66f65d5f87f2e266f91ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:14 +0000
Subject: [PATCH 15/73] fix: keep the random stream of a copied problem when
 its actors are restored

---
 src/evotorch/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index e46ad1a..495ae03 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2008,7 +2008,13 @@ class Problem(TensorMakerMixin, Serializable):
         # random_state. From this integer, further seed integers
         # will be computed, and these generated seeds will be
         # used by the remote actors.
+        # If this problem is a copy which is about to restore its remote actors, its random stream
+        # is left as it is, so that it continues to sample like the problem it was copied from.
+        restoring = (self._remote_states is not None) and (self._generator is not None)
+        generator_state = self._generator.get_state() if restoring else None
         base_seed = int(self.make_randint(tuple(), n=supremum_seed))
+        if restoring:
+            self._generator.set_state(generator_state)
 
         # The following function returns a seed number for the actor
         # number i.
-- 
2.43.0


From 8e417114a11e4436dbe53f308e54ee7e36cf6507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:10 +0000
Subject: [PATCH 16/73] fix: average matrix-shaped gradients in distributed
 mode

XNES produces a square gradient for its covariance factor. The distributed
step allocated a vector for every averaged gradient, so distributed XNES
always failed with a shape error.
---
 src/evotorch/algorithms/distributed/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/distributed/gaussian.py b/src/evotorch/algorithms/distributed/gaussian.py
index bf01a71..118035d 100644
--- a/src/evotorch/algorithms/distributed/gaussian.py
+++ b/src/evotorch/algorithms/distributed/gaussian.py
@@ -246,7 +246,7 @@ class GaussianSearchAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         # For each gradient (in most cases among 'mu' and 'sigma'), we allocate a new 0-filled tensor.
         avg_gradients = {}
         for key in grad_keys:
-            avg_gradients[key] = self._distribution.make_zeros(num_solutions=1).reshape(-1)
+            avg_gradients[key] = self._distribution.make_zeros(tuple(list_of.gradients[0][key].shape))
 
         # Below, we iterate over all collected results and add their gradients, in a weighted manner, onto the
         # `avg_gradients` we allocated above.
-- 
2.43.0


From 9c9706d53befbdfa9649741292010dbf22f21f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:53 +0000
Subject: [PATCH 17/73] fix: let XNES work with an optimizer

ExpGaussian looked up a learning rate for the mean even when an optimizer
was configured for it, which raised a KeyError. The settings given for the
mean and the standard deviation are now passed on to their local
counterparts whichever kind they are, without changing the given
dictionaries.
---
 src/evotorch/distributions.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 2636a3e..c66e235 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -996,10 +996,15 @@ class ExpGaussian(Distribution):
         d_grad = gradients["d"]
         M_grad = gradients["M"]
 
-        if "d" not in learning_rates:
-            learning_rates["d"] = learning_rates["mu"]
-        if "M" not in learning_rates:
-            learning_rates["M"] = learning_rates["sigma"]
+        # The settings given for mu and sigma apply to their local counterparts, d and M
+        learning_rates = {} if learning_rates is None else dict(learning_rates)
+        optimizers = {} if optimizers is None else dict(optimizers)
+        for local_name, param_name in (("d", "mu"), ("M", "sigma")):
+            if (local_name not in learning_rates) and (local_name not in optimizers):
+                if param_name in learning_rates:
+                    learning_rates[local_name] = learning_rates[param_name]
+                if param_name in optimizers:
+                    optimizers[local_name] = optimizers[param_name]
 
         # Follow gradients for d, and M
         update_d = self._follow_gradient("d", d_grad, learning_rates=learning_rates, optimizers=optimizers)
-- 
2.43.0


From 247f2e7f289d5c67790d68bdec92e9ab157fac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:27 +0000
Subject: [PATCH 18/73] fix: never leave a damaged results file behind when a
 save fails

PicklingLogger wrote directly into the final file. Saving a generation a
second time destroyed the file it still announced as its last one when the
write failed, and an interrupted first save left an incomplete file.
---
 src/evotorch/logging.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/logging.py b/src/evotorch/logging.py
index 3fa64a6..baae9de 100644
--- a/src/evotorch/logging.py
+++ b/src/evotorch/logging.py
@@ -372,8 +372,17 @@ class PicklingLogger(Logger):
             fname = self._within_dir(fname)
 
             # Here, the pickle file is created and the data is saved.
-            with open(fname, "wb") as f:
-                pickle.dump(data, f)
+            # The data is first written into a temporary file, so that a failed write never damages an existing file
+            # and never leaves an incomplete file behind under the final name.
+            tmp_fname = fname + ".tmp"
+            try:
+                with open(tmp_fname, "wb") as f:
+                    pickle.dump(data, f)
+                os.replace(tmp_fname, fname)
+            except BaseException:
+                if os.path.exists(tmp_fname):
+                    os.remove(tmp_fname)
+                raise
 
             # Store the most recently saved generation number
             self._last_generation = searcher.step_count
-- 
2.43.0


From e00c67774e9f7064da0680b1b5f72982d403a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:16 +0000
Subject: [PATCH 19/73] fix: reject the index right after the last solution of
 a batch

batch[len(batch)] returned an empty Solution instead of raising an IndexError.
---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 495ae03..2b2ce49 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -4779,7 +4779,7 @@ class Solution(Serializable):
         index = int(index)
         if index < 0:
             index = len(parent) + index
-        if not ((index >= 0) and (index <= len(parent))):
+        if not ((index >= 0) and (index < len(parent))):
             raise IndexError(f"Invalid index: {index}")
         self._batch: SolutionBatch = parent[index : index + 1]
 
-- 
2.43.0


From 79405589ad72e0bdc1961d5bfa46ad489f7f246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:16 +0000
Subject: [PATCH 20/73] fix: sample the action noise of VecGymNE from a
 Gaussian distribution

The noise was uniform between 0 and the given standard deviation, and therefore
it pushed all the actions in the same direction.
---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 2f8fd5f..9f9eb16 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -862,7 +862,7 @@ class VecGymNE(BaseNEProblem):
             if self._action_noise_stdev is not None:
                 # If we are to apply action noise, we sample from a Gaussian distribution and add the noise onto
                 # the actions.
-                action_per_env = action_per_env + (torch.rand_like(action_per_env) * self._action_noise_stdev)
+                action_per_env = action_per_env + (torch.randn_like(action_per_env) * self._action_noise_stdev)
 
             # Apply the actions, get the observations, rewards, and the 'done' flags.
             obs_per_env, reward_per_env, done_per_env, _ = env.step(action_per_env)
-- 
2.43.0


From 4f8f182a614bb8b1b1133b1627d309eded9ebfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:16 +0000
Subject: [PATCH 21/73] fix: let GymNE save a solution before its first
 evaluation

With observation normalization, save_solution failed as long as no observation
was collected.
---
 src/evotorch/neuroevolution/gymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index de8161f..88a38f0 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -719,7 +719,7 @@ class GymNE(NEProblem):
         }
 
         # If available, store the observation stats.
-        if self.observation_normalization and (self._obs_stats is not None):
+        if self.observation_normalization and (self._obs_stats.count > 0):
             result["obs_mean"] = torch.as_tensor(self._obs_stats.mean)
             result["obs_stdev"] = torch.as_tensor(self._obs_stats.stdev)
             result["obs_sum"] = torch.as_tensor(self._obs_stats.sum)
-- 
2.43.0


From f16a95e89ab5ccfc41284a9428b3058e88292a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:28 +0000
Subject: [PATCH 22/73] fix: do not multiply the statistics of a GymNE which
 ran before its actors

When run(..., update_stats=True) was used before the actors were created, each
actor inherited the counters and the collected observation statistics, and the
main problem counted them once for each actor.
---
 src/evotorch/neuroevolution/gymne.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 88a38f0..a5c7921 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -598,6 +598,18 @@ class GymNE(NEProblem):
         # this function restores the inner states specific to this remote
         # worker. In the case of GymNE, those inner states are episode
         # and interaction counters.
+
+        if self.observation_normalization:
+            # What was collected by the main Problem object is already known by it,
+            # and therefore is not to be reported back to it.
+            self.pop_observation_stats()
+
+        if (len(state) == 0) and (self.actor_index != 0):
+            # The counters of the main Problem object are the sums of the counters of its
+            # remote workers. Therefore, only one of the new workers continues from them.
+            self.set_episode_count(0)
+            self.set_interaction_count(0)
+
         for k, v in state.items():
             if k == "episode_count":
                 self.set_episode_count(v)
-- 
2.43.0


From a0d3631ee38674791435d24d711e089f515f69c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:37 +0000
Subject: [PATCH 23/73] fix: do not reset the sub-environments whose episodes
 ran out

SyncVectorEnv reset a sub-environment even after its last episode. In the case
of an environment which reuses its observation array, this replaced the final
observation.
---
 src/evotorch/neuroevolution/net/vecrl.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index cfb04cc..5537d6b 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1866,10 +1866,8 @@ class SyncVectorEnv(BaseVectorEnv):
             if terminated or truncated:
                 was_last_episode = is_last_episode(env_index)
                 decrement_episode_counter(env_index)
-                obs_after_reset, info_after_reset = env.reset()
                 if not was_last_episode:
-                    observation = obs_after_reset
-                    info = info_after_reset
+                    observation, info = env.reset()
 
             return observation, reward, terminated, truncated, info
 
-- 
2.43.0


From 06f2dbd1b7dd41949a1ad17837521d5c59188fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:24 +0000
Subject: [PATCH 24/73] fix: normalize integer observations in VecGymNE

With integer-typed observations, observation normalization failed, or its result
was rounded towards zero in the case of a single environment.
---
 src/evotorch/neuroevolution/vecgymne.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 9f9eb16..8b8168d 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -841,6 +841,9 @@ class VecGymNE(BaseNEProblem):
             t_per_env = torch.zeros(num_envs, dtype=torch.int64, device=self._simulator_device)
 
         def normalize(observations: torch.Tensor, *, mask: torch.Tensor) -> torch.Tensor:
+            if not observations.dtype.is_floating_point:
+                # The normalized counterparts of integer observations are real numbers.
+                observations = torch.as_tensor(observations, dtype=params_per_env.dtype)
             original_observations = observations
             observations = observations[mask]
             if observations.shape[0] == 0:
-- 
2.43.0


From 27a161ccfbae654c034158631db74050e8bd6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:03 +0000
Subject: [PATCH 25/73] fix: do not lose MAPElites cells whose solutions have
 infinite fitness

---
 src/evotorch/algorithms/mapelites.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/algorithms/mapelites.py b/src/evotorch/algorithms/mapelites.py
index 7709c20..d1e66ff 100644
--- a/src/evotorch/algorithms/mapelites.py
+++ b/src/evotorch/algorithms/mapelites.py
@@ -46,6 +46,10 @@ def _best_solution_considering_feature(
     processed_fitnesses = torch.where(suitable, fitnesses, penalty)
     index = argbest(processed_fitnesses)
 
+    # When the best fitness happens to be equal to the penalty, prefer a suitable solution over the unsuitable ones.
+    suitable_and_best = suitable & (processed_fitnesses == torch.index_select(processed_fitnesses, 0, index))
+    index = torch.where(torch.any(suitable_and_best), torch.argmax(suitable_and_best.to(torch.int64)), index)
+
     selected_dec_values = torch.index_select(decision_values, 0, index)[0]
     selected_evals = torch.index_select(evals, 0, index)[0]
     selected_suitable = torch.index_select(suitable, 0, index)[0]
-- 
2.43.0


From c68033002080439f32f2d4f5ac7926ef22e1a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:19 +0000
Subject: [PATCH 26/73] fix: let VecGymNE determine its number of actors from
 the cluster

---
 src/evotorch/neuroevolution/vecgymne.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 8b8168d..84a496d 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -403,9 +403,12 @@ class VecGymNE(BaseNEProblem):
         device_is_cpu = (device is None) or (str(device) == "cpu")
         actors_use_gpu = (
             (num_actors is not None)
-            and (num_actors > 1)
-            and (num_gpus_per_actor is not None)
-            and (num_gpus_per_actor > 0)
+            and (isinstance(num_actors, str) or (num_actors > 1))
+            and (
+                (num_actors in ("num_gpus", "num_devices"))
+                or isinstance(num_gpus_per_actor, str)
+                or ((num_gpus_per_actor is not None) and (num_gpus_per_actor > 0))
+            )
         )
 
         if not device_is_cpu:
-- 
2.43.0


From 14609da6d60a707aaf372b9df1e06327949427fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:24 +0000
Subject: [PATCH 27/73] fix: allow populations which consist of infinite
 fitnesses only

---
 src/evotorch/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 2b2ce49..679b53f 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2390,10 +2390,14 @@ class Problem(TensorMakerMixin, Serializable):
             scores = batch.access_evals(i_obj)
             best_score = scores[best_sln_index]
             worst_score = scores[worst_sln_index]
-            if first_is_better(best_score, self._best_evals[i_obj], i_obj):
+            if first_is_better(best_score, self._best_evals[i_obj], i_obj) or (
+                (self._best[i_obj] is None) and (best_score == self._best_evals[i_obj])
+            ):
                 self._best_evals[i_obj] = best_score
                 self._best[i_obj] = batch[best_sln_index].clone()
-            if first_is_worse(worst_score, self._worst_evals[i_obj], i_obj):
+            if first_is_worse(worst_score, self._worst_evals[i_obj], i_obj) or (
+                (self._worst[i_obj] is None) and (worst_score == self._worst_evals[i_obj])
+            ):
                 self._worst_evals[i_obj] = worst_score
                 self._worst[i_obj] = batch[worst_sln_index].clone()
 
-- 
2.43.0


From cd00a22c160d6fabb538e9f1523e14bfb80c3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:16 +0000
Subject: [PATCH 28/73] fix: make new SolutionBatch instances filled with
 solutions when like is given

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 679b53f..8abf0b3 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3719,7 +3719,7 @@ class SolutionBatch(Serializable):
             self._num_objs = like._num_objs
 
             if not _opt_bool(empty, default=False):
-                self._fill_via_problem(problem)
+                self._data[:] = problem.generate_values(len(self._data))
         elif merging_of is not None:
             expect_none(
                 "While making a new SolutionBatch via merging",
-- 
2.43.0


From 1cf172c9a3666accff7e3e3571a489a1de760042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:24 +0000
Subject: [PATCH 29/73] fix: reject the objective index which is right after
 the last objective

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 8abf0b3..1b69d05 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3814,7 +3814,7 @@ class SolutionBatch(Serializable):
         if i < 0:
             i = self._num_objs + i
 
-        if (i < 0) or (i > (self._num_objs)):
+        if (i < 0) or (i > (self._num_objs - 1)):
             raise IndexError(f"Invalid objective index: {org_i}")
 
         return i
-- 
2.43.0


From 1a6e2362e889520cd2138b87f71ba0b5df00ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:01 +0000
Subject: [PATCH 30/73] fix: polynomial mutation of variables whose bounds are
 equal

---
 src/evotorch/operators/real.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/operators/real.py b/src/evotorch/operators/real.py
index f723253..8c773bb 100644
--- a/src/evotorch/operators/real.py
+++ b/src/evotorch/operators/real.py
@@ -563,6 +563,9 @@ class PolynomialMutation(CopyingOperator):
             # decision variables will be affected by this mutation operation.
             to_mutate = self.problem.make_uniform_shaped_like(data) < self._prob
 
+        # A decision variable whose lower and upper bounds are equal cannot be mutated
+        to_mutate = to_mutate & (self._lb < self._ub)
+
         # Obtain a flattened (1-dimensional) tensor which addresses only the variables that are subject to mutation
         # (i.e. variables that are not subject to mutation are filtered out).
         selected = data[to_mutate]
-- 
2.43.0


From 5823621eabd24a8d92a9dbe625bc013402330a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:27 +0000
Subject: [PATCH 31/73] fix: crowding ranks of the solutions within a Pareto
 front

The crowding rank of a solution was the index of another solution of the
front, not the position of the solution itself. Therefore take_best (and
with it the selection of the genetic algorithms) dropped the least crowded
solutions of a front, including its ends, and kept crowded ones.
---
 src/evotorch/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 1b69d05..9f27687 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3551,7 +3551,9 @@ def _compute_pareto_ranks(utils: torch.Tensor, crowdsort: bool) -> Tuple[torch.T
         if crowdsort:
             crowdsort_distances = _crowding_distance_assignment(utils[new_non_dominated])
             # Note the descending sort -- we want to maximize distances
-            crowdsort_ranks[new_non_dominated] = torch.argsort(crowdsort_distances, descending=True)
+            crowdsort_order = torch.argsort(crowdsort_distances, descending=True)
+            # The rank of a solution is its position within this order
+            crowdsort_ranks[new_non_dominated] = torch.argsort(crowdsort_order)
 
         # Update the number of dominations for remaining solutions by removing any domination counts introduce by the solutions we just sorted
         n_dominations += -dominated_matrix[:, new_non_dominated].sum(dim=-1)
@@ -3588,7 +3590,7 @@ def _pareto_sort(utils: torch.Tensor, crowdsort: bool) -> Tuple[List[torch.Tenso
         # Sort according to crowdsort_ranks if crowdsort
         if crowdsort:
             front_crowdsort_ranks = crowdsort_ranks[front]
-            front = front[front_crowdsort_ranks]
+            front = front[torch.argsort(front_crowdsort_ranks)]
 
         fronts.append(front)
     return fronts, ranks
-- 
2.43.0


From 79da0e30ba055fbbc1abfa8b51bc36db9badb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:40 +0000
Subject: [PATCH 32/73] fix: observation statistics handed over to another
 problem

VecGymNE kept using the very statistics object it was given, so that two
problems which had exchanged their statistics went on sharing them.
GymNE lost its statistics when it was given its own ones.
---
 src/evotorch/neuroevolution/gymne.py    | 5 +++--
 src/evotorch/neuroevolution/vecgymne.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index a5c7921..63400d9 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -531,8 +531,9 @@ class GymNE(NEProblem):
     def set_observation_stats(self, rs: RunningStat):
         """Set the observation stats"""
         self._ensure_obsnorm()
-        self._obs_stats.reset()
-        self._obs_stats.update(rs)
+        if rs is not self._obs_stats:
+            self._obs_stats.reset()
+            self._obs_stats.update(rs)
 
     def _use_sync_data_from_main(self, received: dict):
         for k, v in received.items():
diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 84a496d..3fe358a 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -15,6 +15,7 @@
 import pickle
 import random
 from collections.abc import Mapping
+from copy import copy
 from datetime import datetime
 from pathlib import Path
 from typing import Any, Callable, Iterable, Optional, Union
@@ -672,7 +673,7 @@ class VecGymNE(BaseNEProblem):
     def set_observation_stats(self, rn: RunningNorm):
         """Set the observation stats"""
         self._ensure_obsnorm()
-        self._obs_stats = rn
+        self._obs_stats = copy(rn)
 
     def _use_sync_data_from_main(self, received: dict):
         for k, v in received.items():
@@ -703,7 +704,7 @@ class VecGymNE(BaseNEProblem):
         if rn is None:
             return
         if self._obs_stats is None:
-            self._obs_stats = rn
+            self._obs_stats = copy(rn)
         else:
             self._obs_stats.update(rn)
 
-- 
2.43.0


From 0f628573c3313333b45f259c181c29e74f5f1489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:28 +0000
Subject: [PATCH 33/73] fix: CMA-ES with given learning rates of the covariance
 matrix

CMAES(..., c_1=0.1) and CMAES(..., c_mu=0.1) failed with an AttributeError, because
the frequency of the decompositions assumed that both rates were tensors.
---
 src/evotorch/algorithms/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index c7039a8..622ca26 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -380,7 +380,7 @@ class CMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
 
         # How often to decompose C
         if limit_C_decomposition:
-            self.decompose_C_freq = max(1, int(np.floor(_safe_divide(1, 10 * d * (self.c_1.cpu() + self.c_mu.cpu())))))
+            self.decompose_C_freq = max(1, int(np.floor(_safe_divide(1, 10 * d * float(self.c_1 + self.c_mu)))))
         else:
             self.decompose_C_freq = 1
 
-- 
2.43.0


From 32ff87004d84a24a00747052497549cf10f55d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:41 +0000
Subject: [PATCH 34/73] fix: policies exported by VecGymNE shared their memory
 with the solution

VecGymNE.to_policy(...) gave a network whose parameters were views of the given tensor,
array or read-only row of a population. Modifying that solution afterwards (for example by
the next generation of a search) changed the exported policy too.
---
 src/evotorch/neuroevolution/net/vecrl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index 5537d6b..70a9f64 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1357,7 +1357,9 @@ class Policy:
         """
         with torch.no_grad():
             net = deepcopy(self.__module).to(parameter_vector.device)
-            nnu.vector_to_parameters(parameter_vector, net.parameters())
+            # The parameters become views of the vector given to vector_to_parameters(...). They must not share
+            # their memory with the solution.
+            nnu.vector_to_parameters(parameter_vector.clone(), net.parameters())
         return net
 
 
-- 
2.43.0


From f25c8cd50a2ac88ac96bb42daa7c52ed9b0e8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:01 +0000
Subject: [PATCH 35/73] fix: searches shared the memory of the given initial
 center and standard deviation

PGPE, SNES, CEM and XNES kept the tensors given as center_init and stdev_init themselves, so
that a later modification of such a tensor changed the search distribution.
---
 src/evotorch/algorithms/distributed/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/distributed/gaussian.py b/src/evotorch/algorithms/distributed/gaussian.py
index 118035d..f7ef1ba 100644
--- a/src/evotorch/algorithms/distributed/gaussian.py
+++ b/src/evotorch/algorithms/distributed/gaussian.py
@@ -113,7 +113,8 @@ class GaussianSearchAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         # Create the distribution
         dist_cls = self.DISTRIBUTION_TYPE
         dist_params = deepcopy(self.DISTRIBUTION_PARAMS) if self.DISTRIBUTION_PARAMS is not None else {}
-        dist_params.update({"mu": mu, "sigma": sigma})
+        # (the tensors given by the user are not to be shared with the search distribution)
+        dist_params.update({"mu": mu.clone(), "sigma": sigma.clone()})
         self._distribution: Distribution = dist_cls(dist_params, dtype=problem.dtype, device=problem.device)
 
         # Store the following keyword arguments to use later
-- 
2.43.0


From 438ab76e669c8c5e9a8959b3fe2aedc325052c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:43 +0000
Subject: [PATCH 36/73] fix: is_batched of CDict, CList and CBag raised
 AttributeError

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 21d81fe..8659130 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -833,7 +833,7 @@ class Structure:
         """
         True if this structure is batched; False otherwise.
         """
-        return self._batch_ndim > 0
+        return self._data.is_batched
 
     @property
     def dtype(self) -> torch.dtype:
-- 
2.43.0


From cbe11e90bd8655c56a80a1f354f09297e2c6be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:43 +0000
Subject: [PATCH 37/73] fix: CMemory.multiply_ without a mask added the value
 instead of multiplying

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 8659130..f6b694e 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -656,7 +656,7 @@ class CMemory:
             if self._is_dtype_bool:
                 self._data[address] &= value
             else:
-                self._data[address] += value
+                self._data[address] *= value
         else:
             if self._is_dtype_bool:
                 self._data[address] &= do_where(
-- 
2.43.0


From 7aac7a6d32b37e9607a06034af544d12a7f17895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:43 +0000
Subject: [PATCH 38/73] fix: keys of a newly made CDict existed or not
 depending on leftover memory

---
 src/evotorch/tools/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index f6b694e..ef2ca65 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1202,6 +1202,7 @@ class CDict(Structure):
             dtype=torch.bool,
             device=device,
             verify=verify,
+            fill_with=False,
         )
 
     def get(self, key: Numbers, default: Optional[Numbers] = None) -> torch.Tensor:
-- 
2.43.0


From f7521f47c38a3d8ae8c08067d4f70caa13a5a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:43 +0000
Subject: [PATCH 39/73] fix: clear(where) of CDict and CList raised
 AttributeError

---
 src/evotorch/tools/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index ef2ca65..aab4854 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1363,7 +1363,7 @@ class CDict(Structure):
             self._exist.data[:] = False
         else:
             where = self._get_where(where)
-            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(self._exist.shape)
+            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(self._exist.data.shape)
             self._exist.data[:] = do_where(where, all_false, self._exist.data[:])
 
     @property
@@ -1991,7 +1991,7 @@ class CList(Structure):
             self._end.data[:] = -1
         else:
             where = self._get_where(where)
-            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(self._begin.shape)
+            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(self._begin.data.shape)
             self._begin.data[:] = do_where(where, all_minus_ones, self._begin.data)
             self._end.data[:] = do_where(where, all_minus_ones, self._end.data)
 
-- 
2.43.0


From 086a61da2f2af6f99b85ee9c4489c9e837f8cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:43 +0000
Subject: [PATCH 40/73] fix: CMemory.subtract_ and divide_ failed with values
 given as sequences

---
 src/evotorch/tools/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index aab4854..7e207b4 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -677,7 +677,7 @@ class CMemory:
                 If a `where` mask is given, then modifications will happen only
                 on the memory slots whose corresponding mask values are True.
         """
-        self.add_(key, -value, where)
+        self.add_(key, -torch.as_tensor(value), where)
 
     def divide_(self, key: Numbers, value: Numbers, where: Optional[Numbers] = None):
         """
@@ -691,7 +691,7 @@ class CMemory:
                 If a `where` mask is given, then modifications will happen only
                 on the memory slots whose corresponding mask values are True.
         """
-        self.multiply_(key, 1 / value, where)
+        self.multiply_(key, 1 / torch.as_tensor(value), where)
 
     def __getitem__(self, key: Numbers) -> torch.Tensor:
         """
-- 
2.43.0


From e254c766d1116c496bf1cbf88661a31adef21590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:43 +0000
Subject: [PATCH 41/73] fix: structures with more than one batch dimension
 could not be used

---
 src/evotorch/tools/structures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 7e207b4..ec879cb 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -418,7 +418,9 @@ class CMemory:
 
         self._for_all_batches = tuple(
             (
-                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device)
+                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device).reshape(
+                    [-1] + [1] * (self._batch_ndim - i - 1)
+                )
                 for i in range(self._batch_ndim)
             )
         )
-- 
2.43.0


From 17e88f9c14458e6a04b38ba531fbd9ed9733d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:43 +0000
Subject: [PATCH 42/73] fix: masked operations of CMemory failed because of
 keys outside of the mask

---
 src/evotorch/tools/structures.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index ec879cb..14fb705 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -456,11 +456,13 @@ class CMemory:
             raise RuntimeError(f"The key tensor has an incompatible shape: {key.shape}")
         if where is not None:
             min_key = (
-                torch.tensor(0, dtype=torch.int64, device=self._data.device) if self._min_key is None else self._min_key
+                torch.tensor(0, dtype=torch.int64, device=self._data.device)
+                if self._key_offset is None
+                else self._key_offset
             )
-            key = do_where(where, key, min_key.expand(expected_shape))
+            result = do_where(where, result, min_key.expand(expected_shape))
         if self._verify:
-            self._key_must_be_valid(key)
+            self._key_must_be_valid(result)
 
         return result
 
-- 
2.43.0


From 36966502c467a4b3fd6982e4c1470ca91c841a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:31 +0000
Subject: [PATCH 43/73] fix: CList took indices beyond its maximum length for
 valid ones

---
 src/evotorch/tools/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 14fb705..de40bf4 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1757,7 +1757,8 @@ class CList(Structure):
         underlying_key = self._mod_underlying_key(underlying_key, verify=verify)
 
         if verify or return_validity:
-            valid = self._is_underlying_key_valid(underlying_key)
+            within_max_length = (key >= -self._max_length) & (key < self._max_length)
+            valid = within_max_length & self._is_underlying_key_valid(underlying_key)
         else:
             valid = None
 
-- 
2.43.0


From d7afec20229866cb7acc8ac76ad907ca2560263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:31 +0000
Subject: [PATCH 44/73] fix: an empty CList with a maximum length of 1 was
 taken for a full one

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index de40bf4..b5658f0 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1644,7 +1644,7 @@ class CList(Structure):
     def _is_full(self) -> torch.Tensor:
         begin = self._begin[self._all_zeros]
         end = self._end[self._all_zeros]
-        return ((end - begin) % self._max_length) == (self._max_length - 1)
+        return (begin >= 0) & (((end - begin) % self._max_length) == (self._max_length - 1))
 
     @staticmethod
     def _considering_where(other_mask: torch.Tensor, where: Optional[torch.Tensor]) -> torch.Tensor:
-- 
2.43.0


From 42d91e1735ddc5d3c9f0919e42e2a43865b18ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:31 +0000
Subject: [PATCH 45/73] fix: a CList grew by an undefined element when the
 given value was refused

---
 src/evotorch/tools/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index b5658f0..3c0f9ca 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1911,6 +1911,7 @@ class CList(Structure):
                 on the lists whose corresponding mask values are True.
         """
         where = None if where is None else self._get_where(where)
+        value = self._get_value(value)
         self._move_end_forward(where)
         self.set_(-1, value, where=where)
 
@@ -1940,6 +1941,7 @@ class CList(Structure):
                 on the lists whose corresponding mask values are True.
         """
         where = None if where is None else self._get_where(where)
+        value = self._get_value(value)
         self._move_begin_backward(where)
         self.set_(0, value, where=where)
 
-- 
2.43.0


From c652a26ee0ef3972e0bcd797277338e5fe771533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:31 +0000
Subject: [PATCH 46/73] fix: nothing could be popped from a CBag without
 exactly one batch dimension

---
 src/evotorch/tools/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 3c0f9ca..82548ef 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -2412,10 +2412,10 @@ class CBag(Structure):
     def _shuffle(self):
         dtype = self._data.dtype
         device = self._data.device
-        nrows, ncols = self._data.data.shape
+        shape = self._data.data.shape
 
         try:
-            gaussian_noise = torch.randn(nrows, ncols, dtype=torch.float32, device=device, **(self._gen_kwargs))
+            gaussian_noise = torch.randn(shape, dtype=torch.float32, device=device, **(self._gen_kwargs))
             noise = gaussian_noise.argsort().to(dtype=dtype) * self._bignum
             self._data.data[:] += torch.where(
                 self._data.data != self._empty, self._shift + noise, torch.tensor(0, dtype=dtype, device=device)
-- 
2.43.0


From 475820ccacbff5cbc252f910804fe4146c7adbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:31 +0000
Subject: [PATCH 47/73] fix: a CBag whose lowest value is more than 1 returned
 values never put into it

---
 src/evotorch/tools/structures.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 82548ef..68328d1 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -2386,10 +2386,7 @@ class CBag(Structure):
         self._choice_count = self._high_item - self._low_item
         self._bignum = self._choice_count + 1
 
-        if self._low_item < 1:
-            self._shift = 1 - self._low_item
-        else:
-            self._shift = 0
+        self._shift = 1 - self._low_item
 
         self._empty = self._low_item - 1
         self._data.data[:] = self._empty
@@ -2418,7 +2415,7 @@ class CBag(Structure):
             gaussian_noise = torch.randn(shape, dtype=torch.float32, device=device, **(self._gen_kwargs))
             noise = gaussian_noise.argsort().to(dtype=dtype) * self._bignum
             self._data.data[:] += torch.where(
-                self._data.data != self._empty, self._shift + noise, torch.tensor(0, dtype=dtype, device=device)
+                self._data.data != self._empty, self._shift + noise, torch.tensor(self._shift, dtype=dtype, device=device)
             )
             self._data.data[:] = self._data.data.sort(dim=-1, descending=True, stable=False).values
         finally:
-- 
2.43.0


From 7229a995bac7c0c7c0274bfb964062e238bc5ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:41 +0000
Subject: [PATCH 48/73] fix: a large CBag of a small integer dtype returned
 values never put into it

---
 src/evotorch/tools/structures.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 68328d1..3de361c 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -2407,20 +2407,18 @@ class CBag(Structure):
         self._data.push_(value, where)
 
     def _shuffle(self):
-        dtype = self._data.dtype
+        dtype = torch.int64
         device = self._data.device
         shape = self._data.data.shape
 
-        try:
-            gaussian_noise = torch.randn(shape, dtype=torch.float32, device=device, **(self._gen_kwargs))
-            noise = gaussian_noise.argsort().to(dtype=dtype) * self._bignum
-            self._data.data[:] += torch.where(
-                self._data.data != self._empty, self._shift + noise, torch.tensor(self._shift, dtype=dtype, device=device)
-            )
-            self._data.data[:] = self._data.data.sort(dim=-1, descending=True, stable=False).values
-        finally:
-            self._data.data[:] %= self._bignum
-            self._data.data[:] -= self._shift
+        data = self._data.data.to(dtype=dtype)
+        gaussian_noise = torch.randn(shape, dtype=torch.float32, device=device, **(self._gen_kwargs))
+        noise = gaussian_noise.argsort() * self._bignum
+        data = data + torch.where(
+            data != self._empty, self._shift + noise, torch.tensor(self._shift, dtype=dtype, device=device)
+        )
+        data = data.sort(dim=-1, descending=True, stable=False).values
+        self._data.data[:] = (data % self._bignum) - self._shift
 
     def pop_(self, where: Optional[Numbers] = None) -> torch.Tensor:
         """
-- 
2.43.0


From a03648894ea07226a3b562b9b7533906d606166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:37 +0000
Subject: [PATCH 49/73] fix: batched functional PGPE failed with the ranking
 method "nes"

---
 src/evotorch/tools/ranking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/ranking.py b/src/evotorch/tools/ranking.py
index 26534d8..7f5efd6 100644
--- a/src/evotorch/tools/ranking.py
+++ b/src/evotorch/tools/ranking.py
@@ -114,7 +114,7 @@ def nes(fitnesses: torch.Tensor, *, higher_is_better: bool = True) -> torch.Tens
         )
 
         indices = torch.argsort(x, descending=(not higher_is_better))
-        ranks = torch.empty(n, dtype=indices.dtype, device=device)
+        ranks = torch.empty_like(indices)
         ranks[indices] = torch.arange(n, dtype=indices.dtype, device=device)
 
         utils = weights[ranks]
-- 
2.43.0


From 9c69e46eedb43d107ce641c02d88f43d3faf480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:13 +0000
Subject: [PATCH 50/73] fix: ObjectArray.repeat failed with the number of
 repetitions given as an integer

---
 src/evotorch/tools/objectarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index b958951..6563763 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -284,7 +284,8 @@ class ObjectArray(Sequence, RecursivePrintable):
                     f" This is because {type_name} supports only 1-dimensional storage."
                     f" The received size tuple is: {sizes}."
                 )
-        num_repetitions = int(sizes[0])
+        [num_repetitions] = sizes if is_sequence(sizes) else [sizes]
+        num_repetitions = int(num_repetitions)
         self_length = len(self)
         result = ObjectArray(num_repetitions * self_length)
 
-- 
2.43.0


From dcaa1066ae1e8d930631036658281bc61d065d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:13 +0000
Subject: [PATCH 51/73] fix: an ObjectArray could not be put into another
 container

---
 src/evotorch/tools/immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index cccf530..11befe2 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -66,7 +66,7 @@ def as_immutable(x: Any, *, memo: Optional[dict] = None) -> Any:
     elif isinstance(x, torch.Tensor):
         result = x.clone().as_subclass(ReadOnlyTensor)
     elif isinstance(x, ObjectArray):
-        result = x.clone().get_read_only_view()
+        result = x.clone(preserve_read_only=True).get_read_only_view()
     elif isinstance(x, np.ndarray):
         if _numpy_array_stores_objects(x):
             result = ObjectArray(len(x))
-- 
2.43.0


From e8c04188fc1cd8c33fd7e7c1c47a0124306bea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:13 +0000
Subject: [PATCH 52/73] fix: copies of read-only ObjectArrays could be written
 to

---
 src/evotorch/tools/objectarray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index 6563763..df09ae2 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -436,6 +436,7 @@ class ObjectArray(Sequence, RecursivePrintable):
             for i, item in enumerate(self):
                 result[i] = deep_clone(item, otherwise_deepcopy=True, memo=memo)
 
+            result._read_only = self._read_only
             return result
 
     def __copy__(self) -> "ObjectArray":
-- 
2.43.0


From 0563b625801327eccf3549127eb4ab74e6aeb98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:13 +0000
Subject: [PATCH 53/73] fix: slices made by ObjectArray(slice_of=...) from a
 read-only ObjectArray could write to it

---
 src/evotorch/tools/objectarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index df09ae2..64c1a60 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -198,7 +198,7 @@ class ObjectArray(Sequence, RecursivePrintable):
                 self._objects = clone(self._objects)
 
         self._device = torch.device("cpu")
-        self._read_only = False
+        self._read_only = False if slice_of is None else source._read_only
 
     @property
     def shape(self) -> Size:
-- 
2.43.0


From 2ce4a5ef83a6e4ea80bda30a67ff8d3773ffd530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:13 +0000
Subject: [PATCH 54/73] fix: pickled ImmutableSets could not be loaded

---
 src/evotorch/tools/immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 11befe2..d38eb76 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -137,7 +137,7 @@ class ImmutableContainer(ReadOnlyClonable, RecursivePrintable):
         # Since we are dealing with immutable containers here, we need to forcefully make all numpy arrays read-only.
         if isinstance(self, Mapping):
             all_values = self.values()
-        elif isinstance(self, Sequence):
+        elif isinstance(self, (Sequence, Set)):
             all_values = self
         else:
             raise NotImplementedError
-- 
2.43.0


From f8e3bfd2eb73bc6705fbc313db185c843f55fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:13 +0000
Subject: [PATCH 55/73] fix: as_immutable confused elements which exist only
 during an iteration

---
 src/evotorch/tools/immutable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index d38eb76..6a8853a 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -92,6 +92,8 @@ def as_immutable(x: Any, *, memo: Optional[dict] = None) -> Any:
 
     if put_into_memo:
         memo[x_id] = result
+        # Keep x alive, so that its id is not reused by another object as long as the memo is in use.
+        memo.setdefault(id(memo), []).append(x)
 
     return result
 
-- 
2.43.0


From 9994681a3786fa8871426c33fda6f4f04b8b2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:13 +0000
Subject: [PATCH 56/73] fix: an ImmutableDict with tuples as keys had no
 mutable copy

---
 src/evotorch/tools/immutable.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 6a8853a..09c0e74 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -277,7 +277,6 @@ class ImmutableDict(ImmutableContainer, Mapping):
         result = {}
         memo[id(self)] = result
         for k, v in self.items():
-            k = mutable_copy(k, memo=memo)
             v = mutable_copy(v, memo=memo)
             result[k] = v
         return result
-- 
2.43.0


From 2247c82ca184d1433d3c29b1cdce53876a7fa566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:13 +0000
Subject: [PATCH 57/73] fix: deep_clone shared the elements of numpy arrays of
 objects with the original

---
 src/evotorch/tools/cloning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/tools/cloning.py b/src/evotorch/tools/cloning.py
index 1fe87e6..00e12f1 100644
--- a/src/evotorch/tools/cloning.py
+++ b/src/evotorch/tools/cloning.py
@@ -145,6 +145,10 @@ def deep_clone(  # noqa: C901
         result = deepcopy(x, memo=memo)
     elif isinstance(x, np.ndarray):
         result = x.copy()
+        if x.dtype == np.dtype(object):
+            memo[x_id] = result
+            for i in np.ndindex(x.shape):
+                result[i] = call_self(x[i])
         result.flags["WRITEABLE"] = x.flags["WRITEABLE"]
     elif isinstance(x, (ObjectArray, ReadOnlyClonable)):
         result = x.clone(preserve_read_only=True, memo=memo)
-- 
2.43.0


From 903bc22c922eaca8c87e0e727d82e16d248ccd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:11 +0000
Subject: [PATCH 58/73] fix: in-place torch functions could modify a
 ReadOnlyTensor

---
 src/evotorch/tools/readonlytensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index 253c47e..73458c1 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -139,6 +139,12 @@ class ReadOnlyTensor(torch.Tensor):
                     f" This restriction is for making sure that the torch operations which could normally do in-place"
                     f" modifications do not operate on ReadOnlyTensor instances."
                 )
+        func_name = getattr(func, "__name__", "")
+        if func_name.endswith("_") and (not func_name.endswith("__")):
+            if (len(args) >= 1) and isinstance(args[0], ReadOnlyTensor):
+                raise TypeError(
+                    f"The contents of a ReadOnlyTensor cannot be modified. Cannot apply the in-place operation {func_name}."
+                )
         return super().__torch_function__(func, types, args, kwargs)
 
 
-- 
2.43.0


From 4cd6cbaf6538f407d82f8c96094a25e38b689515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:11 +0000
Subject: [PATCH 59/73] fix: read_only_tensor shared the memory of the given
 tensor

---
 src/evotorch/tools/readonlytensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index 73458c1..61a32ea 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -187,9 +187,10 @@ def read_only_tensor(
                 f" the arguments `dtype` and `device` were not expected."
                 f" However, the received keyword arguments are: {kwargs}."
             )
-        return x.get_read_only_view()
+        return x.clone(preserve_read_only=True).get_read_only_view()
     else:
-        return torch.as_tensor(x, **kwargs).as_subclass(ReadOnlyTensor)
+        # Like torch.tensor(...), and unlike torch.as_tensor(...), this function makes a copy of the data
+        return torch.as_tensor(x, **kwargs).clone().as_subclass(ReadOnlyTensor)
 
 
 def as_read_only_tensor(
-- 
2.43.0


From 403a266792e66a94c46687d1c98a05a3b531ffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:11 +0000
Subject: [PATCH 60/73] fix: ObjectArray(slice_of=...) with repeated indices
 wrote to several elements at once

---
 src/evotorch/tools/objectarray.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index 64c1a60..d624921 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -24,7 +24,7 @@ from typing import Any, Iterable, Optional
 import numpy as np
 import torch
 
-from .misc import Device, DType, Size, clone, is_integer, is_sequence, storage_ptr
+from .misc import Device, DType, Size, is_integer, is_sequence, storage_ptr
 from .recursiveprintable import RecursivePrintable
 
 
@@ -195,7 +195,9 @@ class ObjectArray(Sequence, RecursivePrintable):
             self._objects = source._objects
 
             if storage_ptr(self._indices) != storage_ptr(source._indices):
-                self._objects = clone(self._objects)
+                # The selected elements are copied, each of them having a place of its own
+                self._objects = [source._objects[int(index)] for index in self._indices]
+                self._indices = torch.arange(len(self._objects), dtype=torch.int64)
 
         self._device = torch.device("cpu")
         self._read_only = False if slice_of is None else source._read_only
-- 
2.43.0


From 1801983f0a3b7e55d869bd8aac32b50d26e2b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:50 +0000
Subject: [PATCH 61/73] fix: networks with a state of their own, like
 LocomotorNet, carried it over into the next episodes of GymNE

---
 src/evotorch/neuroevolution/net/multilayered.py   | 5 +++++
 src/evotorch/neuroevolution/net/statefulmodule.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/evotorch/neuroevolution/net/multilayered.py b/src/evotorch/neuroevolution/net/multilayered.py
index 42535f6..1c2fda6 100644
--- a/src/evotorch/neuroevolution/net/multilayered.py
+++ b/src/evotorch/neuroevolution/net/multilayered.py
@@ -61,6 +61,11 @@ class MultiLayered(nn.Module):
         else:
             return x, new_h
 
+    def reset(self):
+        for layer in self._submodules:
+            if hasattr(layer, "reset"):
+                layer.reset()
+
     def __iter__(self):
         return self._submodules.__iter__()
 
diff --git a/src/evotorch/neuroevolution/net/statefulmodule.py b/src/evotorch/neuroevolution/net/statefulmodule.py
index 40eae87..bc792f2 100644
--- a/src/evotorch/neuroevolution/net/statefulmodule.py
+++ b/src/evotorch/neuroevolution/net/statefulmodule.py
@@ -82,8 +82,13 @@ class StatefulModule(nn.Module):
     def reset(self):
         """
         Reset the hidden state, if any.
+
+        If the wrapped module keeps a state by itself and therefore has its
+        own `reset()` method, then that method is called as well.
         """
         self._hidden = None
+        if hasattr(self.wrapped_module, "reset"):
+            self.wrapped_module.reset()
 
 
 def ensure_stateful(net: nn.Module) -> StatefulModule:
-- 
2.43.0


From 375be90ffb0deb982082c07c2d1f5b3075efc3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:19 +0000
Subject: [PATCH 62/73] fix: RunningNorm became unusable when it was updated
 first without any observation

---
 src/evotorch/neuroevolution/net/runningnorm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index dae84b8..74a5f0c 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -388,6 +388,10 @@ class RunningNorm:
             # (sum of all squared observations), and n (number of observations extracted
             # from x).
 
+            if n == 0:
+                # There are no observations in x, or all of them are masked out. There is nothing to be updated.
+                return
+
             if self._has_no_data():
                 # If our RunningNorm is empty, the observation data we extracted from x
                 # become our RunningNorm's new data.
-- 
2.43.0


From 031a6caed5cdd7e540d75c7f51c36709db4b6849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:19 +0000
Subject: [PATCH 63/73] fix: RunningNorm shared its memory with the first
 observation given to it, and changed it

---
 src/evotorch/neuroevolution/net/runningnorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 74a5f0c..2492a30 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -322,7 +322,7 @@ class RunningNorm:
                 # the sum of observations extracted from x is x itself,
                 # and the sum of squared observations extracted from x is
                 # the square of x itself.
-                sum_of_x = x
+                sum_of_x = x.clone()
                 sum_of_x_squared = x.square()
                 # We extracted a single observation from x
                 n = 1
-- 
2.43.0


From c13d53c789444bf774ffd71963c021e107223ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:19 +0000
Subject: [PATCH 64/73] fix: masked-out observations which are not finite
 spoiled the statistics of RunningNorm

---
 src/evotorch/neuroevolution/net/runningnorm.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 2492a30..4ba20f3 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -358,14 +358,12 @@ class RunningNorm:
                     # This integer gives us how many observations we extract from x.
                     n = int(torch.sum(torch.as_tensor(mask, dtype=torch.int64, device=self._device)))
 
-                    # We now re-cast the mask as the observation dtype (so that True items turn to 1.0
-                    # and False items turn to 0.0), and then increase its number of dimensions so that
-                    # it can operate directly with x.
-                    mask = self._like_its_own(mask).reshape(torch.Size([x.shape[0]] + ([1] * (x.ndim - 1))))
-
-                    # Finally, we multiply x with the mask. This means that the observations with corresponding
-                    # mask values as False are zeroed out.
-                    x = x * mask
+                    # We now increase the number of dimensions of the mask so that it can operate directly with x.
+                    mask = mask.reshape(torch.Size([x.shape[0]] + ([1] * (x.ndim - 1))))
+
+                    # Finally, the observations with corresponding mask values as False are zeroed out
+                    # (even when they are not finite).
+                    x = torch.where(mask, x, torch.zeros_like(x))
                 else:
                     # This is the case where we did not receive a mask.
                     # We can simply say that the number of observations to extract from x
-- 
2.43.0


From 0332692bd463a4eed9bd5da08029f008eeaaafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:19 +0000
Subject: [PATCH 65/73] fix: RunningNorm raised AttributeError instead of
 ValueError because of an observation of a wrong shape

---
 src/evotorch/neuroevolution/net/runningnorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 4ba20f3..7e0ec4e 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -193,7 +193,7 @@ class RunningNorm:
             if x.shape != self._shape:
                 raise ValueError(
                     f"This RunningNorm instance was initialized with shape: {self._shape}."
-                    f" However, the provided tensor has an incompatible shape: {x._shape}."
+                    f" However, the provided tensor has an incompatible shape: {x.shape}."
                 )
         elif x.ndim == (self._ndim + 1):
             if x.shape[1:] != self._shape:
-- 
2.43.0


From e1af19891098e002b08198ffa73a46de2255e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:19 +0000
Subject: [PATCH 66/73] fix: a RunningNorm without data could not be moved to
 another device

---
 src/evotorch/neuroevolution/net/runningnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 7e0ec4e..44df7a8 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -130,8 +130,8 @@ class RunningNorm:
             new_running_norm = object.__new__(type(self))
 
             already_handled = {"_sum", "_sum_of_squares", "_device"}
-            new_running_norm._sum = self._sum.to(device)
-            new_running_norm._sum_of_squares = self._sum_of_squares.to(device)
+            new_running_norm._sum = None if self._sum is None else self._sum.to(device)
+            new_running_norm._sum_of_squares = None if self._sum_of_squares is None else self._sum_of_squares.to(device)
             new_running_norm._device = device
 
             for k, v in self.__dict__.items():
-- 
2.43.0


From 176e0ff829084536d7c0df131558b17833ea56cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:19 +0000
Subject: [PATCH 67/73] fix: setting the parameters of some rows of a Policy
 changed the tensor given earlier

---
 src/evotorch/neuroevolution/net/vecrl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index 70a9f64..9f78190 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1226,7 +1226,11 @@ class Policy:
             if indices is None:
                 self.__parameters = parameters
             else:
-                self.__parameters[indices] = parameters
+                # The current parameters might share their memory with a tensor of the user, so, we do not modify them
+                # in-place.
+                new_parameters = self.__parameters.clone()
+                new_parameters[indices] = parameters
+                self.__parameters = new_parameters
 
         if reset:
             self.reset(indices)
-- 
2.43.0


From 4c169dcc14d7054c9ce8fde2f2be26c74978ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:34 +0000
Subject: [PATCH 68/73] fix: random tensors could not be made with the dtype
 given as a string

---
 src/evotorch/tools/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index d219d38..990059d 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1280,6 +1280,8 @@ def _out_tensor_for_random_operation(
     device: Optional[Device] = None,
 ) -> torch.Tensor:
     if out is None:
+        if dtype is not None:
+            dtype = to_torch_dtype(dtype)
         out = torch.empty(tuple(), dtype=dtype, device=device).expand(*size)
         out = out + make_batched_false_for_vmap(out.device)
     else:
-- 
2.43.0


From 8079778a34bb84d54a0e26a8d6e01e2f2be9bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:34 +0000
Subject: [PATCH 69/73] fix: uniformly drawn integers were out of their bounds,
 or not uniform, with narrow integer dtypes

---
 src/evotorch/tools/misc.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 990059d..8bd998b 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1633,17 +1633,23 @@ def make_uniform(
         else:
             _invalid_bound_args()
     elif out.dtype in (torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64):
-        out.random_(**gen_kwargs)
+        # The computation is done with 64 bits, because the width of the range might not fit into a narrower dtype.
+        values = out if out.dtype == torch.int64 else out.to(torch.int64)
+        values.random_(**gen_kwargs)
         if (lb is None) and (ub is None):
-            out %= 2
+            values %= 2
         elif (lb is not None) and (ub is not None):
             _cast_bounds()
+            lb = lb.to(torch.int64)
+            ub = ub.to(torch.int64)
             diff = (ub - lb) + 1
-            out -= lb
-            out %= diff
-            out += lb
+            values -= lb
+            values %= diff
+            values += lb
         else:
             _invalid_bound_args()
+        if values is not out:
+            out[...] = values
     else:
         out.uniform_(**gen_kwargs)
         if (lb is None) and (ub is None):
@@ -1807,8 +1813,15 @@ def make_randint(
         dtype = torch.int64
     out = _out_tensor_for_random_operation(*size, out=out, dtype=dtype, device=device)
     gen_kwargs = _generator_kwargs(generator)
-    out.random_(**gen_kwargs)
-    out %= n
+    if out.dtype in (torch.uint8, torch.int8, torch.int16, torch.int32):
+        # Random bits which are as few as those of a narrow dtype would not be distributed uniformly among n values.
+        values = out.to(torch.int64)
+        values.random_(**gen_kwargs)
+        values %= n
+        out[...] = values
+    else:
+        out.random_(**gen_kwargs)
+        out %= n
 
     if scalar_requested:
         out = out[0]
-- 
2.43.0


From 3cdde7a795317700a8f063c000eb461d528b8411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:54 +0000
Subject: [PATCH 70/73] fix: draws from the own generator of a problem changed
 the global random stream of PyTorch

---
 src/evotorch/tools/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 8bd998b..8656b09 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -2322,4 +2322,5 @@ def make_batched_false_for_vmap(device: Device) -> torch.Tensor:
         a batch of scalar tensors (i.e. a `BatchedTensor`) if we are inside
         `vmap(..., randomness="different")`.
     """
-    return torch.randint(0, 1, tuple(), dtype=torch.bool, device=device)
+    # No random number is consumed here (the sample is empty), so, the global generator remains as it is.
+    return torch.randint(0, 1, (0,), dtype=torch.bool, device=device).any()
-- 
2.43.0


From ae04ea0d9371aac6a6e2eb2e06bfe9ddd2c571ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:17:31 +0000
Subject: [PATCH 71/73] fix: invalid hyperparameters could be written into the
 parameter group of ClipUp

---
 src/evotorch/optimizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/optimizers.py b/src/evotorch/optimizers.py
index 8f2276c..25f8b0c 100644
--- a/src/evotorch/optimizers.py
+++ b/src/evotorch/optimizers.py
@@ -398,11 +398,11 @@ class ClipUpParameterGroup(Mapping):
     def __setitem__(self, key: str, value: float):
         attrname = ClipUp._param_group_items[key]
         value = float(value)
-        if attrname in ClipUp._param_group_item_lb:
+        if key in ClipUp._param_group_item_lb:
             lb = ClipUp._param_group_item_lb[key]
             if value < lb:
                 raise ValueError(f"Invalid value for {repr(key)}: {value}")
-        if attrname in ClipUp._param_group_item_ub:
+        if key in ClipUp._param_group_item_ub:
             ub = ClipUp._param_group_item_ub[key]
             if value > ub:
                 raise ValueError(f"Invalid value for {repr(key)}: {value}")
-- 
2.43.0


From 156dcc6ba48706da687e10663d7bee5e872f10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:22:34 +0000
Subject: [PATCH 72/73] fix: a failed save_solution destroyed the solution
 saved earlier under the same name

---
 src/evotorch/neuroevolution/gymne.py    | 13 +++++++++++--
 src/evotorch/neuroevolution/vecgymne.py | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 63400d9..a5b424d 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -14,6 +14,7 @@
 
 """This namespace contains the `GymNE` class."""
 
+import os
 import pickle
 from collections.abc import Mapping
 from copy import deepcopy
@@ -748,8 +749,16 @@ class GymNE(NEProblem):
             result["env"] = self._env_maker
 
         # Save the dictionary which stores the data.
-        with open(fname, "wb") as f:
-            pickle.dump(result, f)
+        # The data is first written into a temporary file, so that a failed write never damages an existing file.
+        tmp_fname = f"{fname}.tmp"
+        try:
+            with open(tmp_fname, "wb") as f:
+                pickle.dump(result, f)
+            os.replace(tmp_fname, fname)
+        except BaseException:
+            if os.path.exists(tmp_fname):
+                os.remove(tmp_fname)
+            raise
 
     def get_env(self) -> gym.Env:
         """
diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 3fe358a..f3a65fd 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import os
 import pickle
 import random
 from collections.abc import Mapping
@@ -1050,8 +1051,16 @@ class VecGymNE(BaseNEProblem):
         result["architecture"] = self._architecture
 
         # Save the dictionary which stores the data.
-        with open(fname, "wb") as f:
-            pickle.dump(result, f)
+        # The data is first written into a temporary file, so that a failed write never damages an existing file.
+        tmp_fname = f"{fname}.tmp"
+        try:
+            with open(tmp_fname, "wb") as f:
+                pickle.dump(result, f)
+            os.replace(tmp_fname, fname)
+        except BaseException:
+            if os.path.exists(tmp_fname):
+                os.remove(tmp_fname)
+            raise
 
     @property
     def max_num_envs(self) -> Optional[int]:
-- 
2.43.0


From 6655eecb4b3005f5f55253086ba77007b7b25a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:00:35 +0000
Subject: [PATCH 73/73] fix: fitness functions decorated by rowwise or
 expects_ndim could not be evaluated by ray actors

The annotations of the class defined within the decorated function were looked up as globals, and these are not among the globals which are sent to the actors together with the function. The evaluation failed with a NameError.
---
 src/evotorch/decorators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/decorators.py b/src/evotorch/decorators.py
index d8e40c0..b96cfbd 100644
--- a/src/evotorch/decorators.py
+++ b/src/evotorch/decorators.py
@@ -702,8 +702,8 @@ def expects_ndim(  # noqa: C901
             class tensor_info:
                 # At first, we initialize the set of encountered dtype and device info as None.
                 # They will be lazily filled if we ever need such information.
-                encountered_dtypes: Optional[set] = None
-                encountered_devices: Optional[set] = None
+                encountered_dtypes = None
+                encountered_devices = None
 
                 @classmethod
                 def update(cls):
-- 
2.43.0

