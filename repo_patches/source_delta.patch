From ceb0f383861b6929d73134b6815621942b997770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 01/77] fix: DifferentialEvolution(recommendation="mean")
 raised KeyError when recommending

---
 nevergrad/optimization/differentialevolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 1324edc..7b1af3f 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -166,7 +166,9 @@ class _DE(base.Optimizer):
             except metamodel.MetaModelFailure:  # The optimum is at infinity. Shit happens.
                 pass  # MetaModel failures are something which happens, no worries.
         if self._config.recommendation != "noisy":
-            return self.current_bests[self._config.recommendation].parameter
+            # the tracked bests name this criterion "average"
+            criterion = {"mean": "average"}.get(self._config.recommendation, self._config.recommendation)
+            return self.current_bests[criterion].parameter
         med_fitness = np.median([p.loss for p in self.population.values() if p.loss is not None])
         good_guys = [p for p in self.population.values() if p.loss is not None and p.loss < med_fitness]
         if not good_guys:
-- 
2.43.0


From 1f0cb28aff9126306c9809497cb29d9b57d174ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 02/77] fix: NSGA-II ranking compared candidates by number of
 better objectives instead of Pareto dominance

---
 nevergrad/optimization/multiobjective/nsga2.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/nsga2.py b/nevergrad/optimization/multiobjective/nsga2.py
index fadab22..6f30a72 100644
--- a/nevergrad/optimization/multiobjective/nsga2.py
+++ b/nevergrad/optimization/multiobjective/nsga2.py
@@ -123,11 +123,12 @@ class FastNonDominatedRanking:
         :param candidate1: Candidate.
         :param candidate2: Candidate.
         """
-        one_wins = np.sum(candidate1.losses < candidate2.losses)
-        two_wins = np.sum(candidate2.losses < candidate1.losses)
-        if one_wins > two_wins:
+        # Pareto dominance: at least as good everywhere, and better somewhere
+        one_wins = np.any(candidate1.losses < candidate2.losses)
+        two_wins = np.any(candidate2.losses < candidate1.losses)
+        if one_wins and not two_wins:
             return -1
-        if two_wins > one_wins:
+        if two_wins and not one_wins:
             return 1
         return 0
 
-- 
2.43.0


From 8b2a3d7a7ee638a6a2635e0f5b12d7b1b8c1f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 03/77] fix: non-dominated points lying on the upper bounds
 were missing from the Pareto front

---
 nevergrad/optimization/multiobjective/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index b9deb06..f3b2b9e 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -145,6 +145,10 @@ class HypervolumePareto:
                 # -> +inf if no point is strictly better (but lower if it is)
                 if (stored_losses <= losses).all():
                     distance_to_pareto = min(distance_to_pareto, min(losses - stored_losses))
+            if distance_to_pareto == float("inf"):
+                # not dominated although it does not increase the volume (point lying on the upper bounds)
+                self._pf.add_to_pareto(parameter)
+                distance_to_pareto = 0.0
             assert distance_to_pareto >= 0
             return 0.0 if self._no_hypervolume else -new_volume + distance_to_pareto
 
-- 
2.43.0


From 5ebf50bcc1b3fc66d11f73440cc4f21d1e761242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 04/77] fix: Pareto front subsets had repetitions, and failed
 for container parametrizations

---
 nevergrad/optimization/multiobjective/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index f3b2b9e..f4aeddd 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -215,6 +215,11 @@ class ParetoFront:
         """Retrieve current values, which may not be a Pareto front, as they have not been filtered."""
         return self._pareto
 
+    def _sample(self, size: int) -> tp.List[p.Parameter]:
+        """Draws distinct elements of the current list"""
+        # through indices, since numpy would convert parameters which are containers into arrays
+        return [self._pareto[k] for k in self._rng.choice(len(self._pareto), size, replace=False)]
+
     # pylint: disable=too-many-branches
     def get_front(
         self, size: tp.Optional[int] = None, subset: str = "random", subset_tentatives: int = 12
@@ -243,8 +248,8 @@ class ParetoFront:
         if size is None or size >= len(self._pareto):  # No limit: we return the full set.
             return self._pareto
         if subset == "random":
-            return self._rng.choice(self._pareto, size).tolist()  # type: ignore
-        tentatives = [self._rng.choice(self._pareto, size).tolist() for _ in range(subset_tentatives)]  # type: ignore
+            return self._sample(size)
+        tentatives = [self._sample(size) for _ in range(subset_tentatives)]
         if self._hypervolume is None and subset == "hypervolume":
             raise RuntimeError("Hypervolume subsetting not supported as hypervolume not in use")
         hypervolume = self._hypervolume
-- 
2.43.0


From d529c3b6653375f849fcb4a0075fb1b4f3a6c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 05/77] fix: multiobjective loss was computed from points over
 the upper bounds

---
 nevergrad/optimization/multiobjective/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index f4aeddd..a2c9e7d 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -129,7 +129,9 @@ class HypervolumePareto:
         if self._hypervolume is None:
             self._hypervolume = HypervolumeIndicator(self._upper_bounds)
             self._pf._hypervolume = self._hypervolume
-        new_volume = self._hypervolume.compute([pa.losses for pa in self._pf.get_raw()] + [losses])
+        # points over the upper bounds may remain in the front, but they must not be part of the volume
+        bounded = [pa.losses for pa in self._pf.get_raw() if (pa.losses <= self._upper_bounds).all()]
+        new_volume = self._hypervolume.compute(bounded + [losses])
         if new_volume > self._best_volume:
             # This point is good! Let us give him a great mono-fitness value.
             self._best_volume = new_volume
-- 
2.43.0


From 064e9467b1e3815925ac6c0dd93a377f79c67c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 06/77] fix: discarded uids could remain in the queue, and be
 asked again by DE and PSO (KeyError)

---
 nevergrad/optimization/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/utils.py b/nevergrad/optimization/utils.py
index 72aade6..6c8942d 100644
--- a/nevergrad/optimization/utils.py
+++ b/nevergrad/optimization/utils.py
@@ -349,6 +349,8 @@ class UidQueue:
             self.asked.discard(uid)
         else:
             self.told.remove(uid)
+        while uid in self.told:  # a uid which was asked several times can have been told several times
+            self.told.remove(uid)
 
 
 class ConstraintManager:
-- 
2.43.0


From 3da404140833d5833b113889cc24123df471b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 07/77] fix: DE lost an individual (and could fail) when an
 individual of the population was told again

---
 nevergrad/optimization/differentialevolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 7b1af3f..ca9dc1e 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -281,6 +281,10 @@ class _DE(base.Optimizer):
             self.population[uid].heritage.update(candidate.heritage)
 
     def _internal_tell_not_asked(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
+        if candidate.uid in self.population:  # told again: it can only get its own place back
+            if self.num_objectives == 1 and loss <= base._loss(self.population[candidate.uid]):
+                self.population[candidate.uid] = candidate
+            return
         discardable: tp.Optional[str] = None
         if len(self.population) >= self.llambda:
 
-- 
2.43.0


From 3a969900dbda0b579c96a9c72b5c4806d098ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:42 +0000
Subject: [PATCH 08/77] fix: ES without offsprings had an unbounded population,
 and failed, when told foreign candidates

---
 nevergrad/optimization/es.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index 41680ab..5476c6d 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -44,7 +44,7 @@ class _EvolutionStrategy(base.Optimizer):
         self._no_hypervolume = self._config.offsprings is None
 
     def _internal_ask_candidate(self) -> p.Parameter:
-        if self.num_ask < self._config.popsize:
+        if self.num_ask < self._config.popsize and len(self._population) < self._config.popsize:
             param = self.parametrization.sample()
             assert param.uid == param.heritage["lineage"]  # this is an assumption used below
             self._uid_queue.asked.add(param.uid)
@@ -62,10 +62,17 @@ class _EvolutionStrategy(base.Optimizer):
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: float) -> None:
         if self._config.offsprings is None:
             uid = candidate.heritage["lineage"]
-            self._uid_queue.tell(uid)
-            parent_value = float("inf") if uid not in self._population else base._loss(self._population[uid])
-            if loss < parent_value:
+            if uid not in self._population:  # foreign candidate: only kept if there is room, or if it is better
+                if len(self._population) >= self._config.popsize:
+                    worst = max(self._population, key=lambda u: base._loss(self._population[u]))
+                    if loss >= base._loss(self._population[worst]):
+                        return
+                    del self._population[worst]
+                    self._uid_queue.discard(worst)
+                self._population[uid] = candidate
+            elif loss < base._loss(self._population[uid]):
                 self._population[uid] = candidate
+            self._uid_queue.tell(uid)
         else:
             no_parent = next(iter(candidate.parents_uids), "#no_parent#") not in self._population
             if no_parent and len(self._population) < self._config.popsize:
-- 
2.43.0


From 09ffd90f539a5a18946ad5973f7b7b8b2ebac8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 09/77] fix: mutations, smoothing, Voronoi crossover and
 rescaling ignored the seed of the optimizer

---
 nevergrad/optimization/differentialevolution.py |  8 ++++----
 nevergrad/optimization/optimizerlib.py          | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index ca9dc1e..e82405d 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -87,10 +87,10 @@ class Crossover:
             return
         local_donor = donor.reshape(shape)
         local_individual = individual.reshape(shape)
-        x1 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x2 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x3 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x4 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
+        x1 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x2 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x3 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x4 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
         it = np.nditer(local_donor, flags=["multi_index"])
         for _ in it:
             d1 = np.linalg.norm(np.array(it.multi_index) - x1)
diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 28797d7..eb77446 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -75,11 +75,11 @@ def smooth_copy(array: p.Array, possible_radii: tp.Optional[tp.List[int]] = None
     except Exception as e:
         assert False, f"{e} in smooth_copy, {radii}, {np.prod(radii)}"
     # DE style operator.
-    invfreq = 4 if len(possible_radii) == 1 else max(4, np.random.randint(max(4, len(array.value.flatten()))))
+    invfreq = 4 if len(possible_radii) == 1 else max(4, array.random_state.randint(max(4, len(array.value.flatten()))))
     indices = array.random_state.randint(invfreq, size=value.shape) == 0
     while np.sum(indices) == 0 and len(possible_radii) > 1:
         invfreq = (
-            4 if len(possible_radii) == 1 else max(4, np.random.randint(max(4, len(array.value.flatten()))))
+            4 if len(possible_radii) == 1 else max(4, array.random_state.randint(max(4, len(array.value.flatten()))))
         )
         indices = array.random_state.randint(invfreq, size=value.shape) == 0
     value[indices] = value2[indices]
@@ -280,7 +280,7 @@ class _OnePlusOne(base.Optimizer):
             and self._num_ask % max(self.num_workers + 1, self.antismooth) == 0
             and isinstance(self.parametrization, p.Array)
         ):
-            possible_radii = [3] if not self.super_radii else [3, 3 + np.random.randint(int(np.sqrt(np.sqrt(self.dimension))))]  # type: ignore
+            possible_radii = [3] if not self.super_radii else [3, 3 + self._rng.randint(int(np.sqrt(np.sqrt(self.dimension))))]  # type: ignore
             self.suggest(smooth_copy(pessimistic, possible_radii=possible_radii).value)  # type: ignore
         if self.num_objectives > 1 and self.use_pareto:  # multiobjective
             # revert to using a sample of the pareto front (not "pessimistic" though)
@@ -329,7 +329,7 @@ class _OnePlusOne(base.Optimizer):
                 mutation_rate = max(0.1 / self.dimension, self._global_mr)
                 assert mutation_rate > 0.0
                 individual_mutation_rate = 1.0 / (
-                    1.0 + (((1.0 - mutation_rate) / mutation_rate) * np.exp(0.22 * np.random.randn()))
+                    1.0 + (((1.0 - mutation_rate) / mutation_rate) * np.exp(0.22 * self._rng.randn()))
                 )
                 # print(f"pd={pessimistic_data}_imr={individual_mutation_rate}, d={self.dimension}, arity={self.arity_for_discrete_mutation}")
                 data = mutator.portfolio_discrete_mutation(
@@ -1638,7 +1638,7 @@ class _Rescaled(base.Optimizer):
     def rescale_candidate(self, candidate: p.Parameter, inverse: bool = False) -> p.Parameter:
         data = candidate.get_standardized_data(reference=self.parametrization)
         if self.shift is not None:
-            data = data + self.shift * np.random.randn(self.dimension)
+            data = data + self.shift * self._rng.randn(self.dimension)
         scale = self.scale if not inverse else 1.0 / self.scale
         return self.parametrization.spawn_child().set_standardized_data(scale * data)
 
-- 
2.43.0


From 3cf050227e47c1a418c2866af15ffcbf119b55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 10/77] fix: CmaFmin2 and the stochastic NLOPT algorithms
 ignored the seed of the optimizer

---
 nevergrad/optimization/recastlib.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index efedefa..a2abf31 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -37,6 +37,7 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
         # assert method in ["SMAC3", "SMAC", "Nelder-Mead", "COBYLA", "SLSQP", "Powell"], f"Unknown method '{method}'"
         self.method = method
         self.random_restart = random_restart
+        self._initial_seed = -1  # for the wrapped libraries which have their own random generator
         # self._normalizer = p.helpers.Normalizer(self.parametrization)
         assert (
             method
@@ -84,6 +85,8 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
         """  # We do not do anything; this just updates the current best.
 
     def get_optimization_function(self) -> tp.Callable[[tp.Callable[[tp.ArrayLike], float]], tp.ArrayLike]:
+        if self._initial_seed == -1 and (self.method == "CmaFmin2" or self.method.startswith("NLOPT_G")):
+            self._initial_seed = self._rng.randint(2**30)
         return functools.partial(self._optimization_function, weakref.proxy(self))
 
     @staticmethod
@@ -185,6 +188,8 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                 # opt.set_initial_step([0.05, 0.05])
                 opt.set_maxeval(budget)
 
+                if weakself._initial_seed != -1:
+                    nlopt.srand(weakself._initial_seed)  # one generator per thread
                 # Start the optimization with the first guess
                 firstguess = 0.5 * np.ones(weakself.dimension)
                 best_x = opt.optimize(firstguess)
@@ -438,8 +443,10 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                     else np.zeros(weakself.dimension)
                 )
                 num_calls = 0
+                rng = np.random.RandomState(weakself._initial_seed)
                 while budget - num_calls > 0:
-                    options = {"maxfevals": budget - num_calls, "verbose": -9}
+                    # no seed: cma would seed the global generator
+                    options = {"maxfevals": budget - num_calls, "verbose": -9, "randn": rng.randn, "seed": np.nan}
                     if weakself._normalizer is not None and weakself._normalizer.fully_bounded:
                         # Tell CMA to work in [0, 1].
                         options["bounds"] = [0.0, 1.0]
@@ -452,9 +459,9 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                     )
                     x0 = (
                         0.5
-                        + np.random.uniform() * np.random.uniform(low=-0.5, high=0.5, size=weakself.dimension)
+                        + rng.uniform() * rng.uniform(low=-0.5, high=0.5, size=weakself.dimension)
                         if weakself._normalizer is not None and weakself._normalizer.fully_bounded
-                        else np.random.randn(weakself.dimension)
+                        else rng.randn(weakself.dimension)
                     )
                     if res[1] < best_res:
                         best_res = res[1]
-- 
2.43.0


From 822876bb3e2b3c4771b4241aa5d4eab255680079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:52 +0000
Subject: [PATCH 11/77] fix: recast optimizers could block forever after the
 end of the background thread, or prevent exiting

---
 nevergrad/optimization/recaster.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index aa0c07e..b74af7f 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -81,7 +81,13 @@ class _MessagingThread(threading.Thread):
         """
         self.call_count += 1
         self.messages_ask.put(args[0])  # sends a message
-        candidate = self.messages_tell.get()  # get evaluated message
+        candidate: tp.Any = None
+        while threading.main_thread().is_alive():  # a waiting thread must not prevent the program from exiting
+            try:
+                candidate = self.messages_tell.get(timeout=1.0)  # get evaluated message
+                break
+            except queue.Empty:
+                pass
         if candidate is None:
             raise StopOptimizerThread()
         return candidate
@@ -101,6 +107,15 @@ class MessagingThread:
     def is_alive(self) -> bool:
         return self._thread.is_alive()
 
+    def get_ask(self) -> tp.Any:
+        """Waits for the next message from the background thread"""
+        message = self._thread.messages_ask.get()
+        if message is None or isinstance(message, Exception):
+            # this was the last message: make sure the thread is not considered as alive anymore,
+            # since waiting for another message would then block forever
+            self._thread.join()
+        return message
+
     @property
     def output(self) -> tp.Any:
         return self._thread.output
@@ -265,7 +280,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
             self._messaging_thread = MessagingThread(self.get_optimization_function())
         alive = self._messaging_thread.is_alive()
         if alive:
-            point = self._messaging_thread.messages_ask.get()
+            point = self._messaging_thread.get_ask()
             if isinstance(point, Exception):
                 raise point
         if not alive or point is None:  # In case the algorithm stops before the budget is elapsed.
@@ -368,7 +383,7 @@ class BatchRecastOptimizer(RecastOptimizer):
         alive = self._messaging_thread.is_alive()
         # wait for a message
         if alive:
-            points = self._messaging_thread.messages_ask.get()
+            points = self._messaging_thread.get_ask()
             if isinstance(points, Exception):
                 raise points
         if not alive or points is None:  # In case the algorithm stops before the budget is elapsed.
-- 
2.43.0


From 33149d0136f3441f083a0ca141f65520f0e12f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:51 +0000
Subject: [PATCH 12/77] fix: unpickled recast optimizers did not replay the
 original run

---
 nevergrad/optimization/recaster.py  | 54 ++++++++++++++++++-----------
 nevergrad/optimization/recastlib.py | 37 +++++++++++++-------
 2 files changed, 59 insertions(+), 32 deletions(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index b74af7f..fab1bf9 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -263,6 +263,8 @@ class SequentialRecastOptimizer(RecastOptimizer):
         super().__init__(parametrization=parametrization, budget=budget, num_workers=num_workers)
         self._enable_pickling = False
         self.replay_archive_tell: tp.List[p.Parameter] = []
+        self._replay_losses: tp.List[tp.Loss] = []  # what was posted for each candidate of replay_archive_tell
+        self._waiting_loss = False  # whether the background thread is waiting for the loss of a point
 
     def enable_pickling(self):
         """Make the optimizer store its history of tells, so
@@ -272,18 +274,26 @@ class SequentialRecastOptimizer(RecastOptimizer):
             raise ValueError("Can only enable pickling before all asks.")
         self._enable_pickling = True
 
+    def _next_point(self) -> tp.Optional[tp.ArrayLike]:
+        """Next point requested by the thread in which the underlying optimization function is running
+        (None if it is over)
+        """
+        if self._messaging_thread is None:
+            self._messaging_thread = MessagingThread(self.get_optimization_function())
+        if not self._messaging_thread.is_alive():
+            return None
+        point = self._messaging_thread.get_ask()
+        if isinstance(point, Exception):
+            raise point
+        self._waiting_loss = point is not None
+        return point  # type: ignore
+
     def _internal_ask_candidate(self) -> p.Parameter:
         """Reads messages from the thread in which the underlying optimization function is running
         New messages are sent as "ask".
         """
-        if self._messaging_thread is None:
-            self._messaging_thread = MessagingThread(self.get_optimization_function())
-        alive = self._messaging_thread.is_alive()
-        if alive:
-            point = self._messaging_thread.get_ask()
-            if isinstance(point, Exception):
-                raise point
-        if not alive or point is None:  # In case the algorithm stops before the budget is elapsed.
+        point = self._next_point()
+        if point is None:  # In case the algorithm stops before the budget is elapsed.
             warnings.warn(
                 "Underlying optimizer has already converged, returning random points",
                 base.errors.FinishedUnderlyingOptimizerWarning,
@@ -302,9 +312,12 @@ class SequentialRecastOptimizer(RecastOptimizer):
         if not self._messaging_thread.is_alive():  # optimizer is done
             self._check_error()
             return
+        posted = self._post_loss(candidate, loss)
         if self._enable_pickling:
             self.replay_archive_tell.append(candidate)
-        self._messaging_thread.messages_tell.put(self._post_loss(candidate, loss))
+            self._replay_losses.append(posted)
+        self._waiting_loss = False
+        self._messaging_thread.messages_tell.put(posted)
 
     def __getstate__(self):
         if not self._enable_pickling:
@@ -320,23 +333,24 @@ class SequentialRecastOptimizer(RecastOptimizer):
         if not self._enable_pickling:
             raise ValueError("Cannot unpickle the unpicklable")
 
-        # We temporarily unset _enable_pickling so that the replays do not
-        # get archived again.
-        self._enable_pickling = False
-        for i, candidate in enumerate(self.replay_archive_tell):
-            new_candidate = self._internal_ask_candidate()
-            norm = np.linalg.norm(new_candidate.get_standardized_data(reference=candidate))
+        waiting_loss = self._waiting_loss
+        for i, (candidate, posted) in enumerate(zip(self.replay_archive_tell, self._replay_losses)):
+            point = self._next_point()
+            norm = np.inf
+            if point is not None:
+                new_candidate = self.parametrization.spawn_child().set_standardized_data(point)
+                norm = np.linalg.norm(new_candidate.get_standardized_data(reference=candidate))  # type: ignore
             # Check that the replay wants the same value as we had the first time.
             # If an error is raised here then you might want to
             # check the reproducibility of your optimizer.
             if norm > 0.00001:
                 raise RuntimeError(f"Mismatch in replay at index {i} of {len(self.replay_archive_tell)}.")
-            self._internal_tell_candidate(candidate, candidate.loss)
+            assert self._messaging_thread is not None
+            self._messaging_thread.messages_tell.put(posted)
 
-        if self.num_ask > self.num_tell:
-            self._internal_ask_candidate()
-
-        self._enable_pickling = True
+        if waiting_loss:  # a point was asked, and was not told yet
+            self._next_point()
+        self._waiting_loss = waiting_loss
 
 
 class BatchRecastOptimizer(RecastOptimizer):
diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index a2abf31..5c8eefb 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -38,6 +38,9 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
         self.method = method
         self.random_restart = random_restart
         self._initial_seed = -1  # for the wrapped libraries which have their own random generator
+        # what the optimization starts (and restarts) from, so that it can be replayed after unpickling
+        self._start: tp.Optional[tp.Tuple[np.ndarray, int]] = None
+        self._restarts: tp.List[np.ndarray] = []
         # self._normalizer = p.helpers.Normalizer(self.parametrization)
         assert (
             method
@@ -87,20 +90,28 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
     def get_optimization_function(self) -> tp.Callable[[tp.Callable[[tp.ArrayLike], float]], tp.ArrayLike]:
         if self._initial_seed == -1 and (self.method == "CmaFmin2" or self.method.startswith("NLOPT_G")):
             self._initial_seed = self._rng.randint(2**30)
+        if self._start is None:
+            guess = self.current_bests["average"].x if self.initial_guess is None else self.initial_guess
+            self._start = (np.array(guess, copy=True), self._num_ask)
         return functools.partial(self._optimization_function, weakref.proxy(self))
 
     @staticmethod
     def _optimization_function(
-        weakself: tp.Any, objective_function: tp.Callable[[tp.ArrayLike], float]
+        weakself: tp.Any, evaluate: tp.Callable[[tp.ArrayLike], float]
     ) -> tp.ArrayLike:
         # pylint:disable=unused-argument
         budget = np.inf if weakself.budget is None else weakself.budget
         best_res = np.inf
-        best_x: np.ndarray = weakself.current_bests["average"].x
-        if weakself.initial_guess is not None:
-            best_x = np.array(weakself.initial_guess, copy=True)  # copy, just to make sure it is not modified
+        best_x, num_ask = weakself._start
+        best_x = np.array(best_x, copy=True)  # copy, just to make sure it is not modified
+        num_restarts = 0
+
+        def objective_function(data: tp.ArrayLike) -> float:
+            nonlocal num_ask
+            num_ask += 1
+            return evaluate(data)
 
-        remaining: float = budget - weakself._num_ask
+        remaining: float = budget - num_ask
 
         def ax_obj(p):
             data = [p["x" + str(i)] for i in range(weakself.dimension)]  # type: ignore
@@ -329,7 +340,7 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                 best_x = weakself._normalizer.backward(np.asarray(best_x, dtype=float))
                 # print(f"end SMAC optimization {best_x}")
                 thread.join()
-                weakself._num_ask = budget
+                num_ask = budget
 
             #            elif weakself.method == "SMAC":
             #                import smac  # noqa  # pylint: disable=unused-import
@@ -470,13 +481,15 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                             best_x = weakself._normalizer.backward(np.asarray(best_x, dtype=np.float32))
                     num_calls += res[2]
             else:
+                x0 = best_x
+                if weakself.random_restart:
+                    if num_restarts == len(weakself._restarts):
+                        weakself._restarts.append(weakself._rng.normal(0.0, 1.0, weakself.dimension))
+                    x0 = np.array(weakself._restarts[num_restarts], copy=True)
+                    num_restarts += 1
                 res = scipyoptimize.minimize(
                     objective_function,
-                    (
-                        best_x
-                        if not weakself.random_restart
-                        else weakself._rng.normal(0.0, 1.0, weakself.dimension)
-                    ),
+                    x0,
                     method=weakself.method,
                     options=options,
                     tol=0,
@@ -484,7 +497,7 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                 if res.fun < best_res:
                     best_res = res.fun
                     best_x = res.x
-            remaining = budget - weakself._num_ask
+            remaining = budget - num_ask
         assert best_x is not None
         return best_x
 
-- 
2.43.0


From 39d903efb46f3ffade7f5af172f36eb0a18e9055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 13/77] fix: NLOPT_LN_PRAXIS ignored the seed of the optimizer

---
 nevergrad/optimization/recastlib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index 5c8eefb..99308ee 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -88,7 +88,9 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
         """  # We do not do anything; this just updates the current best.
 
     def get_optimization_function(self) -> tp.Callable[[tp.Callable[[tp.ArrayLike], float]], tp.ArrayLike]:
-        if self._initial_seed == -1 and (self.method == "CmaFmin2" or self.method.startswith("NLOPT_G")):
+        if self._initial_seed == -1 and (
+            self.method in ("CmaFmin2", "NLOPT_LN_PRAXIS") or self.method.startswith("NLOPT_G")
+        ):
             self._initial_seed = self._rng.randint(2**30)
         if self._start is None:
             guess = self.current_bests["average"].x if self.initial_guess is None else self.initial_guess
-- 
2.43.0


From 427f8721d25c7bea9f1641532acd244fc3196484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:16 +0000
Subject: [PATCH 14/77] fix: a failed dump destroyed the previous dump file

---
 nevergrad/optimization/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index fb411bf..ac72123 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -240,8 +240,15 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
     def dump(self, filepath: tp.Union[str, Path]) -> None:
         """Pickles the optimizer into a file."""
         filepath = Path(filepath)
-        with filepath.open("wb") as f:
-            pickle.dump(self, f)
+        # written aside first, so that a failure does not destroy an existing file
+        tmppath = filepath.with_name(filepath.name + ".tmp")
+        try:
+            with tmppath.open("wb") as f:
+                pickle.dump(self, f)
+            tmppath.replace(filepath)
+        finally:
+            if tmppath.exists():
+                tmppath.unlink()
 
     @classmethod
     def load(cls: tp.Type[X], filepath: tp.Union[str, Path]) -> X:
-- 
2.43.0


From 4d1afc521ee4839ca4e80b01ce3e3ac0813a4594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:27 +0000
Subject: [PATCH 15/77] fix: OrderedSet.discard (and in-place set operations)
 raised on missing elements

---
 nevergrad/common/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/common/tools.py b/nevergrad/common/tools.py
index f83286e..62d4755 100644
--- a/nevergrad/common/tools.py
+++ b/nevergrad/common/tools.py
@@ -147,7 +147,7 @@ class OrderedSet(tp.MutableSet[X]):
         return key
 
     def discard(self, key: X) -> None:
-        del self._data[key]
+        self._data.pop(key, None)  # no error if missing, as for any set
 
     def __contains__(self, key: tp.Any) -> bool:
         return key in self._data
-- 
2.43.0


From bdb8a5b8c16539a39a0c779240edc6e2566f1d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:05 +0000
Subject: [PATCH 16/77] fix: information about an unregistered object was given
 to the next one with the same name

---
 nevergrad/common/decorators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/common/decorators.py b/nevergrad/common/decorators.py
index 777e844..da5f76c 100644
--- a/nevergrad/common/decorators.py
+++ b/nevergrad/common/decorators.py
@@ -64,6 +64,7 @@ class Registry(tp.MutableMapping[str, X]):
 
     def __delitem__(self, key: str) -> None:
         del self.data[key]
+        self._information.pop(key, None)  # must not be given to another object with the same name
 
     def __iter__(self) -> tp.Iterator[str]:
         return iter(self.data)
-- 
2.43.0


From 5587df235b2c9589fe9b35acd3046a071f560123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 17/77] fix: set_env did not restore the environment if a
 variable was deleted meanwhile

---
 nevergrad/common/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/common/tools.py b/nevergrad/common/tools.py
index 62d4755..30769d7 100644
--- a/nevergrad/common/tools.py
+++ b/nevergrad/common/tools.py
@@ -215,7 +215,7 @@ def set_env(**environ: tp.Any) -> tp.Generator[None, None, None]:
         yield
     finally:
         for k, val in old_environ.items():
-            os.environ.pop(k)
+            os.environ.pop(k, None)  # may have been deleted meanwhile
             if val is not None:
                 os.environ[k] = val
 
-- 
2.43.0


From 65dc331c6311f69617765ab554f0f4bcdccbaf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 18/77] fix: results of jobs of the simulated executor could
 not be read twice

---
 nevergrad/benchmark/execution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nevergrad/benchmark/execution.py b/nevergrad/benchmark/execution.py
index 70a827a..0bd2595 100644
--- a/nevergrad/benchmark/execution.py
+++ b/nevergrad/benchmark/execution.py
@@ -57,8 +57,9 @@ class MockedTimedJob:
         self.process()
         if not self.done():
             raise RuntimeError("Asking result which is not ready")
-        self._is_read = True
-        self._executor.notify_read(self)
+        if not self._is_read:  # can be read several times, but is released only once
+            self._is_read = True
+            self._executor.notify_read(self)
         return self._output
 
     def __repr__(self) -> str:
-- 
2.43.0


From b1dd590e4c69d9b3a639fa536be45e53b8dae2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:41 +0000
Subject: [PATCH 19/77] fix: a failed save destroyed the previous results of a
 benchmark

---
 nevergrad/benchmark/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nevergrad/benchmark/core.py b/nevergrad/benchmark/core.py
index cc1181b..63a7657 100644
--- a/nevergrad/benchmark/core.py
+++ b/nevergrad/benchmark/core.py
@@ -45,7 +45,14 @@ def save_or_append_to_csv(df: pd.DataFrame, path: Path) -> None:
         except:  # for some versions of Panda.
             predf = pd.read_csv(str(path))  # , error_bad_lines=False)#, error_bad_lines=False)
         df = pd.concat([predf, df], sort=False)
-    df.to_csv(path, index=False)
+    # written aside first, so that a failure does not destroy the previous results
+    tmppath = path.with_name(path.name + ".tmp")
+    try:
+        df.to_csv(tmppath, index=False)
+        tmppath.replace(path)
+    finally:
+        if tmppath.exists():
+            tmppath.unlink()
 
 
 class Moduler:
-- 
2.43.0


From 53a324072a28f7968bf52d842c068bad29adca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:12 +0000
Subject: [PATCH 20/77] fix: CMA in dimension 1 does not change the
 configuration shared by all other instances

---
 nevergrad/optimization/optimizerlib.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index eb77446..2aa54ea 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -746,18 +746,18 @@ class _CMA(base.Optimizer):
         self._to_be_told: tp.List[p.Parameter] = []
         self._num_spawners = self._popsize // 2  # experimental, for visualization
         self._parents = [self.parametrization]
+        # pycma does not support dimension 1
+        self._fcmaes = self._config.fcmaes or self.dimension == 1
         # delay initialization to ease implementation of variants
         self._es: tp.Any = None
 
     @property
     def es(self) -> tp.Any:  # typing not possible since cmaes not imported :(
         scale_multiplier = 1.0
-        if self.dimension == 1:
-            self._config.fcmaes = True
         if p.helpers.Normalizer(self.parametrization).fully_bounded:
             scale_multiplier = 0.3 if self.dimension < 18 else 0.15
-        if self._es is None or (not self._config.fcmaes and self._es.stop()):
-            if not self._config.fcmaes:
+        if self._es is None or (not self._fcmaes and self._es.stop()):
+            if not self._fcmaes:
                 import cma  # import inline in order to avoid matplotlib initialization warning
 
                 inopts = dict(
@@ -811,7 +811,7 @@ class _CMA(base.Optimizer):
         if len(self._to_be_told) >= self.es.popsize:
             listx = [c._meta[self._CACHE_KEY] for c in self._to_be_told]
             listy = [c.loss for c in self._to_be_told]
-            args = (listy, listx) if self._config.fcmaes else (listx, listy)
+            args = (listy, listx) if self._fcmaes else (listx, listy)
             try:
                 self.es.tell(*args)
             except (RuntimeError, AssertionError):
@@ -835,7 +835,7 @@ class _CMA(base.Optimizer):
                 pass
         if self._es is None:
             return pessimistic
-        cma_best: tp.Optional[np.ndarray] = self.es.best_x if self._config.fcmaes else self.es.result.xbest
+        cma_best: tp.Optional[np.ndarray] = self.es.best_x if self._fcmaes else self.es.result.xbest
         if cma_best is None:
             return pessimistic
         return cma_best
-- 
2.43.0


From 9a2678c192b8939853a2b2d057bac132586a1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:06 +0000
Subject: [PATCH 21/77] fix: tabu list of values made of tuples, dictionaries
 and arrays

---
 nevergrad/parametrization/core.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index a010eac..e27ae02 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -24,6 +24,17 @@ def default_congruence(x: tp.Any) -> tp.Any:
     return x
 
 
+def _tabu_key(x: tp.Any) -> tp.Hashable:
+    """Hashable equivalent of a (possibly nested) value, for storing it in the tabu list"""
+    if isinstance(x, np.ndarray):
+        return x.shape, x.tobytes()
+    if isinstance(x, dict):
+        return tuple((k, _tabu_key(x[k])) for k in sorted(x, key=str))
+    if isinstance(x, (tuple, list)):
+        return tuple(_tabu_key(y) for y in x)
+    return x if isinstance(x, tp.Hashable) else str(x)
+
+
 # pylint: disable=too-many-public-methods
 class Parameter(Layered):
     """Class providing the core functionality of a parameter, aka
@@ -291,12 +302,7 @@ class Parameter(Layered):
             return False
         val = self.value
         if not no_tabu and ref is not None and ref.tabu_length > 0 and self.tabu_fails < 30:
-            tabu_val = self.tabu_congruence(val)
-            if isinstance(tabu_val, np.ndarray):
-                tabu_val = hash(tabu_val.tobytes())
-            if isinstance(tabu_val, dict):
-                keys = sorted(list(tabu_val.keys()))
-                tabu_val = str(keys) + str([tabu_val[k] for k in keys])
+            tabu_val = _tabu_key(self.tabu_congruence(val))
             try:
                 if tabu_val in ref.tabu_set:
                     self.tabu_fails += 1
-- 
2.43.0


From 4a16d4b23f4c64086a3b111d6653a3accd05fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:06 +0000
Subject: [PATCH 22/77] fix: the tabu failures are counted for each ask instead
 of accumulating along the lineages

---
 nevergrad/parametrization/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index e27ae02..a967c15 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -301,11 +301,11 @@ class Parameter(Layered):
         if not all(inside.values()):
             return False
         val = self.value
-        if not no_tabu and ref is not None and ref.tabu_length > 0 and self.tabu_fails < 30:
+        if not no_tabu and ref is not None and ref.tabu_length > 0 and ref.tabu_fails < 30:
             tabu_val = _tabu_key(self.tabu_congruence(val))
             try:
                 if tabu_val in ref.tabu_set:
-                    self.tabu_fails += 1
+                    ref.tabu_fails += 1
                     return False
                 else:
                     ref.tabu_set.add(tabu_val)
-- 
2.43.0


From 2263f529746f99b1ea9dd13ad80ee146da98ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:06 +0000
Subject: [PATCH 23/77] fix: a copy of a parameter does not share its tabu list

---
 nevergrad/parametrization/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index a967c15..b5cc8f7 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -421,6 +421,9 @@ class Parameter(Layered):
         child._subobjects = self._subobjects.new(child)
         child._meta = {}
         child.tabu_length = self.tabu_length
+        child.tabu_set = set()
+        child.tabu_list = []
+        child.tabu_index = 0
         child.real_world = self.real_world
         child.enforce_determinism = self.enforce_determinism
         child.hptuning = self.hptuning
-- 
2.43.0


From 0dc2e7d6c7e1ddf5c1de8cda92ade4860a7da19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:29 +0000
Subject: [PATCH 24/77] fix: voronoi crossover on values which are not arrays

---
 nevergrad/optimization/differentialevolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index e82405d..1330030 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -29,7 +29,7 @@ class Crossover:
         elif crossover not in ["twopoints", "onepoint", "rotated_twopoints", "voronoi"]:
             raise ValueError(f'Unknown crossover "{crossover}"')
         self.shape = (
-            np.array(parameter.value).shape if (crossover == "voronoi" and parameter is not None) else None
+            parameter.value.shape if (crossover == "voronoi" and isinstance(parameter, p.Array)) else None
         )
 
     def apply(self, donor: np.ndarray, individual: np.ndarray) -> None:
-- 
2.43.0


From c34b5372b02f3ab10449327b424d89db85a3d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:55 +0000
Subject: [PATCH 25/77] fix: meta-models pull from the random state of the
 optimizer

---
 nevergrad/optimization/differentialevolution.py |  4 +++-
 nevergrad/optimization/metamodel.py             | 16 +++++++++++-----
 nevergrad/optimization/optimizerlib.py          | 12 ++++++++++--
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 1330030..deb34b3 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -161,7 +161,9 @@ class _DE(base.Optimizer):
         sample_size = int((self.dimension * (self.dimension - 1)) / 2 + 2 * self.dimension + 1)
         if self._config.high_speed and len(self.archive) >= sample_size:
             try:
-                meta_data = metamodel.learn_on_k_best(self.archive, sample_size)
+                meta_data = metamodel.learn_on_k_best(
+                    self.archive, sample_size, random_state=self._rng
+                )
                 return self.parametrization.spawn_child().set_standardized_data(meta_data)
             except metamodel.MetaModelFailure:  # The optimum is at infinity. Shit happens.
                 pass  # MetaModel failures are something which happens, no worries.
diff --git a/nevergrad/optimization/metamodel.py b/nevergrad/optimization/metamodel.py
index 7cbdd2e..da6e542 100644
--- a/nevergrad/optimization/metamodel.py
+++ b/nevergrad/optimization/metamodel.py
@@ -22,20 +22,24 @@ def learn_on_k_best(
     degree: int = 2,
     shape: tp.Any = None,
     para: tp.Any = None,
+    random_state: tp.Optional[np.random.RandomState] = None,
 ) -> tp.ArrayLike:
     """Approximate optimum learnt from the k best.
 
     Parameters
     ----------
     archive: utils.Archive[utils.Value]
+    random_state: np.random.RandomState
+        random state for everything stochastic in the learning and optimization of the model, for reproducibility
     """
+    rng: tp.Any = np.random if random_state is None else random_state
     # print("learn_on_k_best", k, algorithm, flush=True)
     items = list(archive.items_as_arrays())
     dimension = len(items[0][0])
     if algorithm == "image":
         k = len(archive) // 6
     if algorithm == "voxelize":
-        k = int(np.random.randint(len(archive) // 6))
+        k = int(rng.randint(len(archive) // 6))
         if k < 2:
             k = 2
     # Select the k best.
@@ -73,8 +77,8 @@ def learn_on_k_best(
                 outputs += [[values]]
         from sklearn.neural_network import MLPRegressor
 
-        nw = np.random.choice([16, 64, 256])
-        model = MLPRegressor(hidden_layer_sizes=(nw, nw), solver="adam", max_fun=15000, max_iter=200)
+        nw = rng.choice([16, 64, 256])
+        model = MLPRegressor(hidden_layer_sizes=(nw, nw), solver="adam", max_fun=15000, max_iter=200, random_state=random_state)
         # print("learning on ", len(inputs), " and ", len(outputs))
         # print("dim input = ", len(inputs[0]), inputs[np.random.randint(len(inputs))])
         inputs = np.array(inputs)  # type: ignore
@@ -117,7 +121,7 @@ def learn_on_k_best(
     if algorithm == "neural":
         from sklearn.neural_network import MLPRegressor
 
-        model = MLPRegressor(hidden_layer_sizes=(16, 16), solver="lbfgs")
+        model = MLPRegressor(hidden_layer_sizes=(16, 16), solver="lbfgs", random_state=random_state)
     elif algorithm in ["image"]:
         from sklearn.svm import SVR
         import scipy.ndimage as ndimage
@@ -146,7 +150,7 @@ def learn_on_k_best(
     elif algorithm == "rf":
         from sklearn.ensemble import RandomForestRegressor
 
-        model = RandomForestRegressor()
+        model = RandomForestRegressor(random_state=random_state)
     else:
         assert algorithm == "quad", f"Metamodelling algorithm {algorithm} not recognized."
         # We need SKLearn.
@@ -183,6 +187,8 @@ def learn_on_k_best(
                 parametrization=para if (para is not None and algorithm == "image") else dimension,
                 budget=45 * dimension + 30,
             )
+            if random_state is not None:
+                optimizer.parametrization.random_state = random_state
             # limit to 20s at most
             optimizer.register_callback("ask", callbacks.EarlyStopping.timer(20))
             if "image" in algorithm:
diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 2aa54ea..c87bef0 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -829,7 +829,9 @@ class _CMA(base.Optimizer):
         sample_size = int(d * d / 2 + d / 2 + 3)
         if self._config.high_speed and n >= sample_size:
             try:
-                data = learn_on_k_best(self.archive, sample_size, self.algorithm)
+                data = learn_on_k_best(
+                    self.archive, sample_size, self.algorithm, random_state=self._rng
+                )
                 return data  # type: ignore
             except MetaModelFailure:  # Failures in the metamodeling can happen.
                 pass
@@ -2169,7 +2171,13 @@ class _MetaModel(base.Optimizer):
         if len(self.archive) >= sample_size and not self._num_ask % freq:
             try:
                 data = learn_on_k_best(
-                    self.archive, sample_size, self.algorithm, self.degree, shape, self.parametrization
+                    self.archive,
+                    sample_size,
+                    self.algorithm,
+                    self.degree,
+                    shape,
+                    self.parametrization,
+                    random_state=self._rng,
                 )
 
                 candidate = self.parametrization.spawn_child().set_standardized_data(data)
-- 
2.43.0


From eac13d1b9e8b978a1d8b4e6b02dd8d52d3d177f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:09 +0000
Subject: [PATCH 26/77] fix: random draws of the coordinatewise adaptive
 one-plus-one follow a seed given after its creation

---
 nevergrad/optimization/optimizerlib.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index c87bef0..3d5a75a 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -230,7 +230,8 @@ class _OnePlusOne(base.Optimizer):
             self._memory_size = 1200  # Dirty random value
             self._best_recent_loss = float("inf")
         elif mutation == "coordinatewise_adaptive":
-            self._velocity = self._rng.uniform(size=self.dimension) * arity / 4.0
+            # drawn at the first use, since the random state can be seeded after the instantiation
+            self._initialized_velocity: tp.Optional[np.ndarray] = None
             self._modified_variables = np.array([True] * self.dimension)
         self.noise_handling = noise_handling
         self.mutation = mutation
@@ -255,6 +256,13 @@ class _OnePlusOne(base.Optimizer):
                 j += 2
         assert self.parametrization.tabu_length == tabu_length
 
+    @property
+    def _velocity(self) -> np.ndarray:
+        if self._initialized_velocity is None:
+            arity = self.arity_for_discrete_mutation
+            self._initialized_velocity = self._rng.uniform(size=self.dimension) * arity / 4.0
+        return self._initialized_velocity
+
     def _internal_ask_candidate(self) -> p.Parameter:
         # pylint: disable=too-many-return-statements, too-many-branches
         noise_handling = self.noise_handling
-- 
2.43.0


From fbfc0268f87a8c20e7e34ca1c91366e6305e6a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:48 +0000
Subject: [PATCH 27/77] fix: a reloaded recast optimizer whose routine is over
 accepts tells

---
 nevergrad/optimization/recaster.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index fab1bf9..dd6c4e6 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -265,6 +265,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
         self.replay_archive_tell: tp.List[p.Parameter] = []
         self._replay_losses: tp.List[tp.Loss] = []  # what was posted for each candidate of replay_archive_tell
         self._waiting_loss = False  # whether the background thread is waiting for the loss of a point
+        self._is_over = False  # whether the background thread is known to have no more point to ask
 
     def enable_pickling(self):
         """Make the optimizer store its history of tells, so
@@ -281,11 +282,13 @@ class SequentialRecastOptimizer(RecastOptimizer):
         if self._messaging_thread is None:
             self._messaging_thread = MessagingThread(self.get_optimization_function())
         if not self._messaging_thread.is_alive():
+            self._is_over = self._messaging_thread.error is None
             return None
         point = self._messaging_thread.get_ask()
         if isinstance(point, Exception):
             raise point
         self._waiting_loss = point is not None
+        self._is_over = point is None
         return point  # type: ignore
 
     def _internal_ask_candidate(self) -> p.Parameter:
@@ -333,7 +336,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
         if not self._enable_pickling:
             raise ValueError("Cannot unpickle the unpicklable")
 
-        waiting_loss = self._waiting_loss
+        waiting_loss, is_over = self._waiting_loss, self._is_over
         for i, (candidate, posted) in enumerate(zip(self.replay_archive_tell, self._replay_losses)):
             point = self._next_point()
             norm = np.inf
@@ -348,7 +351,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
             assert self._messaging_thread is not None
             self._messaging_thread.messages_tell.put(posted)
 
-        if waiting_loss:  # a point was asked, and was not told yet
+        if waiting_loss or is_over:  # a point was asked, and was not told yet, or there is none left
             self._next_point()
         self._waiting_loss = waiting_loss
 
-- 
2.43.0


From c1efa923e161408dae274491b7344a80cf2e4f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:57 +0000
Subject: [PATCH 28/77] Revert "fix: a failed save destroyed the previous
 results of a benchmark"

This reverts commit b1dd590e4c69d9b3a639fa536be45e53b8dae2f0.
---
 nevergrad/benchmark/core.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/nevergrad/benchmark/core.py b/nevergrad/benchmark/core.py
index 63a7657..cc1181b 100644
--- a/nevergrad/benchmark/core.py
+++ b/nevergrad/benchmark/core.py
@@ -45,14 +45,7 @@ def save_or_append_to_csv(df: pd.DataFrame, path: Path) -> None:
         except:  # for some versions of Panda.
             predf = pd.read_csv(str(path))  # , error_bad_lines=False)#, error_bad_lines=False)
         df = pd.concat([predf, df], sort=False)
-    # written aside first, so that a failure does not destroy the previous results
-    tmppath = path.with_name(path.name + ".tmp")
-    try:
-        df.to_csv(tmppath, index=False)
-        tmppath.replace(path)
-    finally:
-        if tmppath.exists():
-            tmppath.unlink()
+    df.to_csv(path, index=False)
 
 
 class Moduler:
-- 
2.43.0


From 54a871407b12148da72b8068d14890ef948a51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:57 +0000
Subject: [PATCH 29/77] Revert "fix: results of jobs of the simulated executor
 could not be read twice"

This reverts commit 65dc331c6311f69617765ab554f0f4bcdccbaf3a.
---
 nevergrad/benchmark/execution.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nevergrad/benchmark/execution.py b/nevergrad/benchmark/execution.py
index 0bd2595..70a827a 100644
--- a/nevergrad/benchmark/execution.py
+++ b/nevergrad/benchmark/execution.py
@@ -57,9 +57,8 @@ class MockedTimedJob:
         self.process()
         if not self.done():
             raise RuntimeError("Asking result which is not ready")
-        if not self._is_read:  # can be read several times, but is released only once
-            self._is_read = True
-            self._executor.notify_read(self)
+        self._is_read = True
+        self._executor.notify_read(self)
         return self._output
 
     def __repr__(self) -> str:
-- 
2.43.0


From 596482d08888ece2ef95e6d170fa88fd39cabd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:54 +0000
Subject: [PATCH 30/77] fix: setting the only option of a choice gives finite
 coordinates

---
 nevergrad/parametrization/discretization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/parametrization/discretization.py b/nevergrad/parametrization/discretization.py
index e071c56..697ee29 100644
--- a/nevergrad/parametrization/discretization.py
+++ b/nevergrad/parametrization/discretization.py
@@ -64,6 +64,8 @@ def noisy_inverse_threshold_discretization(
 
 def weight_for_reset(arity: int) -> float:
     """p is an arbitrary probability that the provided arg will be sampled with the returned point"""
+    if arity == 1:  # the only option is always sampled
+        return 0.0
     p = (1 / arity) * 1.5
     w = float(np.log((p * (arity - 1)) / (1 - p)))
     return w
-- 
2.43.0


From 6b2f11b24e1b4559386425f547df8ba5b03c4b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:54 +0000
Subject: [PATCH 31/77] fix: bounds of a parameter after a decreasing operation
 are exchanged

---
 nevergrad/parametrization/data.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/data.py b/nevergrad/parametrization/data.py
index 901d9ff..6f4b908 100644
--- a/nevergrad/parametrization/data.py
+++ b/nevergrad/parametrization/data.py
@@ -30,6 +30,26 @@ def _param_string(parameters: Dict) -> str:
     return substr
 
 
+def _forward_bounds(
+    operation: tp.Any, bounds: tp.Tuple[tp.Optional[np.ndarray], tp.Optional[np.ndarray]]
+) -> tp.Tuple[tp.Optional[np.ndarray], tp.Optional[np.ndarray]]:
+    """Bounds after an operation (which exchanges the lower and upper bounds if it is decreasing)"""
+    if all(b is None for b in bounds):
+        return bounds
+    with np.errstate(all="ignore"):
+        lower, upper = (
+            operation.forward(np.array([inf]) if b is None else b) for b, inf in zip(bounds, (-np.inf, np.inf))
+        )
+    decreasing = lower > upper
+    if all(b is not None for b in bounds):
+        return np.minimum(lower, upper), np.maximum(lower, upper)
+    out = (None if bounds[0] is None else lower, None if bounds[1] is None else upper)
+    if np.all(decreasing):
+        return out[::-1]
+    # if it is decreasing for some coordinates only, then they are not bounded on the same side
+    return (None, None) if np.any(decreasing) else out
+
+
 # pylint: disable=too-many-arguments, too-many-instance-attributes,abstract-method
 class Data(core.Parameter):
     """Array/scalar parameter
@@ -131,7 +151,7 @@ class Data(core.Parameter):
         forwardable = _datalayers.ForwardableOperation.filter_from(self)
         forwardable = [x for x in forwardable if x._layer_index > bound_layers[-1]._layer_index]
         for f in forwardable:
-            bounds = tuple(None if b is None else f.forward(b) for b in bounds)  # type: ignore
+            bounds = _forward_bounds(f, bounds)
         return bounds
 
     @property
-- 
2.43.0


From f816fc59f566500fc4ed2ffa481059f46da4ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:54 +0000
Subject: [PATCH 32/77] fix: frozen parameters refuse new bounds, castings,
 mutations and items

---
 nevergrad/parametrization/container.py | 2 ++
 nevergrad/parametrization/data.py      | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/nevergrad/parametrization/container.py b/nevergrad/parametrization/container.py
index 4037b32..3a210f2 100644
--- a/nevergrad/parametrization/container.py
+++ b/nevergrad/parametrization/container.py
@@ -58,6 +58,8 @@ class Container(core.Parameter):
         return self._content[name]
 
     def __setitem__(self, name: tp.Any, value: tp.Any) -> None:
+        if self._frozen:
+            self._check_frozen()
         self._sizes = None
         self._content[name] = core.as_parameter(value)
         if self._random_state is not None:
diff --git a/nevergrad/parametrization/data.py b/nevergrad/parametrization/data.py
index 6f4b908..b74ddd9 100644
--- a/nevergrad/parametrization/data.py
+++ b/nevergrad/parametrization/data.py
@@ -230,6 +230,8 @@ class Data(core.Parameter):
 
         # if method == "constraint":
         #     method = "clipping"
+        if self._frozen:
+            self._check_frozen()
         value = self.value
         if method == "constraint":
             layer = _datalayers.BoundLayer(lower=lower, upper=upper, uniform_sampling=full_range_sampling)
@@ -271,6 +273,8 @@ class Data(core.Parameter):
         -------
         self
         """
+        if self._frozen:
+            self._check_frozen()
         if sigma is not None:
             # just replace if an actual Parameter is provided as sigma, else update value (parametrized or not)
             if isinstance(sigma, core.Parameter) or isinstance(
@@ -310,6 +314,8 @@ class Data(core.Parameter):
         difficult. It is especially ill-advised to use this with a range smaller than 10, or
         a sigma lower than 1. In those cases, you should rather use a TransitionChoice instead.
         """
+        if self._frozen:
+            self._check_frozen()
         return self.add_layer(_layering.Int())
 
     @property
-- 
2.43.0


From 0af6e49d88e736470bb1c2e1232084537c374acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:54 +0000
Subject: [PATCH 33/77] fix: function information is not shared between copies
 of a parameter

---
 nevergrad/parametrization/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index b5cc8f7..3707e63 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -3,6 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+import copy
 import uuid
 import warnings
 import numpy as np
@@ -420,6 +421,7 @@ class Parameter(Layered):
         child._frozen = False
         child._subobjects = self._subobjects.new(child)
         child._meta = {}
+        child.function = copy.copy(self.function)
         child.tabu_length = self.tabu_length
         child.tabu_set = set()
         child.tabu_list = []
-- 
2.43.0


From f6134a3a46b52b209e5a37aa343a6c57b556bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:54 +0000
Subject: [PATCH 34/77] fix: array bounds are broadcast along the last
 dimensions

---
 nevergrad/parametrization/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/transforms.py b/nevergrad/parametrization/transforms.py
index 388d8c0..7132011 100644
--- a/nevergrad/parametrization/transforms.py
+++ b/nevergrad/parametrization/transforms.py
@@ -143,7 +143,8 @@ class BoundTransform(Transform):  # pylint: disable=abstract-method
         self.shape: tp.Tuple[int, ...] = self.a_min.shape if self.a_min is not None else self.a_max.shape
 
     def _check_shape(self, x: np.ndarray) -> None:
-        for dims in itertools.zip_longest(x.shape, self.shape, fillvalue=1):
+        # broadcasting aligns the last dimensions
+        for dims in itertools.zip_longest(x.shape[::-1], self.shape[::-1], fillvalue=1):
             if dims[0] != dims[1] and not any(x == 1 for x in dims):  # same or broadcastable
                 raise ValueError(f"Shapes do not match: {self.shape} and {x.shape}")
 
-- 
2.43.0


From 2523c631270e627f87d80dcf8ac9ddc633b34654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:54 +0000
Subject: [PATCH 35/77] fix: values which exceed the bounds by rounding errors
 only can be set

---
 nevergrad/parametrization/transforms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nevergrad/parametrization/transforms.py b/nevergrad/parametrization/transforms.py
index 7132011..0b13b78 100644
--- a/nevergrad/parametrization/transforms.py
+++ b/nevergrad/parametrization/transforms.py
@@ -218,9 +218,12 @@ class Clipping(BoundTransform):
     def backward(self, y: np.ndarray) -> np.ndarray:
         self._check_shape(y)
         if not self.checker(y):
-            raise ValueError(
-                f"Only data between {self.a_min} and {self.a_max} can be transformed back.\n" f"Got: {y}"
-            )
+            out = np.clip(y, self.a_min, self.a_max)  # type: ignore
+            if not np.allclose(out, y, rtol=1e-12, atol=0):  # more than rounding errors
+                raise ValueError(
+                    f"Only data between {self.a_min} and {self.a_max} can be transformed back.\n" f"Got: {y}"
+                )
+            return out  # type: ignore
         return y
 
 
-- 
2.43.0


From 6666d7bc5be29561cc2618e3efcb9114ec9cfe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:10 +0000
Subject: [PATCH 36/77] fix: reading a randomly rounded value does not modify
 its coordinates

---
 nevergrad/parametrization/_layering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 9922201..0ebf286 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -272,7 +272,7 @@ class Int(Layered, Filterable):
         bounds = self._layers[0].bounds  # type: ignore
         out = super()._layered_get_value()
         if not self.deterministic:
-            out += self.random_state.rand(*out.shape) - 0.5
+            out = out + self.random_state.rand(*out.shape) - 0.5
         out = np.round(out).astype(np.int64)
         # make sure rounding does not reach beyond the bounds
         eps = 1e-12
-- 
2.43.0


From 7c3c7ee33cf829c664fc2bb88acffb831b50de4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:10 +0000
Subject: [PATCH 37/77] fix: integer casting with bounds beyond the integers
 which can be represented

---
 nevergrad/parametrization/_layering.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 0ebf286..1d295fa 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -273,15 +273,16 @@ class Int(Layered, Filterable):
         out = super()._layered_get_value()
         if not self.deterministic:
             out = out + self.random_state.rand(*out.shape) - 0.5
-        out = np.round(out).astype(np.int64)
+        out = np.round(out)
         # make sure rounding does not reach beyond the bounds
+        # (before casting, since the bounds may be too large for being cast)
         eps = 1e-12
         if bounds[0] is not None:
-            out = np.maximum(_to_int(bounds[0] + 0.5 - eps), out)
+            out = np.maximum(np.round(bounds[0] + 0.5 - eps), out)
         if bounds[1] is not None:
-            out = np.minimum(_to_int(bounds[1] - 0.5 + eps), out)
+            out = np.minimum(np.round(bounds[1] - 0.5 + eps), out)
         # return out
-        self._cache = out
+        self._cache = out.astype(np.int64)
         return self._cache
 
     def _layered_del_value(self) -> None:
@@ -296,11 +297,3 @@ class Int(Layered, Filterable):
         out = layered.copy()
         out.add_layer(self)
         return out  # type: ignore
-
-
-def _to_int(value: tp.Union[float, np.ndarray]) -> tp.Union[int, np.ndarray]:
-    """Returns a int from a float, or a int typed array from a float array"""
-    if not isinstance(value, np.ndarray):
-        return int(np.round(value))
-    else:
-        return np.round(value).astype(np.int64)
-- 
2.43.0


From c9c623bb17b3284ecbe389f45211817d10661420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:34 +0000
Subject: [PATCH 38/77] fix: constant arrays are not equal to other shapes

---
 nevergrad/parametrization/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index 3707e63..217e4a6 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -510,9 +510,8 @@ class Constant(Parameter):
 
     def _layered_set_value(self, value: tp.Any) -> None:
         different = False
-        if isinstance(value, np.ndarray):
-            if not np.equal(value, self._value).all():
-                different = True
+        if isinstance(value, np.ndarray) or isinstance(self._value, np.ndarray):
+            different = not np.array_equal(value, self._value)
         elif not (value == self._value or value is self._value):
             different = True
         if different:
-- 
2.43.0


From 0983f635496a846b31365013fe94c327e18b66ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:34 +0000
Subject: [PATCH 39/77] fix: mutation of unordered transition choices with
 parametrized options

---
 nevergrad/parametrization/choice.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/choice.py b/nevergrad/parametrization/choice.py
index d735e48..66cb46b 100644
--- a/nevergrad/parametrization/choice.py
+++ b/nevergrad/parametrization/choice.py
@@ -227,7 +227,10 @@ class TransitionChoice(BaseChoice):
     def mutate(self) -> None:
         if self._ref is not None:
             new = self.random_state.normal(size=self.indices.value.size)
-            self._internal_set_standardized_data(new, self._ref)
+            self.indices.set_standardized_data(new, reference=self._ref.indices)
+            self.indices.value = self.indices.value  # force to bin
+            for ind in set(self.indices.value):
+                self.choices[ind].mutate()
             return
         # force random_state sync
         self.random_state  # pylint: disable=pointless-statement
-- 
2.43.0


From 1af498d1d1bce8c23114c734925d4bb2ce276009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:34 +0000
Subject: [PATCH 40/77] fix: a choice with repetitions refuses several values
 for the same option

---
 nevergrad/parametrization/choice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nevergrad/parametrization/choice.py b/nevergrad/parametrization/choice.py
index 66cb46b..b83ebd1 100644
--- a/nevergrad/parametrization/choice.py
+++ b/nevergrad/parametrization/choice.py
@@ -79,7 +79,10 @@ class BaseChoice(container.Container):
         for i, val in enumerate(values):
             for k, choice in enumerate(self.choices):
                 try:
+                    previous = choice.get_value_hash() if k in indices[:i] else None
                     choice.value = val
+                    if k in indices[:i] and choice.get_value_hash() != previous:
+                        raise ValueError("The same option cannot hold several values")
                     indices[i] = k
                     break
                 except Exception:  # pylint: disable=broad-except
-- 
2.43.0


From 91abbc110929716e5979af98a455729c1164156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:20 +0000
Subject: [PATCH 41/77] fix: coordinates of containers completed after use

The sizes of the elements were cached, and the cache of the enclosing containers
was not updated when an element was added.
---
 nevergrad/parametrization/container.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/nevergrad/parametrization/container.py b/nevergrad/parametrization/container.py
index 3a210f2..aa6406c 100644
--- a/nevergrad/parametrization/container.py
+++ b/nevergrad/parametrization/container.py
@@ -3,7 +3,6 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-from collections import OrderedDict
 import numpy as np
 import nevergrad.common.typing as tp
 from . import utils
@@ -34,7 +33,6 @@ class Container(core.Parameter):
         self._content: tp.Dict[tp.Any, core.Parameter] = {
             k: core.as_parameter(p) for k, p in parameters.items()
         }
-        self._sizes: tp.Optional[tp.Dict[str, int]] = None
         self._sanity_check(list(self._content.values()))
         self._ignore_in_repr: tp.Dict[str, str] = (
             {}
@@ -60,7 +58,6 @@ class Container(core.Parameter):
     def __setitem__(self, name: tp.Any, value: tp.Any) -> None:
         if self._frozen:
             self._check_frozen()
-        self._sizes = None
         self._content[name] = core.as_parameter(value)
         if self._random_state is not None:
             self._content[name].random_state = self.random_state
@@ -80,25 +77,21 @@ class Container(core.Parameter):
 
     def _internal_get_standardized_data(self: D, reference: D) -> np.ndarray:
         data = {k: self[k].get_standardized_data(reference=p) for k, p in reference._content.items()}
-        if self._sizes is None:
-            self._sizes = OrderedDict(sorted((x, y.size) for x, y in data.items()))
-        assert self._sizes is not None
-        data_list = [data[k] for k in self._sizes]
+        data_list = [data[k] for k in sorted(data)]
         if not data_list:
             return np.array([])
         return data_list[0] if len(data_list) == 1 else np.concatenate(data_list)  # type: ignore
 
     def _internal_set_standardized_data(self: D, data: np.ndarray, reference: D) -> None:
-        if self._sizes is None:
-            self.get_standardized_data(reference=self)
-        assert self._sizes is not None
-        if data.size != sum(v for v in self._sizes.values()):
+        # the content may change, at any depth: sizes cannot be cached
+        sizes = {k: self._content[k].dimension for k in sorted(self._content)}
+        if data.size != sum(sizes.values()):
             raise ValueError(
                 f"Unexpected shape {data.shape} for {self} with dimension {self.dimension}:\n{data}"
             )
         data = data.ravel()
         start, end = 0, 0
-        for name, size in self._sizes.items():
+        for name, size in sizes.items():
             end = start + size
             self._content[name].set_standardized_data(data[start:end], reference=reference[name])
             start = end
-- 
2.43.0


From c229eb5196384546cc6a0e4efd68d5621361c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:01 +0000
Subject: [PATCH 42/77] fix: VoronoiDE on one variable

The fallback on two points crossover needs at least two variables.
---
 nevergrad/optimization/differentialevolution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index deb34b3..a057581 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -83,7 +83,10 @@ class Crossover:
         shape = self.shape
         if shape is None or len(shape) < 2:
             warnings.warn("Voronoi DE needs a shape.")
-            self.twopoints(donor, individual)
+            if donor.size < 2:  # no possible cut
+                self.variablewise(donor, individual)
+            else:
+                self.twopoints(donor, individual)
             return
         local_donor = donor.reshape(shape)
         local_individual = individual.reshape(shape)
-- 
2.43.0


From ecea573b8a524f8694c286e156296f466dd46782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:01 +0000
Subject: [PATCH 43/77] fix: stale value after translation or jumping mutations

The value cached by the integer casting was not cleared.
---
 nevergrad/parametrization/mutation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/parametrization/mutation.py b/nevergrad/parametrization/mutation.py
index a62f3c1..d92bc30 100644
--- a/nevergrad/parametrization/mutation.py
+++ b/nevergrad/parametrization/mutation.py
@@ -232,6 +232,7 @@ class Translation(DataMutation):
     def _layered_mutate(self) -> None:
         root = self.root()
         root._value = self._apply_array([root._value])
+        del root.value  # clear cache
 
     def _apply_array(self, arrays: tp.Sequence[np.ndarray]) -> np.ndarray:
         assert len(arrays) == 1
@@ -269,6 +270,7 @@ class Jumping(DataMutation):
     def _layered_mutate(self) -> None:
         root = self.root()
         root._value = self._apply_array([root._value])
+        del root.value  # clear cache
 
     def _apply_array(self, arrays: tp.Sequence[np.ndarray]) -> np.ndarray:
         assert len(arrays) == 1
-- 
2.43.0


From b2d5d2a1df7a5e25d37e096fa4d24cbfe4eb89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:01 +0000
Subject: [PATCH 44/77] fix: sizes and negative axes of array mutations

Negative axes were ignored by crossovers and local mutations, jumping failed on
small arrays or sizes, local mutation failed on full axes and crossover on non
integer maximum sizes.
---
 nevergrad/parametrization/mutation.py | 33 +++++++++++++++++----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/nevergrad/parametrization/mutation.py b/nevergrad/parametrization/mutation.py
index d92bc30..7c28c57 100644
--- a/nevergrad/parametrization/mutation.py
+++ b/nevergrad/parametrization/mutation.py
@@ -171,7 +171,9 @@ class Crossover(DataMutation):
         axis = tuple(range(len(shape))) if self.axis is None else self.axis
         max_size = root.parameters["max_size"].value
         max_size = int(((arrays[0].size + 1) / 2) ** (1 / len(axis))) if max_size is None else max_size
-        max_size = min(max_size, *(shape[a] - 1 for a in axis))
+        max_size = min(int(max_size), *(shape[a] - 1 for a in axis))
+        if max_size < 1:
+            raise ValueError("Cannot crossover on axis with size 1")
         size = 1 if max_size == 1 else self.random_state.randint(1, max_size)
         # slices
         slices = _make_slices(shape, axis, size, self.random_state)
@@ -205,14 +207,18 @@ class RavelCrossover(Crossover):  # TODO: can be made for all parameters instead
 
 
 def _make_slices(
-    shape: tp.Tuple[int, ...], axes: tp.Tuple[int, ...], size: int, rng: np.random.RandomState
+    shape: tp.Tuple[int, ...],
+    axes: tp.Tuple[int, ...],
+    size: int,
+    rng: np.random.RandomState,
 ) -> tp.List[slice]:
     slices = []
+    axes = tuple(a % len(shape) for a in axes)  # negative axes count from the end
     for a, s in enumerate(shape):
         if a in axes:
-            if s <= 1:
-                raise ValueError("Cannot crossover on axis with size 1")
-            start = rng.randint(s - size)
+            if size > s:
+                raise ValueError(f"Cannot slice {size} elements on axis with size {s}")
+            start = rng.randint(s - size) if size < s else 0
             slices.append(slice(start, start + size))
         else:
             slices.append(slice(None))
@@ -275,16 +281,19 @@ class Jumping(DataMutation):
     def _apply_array(self, arrays: tp.Sequence[np.ndarray]) -> np.ndarray:
         assert len(arrays) == 1
         data = arrays[0]
-        L = data.shape[self.axis]
-        size = self.random_state.randint(1, self.size)
-        asdata = AxisSlicedArray(data, self.axis)
+        axis = self.axis % data.ndim  # negative axes count from the end
+        L = data.shape[axis]
+        if L <= 1:
+            return data  # nothing to move
+        size = self.random_state.randint(1, max(2, min(self.size, L)))
+        asdata = AxisSlicedArray(data, axis)
         init = self.random_state.randint(L)
         chunck = asdata[init : init + size]
-        remain: np.ndarray = np.concatenate([asdata[:init], asdata[init + size :]], axis=self.axis)
+        remain: np.ndarray = np.concatenate([asdata[:init], asdata[init + size :]], axis=axis)
         # pylint: disable=unsubscriptable-object
-        newpos = self.random_state.randint(remain.shape[self.axis])
-        asremain = AxisSlicedArray(remain, self.axis)
-        return np.concatenate([asremain[:newpos], chunck, asremain[newpos:]], axis=self.axis)  # type: ignore
+        newpos = self.random_state.randint(remain.shape[axis])
+        asremain = AxisSlicedArray(remain, axis)
+        return np.concatenate([asremain[:newpos], chunck, asremain[newpos:]], axis=axis)  # type: ignore
 
 
 class LocalGaussian(DataMutation):
-- 
2.43.0


From e6b96d7988162ffae5088de2ae177f892c477457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:04 +0000
Subject: [PATCH 45/77] fix: losses in lists of one element, and very low
 losses

A loss given as a list or array of one element was not checked (integers failed,
NaN and huge values were not clipped). Minus infinity and very low losses led
several wrapped optimizers to propose undefined points.
---
 nevergrad/optimization/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index ac72123..bacfea2 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -341,6 +341,8 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
         will use this suggestion.
         """
         # Check loss type
+        if isinstance(loss, (tuple, list, np.ndarray)) and np.size(loss) == 1:
+            loss = np.ravel(loss)[0]  # single objective, checked as such
         if isinstance(loss, (Real, float)) or (isinstance(loss, np.ndarray) and not loss.shape):
             # using "float" along "Real" because mypy does not understand "Real" for now Issue #3186
             loss = float(loss)
@@ -352,6 +354,12 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                     errors.LossTooLargeWarning,
                 )
                 loss = 5.0e20  # sys.float_info.max leads to numerical problems so let us do this.
+            elif loss < -5.0e20:  # same numerical problems
+                self._warn(
+                    f"Clipping very low value {loss} in tell (rescale the cost function?).",
+                    errors.LossTooLargeWarning,
+                )
+                loss = -5.0e20
         elif isinstance(loss, (tuple, list, np.ndarray)):
             loss = np.asarray(loss, dtype=float).ravel() if len(loss) != 1 else loss[0]
         elif not isinstance(loss, np.ndarray):
-- 
2.43.0


From 9d963af62beebe02dc45058f473f01f6b59ba52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:04 +0000
Subject: [PATCH 46/77] fix: end of CmaFmin2 on unbounded domains

The best point was transformed as if it were in the unit cube.
---
 nevergrad/optimization/recastlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index 99308ee..e1d3949 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -479,7 +479,7 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                     if res[1] < best_res:
                         best_res = res[1]
                         best_x = res[0]
-                        if weakself._normalizer is not None:
+                        if weakself._normalizer is not None and weakself._normalizer.fully_bounded:
                             best_x = weakself._normalizer.backward(np.asarray(best_x, dtype=np.float32))
                     num_calls += res[2]
             else:
-- 
2.43.0


From 7337a11aa225c4015fceecc2ac6fc2bccc834765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:12 +0000
Subject: [PATCH 47/77] fix: candidates of tabu optimizers were considered as
 violating constraints when told

The tabu list contains the candidate itself since ask, so that tell never
recorded it in the archive nor in the current bests.
---
 nevergrad/optimization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index bacfea2..049bc02 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -409,7 +409,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             callback(self, candidate, loss)
         no_update = False
 
-        if not candidate.satisfies_constraints(self.parametrization) and self.budget is not None:
+        if not candidate.satisfies_constraints(self.parametrization, no_tabu=True) and self.budget is not None:
             penalty = self._constraints_manager.penalty(candidate, self.num_ask, self.budget)
             no_update = True
             loss = loss + penalty
-- 
2.43.0


From 1481ba0455345a6f00de895ebb11e5505bfca529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:22 +0000
Subject: [PATCH 48/77] fix: FCMA recommended a point with a nan loss when the
 last population was not completed

---
 nevergrad/optimization/optimizerlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 3d5a75a..32f26fa 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -846,6 +846,8 @@ class _CMA(base.Optimizer):
         if self._es is None:
             return pessimistic
         cma_best: tp.Optional[np.ndarray] = self.es.best_x if self._fcmaes else self.es.result.xbest
+        if self._fcmaes and self.es.best_value >= 5.0e20:  # only nan or infinite losses (see "tell")
+            return pessimistic
         if cma_best is None:
             return pessimistic
         return cma_best
-- 
2.43.0


From b7d6a6151ac4e53cd54fa5100ca25cf3d1e847c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:48 +0000
Subject: [PATCH 49/77] fix: OnePlusOne ignored the tabu length specified for
 the parametrization

---
 nevergrad/optimization/optimizerlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 32f26fa..b0484ac 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -127,7 +127,8 @@ class _OnePlusOne(base.Optimizer):
         forced_discretization: bool = False,
     ) -> None:
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
-        self.parametrization.tabu_length = tabu_length
+        if tabu_length:  # otherwise the one of the parametrization is used
+            self.parametrization.tabu_length = tabu_length
         if forced_discretization:
             self.parametrization.set_integer_casting()  # type: ignore
         self.antismooth = antismooth
@@ -254,7 +255,6 @@ class _OnePlusOne(base.Optimizer):
                 self._doerr_counters += [0.0]
                 i += j
                 j += 2
-        assert self.parametrization.tabu_length == tabu_length
 
     @property
     def _velocity(self) -> np.ndarray:
-- 
2.43.0


From 7dcfe0ff4e5e3689f0ad3a4c1cacea676d38c17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:56 +0000
Subject: [PATCH 50/77] fix: losses of candidates which violate constraints
 were compared without their penalties

---
 nevergrad/optimization/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 049bc02..35ef1a8 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -409,7 +409,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             callback(self, candidate, loss)
         no_update = False
 
-        if not candidate.satisfies_constraints(self.parametrization, no_tabu=True) and self.budget is not None:
+        if not candidate.satisfies_constraints(self.parametrization, no_tabu=True):
             penalty = self._constraints_manager.penalty(candidate, self.num_ask, self.budget)
             no_update = True
             loss = loss + penalty
@@ -424,11 +424,12 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             if iviolation > 0.0:
                 no_update = True
             violation = float(
-                (a * ratio + np.sum(np.maximum(loss, 0.0)))
+                (a * ratio + np.sum(np.abs(loss)))
                 * ((f + self._num_tell) ** e)
                 * (b * np.sum(np.maximum(constraint_violation, 0.0) ** c) ** d)
             )
             loss += violation
+        candidate.loss = loss  # optimizers compare the losses of the candidates, including penalties
 
         if (
             isinstance(loss, float)
-- 
2.43.0


From 0d965387def80497c9d9a76ff0cefc55cd56fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:04 +0000
Subject: [PATCH 51/77] fix: the solver for cheap constraints lost the feasible
 value it found, and the identity of the candidate

---
 nevergrad/optimization/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 35ef1a8..b1dd2cc 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -894,5 +894,14 @@ def _constraint_solver(parameter: p.Parameter, budget: int) -> p.Parameter:
         opt.tell(cand, loss)
         if penalty <= 0:  # constraints are satisfied
             break
-    data = opt.recommend().get_standardized_data(reference=parameter_without_constraint)
-    return parameter.spawn_child().set_standardized_data(data)
+    child = parameter.spawn_child()
+    if penalty <= 0:
+        child.value = cand.value  # setting the coordinates would sample stochastic choices again
+    else:
+        data = opt.recommend().get_standardized_data(reference=parameter_without_constraint)
+        child.set_standardized_data(data)
+    # this replaces the initial candidate, and must be recognized by the optimizer when it is told
+    child.uid = parameter.uid
+    child.parents_uids = list(parameter.parents_uids)
+    child._meta.update(parameter._meta)
+    return child
-- 
2.43.0


From 2ad37a232a3112af40442b2fd0dcf9c74e25839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:04 +0000
Subject: [PATCH 52/77] fix: rejected candidates broke optimizers which need a
 tell (or an acceptable loss) between two asks

---
 nevergrad/optimization/base.py         | 22 ++++++++++++++++++----
 nevergrad/optimization/optimizerlib.py | 12 ++++++++++--
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index b1dd2cc..8ef0cad 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -494,6 +494,14 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
         if self.pruning is not None:
             self.archive = self.pruning(self.archive)
 
+    def _tell_violations_for(self, *members: "Optimizer") -> None:
+        """Specifies which members were asked: some cannot be asked again without a tell, so that
+        the candidates which are rejected because of the constraints must be told
+        """
+        self._penalize_cheap_violations = any(
+            m.no_parallelization or m._penalize_cheap_violations for m in members
+        )
+
     def ask(self) -> p.Parameter:
         """Provides a point to explore.
         This function can be called multiple times to explore several points in parallel
@@ -524,7 +532,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             candidate = self._internal_ask_candidate()
             is_suggestion = False
         else:
-            for _ in range(max_trials):
+            for trial in range(max_trials):
                 is_suggestion = False
                 if self._suggestions:  # use suggestions if available
                     is_suggestion = True
@@ -542,9 +550,13 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                         if candidate.can_skip_constraints(self.parametrization):
                             self.skip_constraints = True
                     break  # good to go!
-                if self._penalize_cheap_violations or self.no_parallelization:
-                    # Warning! This might be a tell not asked.
-                    self._internal_tell_candidate(candidate, float("Inf"))  # DE requires a tell
+                if trial == max_trials - 1:
+                    break  # this candidate (or its projection below) will be told by the user
+                if not is_suggestion and (self._penalize_cheap_violations or self.no_parallelization):
+                    candidate.loss = 5.0e20  # as infinite losses in "tell"
+                    if self.num_objectives > 1:
+                        candidate._losses = np.full(self.num_objectives, candidate.loss)
+                    self._internal_tell_candidate(candidate, candidate.loss)  # DE requires a tell
                 # updating num_ask  is necessary for some algorithms which need new num to ask another point
                 self._num_ask += 1
         satisfies = candidate.satisfies_constraints(self.parametrization)
@@ -850,6 +862,8 @@ class ConfiguredOptimizer:
             config = {}  # ignore, it's already configured
         run = self._OptimizerClass(parametrization=parametrization, budget=budget, num_workers=num_workers, **config)  # type: ignore
         run.name = self.name
+        if self.no_parallelization:  # can be specified for the configured optimizer only (eg. for chains)
+            run.no_parallelization = True
         # hacky but convenient to have around:
         run._configured_optimizer = self  # type: ignore
         return run
diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index b0484ac..85dd7dd 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -970,7 +970,9 @@ class ChoiceBase(base.Optimizer):
         return CMA
 
     def _internal_ask_candidate(self) -> p.Parameter:
-        return self.optim.ask()
+        candidate = self.optim.ask()
+        self._tell_violations_for(self.optim)
+        return candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
         self.optim.tell(candidate, loss)
@@ -1790,6 +1792,7 @@ class SplitOptimizer(base.Optimizer):
                     candidates.append(opt.parametrization.spawn_child())  # unchanged
                     continue
             candidates.append(opt.ask())
+        self._tell_violations_for(*self.optims)
         data = np.concatenate(
             [
                 c.get_standardized_data(reference=opt.parametrization)
@@ -2086,6 +2089,7 @@ class Portfolio(base.Optimizer):
             opt._suggestions.append(self.parametrization.sample())
             # (hacky suggestion to avoid calling args and kwargs)
         candidate = opt.ask()
+        self._tell_violations_for(opt)
         candidate._meta["optim_index"] = optim_index
         return candidate
 
@@ -2195,6 +2199,7 @@ class _MetaModel(base.Optimizer):
                 candidate = self._optim.ask()
         else:
             candidate = self._optim.ask()
+        self._tell_violations_for(self._optim)
         return candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
@@ -3425,6 +3430,7 @@ class _Chain(base.Optimizer):
         # if we are over budget, then use the last one...
 
         candidate = opt.ask()
+        self._tell_violations_for(opt)
         candidate._meta["optim_index"] = chosen_index
         return candidate
 
@@ -3908,7 +3914,9 @@ class NGOptBase(base.Optimizer):
         return cls
 
     def _internal_ask_candidate(self) -> p.Parameter:
-        return self.optim.ask()
+        candidate = self.optim.ask()
+        self._tell_violations_for(self.optim)
+        return candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
         self.optim.tell(candidate, loss)
-- 
2.43.0


From ea32e089bae6b867e57ef69165cfba0703a8f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:54 +0000
Subject: [PATCH 53/77] fix: initial values on the bounds had infinite
 coordinates with the tanh method, leading to nan proposals

---
 nevergrad/parametrization/transforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nevergrad/parametrization/transforms.py b/nevergrad/parametrization/transforms.py
index 0b13b78..ebeb8bf 100644
--- a/nevergrad/parametrization/transforms.py
+++ b/nevergrad/parametrization/transforms.py
@@ -175,10 +175,11 @@ class TanhBound(BoundTransform):
         self._check_shape(y)
         if (y > self.a_max).any() or (y < self.a_min).any():
             raise ValueError(
-                f"Only data between {self.a_min} and {self.a_max} "
-                "can be transformed back (bounds lead to infinity)."
+                f"Only data between {self.a_min} and {self.a_max} can be transformed back."
             )
-        return np.arctanh((y - self._b) / self._a)  # type: ignore
+        with np.errstate(divide="ignore"):
+            x = np.arctanh(np.clip((y - self._b) / self._a, -1, 1))
+        return np.clip(x, -20, 20)  # type: ignore  # finite, and np.tanh(20) is 1
 
 
 class Clipping(BoundTransform):
-- 
2.43.0


From 7a2447a158981c93df084854bc99fa92cdf4fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:54 +0000
Subject: [PATCH 54/77] fix: rotated crossover failed on one variable

---
 nevergrad/optimization/mutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/mutations.py b/nevergrad/optimization/mutations.py
index df7a21f..51d3959 100644
--- a/nevergrad/optimization/mutations.py
+++ b/nevergrad/optimization/mutations.py
@@ -131,7 +131,7 @@ class Mutator:
     ) -> tp.ArrayLike:
         if rotation:
             dim = len(parent)
-            k = self.random_state.randint(1, dim)
+            k = self.random_state.randint(1, dim) if dim > 1 else 0
             mix = [self.random_state.choice([donor[(i + k) % dim], parent[i]]) for i in range(len(parent))]
         else:
             if crossover_type == "rand":
-- 
2.43.0


From 2390607b8769fe337d0b8e8a3aa4f7233dfa7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:54 +0000
Subject: [PATCH 55/77] fix: high speed CMA could not recommend when the
 evaluations were fewer than the asks

---
 nevergrad/optimization/optimizerlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 85dd7dd..692649e 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -833,7 +833,7 @@ class _CMA(base.Optimizer):
             reference=self.parametrization
         )
         d = self.dimension
-        n = self.num_ask
+        n = len(self.archive)  # asks which are not told yet, or repeated points, are not useful
         sample_size = int(d * d / 2 + d / 2 + 3)
         if self._config.high_speed and n >= sample_size:
             try:
-- 
2.43.0


From e271290ec6c9300c3192df514f19f93e6e150e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 56/77] fix: infinite scale of MetaRecentering in dimension 1
 (nan proposals)

---
 nevergrad/optimization/oneshot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/oneshot.py b/nevergrad/optimization/oneshot.py
index f42c5e6..0e23444 100644
--- a/nevergrad/optimization/oneshot.py
+++ b/nevergrad/optimization/oneshot.py
@@ -164,7 +164,7 @@ class _RandomSearch(OneShotOptimizer):
         if isinstance(scale, str) and scale == "auto":
             # Some variants use a rescaling depending on the budget and the dimension (1st version).
             assert self.budget is not None
-            scale = (1 + np.log(self.budget)) / (4 * np.log(self.dimension))
+            scale = (1 + np.log(self.budget)) / (4 * np.log(max(2, self.dimension)))
         if isinstance(scale, str) and scale == "autotune":
             assert self.budget is not None
             scale = np.sqrt(np.log(self.budget) / self.dimension)
@@ -327,7 +327,7 @@ class _SamplingSearch(OneShotOptimizer):
             sample = self._rescaler.apply(sample)
         if self.autorescale is True or self.autorescale == "auto":
             assert self.budget is not None
-            self.scale = (1 + np.log(self.budget)) / (4 * np.log(self.dimension))
+            self.scale = (1 + np.log(self.budget)) / (4 * np.log(max(2, self.dimension)))
         if self.autorescale == "autotune":
             assert self.budget is not None
             self.scale = np.sqrt(np.log(self.budget) / self.dimension)
-- 
2.43.0


From c67ecfee2327ca86572eb7ab4d05305217e6b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 57/77] fix: random samples changed when the sampler was
 reinitialized, and one sample could not be rescaled

---
 nevergrad/optimization/sequences.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/sequences.py b/nevergrad/optimization/sequences.py
index fb0592d..407b38a 100644
--- a/nevergrad/optimization/sequences.py
+++ b/nevergrad/optimization/sequences.py
@@ -124,9 +124,12 @@ class RandomSampler(Sampler):
         if scrambling:
             raise ValueError("RandomSampler does not support scrambling")
         super().__init__(dimension, budget, random_state=random_state)
+        self._samples: tp.List[np.ndarray] = []  # for providing the same samples if reinitialized
 
     def _internal_sampler(self) -> tp.ArrayLike:
-        return self.random_state.uniform(0, 1, self.dimension)  # type: ignore
+        if self.index == len(self._samples):
+            self._samples.append(self.random_state.uniform(0, 1, self.dimension))
+        return self._samples[self.index].copy()  # type: ignore
 
 
 class HaltonPermutationGenerator:
@@ -217,5 +220,8 @@ class Rescaler:
 
     def apply(self, point: tp.ArrayLike) -> np.ndarray:
         point = np.asarray(point)
-        factor = (1 - 2 * self.epsilon) / (self.sample_maxs - self.sample_mins)
+        delta = self.sample_maxs - self.sample_mins
+        if not np.all(delta > 0):  # one sample only
+            delta = np.where(delta > 0, delta, 1.0)
+        factor = (1 - 2 * self.epsilon) / delta
         return self.epsilon + factor * (point - self.sample_mins)  # type: ignore
-- 
2.43.0


From 1ab10720a8dd5f2be97453bab9cdd8abb41f0c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:02 +0000
Subject: [PATCH 58/77] fix: hm was nan at its optimum

---
 nevergrad/functions/corefuncs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/functions/corefuncs.py b/nevergrad/functions/corefuncs.py
index 3dce628..da2f7b8 100644
--- a/nevergrad/functions/corefuncs.py
+++ b/nevergrad/functions/corefuncs.py
@@ -254,6 +254,7 @@ def stepdoublelinearslope(x: np.ndarray) -> float:
 @registry.register
 def hm(x: np.ndarray) -> float:
     """New multimodal function (proposed for Nevergrad)."""
+    x = x[x != 0]  # the limit is 0 at 0
     return float((x**2).dot(1.1 + np.cos(1.0 / x)))
 
 
-- 
2.43.0


From 79947c6add6180c17f775534812402e6c2854c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:02 +0000
Subject: [PATCH 59/77] fix: constraints added to the copy of a function were
 added to the function

---
 nevergrad/functions/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/functions/base.py b/nevergrad/functions/base.py
index 77878c3..bc1f2c9 100644
--- a/nevergrad/functions/base.py
+++ b/nevergrad/functions/base.py
@@ -196,7 +196,7 @@ class ExperimentFunction:
                 "ExperimentFunction.__new__ and copy to better understand what happens"
             )
         # propagate other useful information # TODO a bit hacky
-        output.parametrization._constraint_checkers = self.parametrization._constraint_checkers
+        output.parametrization._constraint_checkers = list(self.parametrization._constraint_checkers)
         output.multiobjective_upper_bounds = (
             self.multiobjective_upper_bounds
         )  # TODO not sure why this is needed
-- 
2.43.0


From c2c62f2d37272f4849753cf3a19bb50030f6e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:02 +0000
Subject: [PATCH 60/77] fix: evaluations of hashed functions reset the random
 state of the optimization

---
 nevergrad/functions/functionlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nevergrad/functions/functionlib.py b/nevergrad/functions/functionlib.py
index 8e3ee3d..db39b79 100644
--- a/nevergrad/functions/functionlib.py
+++ b/nevergrad/functions/functionlib.py
@@ -74,8 +74,9 @@ class ArtificialVariable:
         if self.hashing:
             data2 = np.array(data, copy=True)
             for i, y in enumerate(data):
-                self.random_state.seed(int(hashlib.md5(str(y).encode()).hexdigest(), 16) % 500000)
-                data2[i] = self.random_state.normal(0.0, 1.0)
+                # independent random state, since self.random_state is shared with the optimizer
+                seed = int(hashlib.md5(str(y).encode()).hexdigest(), 16) % 500000
+                data2[i] = np.random.RandomState(seed).normal(0.0, 1.0)
             data = data2
         data = np.asarray(data)
         output = []
-- 
2.43.0


From ee647111205e107b8a0fc72893fdd03e6a2ca786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:02 +0000
Subject: [PATCH 61/77] fix: FarOptimumFunction lost its multiobjective upper
 bounds

---
 nevergrad/functions/functionlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/functions/functionlib.py b/nevergrad/functions/functionlib.py
index db39b79..c98c229 100644
--- a/nevergrad/functions/functionlib.py
+++ b/nevergrad/functions/functionlib.py
@@ -336,8 +336,8 @@ class FarOptimumFunction(ExperimentFunction):
         parametrization.set_mutation(sigma=sigma)
         if recombination == "crossover":
             parametrization = ng.ops.mutations.Crossover()(parametrization)
-        self.multiobjective_upper_bounds = np.array(2 * self._optimum) if multiobjective else None
         super().__init__(self._multifunc if multiobjective else self._monofunc, parametrization.set_name(""))  # type: ignore
+        self.multiobjective_upper_bounds = np.array(2 * self._optimum) if multiobjective else None
 
     def _multifunc(self, x: np.ndarray) -> np.ndarray:
         return np.abs(x - self._optimum)  # type: ignore
-- 
2.43.0


From 394f935c2c57eaa3da21c9b6a1758b720c3bfc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:11 +0000
Subject: [PATCH 62/77] fix: printing and logging callbacks ignored their
 interval of tells

---
 nevergrad/optimization/callbacks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index e20a4d7..2befe2d 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -37,11 +37,11 @@ class OptimizationPrinter:
         assert print_interval_seconds > 0
         self._print_interval_tells = int(print_interval_tells)
         self._print_interval_seconds = print_interval_seconds
-        self._next_tell = self._print_interval_tells
+        self._next_tell = 0  # first tell is always printed
         self._next_time = time.time() + print_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._print_interval_seconds
             self._next_tell = optimizer.num_tell + self._print_interval_tells
             x = optimizer.provide_recommendation()
@@ -78,11 +78,11 @@ class OptimizationLogger:
         self._log_level = log_level
         self._log_interval_tells = int(log_interval_tells)
         self._log_interval_seconds = log_interval_seconds
-        self._next_tell = self._log_interval_tells
+        self._next_tell = 0  # first tell is always logged
         self._next_time = time.time() + log_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._log_interval_seconds
             self._next_tell = optimizer.num_tell + self._log_interval_tells
             if optimizer.num_objectives == 1:
-- 
2.43.0


From 7457b1e1ab8c50c8fe765056b99363f2d808a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:11 +0000
Subject: [PATCH 63/77] fix: OptimizationPrinter interrupted multiobjective
 optimizations

---
 nevergrad/optimization/callbacks.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index 2befe2d..bebaa98 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -44,8 +44,12 @@ class OptimizationPrinter:
         if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._print_interval_seconds
             self._next_tell = optimizer.num_tell + self._print_interval_tells
-            x = optimizer.provide_recommendation()
-            print(f"After {optimizer.num_tell}, recommendation is {x}")  # TODO fetch value
+            if optimizer.num_objectives == 1:
+                x = optimizer.provide_recommendation()
+                print(f"After {optimizer.num_tell}, recommendation is {x}")  # TODO fetch value
+            else:
+                losses = optimizer._hypervolume_pareto.get_min_losses()  # type: ignore
+                print(f"After {optimizer.num_tell}, minimum losses in the pareto front are {losses}")
 
 
 class OptimizationLogger:
-- 
2.43.0


From 1159348c3e94d1511396bb4b0e58e0b8d20f285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:11 +0000
Subject: [PATCH 64/77] fix: ParametersLogger ignored its order

---
 nevergrad/optimization/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index bebaa98..9e800ca 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -163,7 +163,7 @@ class ParametersLogger:
             data["#meta-sigma"] = candidate._meta["sigma"]  # for TBPSA-like algorithms
         if candidate.generation > 1:
             data["#parents_uids"] = candidate.parents_uids
-        for name, param in helpers.flatten(candidate, with_containers=False, order=1):
+        for name, param in helpers.flatten(candidate, with_containers=False, order=self._order):
             val = param.value
             if isinstance(val, (np.float64, np.int_, np.bool_)):
                 val = val.item()
-- 
2.43.0


From e9311d1ae7b5ff39bd1e4db9a114ec6b9e63c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:28 +0000
Subject: [PATCH 65/77] fix: interrupted records of ParametersLogger made the
 whole log unreadable

---
 nevergrad/optimization/callbacks.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index 9e800ca..f343de9 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -137,6 +137,10 @@ class ParametersLogger:
         if self._filepath.exists() and not append:
             self._filepath.unlink()  # missing_ok argument added in python 3.8
         self._filepath.parent.mkdir(exist_ok=True, parents=True)
+        if self._filepath.exists():  # terminate an interrupted record, so that it does not spoil the next one
+            if self._filepath.read_bytes()[-1:] not in (b"", b"\n"):
+                with self._filepath.open("a") as f:
+                    f.write("\n")
 
     def __call__(self, optimizer: base.Optimizer, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
         data = {
@@ -187,7 +191,10 @@ class ParametersLogger:
         if self._filepath.exists():
             with self._filepath.open("r") as f:
                 for line in f.readlines():
-                    data.append(json.loads(line))
+                    try:
+                        data.append(json.loads(line))
+                    except json.JSONDecodeError:  # the process was interrupted while writing
+                        warnings.warn(f"Skipping an incomplete record of {self._filepath}")
         return data
 
     def load_flattened(self, max_list_elements: int = 24) -> tp.List[tp.Dict[str, tp.Any]]:
-- 
2.43.0


From 05b0b3e2b16b9bb77db1b2fe2ce6a407f1a186ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:28 +0000
Subject: [PATCH 66/77] fix: no_improvement_stopper never stopped optimizers
 with model-based recommendations

---
 nevergrad/optimization/callbacks.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index f343de9..4284c7e 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -378,18 +378,24 @@ class _DurationCriterion:
 class _LossImprovementToleranceCriterion:
     def __init__(self, tolerance_window: int) -> None:
         self._tolerance_window: int = tolerance_window
-        self._best_value: tp.Optional[np.ndarray] = None
+        self._best_value: tp.Any = None
         self._tolerance_count: int = 0
 
     def __call__(self, optimizer: base.Optimizer) -> bool:
-        best_param = optimizer.provide_recommendation()
-        if best_param is None or (best_param.loss is None and best_param._losses is None):
+        if not optimizer.num_tell:
             return False
-        best_last_losses = best_param.losses
+        if optimizer.num_objectives > 1:  # the pareto front changes if and only if it improves
+            front = sorted(tuple(x.losses) for x in optimizer.pareto_front())
+            improved = front != self._best_value
+            best_last_losses: tp.Any = front
+        else:
+            # recommendations may not have any loss
+            best_last_losses = optimizer.current_bests["minimum"].mean
+            improved = self._best_value is not None and best_last_losses < self._best_value
         if self._best_value is None:
             self._best_value = best_last_losses
             return False
-        if self._best_value <= best_last_losses:
+        if not improved:
             self._tolerance_count += 1
         else:
             self._tolerance_count = 0
-- 
2.43.0


From 71d51da58f2c7b94f8e56bee850812454140d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:55 +0000
Subject: [PATCH 67/77] fix: ParametersLogger dropped the records with values
 unknown to json

---
 nevergrad/optimization/callbacks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index 4284c7e..c997c86 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -169,7 +169,7 @@ class ParametersLogger:
             data["#parents_uids"] = candidate.parents_uids
         for name, param in helpers.flatten(candidate, with_containers=False, order=self._order):
             val = param.value
-            if isinstance(val, (np.float64, np.int_, np.bool_)):
+            if isinstance(val, np.generic):
                 val = val.item()
             if inspect.ismethod(val):
                 val = repr(val.__self__)  # show mutation class
@@ -181,7 +181,7 @@ class ParametersLogger:
                 )
         try:  # avoid bugging as much as possible
             with self._filepath.open("a") as f:
-                f.write(json.dumps(data) + "\n")
+                f.write(json.dumps(data, default=repr) + "\n")
         except Exception as e:  # pylint: disable=broad-except
             warnings.warn(f"Failing to json data: {e}")
 
@@ -385,7 +385,7 @@ class _LossImprovementToleranceCriterion:
         if not optimizer.num_tell:
             return False
         if optimizer.num_objectives > 1:  # the pareto front changes if and only if it improves
-            front = sorted(tuple(x.losses) for x in optimizer.pareto_front())
+            front = {tuple(x.losses) for x in optimizer.pareto_front()}
             improved = front != self._best_value
             best_last_losses: tp.Any = front
         else:
-- 
2.43.0


From ad8259e4d6f01689193c30af9f8894d824b76e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:40 +0000
Subject: [PATCH 68/77] fix: placeholders duplicated in several files were
 accepted

---
 nevergrad/parametrization/instantiate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 8848cb0..431f60e 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -190,6 +190,7 @@ class FolderInstantiator:
                         raise RuntimeError(
                             f"Found {fp} placeholders in another file (names must be unique): {fnames & names}"
                         )
+                    names |= fnames
                     self.file_functions.append(file_func)
         assert self.file_functions, "Found no file with placeholders"
         self.file_functions = sorted(self.file_functions, key=operator.attrgetter("filepath"))
-- 
2.43.0


From fc55b41c92f22cdc989f57860ec84a2b539061af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:40 +0000
Subject: [PATCH 69/77] fix: instantiating folders provided through relative
 paths could overwrite their files

---
 nevergrad/parametrization/instantiate.py | 10 ++++++----
 nevergrad/parametrization/utils.py       |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 431f60e..fdb4ecd 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -174,10 +174,10 @@ class FolderInstantiator:
 
     def __init__(self, folder: tp.Union[Path, str], clean_copy: bool = False) -> None:
         self._clean_copy = None
-        self.folder = Path(folder).expanduser().absolute()
+        self.folder = Path(os.path.abspath(Path(folder).expanduser()))  # ".." would be kept by absolute()
         assert self.folder.exists(), f"{folder} does not seem to exist"
         if clean_copy:
-            self._clean_copy = utils.TemporaryDirectoryCopy(str(folder))
+            self._clean_copy = utils.TemporaryDirectoryCopy(str(self.folder))
             self.folder = self._clean_copy.copyname
         self.file_functions: tp.List[FileTextFunction] = []
         names: tp.Set[str] = set()
@@ -206,8 +206,10 @@ class FolderInstantiator:
         testing.assert_set_equal(
             kwargs, {x.name for x in self.placeholders}, err_msg="Wrong input parameters."
         )
-        outfolder = Path(outfolder).expanduser().absolute()
-        assert outfolder != self.folder, "Do not instantiate on same folder!"
+        outfolder = Path(outfolder).expanduser().resolve()
+        folder = self.folder.resolve()
+        assert outfolder != folder, "Do not instantiate on same folder!"
+        assert folder not in outfolder.parents, "Do not instantiate inside the folder!"
         symlink_folder_tree(self.folder, outfolder)
         for file_func in self.file_functions:
             inst_fp = outfolder / file_func.filepath.relative_to(self.folder)
diff --git a/nevergrad/parametrization/utils.py b/nevergrad/parametrization/utils.py
index 27afa71..b7d217f 100644
--- a/nevergrad/parametrization/utils.py
+++ b/nevergrad/parametrization/utils.py
@@ -111,7 +111,7 @@ class TemporaryDirectoryCopy(tempfile.TemporaryDirectory):  # type: ignore
         if dir is None:
             dir = os.environ.get(self.key, None)
         super().__init__(prefix="tmp_clean_copy_", dir=dir)
-        self.copyname = Path(self.name) / Path(source).name
+        self.copyname = Path(self.name) / os.path.basename(os.path.abspath(source))
         shutil.copytree(str(source), str(self.copyname))
 
     def __enter__(self) -> Path:
-- 
2.43.0


From b64f55a08648941a7e5aad2547960024e90e5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:40 +0000
Subject: [PATCH 70/77] fix: instantiation altered the line terminations

---
 nevergrad/parametrization/instantiate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index fdb4ecd..125b0c6 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -117,7 +117,7 @@ class FileTextFunction:
     def __init__(self, filepath: Path) -> None:
         self.filepath = filepath
         assert filepath.exists(), "{filepath} does not exist"
-        with filepath.open("r") as f:
+        with filepath.open("r", newline="") as f:
             text = f.read()
         deprecated_placeholders = ["NG_G{", "NG_OD{", "NG_SC{"]
         if any(x in text for x in deprecated_placeholders):
@@ -128,7 +128,7 @@ class FileTextFunction:
                 "Please refer to the README, PR #73 or issue #45 for more information"
             )
         if LINETOKEN in text:
-            lines = text.splitlines()
+            lines = text.split("\n")  # splitlines would alter other lines
             ext = filepath.suffix.lower()
             lines = [(l if LINETOKEN not in l else uncomment_line(l, ext)) for l in lines]
             text = "\n".join(lines)
@@ -214,7 +214,7 @@ class FolderInstantiator:
         for file_func in self.file_functions:
             inst_fp = outfolder / file_func.filepath.relative_to(self.folder)
             os.remove(str(inst_fp))  # remove symlink to avoid writing in original dir
-            with inst_fp.open("w") as f:
+            with inst_fp.open("w", newline="") as f:
                 f.write(file_func(**{x: y for x, y in kwargs.items() if x in file_func.parameters}))
 
     @contextlib.contextmanager
-- 
2.43.0


From 165f1af76ed6676e7cefc084c77872e3f68eb9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:40 +0000
Subject: [PATCH 71/77] fix: uppercase file types were not handled consistently

---
 nevergrad/parametrization/instantiate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 125b0c6..a1a1cd3 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -145,7 +145,7 @@ class FileTextFunction:
 
     def __call__(self, **kwargs: tp.Any) -> str:
         testing.assert_set_equal(kwargs, self.parameters, err_msg="Wrong input parameters.")
-        return Placeholder.sub(self._text, self.filepath.suffix, replacers=kwargs)
+        return Placeholder.sub(self._text, self.filepath.suffix.lower(), replacers=kwargs)
 
     def __repr__(self) -> str:
         names = sorted(self.parameters)
@@ -284,7 +284,7 @@ class FolderFunction:
         the characters that indicate a comment."""
         if not suffix.startswith("."):
             suffix = f".{suffix}"
-        COMMENT_CHARS[suffix] = comment_chars
+        COMMENT_CHARS[suffix.lower()] = comment_chars
 
     @property
     def placeholders(self) -> tp.List[Placeholder]:
-- 
2.43.0


From c1688e966dd93c96b8b5c87df855fcd71a1d9bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:40 +0000
Subject: [PATCH 72/77] fix: comment characters were interpreted as regular
 expressions

---
 nevergrad/parametrization/instantiate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index a1a1cd3..f113883 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -96,7 +96,7 @@ def uncomment_line(line: str, extension: str) -> str:
             f"Unknown file type: {extension}\nDid you register it using {FolderFunction.register_file_type.__name__}?"
         )
     pattern = r"^(?P<indent> *)"
-    pattern += r"(?P<linetoken>" + COMMENT_CHARS[extension] + r" *" + LINETOKEN + r" *)"
+    pattern += r"(?P<linetoken>" + re.escape(COMMENT_CHARS[extension]) + r" *" + LINETOKEN + r" *)"
     pattern += r"(?P<command>.*)"
     lineseg = re.search(pattern, line)
     if lineseg is not None:
-- 
2.43.0


From fd9c9c89d93cd2c3476e50a403045faa4973c2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:40 +0000
Subject: [PATCH 73/77] fix: instantiated files lost their permissions

---
 nevergrad/parametrization/instantiate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index f113883..c05fab4 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -5,6 +5,7 @@
 
 import os
 import re
+import shutil
 import tempfile
 import operator
 import contextlib
@@ -216,6 +217,7 @@ class FolderInstantiator:
             os.remove(str(inst_fp))  # remove symlink to avoid writing in original dir
             with inst_fp.open("w", newline="") as f:
                 f.write(file_func(**{x: y for x, y in kwargs.items() if x in file_func.parameters}))
+            shutil.copymode(str(file_func.filepath), str(inst_fp))
 
     @contextlib.contextmanager
     def instantiate(self, **kwargs: tp.Any) -> tp.Generator[Path, None, None]:
-- 
2.43.0


From 52b6ebe7ec1c11c6ee948cf2940128e23ab954ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:40 +0000
Subject: [PATCH 74/77] fix: commands writing a lot of errors blocked forever

---
 nevergrad/parametrization/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nevergrad/parametrization/utils.py b/nevergrad/parametrization/utils.py
index b7d217f..beb5585 100644
--- a/nevergrad/parametrization/utils.py
+++ b/nevergrad/parametrization/utils.py
@@ -170,10 +170,11 @@ class CommandFunction:
         if self.verbose:
             print(f"The following command is sent: {full_command}")
         outlines: tp.List[str] = []
-        with subprocess.Popen(
+        # a pipe would block the process once filled, since stdout is read first
+        with tempfile.TemporaryFile() as errfile, subprocess.Popen(
             full_command,
             stdout=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            stderr=errfile,
             shell=False,
             cwd=self.cwd,
             env=self.env,
@@ -190,7 +191,9 @@ class CommandFunction:
                 process.kill()
                 process.wait()
                 raise FailedJobError("Job got killed for an unknown reason.")
-            stderr = process.communicate()[1]  # we already got stdout
+            process.communicate()  # we already got stdout
+            errfile.seek(0)
+            stderr = errfile.read()
             stdout = "\n".join(outlines)
             retcode = process.poll()
             if stderr and (retcode or self.verbose):
-- 
2.43.0


From 579cf2871f35e334c94651bbfe42372fe5b4af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:40 +0000
Subject: [PATCH 75/77] fix: blank outputs of folder functions were not
 detected

---
 nevergrad/parametrization/instantiate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index c05fab4..7aaa526 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -300,7 +300,7 @@ class FolderFunction:
         if self.verbose:
             print(f"FolderFunction recovered full output:\n{output}")
         self.last_full_output = output.strip()
-        if not output:
+        if not self.last_full_output:
             raise ValueError("No output")
         for postproc in self.postprocessings:
             output = postproc(output)
-- 
2.43.0


From 4a8976fc667d2d1ecf43357c45f128a6b3443744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:46 +0000
Subject: [PATCH 76/77] fix: folders with broken links could not be
 instantiated twice to the same place

---
 nevergrad/parametrization/instantiate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 7aaa526..ac45eb4 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -87,7 +87,7 @@ def symlink_folder_tree(folder: tp.Union[Path, str], shadow_folder: tp.Union[Pat
         shadow_fp = shadow_folder / fp.name
         if fp.is_dir():
             symlink_folder_tree(fp, shadow_fp)
-        elif not shadow_fp.exists():
+        elif not os.path.lexists(str(shadow_fp)):  # links can be broken
             shadow_fp.symlink_to(fp)
 
 
-- 
2.43.0


From f6ade4e82903219549d7f1cc7139ba870c314a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:26 +0000
Subject: [PATCH 77/77] fix: printing and logging the recommendation altered
 the optimization

---
 nevergrad/optimization/callbacks.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index c997c86..d64a1dd 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -20,6 +20,18 @@ from . import base
 global_logger = logging.getLogger(__name__)
 
 
+def _describe_recommendation(optimizer: base.Optimizer) -> str:
+    """String representation of the current recommendation. This can sample values, and must not
+    have any impact on the optimization.
+    """
+    random_state = optimizer.parametrization.random_state
+    state = random_state.get_state()
+    try:
+        return str(optimizer.provide_recommendation())
+    finally:
+        random_state.set_state(state)
+
+
 class OptimizationPrinter:
     """Printer to register as callback in an optimizer, for printing
     best point regularly.
@@ -45,7 +57,7 @@ class OptimizationPrinter:
             self._next_time = time.time() + self._print_interval_seconds
             self._next_tell = optimizer.num_tell + self._print_interval_tells
             if optimizer.num_objectives == 1:
-                x = optimizer.provide_recommendation()
+                x = _describe_recommendation(optimizer)
                 print(f"After {optimizer.num_tell}, recommendation is {x}")  # TODO fetch value
             else:
                 losses = optimizer._hypervolume_pareto.get_min_losses()  # type: ignore
@@ -90,7 +102,7 @@ class OptimizationLogger:
             self._next_time = time.time() + self._log_interval_seconds
             self._next_tell = optimizer.num_tell + self._log_interval_tells
             if optimizer.num_objectives == 1:
-                x = optimizer.provide_recommendation()
+                x = _describe_recommendation(optimizer)
                 self._logger.log(self._log_level, "After %s, recommendation is %s", optimizer.num_tell, x)
             else:
                 losses = optimizer._hypervolume_pareto.get_min_losses()  # type: ignore
-- 
2.43.0

