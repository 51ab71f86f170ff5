From 0a9174515f6c1624cb31c6d93ff3de7188a8208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 01/59] fix: Agent.copy must not share the position array (and
 other arrays) with the original

---
 mealpy/utils/agent.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/agent.py b/mealpy/utils/agent.py
index e93d7ab..e1bbabd 100644
--- a/mealpy/utils/agent.py
+++ b/mealpy/utils/agent.py
@@ -28,13 +28,18 @@ class Agent:
             setattr(self, key, value)
 
     def copy(self) -> 'Agent':
-        agent = Agent(self.solution, self.target.copy(), **self.kwargs)
+        agent = Agent(self._copy_value(self.solution), self.target.copy(), **self.kwargs)
         # Copy any changes made to the attributes
         for attr, value in vars(self).items():
             if attr not in ['target', 'solution', 'id', 'kwargs']:
-                setattr(agent, attr, value)
+                setattr(agent, attr, self._copy_value(value))
         return agent
 
+    @staticmethod
+    def _copy_value(value):
+        """ Mutable arrays must not be shared between an agent and its copies. """
+        return value.copy() if isinstance(value, (np.ndarray, list, dict)) else value
+
     def update_agent(self, solution: np.ndarray, target: Target) -> None:
         self.solution = solution
         self.target = target
-- 
2.43.0


From d792ca60324233ae4c87e4633ab41b7dd8575eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 02/59] fix: history must record copies of the current
 best/worst agents, not live population members

---
 mealpy/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 8b54ec7..8c2f805 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -622,11 +622,11 @@ class Optimizer:
         c_best, c_worst = sorted_pop[0], sorted_pop[-1]
         if save:
             ## Save current best
-            self.history.list_current_best.append(c_best)
+            self.history.list_current_best.append(c_best.copy())
             better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
             self.history.list_global_best.append(better)
             ## Save current worst
-            self.history.list_current_worst.append(c_worst)
+            self.history.list_current_worst.append(c_worst.copy())
             worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
             self.history.list_global_worst.append(worse)
             return sorted_pop, better
-- 
2.43.0


From 5489bf8c630f1466ee9feda52b1a32d22ad76733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 03/59] fix: ParameterGrid indexing works with numpy 2 and
 agrees with the iteration order

---
 mealpy/tuner.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 61fd74e..24872da 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -127,11 +127,10 @@ class ParameterGrid:
                     continue
 
             # Reverse so most frequent cycling parameter comes first
-            # keys, values_lists = zip(*sorted(sub_grid.items())[::-1])
-            ## My version: Don't sort the values and don't reverse here. Keep it as it is
-            keys, values_lists = zip(*sub_grid.items())
+            ## My version: Don't sort the keys here (same as in __iter__)
+            keys, values_lists = zip(*list(sub_grid.items())[::-1])
             sizes = [len(v_list) for v_list in values_lists]
-            total = np.product(sizes)
+            total = np.prod(sizes)
 
             if ind >= total:
                 # Try the next grid
@@ -141,7 +140,7 @@ class ParameterGrid:
                 for key, v_list, n in zip(keys, values_lists, sizes):
                     ind, offset = divmod(ind, n)
                     out[key] = v_list[offset]
-                return out
+                return {key: out[key] for key in sub_grid}
 
         raise IndexError("ParameterGrid index out of range")
 
-- 
2.43.0


From 47119a36b66802b6daf12f608df47ef784624048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 04/59] fix: Multitask accepts one termination/mode per
 algorithm

---
 mealpy/multitask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index a902db0..4e44746 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -101,7 +101,7 @@ class Multitask:
             if len(values) == 1:
                 values_final = [[deepcopy(values[0]) for _ in range(0, self.m_problems)] for _ in range(0, self.n_algorithms)]
             elif len(values) == self.n_algorithms:
-                values_final = [deepcopy(values[idx] for _ in range(0, self.m_problems)) for idx in range(0, self.n_algorithms)]
+                values_final = [[deepcopy(values[idx]) for _ in range(0, self.m_problems)] for idx in range(0, self.n_algorithms)]
             elif len(values) == self.m_problems:
                 values_final = [deepcopy(values) for _ in range(0, self.n_algorithms)]
             elif len(values) == (self.n_algorithms * self.m_problems):
-- 
2.43.0


From 15f175bbf0b3ee74827cc7d2851e1a07e3892bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 05/59] fix: transfer-function variables honour their lower
 bound

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 12fe047..9dc00b3 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -372,7 +372,7 @@ class TransferBinaryVar(BinaryVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
         self.all_zeros = all_zeros
 
@@ -430,7 +430,7 @@ class TransferBoolVar(BoolVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
 
     def correct(self, x):
-- 
2.43.0


From b6a491ca1d3a020718615a92966c679be864f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 06/59] fix: updating the global best within an epoch must not
 rewrite the history of previous epochs

---
 mealpy/optimizer.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 8c2f805..ad8a920 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -63,6 +63,7 @@ class Optimizer:
         self.parameters, self.params_name_ordered = {}, None
         self.is_parallelizable = True
         self.generator, self.rng = None, None     # random module for numpy and random (python)
+        self.unsaved_best, self.unsaved_worst = None, None     # best/worst found since the last saved epoch
 
     def __set_keyword_arguments(self, kwargs):
         for key, value in kwargs.items():
@@ -175,6 +176,7 @@ class Optimizer:
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.unsaved_best, self.unsaved_worst = None, None
 
     def check_mode_and_workers(self, mode, n_workers):
         self.mode = self.validator.check_str("mode", mode, self.SUPPORTED_MODES)
@@ -620,28 +622,23 @@ class Optimizer:
         """
         sorted_pop, _ = self.get_sorted_population(pop, self.problem.minmax)
         c_best, c_worst = sorted_pop[0], sorted_pop[-1]
+        ## The best and worst so far, including those that have not been saved to history yet
+        best = self.history.list_global_best[-1] if self.unsaved_best is None else self.unsaved_best
+        worst = self.history.list_global_worst[-1] if self.unsaved_worst is None else self.unsaved_worst
+        better = self.get_better_agent(c_best, best, self.problem.minmax)
+        worse = self.get_better_agent(c_worst, worst, self.problem.minmax, reverse=True)
         if save:
             ## Save current best
             self.history.list_current_best.append(c_best.copy())
-            better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
-            self.history.list_global_best.append(better)
+            self.history.list_global_best.append(better.copy())
             ## Save current worst
             self.history.list_current_worst.append(c_worst.copy())
-            worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
             self.history.list_global_worst.append(worse)
-            return sorted_pop, better
+            self.unsaved_best, self.unsaved_worst = None, None
         else:
-            ## Handle current best
-            local_better = self.get_better_agent(c_best, self.history.list_current_best[-1], self.problem.minmax)
-            self.history.list_current_best[-1] = local_better
-            global_better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
-            self.history.list_global_best[-1] = global_better
-            ## Handle current worst
-            local_worst = self.get_better_agent(c_worst, self.history.list_current_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_current_worst[-1] = local_worst
-            global_worst = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_global_worst[-1] = global_worst
-            return sorted_pop, global_better
+            ## The records of the previous epochs in history must not be changed
+            self.unsaved_best, self.unsaved_worst = better.copy(), worse
+        return sorted_pop, better
 
     @staticmethod
     def sample_indexes_exclude_one(generator, pop_size: int, exclude_idx: int, n_samples: int, replace: bool=False):
-- 
2.43.0


From 7fd072b07a9841ee7e0c4ecc8c5d4833055f3ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 07/59] fix: AAA must not move an evaluated agent without
 re-evaluating it

---
 mealpy/bio_based/AAA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index e8183dc..4f1877a 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -164,7 +164,7 @@ class OriginalAAA(Optimizer):
                 # Movement cost
                 energy[idx] = energy[idx] - self.e_loss / 2
                 pos_new = self.correct_solution(pos_new)
-                agent_new = self.generate_agent(pos_new)
+                agent_new = self.generate_agent(pos_new.copy())
                 if self.compare_target(agent_new.target, self.pop[idx].target, self.problem.minmax):
                     self.pop[idx] = agent_new
                     self.starvation[idx] = 0
-- 
2.43.0


From b17d938a8b20bec83ca8776cc3f0dd0467712cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 08/59] fix: ArchOA evaluates the corrected position

---
 mealpy/physics_based/ArchOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ArchOA.py b/mealpy/physics_based/ArchOA.py
index e0efd68..988f4b7 100644
--- a/mealpy/physics_based/ArchOA.py
+++ b/mealpy/physics_based/ArchOA.py
@@ -142,7 +142,7 @@ class OriginalArchOA(Optimizer):
             agent.solution = self.correct_solution(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                agent.target = self.get_target(pos_new)
+                agent.target = self.get_target(agent.solution)
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From c2b738a3aebeb20d7109a075e0ad38f0fa50764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 09/59] fix: TSeedA evaluates the corrected position and works
 with a single seed

---
 mealpy/bio_based/TSeedA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index aa2d642..4e3f3ab 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -87,7 +87,7 @@ class OriginalTSeedA(Optimizer):
             n_seeds = self.generator.integers(min_seeds, max_seeds + 1)
             
             pop_new = []
-            rdx_list = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True)
+            rdx_list = np.atleast_1d(self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True))
             for jdx in range(n_seeds):
                 # Select a random tree 'r' different from 'i'
                 rdx = rdx_list[jdx]
@@ -112,7 +112,7 @@ class OriginalTSeedA(Optimizer):
                 # agent = self.generate_empty_agent(pos_new)
                 pop_new.append(self.generate_empty_agent(pos_new))
                 if self.mode not in self.AVAILABLE_MODES:
-                    pop_new[-1].target = self.get_target(seed)
+                    pop_new[-1].target = self.get_target(pos_new)
             # Update parallel
             if self.mode in self.AVAILABLE_MODES:
                 pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 7feb4cfcb0d200bd3c54a288d61b022d93710cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 10/59] fix: FOA keeps agents inside the bounds with the target
 of their own position

---
 mealpy/swarm_based/FOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FOA.py b/mealpy/swarm_based/FOA.py
index e7f40ca..c89c03d 100644
--- a/mealpy/swarm_based/FOA.py
+++ b/mealpy/swarm_based/FOA.py
@@ -62,7 +62,7 @@ class OriginalFOA(Optimizer):
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-        solution = self.norm_consecutive_adjacent__(solution)
+            solution = self.correct_solution(self.norm_consecutive_adjacent__(solution))
         return Agent(solution=solution)
 
     def evolve(self, epoch):
-- 
2.43.0


From 36d826ceccc52f5abf6fe8ebdf7a9d01b39b046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 11/59] fix: BeesA must not move the parent bee while searching
 its neighborhood

---
 mealpy/swarm_based/BeesA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index d78d976..ce35914 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -215,6 +215,7 @@ class OriginalBeesA(Optimizer):
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
+        position = position.copy()
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
@@ -329,6 +330,7 @@ class ProbBeesA(Optimizer):
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(list(range(0, self.problem.n_dims)))
+        position = position.copy()
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
-- 
2.43.0


From 6634b3bcea3352cfa037777db70442aea31c0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 12/59] fix: GA mutation must not modify the parents that stay
 in the population

---
 mealpy/evolutionary_based/GA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 550a084..89b0d5f 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -142,7 +142,7 @@ class BaseGA(Optimizer):
             id_c1, id_c2 = self.generator.choice(range(self.pop_size), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(self.pop, k_way=self.k_way, output=2)
-        return self.pop[id_c1].solution, self.pop[id_c2].solution
+        return self.pop[id_c1].solution.copy(), self.pop[id_c2].solution.copy()
 
     def selection_process_00__(self, pop_selected):
         """
@@ -168,7 +168,7 @@ class BaseGA(Optimizer):
             id_c1, id_c2 = self.generator.choice(range(len(pop_selected)), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(pop_selected, k_way=self.k_way, output=2)
-        return pop_selected[id_c1].solution, pop_selected[id_c2].solution
+        return pop_selected[id_c1].solution.copy(), pop_selected[id_c2].solution.copy()
 
     def selection_process_01__(self, pop_dad, pop_mom):
         """
@@ -192,7 +192,7 @@ class BaseGA(Optimizer):
         else:   ## tournament
             id_c1 = self.get_index_kway_tournament_selection(pop_dad, k_way=self.k_way, output=1)[0]
             id_c2 = self.get_index_kway_tournament_selection(pop_mom, k_way=self.k_way, output=1)[0]
-        return pop_dad[id_c1].solution, pop_mom[id_c2].solution
+        return pop_dad[id_c1].solution.copy(), pop_mom[id_c2].solution.copy()
 
     def crossover_process__(self, dad, mom):
         """
-- 
2.43.0


From 5e231a63cc4262d1ccd90b73be5c58d42e9e7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 13/59] fix: TWO variants evaluate the corrected position and
 keep the starting population

---
 mealpy/physics_based/TWO.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 759bb1a..1e40d31 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -124,7 +124,7 @@ class OriginalTWO(Optimizer):
             pos_new = self.correct_solution(pos_new)
             pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -214,7 +214,7 @@ class OppoTWO(OriginalTWO):
             pos_new = np.where(conditions, pos_new, self.pop[idx].solution)
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -306,7 +306,7 @@ class LevyTWO(OriginalTWO):
                             pos_new[jdx] = self.problem.ub[jdx]
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -374,7 +374,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        pop_oppo = self.pop.copy()
+        pop_oppo = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_opposite = self.problem.ub + self.problem.lb - self.pop[idx].solution
             pos_new = self.correct_solution(pos_opposite)
@@ -420,7 +420,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                             pos_new[jdx] = self.problem.ub[jdx]
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From e6a90c81f1a4bd4b290b2d3a7f8eddf495480b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 14/59] fix: THRO training must not move the horse that is kept

---
 mealpy/game_based/THRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/game_based/THRO.py b/mealpy/game_based/THRO.py
index 8920b69..82cd73e 100644
--- a/mealpy/game_based/THRO.py
+++ b/mealpy/game_based/THRO.py
@@ -292,7 +292,7 @@ class OriginalTHRO(Optimizer):
 
         for idx in range(self.n_pop):
             # Training for Tianji's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     tr4, tr5 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
@@ -307,7 +307,7 @@ class OriginalTHRO(Optimizer):
                 self.pop_tianji[idx] = agent
 
             # Training for King's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     kr1, kr2 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
-- 
2.43.0


From b4ca1fd1e4ceb56ae6874bb44e4a2ae63b785143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 15/59] fix: WHO social memory keeps the corrected position it
 evaluates

---
 mealpy/bio_based/WHO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/WHO.py b/mealpy/bio_based/WHO.py
index 8d5ffef..eaf3c54 100644
--- a/mealpy/bio_based/WHO.py
+++ b/mealpy/bio_based/WHO.py
@@ -169,7 +169,7 @@ class OriginalWHO(Optimizer):
             for jdx in range(0, self.n_exploit_step):
                 temp = g_best.solution + 0.1 * self.generator.uniform(self.problem.lb, self.problem.ub)
                 pos_new = self.correct_solution(temp)
-                agent = self.generate_empty_agent(temp)
+                agent = self.generate_empty_agent(pos_new)
                 pop_child.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-- 
2.43.0


From b42cd3c9f5532c5e15d6589d6ba11c607d3db2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 16/59] fix: OriginalSBO moves the bower together with its
 target

---
 mealpy/bio_based/SBO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index a88bcb1..9f8a975 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -225,6 +225,7 @@ class OriginalSBO(DevSBO):
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                self.pop[idx].target = self.get_target(pos_new)
+                pop_new[-1].target = self.get_target(pos_new)
+                self.pop[idx] = pop_new[-1]
         if self.mode in self.AVAILABLE_MODES:
             self.pop = self.update_target_for_population(pop_new)
-- 
2.43.0


From 65ceb3f98f802b2a6d3a27df74d2b01b572d1b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 17/59] fix: SA corrects the perturbed position before
 evaluating it

---
 mealpy/physics_based/SA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index c2618af..2442ddf 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -82,6 +82,7 @@ class OriginalSA(Optimizer):
         # Perturb the current solution
 
         pos_new = self.agent_current.solution + self.generator.standard_normal(self.problem.n_dims) * self.step_size
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
@@ -176,6 +177,7 @@ class GaussianSA(Optimizer):
         """
         # Perturb the current solution
         pos_new = self.agent_current.solution + self.generator.normal(scale=self.scale, size=self.problem.n_dims)
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
-- 
2.43.0


From f0649e119fccbbcd8224c1fa1e53103d68fe06be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 18/59] fix: SHADE/JADE/LSHADE-cnEpSin draw from the
 optimizer's own generator

---
 mealpy/evolutionary_based/DE.py    |  2 +-
 mealpy/evolutionary_based/SHADE.py |  4 ++--
 mealpy/sota_based/LSHADEcnEpSin.py | 10 +++++-----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 33da76c..d57e1b6 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -261,7 +261,7 @@ class JADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr, 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f, 0.1)
+                f = cauchy.rvs(self.dyn_miu_f, 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index dd136b1..f0dd529 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -105,7 +105,7 @@ class OriginalSHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
@@ -271,7 +271,7 @@ class L_SHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 059faac..84c4f4b 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -185,7 +185,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
         """Standard binomial crossover"""
         if CR is None:
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
         trial = np.where(self.generator.uniform(0, 1, self.problem.n_dims) <= CR, mutant, target)
         j_rand = self.generator.integers(0, self.problem.n_dims)
@@ -222,7 +222,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
                 # Generate random CR for this crossover
                 r_idx = self.generator.integers(0, self.H)
-                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
                 CR = np.clip(CR, 0, 1)
 
                 # Binomial crossover in eigen space
@@ -291,20 +291,20 @@ class OriginalLSHADEcnEpSin(Optimizer):
                 else:
                     # Configuration 2: adaptive increasing
                     r_idx = self.generator.integers(0, self.H)
-                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1)
+                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1, random_state=self.generator)
                     freq = np.clip(freq, 0.1, 2.0)
                     F = self.sinusoidal_adaptation(epoch, self.epoch, config_type=2, freq=freq)
                     config_used = 2
             else:
                 # Second half: standard LSHADE
                 r_idx = self.generator.integers(0, self.H)
-                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1)
+                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1, random_state=self.generator)
                 F = np.clip(F, 0.1, 1.0)
                 config_used = 0
 
             # Generate CR
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
 
             # Mutation
-- 
2.43.0


From 1159b0d8e71513e359bad82012d2243739d1be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 19/59] fix: PSS samples its population with the optimizer's
 own generator

---
 mealpy/math_based/PSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index c6934d6..29cda9c 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -75,9 +75,9 @@ class OriginalPSS(Optimizer):
 
     def create_population(self, pop_size=None):
         if self.sampling_method == "MC":
-            pop = self.generator.random(self.pop_size, self.problem.n_dims)
+            pop = self.generator.random((self.pop_size, self.problem.n_dims))
         else:       # Default: "LHS"
-            sampler = qmc.LatinHypercube(d=self.problem.n_dims)
+            sampler = qmc.LatinHypercube(d=self.problem.n_dims, seed=self.generator)
             pop = sampler.random(n=pop_size)
         return pop
 
-- 
2.43.0


From 58efb0b3998d28ea0c7397573ff73b4d1d2be6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 20/59] fix: TSeedA imports numpy

---
 mealpy/bio_based/TSeedA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index 4e3f3ab..beeada8 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -4,6 +4,7 @@
 # Github: https://github.com/tunayalc
 # ----------------------------------------------%
 
+import numpy as np
 from mealpy.optimizer import Optimizer
 from mealpy.utils.opt_info import OptInfo, ScientificConcern
 
-- 
2.43.0


From e600e8d5380211c85c1494093bf42690ac8b59ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 21/59] fix: IntegerVar never generates a value above its upper
 bound

---
 mealpy/utils/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 9dc00b3..a69763a 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -219,7 +219,9 @@ class IntegerVar(BaseVar):
         return np.clip(x, self.lb, self.ub)
 
     def generate(self):
-        return self.generator.integers(self.lb+0.5, self.ub+0.5+self.eps)
+        # The sums are integers up to floating-point error (e.g. -5 + 0.5 - eps + 0.5 + eps = -3.9999999999999996)
+        low, high = self.round(self.lb + 0.5), self.round(self.ub + 0.5 + self.eps)
+        return self.generator.integers(low.astype(int), high.astype(int))
 
 
 class StringVar(BaseVar):
-- 
2.43.0


From 79e8c429f8271b6c2fc1f0507b10fb34e4787790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 22/59] fix: PermutationVar repair is idempotent and decoding
 inverts encoding

---
 mealpy/utils/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index a69763a..507a247 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -335,7 +335,8 @@ class PermutationVar(BaseVar):
         return self.le.inverse_transform(x)
 
     def correct(self, x):
-        return np.argsort(x)
+        # The rank of each element (applying it to a permutation of the indices changes nothing)
+        return np.argsort(np.argsort(x))
 
     def generate(self):
         return self.generator.permutation(self.valid_set)
-- 
2.43.0


From 0456d8250b0315c442b8597f86862ed51de7fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 23/59] fix: string variables with repeated labels decode to
 listed labels only

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 507a247..f6e0305 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -238,7 +238,7 @@ class StringVar(BaseVar):
                 le = LabelEncoder().fit(valid_sets)
                 self.list_le = (le,)
                 self.lb = np.array([0., ])
-                self.ub = np.array([len(valid_sets) - self.eps, ])
+                self.ub = np.array([len(le.unique_labels) - self.eps, ])
             else:
                 self.n_vars = len(valid_sets)
                 if all(len(item) > 1 for item in valid_sets):
@@ -248,7 +248,7 @@ class StringVar(BaseVar):
                     for vl_set in valid_sets:
                         le = LabelEncoder().fit(vl_set)
                         self.list_le.append(le)
-                        ub.append(len(vl_set) - self.eps)
+                        ub.append(len(le.unique_labels) - self.eps)
                     self.lb = np.zeros(self.n_vars)
                     self.ub = np.array(ub)
                 else:
-- 
2.43.0


From d00f5a9f0dac28318378931362a33b1ab3d569d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 24/59] fix: NaN is not inside an unlimited bound

---
 mealpy/utils/validator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/utils/validator.py b/mealpy/utils/validator.py
index 30b563a..48fe949 100644
--- a/mealpy/utils/validator.py
+++ b/mealpy/utils/validator.py
@@ -16,6 +16,8 @@ REAL = (float, np.floating)
 
 def is_in_bound(value, bound):
     ops = None
+    if value != value:      # NaN is never inside a bound
+        return False
     if type(bound) is tuple:
         ops = operator.lt
     elif type(bound) is list:
-- 
2.43.0


From 3f774f8996e44f721edcb93104d8a114b8c4ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 25/59] fix: tuples whose length differs from their bounds are
 rejected, not accepted unchecked

---
 mealpy/utils/validator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/utils/validator.py b/mealpy/utils/validator.py
index 48fe949..3dcb1db 100644
--- a/mealpy/utils/validator.py
+++ b/mealpy/utils/validator.py
@@ -87,12 +87,12 @@ class Validator:
         if isinstance(values, SEQUENCE) and len(values) > 1:
             value_flag = [isinstance(item, DIGIT) for item in values]
             if np.all(value_flag):
-                if bounds is not None and len(bounds) == len(values):
+                if bounds is None:
+                    return values
+                if len(bounds) == len(values):
                     value_flag = [is_in_bound(item, bound) for item, bound in zip(values, bounds)]
                     if np.all(value_flag):
                         return values
-                else:
-                    return values
         bounds = "" if bounds is None else f"and values should be in range: {bounds}"
         raise ValueError(f"'{name}' are integer {bounds}.")
 
@@ -100,12 +100,12 @@ class Validator:
         if isinstance(values, SEQUENCE) and len(values) > 1:
             value_flag = [isinstance(item, Number) for item in values]
             if np.all(value_flag):
-                if bounds is not None and len(bounds) == len(values):
+                if bounds is None:
+                    return values
+                if len(bounds) == len(values):
                     value_flag = [is_in_bound(item, bound) for item, bound in zip(values, bounds)]
                     if np.all(value_flag):
                         return values
-                else:
-                    return values
         bounds = "" if bounds is None else f"and values should be in range: {bounds}"
         raise ValueError(f"'{name}' are float {bounds}.")
 
-- 
2.43.0


From c7cdd930fb782471615959122fe2944aec885b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 26/59] fix: Multitask accepts one termination/mode per
 (algorithm, problem) pair

---
 mealpy/multitask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index 4e44746..6826241 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -105,7 +105,7 @@ class Multitask:
             elif len(values) == self.m_problems:
                 values_final = [deepcopy(values) for _ in range(0, self.n_algorithms)]
             elif len(values) == (self.n_algorithms * self.m_problems):
-                values_final = values
+                values_final = [[deepcopy(values[idx * self.m_problems + jdx]) for jdx in range(0, self.m_problems)] for idx in range(0, self.n_algorithms)]
             else:
                 raise ValueError(f"{name} should be list of {kind} instances with size (1) or (n) or (m) or (n*m), n: #algorithms, m: #problems.")
             return values_final
-- 
2.43.0


From 784839cc1427d3e5eee7cee1abda9d0a49ce53b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 27/59] fix: Tuner picks the best (not the worst) parameters of
 maximization problems

---
 mealpy/tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 24872da..19d2e4e 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -425,8 +425,8 @@ class Tuner:
         self.df_fit["trial_mean"] = self.df_fit[trial_columns].mean(axis=1)
         self.df_fit["trial_std"] = self.df_fit[trial_columns].std(axis=1)
         self.df_fit["rank_mean"] = self.df_fit["trial_mean"].rank(ascending=ascending)
-        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=ascending)
-        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=ascending)
+        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=True)
+        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=True)
         self._best_row = self.df_fit[self.df_fit["rank_mean_std"] == self.df_fit["rank_mean_std"].min()]
         self._best_params = self._best_row["params"].values[0]
         self._best_score = self._best_row["trial_mean"].values[0]
-- 
2.43.0


From 27471f1ddc7d13a3d9fb5ed7c6cf9de961b8e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 28/59] fix: Tuner accepts a Problem instance

---
 mealpy/tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 19d2e4e..554e359 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -395,7 +395,8 @@ class Tuner:
 
         list_params_grid = list(ParameterGrid(self.param_grid))
         trial_columns = [f"trial_{id_trial}" for id_trial in range(1, self.n_trials + 1)]
-        ascending = True if self.problem["minmax"] == "min" else False
+        minmax = self.problem.minmax if isinstance(self.problem, Problem) else self.problem.get("minmax", "min")
+        ascending = True if minmax == "min" else False
 
         best_fit_results = []
         loss_results = []
-- 
2.43.0


From e22197d9516e7ffa5b5b0f64c74d20eb38711c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 29/59] fix: populations created in process mode have
 independent agents and are counted

---
 mealpy/optimizer.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index ad8a920..d910dc6 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -337,6 +337,18 @@ class Optimizer:
         agent.target = self.get_target(agent.solution)
         return agent
 
+    def _generate_agent_with_seed(self, seed: int) -> Agent:
+        """
+        Generate new agent inside a worker process
+
+        Args:
+            seed (int): The seed of the copies of the random generators in that process
+        """
+        self.generator = np.random.default_rng(seed)
+        self.rng = random.Random(seed)
+        self.problem.set_seed(seed)
+        return self.generate_agent()
+
     def generate_population(self, pop_size: int = None) -> List[Agent]:
         """
         Args:
@@ -356,10 +368,13 @@ class Optimizer:
                     pop.append(f.result())
         elif self.mode == "process":
             with parallel.ProcessPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
+                # Each worker owns a copy of this optimizer, so each agent needs its own random stream
+                seeds = self.generator.choice(2**31 - 1, size=pop_size, replace=False).tolist()
+                list_executors = [executor.submit(self._generate_agent_with_seed, seed) for seed in seeds]
                 # This method yield the result everytime a cpu finished their job (not by order).
                 for f in parallel.as_completed(list_executors):
                     pop.append(f.result())
+            self.nfe_counter += pop_size    # The counters of the workers are lost
         else:
             pop = [self.generate_agent() for _ in range(0, pop_size)]
         return pop
-- 
2.43.0


From 4f48392e27de24f0ec8731b7dd3045d02d143dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 30/59] fix: DOA must not index the bounds with the agent's
 index

---
 mealpy/human_based/DOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/DOA.py b/mealpy/human_based/DOA.py
index a98dbae..b94fa2d 100644
--- a/mealpy/human_based/DOA.py
+++ b/mealpy/human_based/DOA.py
@@ -139,7 +139,7 @@ class OriginalDOA(Optimizer):
                 pos_new = self.g_best.solution.copy()
                 for jdx in in_indices:
                     cos_term = (np.cos(epoch * np.pi / self.epoch) + 1) / 2
-                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[idx] - self.problem.lb[idx]) + self.problem.lb[idx]) * cos_term
+                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[jdx] - self.problem.lb[jdx]) + self.problem.lb[jdx]) * cos_term
                     # Boundary handling
                     if pos_new[jdx] > self.problem.ub[jdx] or pos_new[jdx] < self.problem.lb[jdx]:
                         if self.problem.n_dims > 15:
-- 
2.43.0


From e6311f40b01caccdd2e7a76457b488a43db9af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 31/59] fix: SquirrelSA crashed when the winter season ended

---
 mealpy/swarm_based/SquirrelSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 08e8247..6a1961c 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -176,7 +176,7 @@ class OriginalSquirrelSA(Optimizer):
 
         if S_c < S_min:
             # Winter season is over: randomly relocate some squirrels
-            n_relocate = max(1, len(self.pop_size - self.n_food_sources) // 4)
+            n_relocate = max(1, (self.pop_size - self.n_food_sources) // 4)
             relocate_indices = self.generator.choice(indices_random, n_relocate, replace=False)
             for idx in relocate_indices:
                 levy = self.get_levy_flight_step(beta = self.beta, multiplier = 0.01, size = self.problem.n_dims, case = -1)
-- 
2.43.0


From c661c098f701dda89b945c92c113de6e6e0c978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 32/59] fix: DevSSpiderA lost its new population in the
 parallel modes

---
 mealpy/swarm_based/SSpiderA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 8bf4b70..129dd6e 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -139,7 +139,7 @@ class DevSSpiderA(Optimizer):
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(agent.solution)
                 agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
-                pop_new.append(agent)
+            pop_new.append(agent)
         pop_new = self.update_target_for_population(pop_new)
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 768389a9200b932bb5edcffd679622a20b21e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 33/59] fix: SOO compared populations of different sizes in the
 parallel modes

---
 mealpy/physics_based/SOO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/physics_based/SOO.py b/mealpy/physics_based/SOO.py
index f70ad77..9f5b935 100644
--- a/mealpy/physics_based/SOO.py
+++ b/mealpy/physics_based/SOO.py
@@ -122,6 +122,7 @@ class OriginalSOO(Optimizer):
         _, best3, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
 
         # Perform oscillatory movement update
+        pop_new = []
         for idx in range(self.pop_size):
             # Average of top star positions
             avg3 = np.mean([agent.solution for agent in best3], axis=0)
-- 
2.43.0


From fa3d4331b147620d4496a49fadce1de1a05a2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 34/59] fix: exploration and exploitation are defined when the
 population never has any diversity

---
 mealpy/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index d910dc6..687f6ce 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -308,6 +308,7 @@ class Optimizer:
         """
         self.history.epoch = len(self.history.list_diversity)
         div_max = np.max(self.history.list_diversity)
+        div_max = 1. if div_max == 0 else div_max       # No diversity in any epoch means no exploration at all
         self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / div_max)
         self.history.list_exploitation = 100 - self.history.list_exploration
         self.history.list_global_best = self.history.list_global_best[1:]
-- 
2.43.0


From 3c64a60e5adf0fbc5620bacd857ffc61e469f47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 35/59] fix: BFO validates its step size Ci as a float (0.01
 became 0)

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index c498f5b..0616672 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -95,7 +95,7 @@ class OriginalBFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.step_size = self.Ci = self.validator.check_int("Ci", Ci, (0, 5.0))
+        self.step_size = self.Ci = self.validator.check_float("Ci", Ci, (0, 5.0))
         self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
         self.chem_steps = self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
         self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
-- 
2.43.0


From 621f21349a34202b576930b7feb39f1729d19111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 36/59] fix: BCO accepts its own default n_chemotaxis

---
 mealpy/bio_based/BCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index 781d6ce..b8775cf 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -68,7 +68,7 @@ class OriginalBCO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.c_min = self.validator.check_float("c_min", c_min, (0., 1.0))
         self.c_max = self.validator.check_float("c_max", c_max, (c_min, 10.0))
-        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, (1, 5))
+        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, [1, 5])
         self.max_swim_steps = self.validator.check_int("max_swim_steps", max_swim_steps, (2, 10))
         self.migration_prob = self.validator.check_float("migration_prob", migration_prob, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "c_min", "c_max", "n_chemotaxis", "max_swim_steps", "migration_prob"])
-- 
2.43.0


From ab3b9d35512ce1154b4ab013064509fd3763c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 37/59] fix: SA reports its pop_size with its other
 hyper-parameters

---
 mealpy/physics_based/SA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index 2442ddf..5bda97a 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -67,7 +67,7 @@ class OriginalSA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [2, 10000])
         self.temp_init = self.validator.check_float("temp_init", temp_init, [1, 10000])
         self.step_size = self.validator.check_float("step_size", step_size, (-100., 100.))
-        self.set_parameters(["epoch", "temp_init", "step_size"])
+        self.set_parameters(["epoch", "pop_size", "temp_init", "step_size"])
 
     def before_main_loop(self):
         self.agent_current = self.g_best.copy()
@@ -161,7 +161,7 @@ class GaussianSA(Optimizer):
         self.temp_init = self.validator.check_float("temp_init", temp_init, [1, 10000])
         self.cooling_rate = self.validator.check_float("cooling_rate", cooling_rate, (0., 1.))
         self.scale = self.validator.check_float("scale", scale, (0., 100.))
-        self.set_parameters(["epoch", "temp_init", "cooling_rate", "scale"])
+        self.set_parameters(["epoch", "pop_size", "temp_init", "cooling_rate", "scale"])
 
     def before_main_loop(self):
         # Initialize the system
-- 
2.43.0


From fadae3cdc46996f764584be3639f2552b208ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 38/59] fix: PO validates lamda_max as the float it is (1.25
 became 1)

---
 mealpy/human_based/PO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index d7c25bf..2d55872 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -68,7 +68,7 @@ class OriginalPO(Optimizer):
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_n = self.validator.check_int("pop_size", pop_size, [2, 100])
         self.pop_size = self.pop_n ** 2
-        self.lamda_max = self.validator.check_int("lamda_max", lamda_max, [1.0, 100])
+        self.lamda_max = self.validator.check_float("lamda_max", lamda_max, [1.0, 100])
         self.set_parameters(["epoch", "pop_size", "lamda_max"])
         self.sort_flag = False
         self.lam = None
-- 
2.43.0


From a0ebf4b8c699e74f135d30515e574ff002025081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 39/59] fix: BCO evaluates the corrected position while
 swimming

---
 mealpy/bio_based/BCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index b8775cf..b81dd58 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -116,7 +116,7 @@ class OriginalBCO(Optimizer):
                 # Continue swimming without turbulence
                 pos_new = self.pop[idx].solution + step * step_direction
                 agent_new.solution = self.correct_solution(pos_new)
-                agent_new.target = self.get_target(pos_new)
+                agent_new.target = self.get_target(agent_new.solution)
                 m += 1
 
         # 2. Interactive Exchange
-- 
2.43.0


From 2cefcff8938c0af0f33171fb7194ae4a799a77e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 40/59] fix: GA crashed with an odd pop_size

---
 mealpy/evolutionary_based/GA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 89b0d5f..f86c70f 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -307,7 +307,7 @@ class BaseGA(Optimizer):
         """
         list_fitness = np.array([agent.target.fitness for agent in self.pop])
         pop_new = []
-        for i in range(0, int(self.pop_size/2)):
+        for i in range(0, int((self.pop_size + 1) / 2)):
             ### Selection
             child1, child2 = self.selection_process__(list_fitness)
 
-- 
2.43.0


From 7d1617de8612131b3f4f3e0ab48dfb9e491df9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 41/59] fix: OppoTWO crashed with an odd pop_size

---
 mealpy/physics_based/TWO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 1e40d31..bd03b67 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -171,10 +171,11 @@ class OppoTWO(OriginalTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        list_idx = self.generator.choice(range(0, self.pop_size), int(self.pop_size/2), replace=False)
-        pop_temp = [self.pop[list_idx[idx]] for idx in range(0, int(self.pop_size/2))]
+        n_oppo = int(self.pop_size/2)
+        list_idx = self.generator.choice(range(0, self.pop_size), self.pop_size - n_oppo, replace=False)
+        pop_temp = [self.pop[idx] for idx in list_idx]
         pop_oppo = []
-        for idx in range(len(pop_temp)):
+        for idx in range(n_oppo):
             pos_opposite = self.problem.ub + self.problem.lb - pop_temp[idx].solution
             pos_opposite = self.correct_solution(pos_opposite)
             agent = self.generate_empty_agent(pos_opposite)
-- 
2.43.0


From 7683bdd2b1b4c8a4f411a1011c9dc7acc9577619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 42/59] fix: starting solutions work for optimizers whose
 agents need more than a position in the parallel modes

---
 mealpy/optimizer.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 687f6ce..319e9d5 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -133,9 +133,15 @@ class Optimizer:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
             if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
-                if self.mode in self.AVAILABLE_MODES:
-                    self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
-                    self.pop = self.update_target_for_population(self.pop)
+                if self.mode == "thread":
+                    with parallel.ThreadPoolExecutor(self.n_workers) as executor:
+                        self.pop = list(executor.map(self.generate_agent, starting_solutions))
+                elif self.mode == "process":
+                    with parallel.ProcessPoolExecutor(self.n_workers) as executor:
+                        seeds = self.generator.choice(2**31 - 1, size=len(starting_solutions), replace=False).tolist()
+                        results = list(executor.map(self._generate_agent_with_seed, seeds, starting_solutions))
+                    self.pop = [agent for agent, _ in results]
+                    self.nfe_counter += sum(n_evals for _, n_evals in results)
                 else:
                     self.pop = [self.generate_agent(solution) for solution in starting_solutions]
             else:
@@ -338,17 +344,23 @@ class Optimizer:
         agent.target = self.get_target(agent.solution)
         return agent
 
-    def _generate_agent_with_seed(self, seed: int) -> Agent:
+    def _generate_agent_with_seed(self, seed: int, solution: np.ndarray = None) -> Tuple[Agent, int]:
         """
         Generate new agent inside a worker process
 
         Args:
             seed (int): The seed of the copies of the random generators in that process
+            solution (np.ndarray): The solution
+
+        Returns:
+            The agent and the number of function evaluations made for it
         """
         self.generator = np.random.default_rng(seed)
         self.rng = random.Random(seed)
         self.problem.set_seed(seed)
-        return self.generate_agent()
+        self.nfe_counter = 0
+        agent = self.generate_agent(solution)
+        return agent, self.nfe_counter
 
     def generate_population(self, pop_size: int = None) -> List[Agent]:
         """
@@ -374,8 +386,9 @@ class Optimizer:
                 list_executors = [executor.submit(self._generate_agent_with_seed, seed) for seed in seeds]
                 # This method yield the result everytime a cpu finished their job (not by order).
                 for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-            self.nfe_counter += pop_size    # The counters of the workers are lost
+                    agent, n_evals = f.result()
+                    pop.append(agent)
+                    self.nfe_counter += n_evals     # The counters of the workers are lost
         else:
             pop = [self.generate_agent() for _ in range(0, pop_size)]
         return pop
-- 
2.43.0


From 0c82f6a5e3d0f3e44ac9a908548cbd3884d4a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 43/59] fix: PSS starts from the given starting solutions

---
 mealpy/math_based/PSS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index 29cda9c..2e157e7 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -82,6 +82,8 @@ class OriginalPSS(Optimizer):
         return pop
 
     def initialization(self):
+        if self.pop is not None:
+            return
         lb_pop = np.repeat(np.reshape(self.problem.lb, (1, -1)), self.pop_size, axis=0)
         ub_pop = np.repeat(np.reshape(self.problem.ub, (1, -1)), self.pop_size, axis=0)
         steps_mat = np.repeat(np.reshape(self.steps, (1, -1)), self.pop_size, axis=0)
-- 
2.43.0


From 543f333d63f1dbc6b3897576ccb97cabd5f6d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 44/59] fix: TPO grows its branches from the given starting
 solutions

---
 mealpy/bio_based/TPO.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TPO.py b/mealpy/bio_based/TPO.py
index fa0da9c..9db8220 100644
--- a/mealpy/bio_based/TPO.py
+++ b/mealpy/bio_based/TPO.py
@@ -93,9 +93,13 @@ class DevTPO(Optimizer):
 
     def initialization(self):
         self.pop_total = []
+        starting_pop = self.pop
         self.pop = []                       # The best leaf in each branches
         for idx in range(self.pop_size):
-            leafs = self.generate_population(self.n_leafs)
+            if starting_pop is None:
+                leafs = self.generate_population(self.n_leafs)
+            else:
+                leafs = [starting_pop[idx]] + self.generate_population(self.n_leafs - 1)
             best, _ = self.get_best_agent(leafs, self.problem.minmax)
             self.pop.append(best)
             self.pop_total.append(leafs)
-- 
2.43.0


From 2b340349bb6e02571fc13de87946b9b7ad41d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 45/59] fix: ABFO must not overwrite its hyper-parameters when
 it is started

---
 mealpy/swarm_based/BFO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 0616672..8d1a495 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -249,8 +249,8 @@ class ABFO(Optimizer):
         self.sort_flag = False
 
     def initialize_variables(self):
-        self.C_s = self.C_s * (self.problem.ub - self.problem.lb)
-        self.C_e = self.C_e * (self.problem.ub - self.problem.lb)
+        self.step_s = self.C_s * (self.problem.ub - self.problem.lb)
+        self.step_e = self.C_e * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
@@ -267,7 +267,7 @@ class ABFO(Optimizer):
 
     def update_step_size__(self, pop=None, idx=None):
         total_fitness = np.sum([agent.target.fitness for agent in pop])
-        step_size = self.C_s - (self.C_s - self.C_e) * pop[idx].target.fitness / total_fitness
+        step_size = self.step_s - (self.step_s - self.step_e) * pop[idx].target.fitness / total_fitness
         step_size = step_size / self.pop[idx].nutrients if self.pop[idx].nutrients > 0 else step_size
         return step_size
 
-- 
2.43.0


From 19bc3609bc26625b531b69dc632ee59523eb06d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 46/59] fix: DBO forgets the previous positions of an earlier
 search

---
 mealpy/swarm_based/DBO.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/DBO.py b/mealpy/swarm_based/DBO.py
index 0a40f02..c1c79a7 100644
--- a/mealpy/swarm_based/DBO.py
+++ b/mealpy/swarm_based/DBO.py
@@ -74,9 +74,8 @@ class OriginalDBO(Optimizer):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        # Initialize previous positions x(t−1) on the first call
-        if self._prev_positions is None:
-            self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
+        # Initialize previous positions x(t−1)
+        self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
 
     def evolve(self, epoch: int):
         """
-- 
2.43.0


From f8c5acf0e1f3a901b3c2ec6d1a8e60cb11794896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 47/59] fix: BeesA starts every search with its full dance
 radius

---
 mealpy/swarm_based/BeesA.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index ce35914..2a45706 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -213,6 +213,9 @@ class OriginalBeesA(Optimizer):
         self.n_elite_bees_local = int(round(self.elite_site_bee_ratio * self.n_selected_bees_local))
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.dyn_radius = self.dance_radius
+
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
         position = position.copy()
@@ -328,6 +331,9 @@ class ProbBeesA(Optimizer):
         self.dyn_radius = self.dance_radius
         self.recruited_bee_count = int(round(self.recruited_bee_ratio * self.pop_size))
 
+    def initialize_variables(self):
+        self.dyn_radius = self.dance_radius
+
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(list(range(0, self.problem.n_dims)))
         position = position.copy()
-- 
2.43.0


From 1adf31326312984c0f927f3ba8b067a19828039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 48/59] fix: OriginalOrcaOA starts every search with its full
 radius

---
 mealpy/swarm_based/ORCA.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 8dece2d..e4a54fa 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -63,6 +63,9 @@ class OriginalOrcaOA(Optimizer):
         self.sort_flag = True
         self.n_removes = int(self.p_percent * pop_size)
 
+    def initialize_variables(self):
+        self.R = self.R0
+
     def evolve(self, epoch: int):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From f4d4211ef5c3ecd5e1e2cc4b43233b70aa8b6bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 49/59] fix: SAP_DE starts every search with its configured
 pop_size

---
 mealpy/evolutionary_based/DE.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index d57e1b6..73651eb 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -487,6 +487,9 @@ class SAP_DE(Optimizer):
         self.fixed_pop_size = self.pop_size
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.pop_size = self.fixed_pop_size = self.parameters["pop_size"]   # The size changes during the search
+
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-- 
2.43.0


From f928931ec42a67d4840378a00c331447489121f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 50/59] fix: every search starts counting its function
 evaluations anew

---
 mealpy/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 319e9d5..83961cd 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -182,6 +182,7 @@ class Optimizer:
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.nfe_counter = 1  # The first one is tested in Problem class
         self.unsaved_best, self.unsaved_worst = None, None
 
     def check_mode_and_workers(self, mode, n_workers):
-- 
2.43.0


From fce1249f36fca0cba2856fd376167e4189dc5280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 51/59] fix: starting solutions in process mode leave the
 search's random stream alone

---
 mealpy/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 83961cd..0bdd66b 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -19,6 +19,7 @@ from mealpy.utils.termination import Termination
 from mealpy.utils.logger import Logger
 from mealpy.utils.validator import Validator
 from math import gamma as mgama
+from copy import deepcopy
 import concurrent.futures as parallel
 from functools import partial
 import os
@@ -138,7 +139,8 @@ class Optimizer:
                         self.pop = list(executor.map(self.generate_agent, starting_solutions))
                 elif self.mode == "process":
                     with parallel.ProcessPoolExecutor(self.n_workers) as executor:
-                        seeds = self.generator.choice(2**31 - 1, size=len(starting_solutions), replace=False).tolist()
+                        # A copy, because the starting positions are not random: the search itself must not depend on the mode
+                        seeds = deepcopy(self.generator).choice(2**31 - 1, size=len(starting_solutions), replace=False).tolist()
                         results = list(executor.map(self._generate_agent_with_seed, seeds, starting_solutions))
                     self.pop = [agent for agent, _ in results]
                     self.nfe_counter += sum(n_evals for _, n_evals in results)
-- 
2.43.0


From befea92f924ad96a3bf615e688c53ad889ac15ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 52/59] fix: undefined (NaN) coordinates are repaired like
 coordinates outside the bounds

---
 mealpy/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 0bdd66b..411bc5c 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -421,6 +421,9 @@ class Optimizer:
             The correct solution that can be used to calculate target
         """
         solution = self.amend_solution(solution)
+        undefined = np.isnan(solution)      # No bound can repair an undefined coordinate (0/0, inf-inf,...)
+        if np.any(undefined):
+            solution = np.where(undefined, self.generator.uniform(self.problem.lb, self.problem.ub), solution)
         return self.problem.correct_solution(solution)
 
     def update_target_for_population(self, pop: List[Agent] = None) -> List[Agent]:
-- 
2.43.0


From 86f98ae87141b86b9dccdead552c671b9b3bcc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 53/59] fix: opposite positions of OGWO and IOBL_GWO are kept
 inside the bounds

---
 mealpy/swarm_based/GWO.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 52316fa..2ea0ebe 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1020,9 +1020,9 @@ class IOBL_GWO(Optimizer):
         # Apply Opposition-Based Learning (OBL) for leading wolves
         _, list_best, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
         pop_sorted, indices = self.get_sorted_population(self.pop, minmax=self.problem.minmax)
-        obl_alpha = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[0].solution)
-        obl_beta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[1].solution)
-        obl_delta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[2].solution)
+        obl_alpha = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[0].solution))
+        obl_beta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[1].solution))
+        obl_delta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[2].solution))
         obl_pop = [obl_alpha, obl_beta, obl_delta]
 
         # Replace worst 3 wolves with opposite solutions if they are better
@@ -1098,7 +1098,7 @@ class OGWO(Optimizer):
         # Generate opposition population using equation (12)
         pop_opposite = []
         for agent in self.pop:
-            pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+            pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
             agent_opposite = self.generate_empty_agent(pos_opposite)
             agent_opposite.target = self.get_target(pos_opposite)
             pop_opposite.append(agent_opposite)
@@ -1142,7 +1142,7 @@ class OGWO(Optimizer):
             # Generate opposition population using equation (12)
             pop_opposite = []
             for agent in self.pop:
-                pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+                pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
                 agent_opposite = self.generate_empty_agent(pos_opposite)
                 agent_opposite.target = self.get_target(pos_opposite)
                 pop_opposite.append(agent_opposite)
-- 
2.43.0


From e34ae7d88056b7a164abcfbed7c206b703ce40f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 54/59] fix: infinity is not an integer and complex numbers are
 not numbers of a range; reject them with ValueError

---
 mealpy/utils/validator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/utils/validator.py b/mealpy/utils/validator.py
index 3dcb1db..7e8d966 100644
--- a/mealpy/utils/validator.py
+++ b/mealpy/utils/validator.py
@@ -6,7 +6,7 @@
 
 import numpy as np
 import operator
-from numbers import Number
+from numbers import Real
 from mealpy.utils.logger import Logger
 
 SEQUENCE = (list, tuple, np.ndarray)
@@ -52,7 +52,7 @@ class Validator:
             setattr(self, key, value)
 
     def check_int(self, name:str, value: int, bound=None):
-        if isinstance(value, Number):
+        if isinstance(value, Real) and abs(value) != float("inf"):
             if bound is None:
                 return int(value)
             elif is_in_bound(value, bound):
@@ -61,7 +61,7 @@ class Validator:
         raise ValueError(f"'{name}' is an integer {bound}.")
 
     def check_float(self, name: str, value: float, bound=None):
-        if isinstance(value, Number):
+        if isinstance(value, Real):
             if bound is None:
                 return float(value)
             elif is_in_bound(value, bound):
@@ -98,7 +98,7 @@ class Validator:
 
     def check_tuple_float(self, name: str, values: tuple, bounds=None):
         if isinstance(values, SEQUENCE) and len(values) > 1:
-            value_flag = [isinstance(item, Number) for item in values]
+            value_flag = [isinstance(item, Real) for item in values]
             if np.all(value_flag):
                 if bounds is None:
                     return values
-- 
2.43.0


From 2233b83a902c8426681293703e5df9663be02a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:51 +0000
Subject: [PATCH 55/59] fix: OriginalSSpiderO keeps fp_min and fp_max as given
 (it stored the smaller of the two as fp_min)

---
 mealpy/swarm_based/SSpiderO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/SSpiderO.py b/mealpy/swarm_based/SSpiderO.py
index 6606cd2..8b722fa 100644
--- a/mealpy/swarm_based/SSpiderO.py
+++ b/mealpy/swarm_based/SSpiderO.py
@@ -64,13 +64,13 @@ class OriginalSSpiderO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        fp_min = self.validator.check_float("fp_min", fp_min, (0., 1.0))
-        fp_max = self.validator.check_float("fp_max", fp_max, (0., 1.0))
-        self.fp_min, self.fp_max = min((fp_min, fp_max)), max((fp_min, fp_max))
+        self.fp_min = self.validator.check_float("fp_min", fp_min, (0., 1.0))
+        self.fp_max = self.validator.check_float("fp_max", fp_max, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "fp_min", "fp_max"])
 
     def initialization(self):
-        fp_temp = self.fp_min + (self.fp_max - self.fp_min) * self.generator.uniform()  # Female Aleatory Percent
+        fp_min, fp_max = min(self.fp_min, self.fp_max), max(self.fp_min, self.fp_max)
+        fp_temp = fp_min + (fp_max - fp_min) * self.generator.uniform()  # Female Aleatory Percent
         self.n_f = int(self.pop_size * fp_temp)  # number of female
         self.n_m = self.pop_size - self.n_f  # number of male
         # Probabilities of attraction or repulsion Proper tuning for better results
-- 
2.43.0


From 6123427f8e0628a9e5186032d6a66a8387adfb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:57 +0000
Subject: [PATCH 56/59] fix: the tent map sends its breakpoint 0.7 to 1, not to
 a value above 1

---
 mealpy/utils/chaotic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/chaotic.py b/mealpy/utils/chaotic.py
index 2195fc6..366041c 100644
--- a/mealpy/utils/chaotic.py
+++ b/mealpy/utils/chaotic.py
@@ -72,7 +72,7 @@ class ChaoticMap:
     @staticmethod
     def tent_map(x: float) -> float:
         """Tent map"""
-        if x < 0.7:
+        if x <= 0.7:
             return x / 0.7
         else:
             return (10 / 3) * (1 - x)
-- 
2.43.0


From 1425b58defd9f828d181f7c90f5692538dd56b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 57/59] fix: every starting solution is checked for its type
 and dimension, not only the first

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 411bc5c..b3e6abf 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -133,7 +133,7 @@ class Optimizer:
         if starting_solutions is None:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
-            if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
+            if all(type(solution) in self.SUPPORTED_ARRAYS and np.shape(solution) == (self.problem.n_dims,) for solution in starting_solutions):
                 if self.mode == "thread":
                     with parallel.ThreadPoolExecutor(self.n_workers) as executor:
                         self.pop = list(executor.map(self.generate_agent, starting_solutions))
-- 
2.43.0


From 79cf548ea0425ebe7c708b8a5db2980a10d0dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 58/59] fix: starting solutions given as lists or tuples become
 arrays like any other position

---
 mealpy/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index b3e6abf..f6b0e6f 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -134,6 +134,7 @@ class Optimizer:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
             if all(type(solution) in self.SUPPORTED_ARRAYS and np.shape(solution) == (self.problem.n_dims,) for solution in starting_solutions):
+                starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]   # Positions are arrays
                 if self.mode == "thread":
                     with parallel.ThreadPoolExecutor(self.n_workers) as executor:
                         self.pop = list(executor.map(self.generate_agent, starting_solutions))
-- 
2.43.0


From 989f792cb3b3bc17eec164ed16d8884730a1df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:35 +0000
Subject: [PATCH 59/59] fix: get_optimizer_by_name lists only the classes of
 the module, not the Optimizer base

---
 mealpy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/__init__.py b/mealpy/__init__.py
index bf03a49..179b7cb 100644
--- a/mealpy/__init__.py
+++ b/mealpy/__init__.py
@@ -123,13 +123,13 @@ def get_optimizer_by_name(name: str, verbose: bool = False):
             for cls_name, cls_obj in inspect.getmembers(obj):
                 if inspect.isclass(cls_obj) and issubclass(cls_obj, Optimizer):
                     cls[cls_name] = cls_obj
+    cls.pop("Optimizer", None)
     if verbose:
         if not flag:
             print(f"Mealpy doesn't support optimizer named: {name}.\n"
                   f"Please see the supported Optimizer name from here:\n"
                   f"https://github.com/thieu1995/mealpy?tab=readme-ov-file#-optimizer-classification-table")
             return None
-        del cls['Optimizer']
         print(f"Found algorithm: {name}, the supported variants are:")
         for name, optimizer in cls.items():
             print(f"Optimizer: {name} - {optimizer} - {optimizer()}")
-- 
2.43.0

