From 7a58136cb761207b0cab91400f3921d2b4798ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 01/46] fix: k-point crossover swaps the segments between the
 cut points

The guard compared a vector position with the number of cut points, so for
k >= 2 every segment after the first started at -1 (the last cell).
---
 eckity/genetic_operators/crossovers/vector_k_point_crossover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
index d58fb19..5c3e589 100644
--- a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
+++ b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
@@ -85,4 +85,4 @@ class VectorKPointsCrossover(GeneticOperator):
             replaced_part = vector1[start_idx:end_idx]
             vector1[start_idx:end_idx] = vector2[start_idx:end_idx]
             vector2[start_idx:end_idx] = replaced_part
-            start_idx = xo_points[i + 1] if end_idx < len(xo_points) else -1
+            start_idx = xo_points[i + 1] if i + 1 < len(xo_points) else -1
-- 
2.43.0


From b42ee3193d7a62db075580ddd5abec56a1ed6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 02/46] fix: a vector mutation that fails all attempts returns
 its individuals

on_fail returned None, which apply_operator then iterated over.
---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 253c623..2674d7d 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -133,4 +133,4 @@ class VectorNPointMutation(FailableOperator):
         payload : object
             relevant data for on_fail (usually the individuals that the mutation was attempted to be applied on)
         """
-        pass
+        return payload
-- 
2.43.0


From 892fb4835fa3f7a3038991ed4fa10dee0efa04cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 03/46] fix: VectorNPointMutation's default value getter passes
 only the index

---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 2674d7d..e0fe527 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -69,7 +69,7 @@ class VectorNPointMutation(FailableOperator):
 
     @staticmethod
     def default_mut_val_getter(vec: Vector, idx: int) -> Union[int, float]:
-        return vec.get_random_number_in_bounds(vec, idx)
+        return vec.get_random_number_in_bounds(idx)
 
     @staticmethod
     def default_success_checker(old_vec: Vector, new_vec: Vector) -> bool:
-- 
2.43.0


From 508569cad83d8027b2b9f8689d857c915fdccd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 04/46] fix: check_if_in_bounds accepts per-cell bounds on
 vectors of length 2

---
 eckity/genetic_encodings/ga/vector_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/ga/vector_individual.py b/eckity/genetic_encodings/ga/vector_individual.py
index 8e6939e..42f015b 100644
--- a/eckity/genetic_encodings/ga/vector_individual.py
+++ b/eckity/genetic_encodings/ga/vector_individual.py
@@ -89,7 +89,7 @@ class Vector(Individual):
             True if all vector cells are in bounds, False otherwise
         """
         for i in range(self.size()):
-            if len(self.bounds) == 2:
+            if type(self.bounds) == tuple:
                 if (self.vector[i] < self.bounds[0]) or (
                     self.vector[i] > self.bounds[1]
                 ):
-- 
2.43.0


From 5f66863ed7c27cdf20e642d970317be44f850e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 05/46] fix: BitStringVector honours its documented per-cell
 bounds

---
 eckity/genetic_encodings/ga/bit_string_vector.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_encodings/ga/bit_string_vector.py b/eckity/genetic_encodings/ga/bit_string_vector.py
index d18bbc2..8dea8fb 100644
--- a/eckity/genetic_encodings/ga/bit_string_vector.py
+++ b/eckity/genetic_encodings/ga/bit_string_vector.py
@@ -53,13 +53,19 @@ class BitStringVector(Vector):
         int
             random value according to bounds field
         """
-        return randint(self.bounds[0], self.bounds[1])
+        low, high = self._cell_bounds(index)
+        return randint(low, high)
 
     def bit_flip(self, index):
         """
         Flip the bit in the given index.
         """
-        return self.bounds[1] \
-            if self.cell_value(index) == self.bounds[0] else self.bounds[0]
+        low, high = self._cell_bounds(index)
+        return high if self.cell_value(index) == low else low
+
+    def _cell_bounds(self, index):
+        if type(self.bounds) == tuple:
+            return self.bounds
+        return self.bounds[index]
 
 # end class bit string vector
-- 
2.43.0


From 6010bc45360c2a18023996c4a277a9d76f66b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 06/46] fix: IntVector's default bounds are ordered (min, max)

---
 eckity/genetic_encodings/ga/int_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/genetic_encodings/ga/int_vector.py b/eckity/genetic_encodings/ga/int_vector.py
index aa99d3f..2324e76 100644
--- a/eckity/genetic_encodings/ga/int_vector.py
+++ b/eckity/genetic_encodings/ga/int_vector.py
@@ -6,8 +6,8 @@ from random import randint
 
 from eckity.genetic_encodings.ga.vector_individual import Vector
 
-MIN_BOUND = 2**31 - 1
-MAX_BOUND = -(2**31)
+MIN_BOUND = -(2**31)
+MAX_BOUND = 2**31 - 1
 
 
 class IntVector(Vector):
-- 
2.43.0


From 5fafeec90d5994b8dc92066a01beec556c8ee514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 07/46] fix: the submit executor method assigns scores, not
 individuals

evaluate returns the individual, so set_fitness stored an Individual as the
fitness score and the comparison that follows raised TypeError.
---
 eckity/evaluators/simple_population_evaluator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eckity/evaluators/simple_population_evaluator.py b/eckity/evaluators/simple_population_evaluator.py
index e0f1b54..d61c6ef 100644
--- a/eckity/evaluators/simple_population_evaluator.py
+++ b/eckity/evaluators/simple_population_evaluator.py
@@ -48,9 +48,7 @@ class SimplePopulationEvaluator(PopulationEvaluator):
 
         if self.executor_method == "submit":
             eval_futures = [
-                self.executor.submit(
-                    sp_eval.evaluate, ind, sub_population.individuals
-                )
+                self.executor.submit(sp_eval.evaluate_individual, ind)
                 for ind in sub_population.individuals
             ]
             eval_results = [future.result() for future in eval_futures]
-- 
2.43.0


From 9aef90d0d1ee02fc1c237f66940561897b36cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 08/46] fix: final_generation_ is set when a run uses all its
 generations

---
 eckity/algorithms/algorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/algorithms/algorithm.py b/eckity/algorithms/algorithm.py
index fdb24fb..b6b1cd8 100644
--- a/eckity/algorithms/algorithm.py
+++ b/eckity/algorithms/algorithm.py
@@ -290,6 +290,8 @@ class Algorithm(Operator, ABC):
                 self.publish("after_generation")
                 break
             self.publish("after_generation")
+        else:
+            self.final_generation_ = self.max_generation
 
     def update_gen(self, gen: int) -> None:
         """
-- 
2.43.0


From cd17b6014e5eb514469c0ac6faa0c66d302adc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 09/46] fix: an algorithm that ran can be copied and pickled

The population evaluator kept a reference to the executor, which cannot be
pickled, so copying or pickling the algorithm failed once it was initialized.
---
 eckity/evaluators/population_evaluator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eckity/evaluators/population_evaluator.py b/eckity/evaluators/population_evaluator.py
index 98faec5..596ba67 100644
--- a/eckity/evaluators/population_evaluator.py
+++ b/eckity/evaluators/population_evaluator.py
@@ -29,3 +29,9 @@ class PopulationEvaluator(Operator):
 
 	def set_executor(self, executor: Executor):
 		self.executor = executor
+
+	def __getstate__(self):
+		# the executor cannot be pickled; the algorithm sets it again
+		state = self.__dict__.copy()
+		state["executor"] = None
+		return state
-- 
2.43.0


From f4f29f97ada040932759d71fab839d1bf1879cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 10/46] fix: operators accept the documented list of event
 names

A list was stored as the subscribers dictionary, so register and publish
raised TypeError on every selection method and on operators given events.
---
 eckity/before_after_publisher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index fc507a5..bda9b6f 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -4,7 +4,11 @@ AFTER_OPERATOR_EVENT_NAME = 'after_operator'
 
 class BeforeAfterPublisher:
     def __init__(self, events=None, event_names=None):
-        ext_events_names = event_names if event_names is not None else []
+        ext_events_names = list(event_names) if event_names is not None else []
+        if isinstance(events, (list, tuple)):
+            # a list of custom event names
+            ext_events_names.extend(events)
+            events = None
         if events is None:
             # Initialize events dictionary with event names as keys and subscribers as values
             ext_events_names.extend([BEFORE_OPERATOR_EVENT_NAME, AFTER_OPERATOR_EVENT_NAME])
-- 
2.43.0


From 247b65182c5bb8a668fe684317688d3b751e81a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 11/46] fix: creators pass their events as events, not as the
 arity

---
 eckity/creators/creator.py          | 2 +-
 eckity/creators/gp_creators/half.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eckity/creators/creator.py b/eckity/creators/creator.py
index 5946031..babc57c 100644
--- a/eckity/creators/creator.py
+++ b/eckity/creators/creator.py
@@ -8,7 +8,7 @@ from eckity.fitness.simple_fitness import SimpleFitness
 
 class Creator(Operator):
     def __init__(self, events=None, fitness_type=SimpleFitness):
-        super().__init__(events)
+        super().__init__(events=events)
         self.created_individuals = None
         self.fitness_type = fitness_type
 
diff --git a/eckity/creators/gp_creators/half.py b/eckity/creators/gp_creators/half.py
index f24ed9a..0304e4a 100644
--- a/eckity/creators/gp_creators/half.py
+++ b/eckity/creators/gp_creators/half.py
@@ -63,7 +63,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
-                events=self.events,
+                events=events,
                 root_type=root_type,
                 erc_range=self.erc_range,
             )
@@ -72,7 +72,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
-                events=self.events,
+                events=events,
                 root_type=root_type,
                 erc_range=self.erc_range,
             )
-- 
2.43.0


From 63fb019fd0b3fa7c3e6a8627a6801a19c6de1254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 12/46] fix: registering without a callback installs a callable

---
 eckity/before_after_publisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index bda9b6f..c4f722b 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -24,7 +24,7 @@ class BeforeAfterPublisher:
     def register(self, event, callback=None):
         # TODO warning if register to a fake event
         if callback is None:
-            callback = {lambda _: None}
+            callback = lambda *_: None
         self._get_subscribers(event)[self.customers_id] = callback
         self.customers_id += 1
         return self.customers_id - 1
-- 
2.43.0


From 22bf71ebc7312a9a756d1928f1c3b95a005b22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 13/46] fix: constants of the terminal set are not missing
 variables in execute

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 58fa8d4..97e6e1b 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -269,7 +269,12 @@ class Tree(Individual):
                 f"received variable arguments not in terminal set: {bad_vars}"
             )
 
-        missing_vars = [item for item in self.terminal_set if item not in kw]
+        # only names are variables, other terminals are constants
+        missing_vars = [
+            item
+            for item in self.terminal_set
+            if isinstance(item, str) and item not in kw
+        ]
         if len(missing_vars) > 0:
             raise ValueError(
                 f"Missing variable terminals as execute kwargs: {missing_vars}"
-- 
2.43.0


From f1ae326ba443525e521bc4ea24f6df26e3ef2ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 14/46] fix: a tree with constant terminals can be printed

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 97e6e1b..34d9885 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -504,9 +504,13 @@ class Tree(Individual):
             return typed_add(1.0, 2.0)
         """
         args = (
-            list(self.terminal_set.keys())
+            [k for k in self.terminal_set if isinstance(k, str)]
             if None in self.terminal_set.values()
-            else [f"{k}: {v.__name__}" for k, v in self.terminal_set.items()]
+            else [
+                f"{k}: {v.__name__}"
+                for k, v in self.terminal_set.items()
+                if isinstance(k, str)
+            ]
         )
         ret_type_str = (
             ""
-- 
2.43.0


From 4213421689866140b7b2c1c6afa2ebe3a5c1057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 15/46] fix: a tree that is a constant keeps its value on
 integer input

full_like used the dtype of X and truncated the constant.
---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 34d9885..a9ee150 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -284,7 +284,7 @@ class Tree(Individual):
 
         if reshape and (isinstance(res, Number) or res.shape == np.shape(0)):
             # sometimes a tree degenrates to a scalar value
-            res = np.full_like(X[:, 0], res)
+            res = np.full(X.shape[0], res)
         return res
 
     def _execute(self, pos, **kwargs):
-- 
2.43.0


From cd67da0a617886e48f19c570a27819da780bc03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 16/46] fix: a random terminal has the type that was asked for

ERCs were offered for any numeric type (bool included), and the node type
was looked up by value, where 1, 1.0 and True are the same key.
---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index a9ee150..53a91c3 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -203,7 +203,7 @@ class Tree(Individual):
         ]
 
         if self.erc_range is not None and (
-            node_type is None or issubclass(node_type, Number)
+            node_type is None or node_type == self.erc_type
         ):
             relevant_terminals.append(
                 random.uniform(*self.erc_range)
@@ -217,11 +217,6 @@ class Tree(Individual):
 
         terminal = random.choice(relevant_terminals)
 
-        # erc terminal will be typeless in untyped case,
-        # and int/float in typed case
-        default_type = None if node_type is None else type(terminal)
-        node_type = self.terminal_set.get(terminal, default_type)
-
         return TerminalNode(terminal, node_type=node_type)
 
     def execute(self, *args, **kwargs) -> object:
-- 
2.43.0


From decdd80f83819c3e27546fd78cc696225dfa7efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 17/46] fix: ERC mutation keeps the type of a typed constant

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 1 +
 eckity/genetic_operators/mutations/erc_mutation.py  | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 53a91c3..981f10f 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -325,6 +325,7 @@ class Tree(Individual):
         erc_nodes = self.filter_tree(
             lambda node: isinstance(node, TerminalNode)
             and isinstance(node.value, Number)
+            and not isinstance(node.value, bool)
         )
         return random.choice(erc_nodes) if erc_nodes else None
 
diff --git a/eckity/genetic_operators/mutations/erc_mutation.py b/eckity/genetic_operators/mutations/erc_mutation.py
index 083bdd1..4f91d90 100644
--- a/eckity/genetic_operators/mutations/erc_mutation.py
+++ b/eckity/genetic_operators/mutations/erc_mutation.py
@@ -41,7 +41,8 @@ class ERCMutation(FailableOperator):
 
         mu, sigma = self.mu, self.sigma
         for terminal in leaves:
-            terminal.value = terminal.value + random.gauss(mu, sigma)
+            value = terminal.value + random.gauss(mu, sigma)
+            terminal.value = round(value) if terminal.node_type is int else value
 
         self.applied_individuals = individuals
         return True, individuals
-- 
2.43.0


From fafdc833f9dfde769968dbd359c65108fe4bd8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 18/46] fix: HalfCreator passes bloat_weight to its creators

---
 eckity/creators/gp_creators/half.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/creators/gp_creators/half.py b/eckity/creators/gp_creators/half.py
index 0304e4a..edb517c 100644
--- a/eckity/creators/gp_creators/half.py
+++ b/eckity/creators/gp_creators/half.py
@@ -63,6 +63,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=self.bloat_weight,
                 events=events,
                 root_type=root_type,
                 erc_range=self.erc_range,
@@ -72,6 +73,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=self.bloat_weight,
                 events=events,
                 root_type=root_type,
                 erc_range=self.erc_range,
-- 
2.43.0


From 3e03fe51c39f5e2883b993f9ed2300dfe58f6bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 19/46] fix: trees created without a fitness do not share one

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 981f10f..807c854 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -34,7 +34,7 @@ class Tree(Individual):
 
     def __init__(
         self,
-        fitness: Fitness = GPFitness(),
+        fitness: Fitness = None,
         function_set: List[Callable] = None,
         terminal_set: Union[Dict[Any, type], List[Any]] = None,
         tree: List[TreeNode] = None,
@@ -69,6 +69,8 @@ class Tree(Individual):
         ValueError
             If typed function is used with untyped terminals.
         """
+        if fitness is None:
+            fitness = GPFitness()
         super().__init__(fitness, update_parents=update_parents)
 
         self.erc_range = erc_range
-- 
2.43.0


From 6cbdc0e2e5fadba34900d45643be89e4f64841d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 20/46] fix: algorithms with the default breeder do not share
 it

---
 eckity/algorithms/simple_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/algorithms/simple_evolution.py b/eckity/algorithms/simple_evolution.py
index fd50949..409ce14 100644
--- a/eckity/algorithms/simple_evolution.py
+++ b/eckity/algorithms/simple_evolution.py
@@ -85,7 +85,7 @@ class SimpleEvolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder: SimpleBreeder = SimpleBreeder(),
+        breeder: SimpleBreeder = None,
         population_evaluator: SimplePopulationEvaluator = None,
         max_generation=500,
         events=None,
-- 
2.43.0


From 9a0c8338c25492eec015cb1737abda32f7f55529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 21/46] fix: NSGA2Evolution's defaults work and are not shared

With the default SimpleBreeder each generation halved the population.
---
 .../nsga2_evolution.py                        | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index fd26bea..5c5d6fd 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -4,10 +4,10 @@ from time import time
 from overrides import overrides
 
 from eckity.algorithms.algorithm import Algorithm
-from eckity.breeders.simple_breeder import SimpleBreeder
 from eckity.evaluators import SimplePopulationEvaluator
+from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
 from eckity.multi_objective_evolution.nsga2_front_sorting import (
-    NSGA2FrontSorting,
+    NSGA2FrontSorting as FrontSorting,
 )
 from eckity.random import RNG
 from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
@@ -20,9 +20,9 @@ class NSGA2Evolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder=SimpleBreeder(),
-        population_evaluator=SimplePopulationEvaluator(),
-        NSGA2FrontSorting=NSGA2FrontSorting(),
+        breeder=None,
+        population_evaluator=None,
+        NSGA2FrontSorting=None,
         max_generation=500,
         events=None,
         event_names=None,
@@ -52,6 +52,15 @@ class NSGA2Evolution(Algorithm):
         if statistics is None:
             statistics = []
 
+        if breeder is None:
+            breeder = NSGA2Breeder()
+
+        if population_evaluator is None:
+            population_evaluator = SimplePopulationEvaluator()
+
+        if NSGA2FrontSorting is None:
+            NSGA2FrontSorting = FrontSorting()
+
         super().__init__(
             population,
             statistics=statistics,
-- 
2.43.0


From faca83392cd09531c8f6fead3376ebcda865c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 22/46] fix: NSGA2Evolution has no single-objective default
 termination checker

It subtracted a number from the list of objectives (TypeError).
---
 eckity/multi_objective_evolution/nsga2_evolution.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 5c5d6fd..1c1bc42 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -10,7 +10,6 @@ from eckity.multi_objective_evolution.nsga2_front_sorting import (
     NSGA2FrontSorting as FrontSorting,
 )
 from eckity.random import RNG
-from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
 
 logger = logging.getLogger(__name__)
 
@@ -26,7 +25,7 @@ class NSGA2Evolution(Algorithm):
         max_generation=500,
         events=None,
         event_names=None,
-        termination_checker=ThresholdFromTargetTerminationChecker(threshold=0),
+        termination_checker=None,
         executor="thread",
         max_workers=None,
         random_generator=RNG(),
-- 
2.43.0


From b1226e5f49792754ea59a10e9f7d181eb4eb9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 23/46] fix: NSGA2Evolution releases its executor when the run
 ends

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 1c1bc42..ea6c8e5 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -162,6 +162,7 @@ class NSGA2Evolution(Algorithm):
         """
         Finish the evolutionary run by showing the best individual and printing the best fitness
         """
+        super().finish()
         self.best_of_run_.show()
         logger.info(self.best_of_run_.get_pure_fitness())
 
-- 
2.43.0


From 5809cddede2353c667ee0ce18633c6fabc4dc228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 24/46] fix: elites are copied as they are to the next
 generation

The operator sequence was applied to the elites too.
---
 eckity/breeders/simple_breeder.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/eckity/breeders/simple_breeder.py b/eckity/breeders/simple_breeder.py
index 6836646..edca783 100644
--- a/eckity/breeders/simple_breeder.py
+++ b/eckity/breeders/simple_breeder.py
@@ -64,10 +64,11 @@ class SimpleBreeder(Breeder):
                 0
             ][0].select(subpopulation.individuals, nextgen_population)
 
-            # then runs all operators on next_gen
-            nextgen_population = self._apply_operators(
+            # then runs all operators on next_gen, elites are kept as they are
+            elites = self.selected_individuals[:num_elites]
+            nextgen_population = elites + self._apply_operators(
                 subpopulation.get_operators_sequence(),
-                self.selected_individuals,
+                self.selected_individuals[num_elites:],
             )
 
             subpopulation.individuals = nextgen_population
@@ -91,7 +92,9 @@ class SimpleBreeder(Breeder):
         """
         for operator in operator_seq:
             operator_arity = operator.get_operator_arity()
-            for i in range(0, len(individuals_to_apply_on), operator_arity):
+            # individuals that do not fill a whole group are left as they are
+            n_applied = len(individuals_to_apply_on) // operator_arity * operator_arity
+            for i in range(0, n_applied, operator_arity):
                 op_res = operator.apply_operator(
                     individuals_to_apply_on[i: i + operator_arity]
                 )
-- 
2.43.0


From c1b9243ef0904717d21552831fa16222dffaf070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 25/46] fix: NSGA-II front sorting does not depend on object
 hashes

The order of a set of individuals made seeded runs irreproducible.
---
 eckity/multi_objective_evolution/nsga2_front_sorting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_front_sorting.py b/eckity/multi_objective_evolution/nsga2_front_sorting.py
index 3e34ef2..e4deb71 100644
--- a/eckity/multi_objective_evolution/nsga2_front_sorting.py
+++ b/eckity/multi_objective_evolution/nsga2_front_sorting.py
@@ -58,7 +58,8 @@ class NSGA2FrontSorting():
 		for dominating_ind in pareto_front:
 			for dominated_ind in self.domination_dict[dominating_ind].dominates:
 				self.domination_dict[dominated_ind].domination_counter -= 1
-		return list(set(source_inds) - set(pareto_front))
+		removed = set(pareto_front)
+		return [ind for ind in source_inds if ind not in removed]
 
 	def _update_new_pareto_front_rank(self, new_pareto_front: List[Individual], front_rank: int):
 		for ind in new_pareto_front:
-- 
2.43.0


From b49e66d76bc52a3106bced8567e8a6b9cc02dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 26/46] fix: in NSGA-II a lower front rank is better, as
 documented

---
 eckity/multi_objective_evolution/nsga2_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_fitness.py b/eckity/multi_objective_evolution/nsga2_fitness.py
index 3bc7714..a5c29d5 100644
--- a/eckity/multi_objective_evolution/nsga2_fitness.py
+++ b/eckity/multi_objective_evolution/nsga2_fitness.py
@@ -82,7 +82,7 @@ class NSGA2Fitness(Fitness):
             self.check_comparable_fitnesses(other_fitness, ind, other_ind)
             if self.front_rank == other_ind.fitness.front_rank:
                 return self.crowding > other_ind.fitness.crowding
-            return self.front_rank > other_ind.fitness.front_rank
+            return self.front_rank < other_ind.fitness.front_rank
 
     def equal_to(self, ind, other_fitness, other_ind):
         return (
-- 
2.43.0


From f90bcc5508bc97433c4afe337d1a8135e11a4f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 27/46] fix: an operator of probability 0 is never applied

---
 eckity/genetic_operators/genetic_operator.py                 | 2 +-
 eckity/genetic_operators/mutations/vector_random_mutation.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_operators/genetic_operator.py b/eckity/genetic_operators/genetic_operator.py
index 95220c1..9e440b2 100644
--- a/eckity/genetic_operators/genetic_operator.py
+++ b/eckity/genetic_operators/genetic_operator.py
@@ -42,7 +42,7 @@ class GeneticOperator(Operator, ABC):
         List[Individual]
             The individuals after applying the operator.
         """
-        if random.random() <= self.probability:
+        if random.random() < self.probability:
             # Fitness is irrelevant once the operator is applied
             for individual in individuals:
                 individual.set_fitness_not_evaluated()
diff --git a/eckity/genetic_operators/mutations/vector_random_mutation.py b/eckity/genetic_operators/mutations/vector_random_mutation.py
index 1f3cfff..6102c67 100644
--- a/eckity/genetic_operators/mutations/vector_random_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_random_mutation.py
@@ -216,7 +216,7 @@ class IntVectorOnePointMutation(VectorNPointMutation):
         super().__init__(probability=probability,
                          arity=arity,
                          mut_val_getter=lambda individual, index: individual.get_random_number_in_bounds(
-                             index) if random() <= self.probability_for_each else individual.cell_value(index),
+                             index) if random() < self.probability_for_each else individual.cell_value(index),
                          events=events, cell_selector=lambda vec: list(range(vec.size())))
 
 
@@ -310,7 +310,7 @@ class BitStringVectorNFlipMutation(VectorNPointMutation):
             arity=arity,
             mut_val_getter=lambda individual, index: (
                 individual.bit_flip(index)
-                if random() <= self.probability_for_each
+                if random() < self.probability_for_each
                 else individual.cell_value(index)
             ),
             events=events,
-- 
2.43.0


From 16aad7ae8370fb2cb1299f8d8c84b05873a159bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 28/46] fix: selected_by and applied_operators describe the
 last generation only

clone copied them, so they grew over the whole run.
---
 eckity/individual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/individual.py b/eckity/individual.py
index 78c541d..b6d3242 100644
--- a/eckity/individual.py
+++ b/eckity/individual.py
@@ -62,6 +62,8 @@ class Individual:
     def clone(self):
         result = deepcopy(self)
         result.cloned_from = self.id
+        result.selected_by = []
+        result.applied_operators = []
         if result.update_parents:
             result.parents = []
         result.update_id()
-- 
2.43.0


From 315395fd02bf62aa81578127cd39d796d80d2d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 29/46] fix: creation probabilities may sum to 1 up to rounding

---
 eckity/subpopulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/subpopulation.py b/eckity/subpopulation.py
index a7d2d1e..7cdd722 100644
--- a/eckity/subpopulation.py
+++ b/eckity/subpopulation.py
@@ -1,4 +1,5 @@
 import logging
+import math
 import random
 
 import numpy as np
@@ -101,7 +102,7 @@ class Subpopulation:
                 f"Number of creators ({len(creators)}) \
                 must match number of creation probabilities {(len(pcr))}!"
             )
-        if sum(pcr) != 1:
+        if not math.isclose(sum(pcr), 1):
             raise ValueError(
                 f"Sum of creation probabilities ({pcr}) must be 1!"
             )
-- 
2.43.0


From 278c42e56f1ced189f26bdbd7ac76e66fb890f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 30/46] fix: multi-objective statistics accept more than two
 front corners

With three objectives a front can have more extreme points.
---
 eckity/multi_objective_evolution/moe_best_worst_statistics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/moe_best_worst_statistics.py b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
index 398c382..e63d88f 100644
--- a/eckity/multi_objective_evolution/moe_best_worst_statistics.py
+++ b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
@@ -75,5 +75,4 @@ class MOEBestWorstStatistics(Statistics):
             and indiv.fitness.crowding == float("inf")
         ]
         result = [list(x) for x in set(tuple(x) for x in result)]  # unique
-        assert len(result) in [1, 2]
         return result
-- 
2.43.0


From 9b125ddd229b9c4599a0d124c6b6f9fd07405f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:05 +0000
Subject: [PATCH 31/46] fix: argmax2floats accepts a mixture of scalars and
 arrays

A tree under argmax may mix constants with features; np.argmax([array, 1.0])
raised ValueError instead of broadcasting the constant.
---
 eckity/base/typed_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/base/typed_functions.py b/eckity/base/typed_functions.py
index 3ce0c5d..56e9ec5 100644
--- a/eckity/base/typed_functions.py
+++ b/eckity/base/typed_functions.py
@@ -121,7 +121,7 @@ def if_then_else(test: bool, dit: Any, dif: Any) -> float:
 
 
 def argmax2floats(x0: float, x1: float) -> t_argmax:
-    return np.argmax([x0, x1], axis=0)
+    return np.argmax(np.broadcast_arrays(x0, x1), axis=0)
 
 
 def and2ints(x: int, y: int) -> int:
-- 
2.43.0


From 4e30137fd7e209c897fd567635c9d4e277539243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:35 +0000
Subject: [PATCH 32/46] fix: the default vector creator gives bit strings
 integer bounds

---
 eckity/creators/ga_creators/simple_vector_creator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/creators/ga_creators/simple_vector_creator.py b/eckity/creators/ga_creators/simple_vector_creator.py
index 4d949e6..836f215 100644
--- a/eckity/creators/ga_creators/simple_vector_creator.py
+++ b/eckity/creators/ga_creators/simple_vector_creator.py
@@ -8,7 +8,7 @@ class GAVectorCreator(Creator):
         self,
         length=1,
         gene_creator=None,
-        bounds=(0.0, 1.0),
+        bounds=(0, 1),
         vector_type=BitStringVector,
         fitness_type=SimpleFitness,
         events=None,
-- 
2.43.0


From 158e9a1cc42293b6aadb22339c6e18238242217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:06 +0000
Subject: [PATCH 33/46] fix: a creator can be applied through act

Operator.act hands apply_operator one payload; Creator passed it as the
number of individuals and left the direction out, so act always raised.
---
 eckity/creators/creator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/creators/creator.py b/eckity/creators/creator.py
index babc57c..f71ae9f 100644
--- a/eckity/creators/creator.py
+++ b/eckity/creators/creator.py
@@ -19,7 +19,8 @@ class Creator(Operator):
         pass
 
     def apply_operator(self, payload: Any) -> Any:
-        return self.create_individuals(payload)
+        n_individuals, higher_is_better = payload
+        return self.create_individuals(n_individuals, higher_is_better)
 
     def event_name_to_data(self, event_name: str) -> Dict[str, Any]:
         return (
-- 
2.43.0


From ef8e7ddfbd00ab052e727dad2f1752c580ee7efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:06 +0000
Subject: [PATCH 34/46] fix: a subscriber may register or unregister while it
 is notified

Publishing iterated over the live dictionary of subscribers and raised
RuntimeError as soon as a callback unregistered itself.
---
 eckity/before_after_publisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index c4f722b..652b552 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -35,7 +35,7 @@ class BeforeAfterPublisher:
 
     def publish(self, event_name):
         struct = self.event_name_to_data(event_name)
-        for subscriber, callback in self._get_subscribers(event_name).items():
+        for subscriber, callback in list(self._get_subscribers(event_name).items()):
             callback(self, struct)
 
     def event_name_to_data(self, event_name):
-- 
2.43.0


From 45b9f2e6c8eb6a4a46d92fae645bd7ed4de12580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 35/46] fix: registering does not replace subscribers of a
 given events dictionary

A publisher created with an existing dictionary (deserialization/clone)
counted its subscriber ids from 0 again, so the first registrations
overwrote the subscribers already there.
---
 eckity/before_after_publisher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 652b552..4b36c74 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -16,7 +16,10 @@ class BeforeAfterPublisher:
         else:
             # Assign an already existing dictionary, in case of deserialization/clone
             self.events = events
-        self.customers_id = 0
+        # ids of existing subscribers must not be given out again
+        self.customers_id = 1 + max(
+            (key for subscribers in self.events.values() for key in subscribers if isinstance(key, int)),
+            default=-1)
 
     def _get_subscribers(self, event_name):
         return self.events[event_name]
-- 
2.43.0


From 9e58379f7d8363c2147efdbcf0a1a84cda7a69a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 36/46] fix: a resumed algorithm writes its statistics once

The copy of an algorithm that ran carries the registered statistics and
registered them again when evolved, so every generation was reported twice.
---
 eckity/algorithms/simple_evolution.py               | 4 +++-
 eckity/multi_objective_evolution/nsga2_evolution.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/eckity/algorithms/simple_evolution.py b/eckity/algorithms/simple_evolution.py
index 409ce14..7c091bf 100644
--- a/eckity/algorithms/simple_evolution.py
+++ b/eckity/algorithms/simple_evolution.py
@@ -164,7 +164,9 @@ class SimpleEvolution(Algorithm):
         """
         super().initialize()
         for stat in self.statistics:
-            self.register("after_generation", stat.write_statistics)
+            # a resumed algorithm has already registered its statistics
+            if stat.write_statistics not in self.events["after_generation"].values():
+                self.register("after_generation", stat.write_statistics)
 
     @overrides
     def generation_iteration(self, gen: int) -> bool:
diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index ea6c8e5..e0ab6ef 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -135,7 +135,9 @@ class NSGA2Evolution(Algorithm):
         """
         super().initialize()
         for stat in self.statistics:
-            self.register("after_generation", stat.write_statistics)
+            # a resumed algorithm has already registered its statistics
+            if stat.write_statistics not in self.events["after_generation"].values():
+                self.register("after_generation", stat.write_statistics)
 
     def execute(self, **kwargs):
         """
-- 
2.43.0


From b8511a061429ace3d7367644d833bba3740b63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:03 +0000
Subject: [PATCH 37/46] fix: vector mutations can be pickled

Their value getters were lambdas, so no algorithm using them could be
saved; and the lambdas that read probability_for_each kept reading the
original operator's after the operator had been copied.
---
 .../mutations/vector_random_mutation.py       | 59 +++++++++++--------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/eckity/genetic_operators/mutations/vector_random_mutation.py b/eckity/genetic_operators/mutations/vector_random_mutation.py
index 6102c67..ac352f6 100644
--- a/eckity/genetic_operators/mutations/vector_random_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_random_mutation.py
@@ -1,3 +1,4 @@
+from functools import partial
 from random import random
 
 from eckity.genetic_operators.mutations.vector_n_point_mutation import (
@@ -14,6 +15,9 @@ the way of selecting cells to mutate (cell_selector),
 the way of checking if the new value is legal (success_checker).
 For additional information, see the VectorNPointMutation class.
 
+The functions are module-level functions or methods, so that the mutations
+(and algorithms that use them) can be copied and pickled.
+
 Standard parameters for the mutation are number of mutation points (n),
 the probability of the operator itself to occur (probability),
 the probability of each point to be mutated (probability_for_each),
@@ -21,6 +25,18 @@ the number of attempts to be made, etc.
 """
 
 
+def _gauss_value(vec, index, mu, sigma):
+    return vec.get_random_number_with_gauss(index, mu, sigma)
+
+
+def _flipped_bit(vec, index):
+    return vec.bit_flip(index)
+
+
+def _all_cells(vec):
+    return list(range(vec.size()))
+
+
 class FloatVectorUniformOnePointMutation(VectorNPointMutation):
     """
     Uniform One Point Float Mutation.
@@ -43,9 +59,6 @@ class FloatVectorUniformOnePointMutation(VectorNPointMutation):
             n=1,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_in_bounds(
-                index
-            ),
             events=events,
         )
 
@@ -72,9 +85,6 @@ class FloatVectorUniformNPointMutation(VectorNPointMutation):
             n=n,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_in_bounds(
-                index
-            ),
             events=events,
         )
 
@@ -119,9 +129,7 @@ class FloatVectorGaussOnePointMutation(VectorNPointMutation):
             n=1,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_with_gauss(
-                index, mu, sigma
-            ),
+            mut_val_getter=partial(_gauss_value, mu=mu, sigma=sigma),
             events=events,
             attempts=attempts,
         )
@@ -177,9 +185,7 @@ class FloatVectorGaussNPointMutation(VectorNPointMutation):
             n=n,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_with_gauss(
-                index, mu, sigma
-            ),
+            mut_val_getter=partial(_gauss_value, mu=mu, sigma=sigma),
             events=events,
             attempts=attempts,
         )
@@ -215,9 +221,12 @@ class IntVectorOnePointMutation(VectorNPointMutation):
         self.probability_for_each = probability_for_each
         super().__init__(probability=probability,
                          arity=arity,
-                         mut_val_getter=lambda individual, index: individual.get_random_number_in_bounds(
-                             index) if random() < self.probability_for_each else individual.cell_value(index),
-                         events=events, cell_selector=lambda vec: list(range(vec.size())))
+                         mut_val_getter=self._maybe_random_value,
+                         events=events, cell_selector=_all_cells)
+
+    def _maybe_random_value(self, individual, index):
+        return individual.get_random_number_in_bounds(
+            index) if random() < self.probability_for_each else individual.cell_value(index)
 
 
 class IntVectorNPointMutation(VectorNPointMutation):
@@ -241,9 +250,6 @@ class IntVectorNPointMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: individual.get_random_number_in_bounds(
-                index
-            ),
             events=events,
             n=n,
         )
@@ -268,9 +274,7 @@ class BitStringVectorFlipMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: individual.bit_flip(
-                index
-            ),
+            mut_val_getter=_flipped_bit,
             n=1,
             events=events,
         )
@@ -308,11 +312,14 @@ class BitStringVectorNFlipMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: (
-                individual.bit_flip(index)
-                if random() < self.probability_for_each
-                else individual.cell_value(index)
-            ),
+            mut_val_getter=self._maybe_flipped_bit,
             events=events,
             n=n
         )
+
+    def _maybe_flipped_bit(self, individual, index):
+        return (
+            individual.bit_flip(index)
+            if random() < self.probability_for_each
+            else individual.cell_value(index)
+        )
-- 
2.43.0


From 33677152b83ed06a20b8c3a7b70faebdbea2461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:03 +0000
Subject: [PATCH 38/46] fix: an NSGA2Evolution that ran can be pickled

Its front sorting kept a defaultdict with a lambda.
---
 eckity/multi_objective_evolution/nsga2_front_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_front_sorting.py b/eckity/multi_objective_evolution/nsga2_front_sorting.py
index e4deb71..932f2a7 100644
--- a/eckity/multi_objective_evolution/nsga2_front_sorting.py
+++ b/eckity/multi_objective_evolution/nsga2_front_sorting.py
@@ -83,7 +83,7 @@ class NSGA2FrontSorting():
 					front[i].fitness.crowding += curr_crowding
 
 	def _init_domination_dict(self, source_inds: List[Individual]):
-		self.domination_dict = defaultdict(lambda: DominationCounter())
+		self.domination_dict = defaultdict(DominationCounter)
 		for i, ind1 in enumerate(source_inds):
 			for ind2 in source_inds[i + 1:]:
 				self._habdle_domination(ind1, ind2)
-- 
2.43.0


From 54d194e5907cfb0d8e11979b9a15c87b4e55751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:03 +0000
Subject: [PATCH 39/46] fix: a publisher with a subscriber without callback can
 be pickled

---
 eckity/before_after_publisher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 4b36c74..8bac4a7 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -2,6 +2,10 @@ BEFORE_OPERATOR_EVENT_NAME = 'before_operator'
 AFTER_OPERATOR_EVENT_NAME = 'after_operator'
 
 
+def _ignore_event(sender, data):
+    """the callback of a subscriber that gave none"""
+
+
 class BeforeAfterPublisher:
     def __init__(self, events=None, event_names=None):
         ext_events_names = list(event_names) if event_names is not None else []
@@ -27,7 +31,7 @@ class BeforeAfterPublisher:
     def register(self, event, callback=None):
         # TODO warning if register to a fake event
         if callback is None:
-            callback = lambda *_: None
+            callback = _ignore_event
         self._get_subscribers(event)[self.customers_id] = callback
         self.customers_id += 1
         return self.customers_id - 1
-- 
2.43.0


From 68d2fc462f52d88e970759ad497dd4e084abccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:50 +0000
Subject: [PATCH 40/46] fix: terminal nodes are compared by value

They were compared by the identity of their values. A pickled tree has
new float objects, so a run resumed from a saved algorithm chose other
subtrees than the uninterrupted one.
---
 eckity/genetic_encodings/gp/tree/tree_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_node.py b/eckity/genetic_encodings/gp/tree/tree_node.py
index 6cc07f1..a3a78bd 100644
--- a/eckity/genetic_encodings/gp/tree/tree_node.py
+++ b/eckity/genetic_encodings/gp/tree/tree_node.py
@@ -95,7 +95,8 @@ class TerminalNode(TreeNode):
         return (
             super().__eq__(other)
             and isinstance(other, TerminalNode)
-            and self.value is other.value
+            and type(self.value) is type(other.value)
+            and self.value == other.value
         )
 
     def __str__(self):
-- 
2.43.0


From fe4386570d09eb3a21586b4bdd9982f45446c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:47 +0000
Subject: [PATCH 41/46] fix: trees with an argmax root can be pickled

Pickle looks a class up by its name, which was not the one it is known
by, so such trees could neither be saved nor evaluated by processes.
---
 eckity/base/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/base/types.py b/eckity/base/types.py
index 7bcd016..efad9a0 100644
--- a/eckity/base/types.py
+++ b/eckity/base/types.py
@@ -1 +1,2 @@
-t_argmax = type("argmax", (int,), {})
+# the name must be the variable's, otherwise the type cannot be pickled
+t_argmax = type("t_argmax", (int,), {})
-- 
2.43.0


From 3488c3233b2f03d1d5f1bd9308b7fdacff78bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 42/46] fix: add_tree checks a node's type against the
 parameter it fills

---
 .../gp/tree/tree_individual.py                | 43 ++++++++-----------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 807c854..bda22e9 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -111,36 +111,31 @@ class Tree(Individual):
 
     def add_tree(self, node: TreeNode) -> None:
         """Add a node to the tree following the defined type constrains"""
-        if (
-            self.size() == 0 and node.node_type == self.root_type
-        ) or self._should_add([0], node):
+        if self._should_add(node):
             self.tree.append(node)
         else:
             raise ValueError(f"Could not add node {node} to tree {self.tree}")
 
-    def _should_add(self, pos: int, new_node: TreeNode) -> bool:
+    def _should_add(self, new_node: TreeNode) -> bool:
         """
-        Recursively find the parent function of the new node and check it
-        matches by type to the expected parameter. (pos is a size-1 list
-        so as to pass "by reference" on successive recursive calls).
+        Find the parameter the new node is going to fill
+        and check it matches by type.
         """
-        if (
-            pos[0] == self.size()
-        ):  # reached the place the new node should be placed
-            return True
-
-        node = self.tree[pos[0]]
-        res = None
-        if isinstance(node, FunctionNode):
-            func_types = get_func_types(node.function)
-            for i in range(node.n_args):
-                pos[0] += 1
-                res = self._should_add(pos, node)
-                if res:
-                    return func_types[i] == new_node.node_type
-                elif res is not None:
-                    return res
-        return res
+        if self.size() == 0:
+            # untyped functions are also accepted as roots
+            return new_node.node_type in (None, self.root_type)
+
+        # types of the parameters that are still missing, next one last
+        missing_types = [None]
+        for node in self.tree:
+            missing_types.pop()
+            if isinstance(node, FunctionNode):
+                func_types = get_func_types(node.function)
+                missing_types.extend(reversed(func_types[: node.n_args]))
+
+        return (
+            len(missing_types) > 0 and missing_types[-1] == new_node.node_type
+        )
 
     def empty_tree(self) -> None:
         self.tree = []
-- 
2.43.0


From c5e37ac90419ed45734d791df1ebbb390c981a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:31 +0000
Subject: [PATCH 43/46] fix: replace_subtree replaces the given subtree, not an
 earlier one with an equal root

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index bda22e9..59d7e21 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -368,7 +368,13 @@ class Tree(Individual):
         -------
         None
         """
-        start_i = self.tree.index(old_subtree[0])
+        old_root = old_subtree[0]
+        # other nodes may be equal to the root of the replaced subtree
+        start_i = next(
+            (i for i, node in enumerate(self.tree) if node is old_root), None
+        )
+        if start_i is None:
+            start_i = self.tree.index(old_root)
         end_i = start_i + len(old_subtree)
         left_part = self.tree[:start_i]
         right_part = self.tree[end_i:]
-- 
2.43.0


From f4d1091e6eb0100e3d28a08d7f97e3bc7b65bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 44/46] fix: a random subtree can be any subtree, not only the
 first with an equal root

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 59d7e21..be7a706 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -333,10 +333,11 @@ class Tree(Individual):
         relevant_nodes = self.filter_tree(
             lambda node: node.node_type is None  # untyped case
             or (
-                node_type is None and node != self.root
+                node_type is None and node is not self.root
             )  # typed case with first invocation
             or (
-                node.node_type == node_type and node != self.root
+                node.node_type == node_type
+                and node is not self.root
             )  # typed case with subsequent invocations
         )
         if not relevant_nodes:
@@ -346,7 +347,13 @@ class Tree(Individual):
         return self._get_subtree_by_root(subtree_root)
 
     def _get_subtree_by_root(self, subtree_root: TreeNode) -> List[TreeNode]:
-        start_i = self.tree.index(subtree_root)
+        # other nodes may be equal to the root of the subtree
+        start_i = next(
+            (i for i, node in enumerate(self.tree) if node is subtree_root),
+            None,
+        )
+        if start_i is None:
+            start_i = self.tree.index(subtree_root)
 
         if start_i == 0:
             return self.tree
-- 
2.43.0


From 324da89e5648fcd35da4801dad43b812cffba3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 45/46] fix: variables named pos or self can be given to
 execute

---
 eckity/algorithms/simple_evolution.py               | 2 +-
 eckity/genetic_encodings/gp/tree/tree_individual.py | 4 ++--
 eckity/multi_objective_evolution/nsga2_evolution.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/eckity/algorithms/simple_evolution.py b/eckity/algorithms/simple_evolution.py
index 7c091bf..deacf8b 100644
--- a/eckity/algorithms/simple_evolution.py
+++ b/eckity/algorithms/simple_evolution.py
@@ -197,7 +197,7 @@ class SimpleEvolution(Algorithm):
             0
         ].get_worst_individual()
 
-    def execute(self, **kwargs):
+    def execute(self, /, **kwargs):
         """
         Compute output using best evolved individual.
         Use `execute` in a non-sklearn setting.
diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index be7a706..f7dc9d5 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -216,7 +216,7 @@ class Tree(Individual):
 
         return TerminalNode(terminal, node_type=node_type)
 
-    def execute(self, *args, **kwargs) -> object:
+    def execute(self, /, *args, **kwargs) -> object:
         """
         Execute the program (tree).
         Input is a numpy array or keyword arguments (but not both).
@@ -279,7 +279,7 @@ class Tree(Individual):
             res = np.full(X.shape[0], res)
         return res
 
-    def _execute(self, pos, **kwargs):
+    def _execute(self, pos, /, **kwargs):
         """
         Recursively execute the tree by traversing it in a depth-first order
         (pos is a size-1 list so as to pass "by reference"
diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index e0ab6ef..62e80db 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -139,7 +139,7 @@ class NSGA2Evolution(Algorithm):
             if stat.write_statistics not in self.events["after_generation"].values():
                 self.register("after_generation", stat.write_statistics)
 
-    def execute(self, **kwargs):
+    def execute(self, /, **kwargs):
         """
         Compute output using best evolved individual.
         Use `execute` in a non-sklearn setting.
-- 
2.43.0


From 2209f2ee232d9e51346fe04a0582f5ca6cb5594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 46/46] fix: a failed vector mutation restores all of its
 individuals

---
 .../mutations/vector_n_point_mutation.py               | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index e0fe527..199d8ee 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -100,10 +100,9 @@ class VectorNPointMutation(FailableOperator):
             second return value is the operator result
         """
         succeeded = True
-        for individual in individuals:
-            # clone the individual to revert in case of failure
-            old_individual = individual.clone()
-
+        # clone the individuals to revert in case of failure
+        old_individuals = [individual.clone() for individual in individuals]
+        for individual, old_individual in zip(individuals, old_individuals):
             # randomly select n points of the vector (without repetitions)
             m_points = self.cell_selector(individual)
             # obtain the mutated values
@@ -118,7 +117,8 @@ class VectorNPointMutation(FailableOperator):
 
             if not self.success_checker(old_individual, individual):
                 succeeded = False
-                individual.set_vector(old_individual.vector)
+                for reverted, old in zip(individuals, old_individuals):
+                    reverted.set_vector(old.vector)
                 break
 
         self.applied_individuals = individuals
-- 
2.43.0

