From 011af37bee256065e6d565d913a83c98e68ab8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 01/65] fix: honour n_fronts when NonDominatedSorting uses a
 custom dominator

---
 pymoo/util/nds/non_dominated_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/nds/non_dominated_sorting.py b/pymoo/util/nds/non_dominated_sorting.py
index 2071ba4..010bf12 100644
--- a/pymoo/util/nds/non_dominated_sorting.py
+++ b/pymoo/util/nds/non_dominated_sorting.py
@@ -57,7 +57,7 @@ class NonDominatedSorting:
             for front in raw:
                 fronts.append(np.array(front, dtype=int))
                 n_ranked += len(front)
-                if n_ranked >= n_stop_if_ranked:
+                if n_ranked >= n_stop_if_ranked or len(fronts) >= n_fronts:
                     break
 
         if only_non_dominated_front:
-- 
2.43.0


From f56860624adbce5fcdaa7e4117f0ea290b8906e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 02/65] fix: handle ties and duplicates in the bi-objective
 non-dominated sorting

---
 .../functions/standard/non_dominated_sorting.py  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index 64de372..b783f47 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -104,8 +104,8 @@ def _fast_biobjective_nondominated_sort(F):
     if n_points == 0:
         return []
 
-    # Sort by first objective ascending
-    sorted_indices = np.argsort(F[:, 0])
+    # Sort by first objective ascending (ties are broken by the second one)
+    sorted_indices = np.lexsort((F[:, 1], F[:, 0]))
     sorted_F = F[sorted_indices]
 
     fronts = []
@@ -116,8 +116,9 @@ def _fast_biobjective_nondominated_sort(F):
         current_front = []
         current_indices = []
 
-        # Track the minimum second objective seen in the current front
+        # Track the minimum second objective seen in the current front (and the first objective where it occurs)
         min_second_obj = float("inf")
+        first_obj_at_min = float("inf")
 
         for i in range(n_points):
             if assigned[i]:
@@ -128,8 +129,11 @@ def _fast_biobjective_nondominated_sort(F):
             if current_indices:  # If there are already points in the current front
                 # Since points are sorted by first objective, we only need to check
                 # if its second objective is greater than the minimum second objective in front
-                if sorted_F[i, 1] >= min_second_obj:
+                # (an exact duplicate of a point in the front is not dominated by it)
+                if sorted_F[i, 1] > min_second_obj:
                     is_dominated = True
+                elif sorted_F[i, 1] == min_second_obj:
+                    is_dominated = bool(sorted_F[i, 0] > first_obj_at_min)
 
             if not is_dominated:
                 # Add this point to the current front
@@ -138,7 +142,9 @@ def _fast_biobjective_nondominated_sort(F):
                 assigned[i] = True
                 n_assigned += 1
                 # Update the minimum second objective
-                min_second_obj = min(min_second_obj, sorted_F[i, 1])
+                if sorted_F[i, 1] < min_second_obj:
+                    min_second_obj = sorted_F[i, 1]
+                    first_obj_at_min = sorted_F[i, 0]
 
         if current_front:
             fronts.append(current_front)
-- 
2.43.0


From a1a8c0b482d119b3c448ebe91306bcaf3e3346a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 03/65] fix: keep duplicates in the same front in the
 tree-based non-dominated sorting

---
 pymoo/functions/standard/non_dominated_sorting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index b783f47..be5e348 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -366,10 +366,10 @@ def tree_based_non_dominated_sort(F):
     Returns:
         List of fronts.
     """
+    # sort the rows in F (duplicates do not dominate each other and share one node of the tree)
+    F, inverse = np.unique(F, axis=0, return_inverse=True)
     N, M = F.shape
-    # sort the rows in F
-    indices = np.lexsort(F.T[::-1])
-    F = F[indices]
+    indices = [np.where(inverse.reshape(-1) == i)[0] for i in range(N)]
 
     obj_seq = np.argsort(F[:, :0:-1], axis=1) + 1
 
@@ -388,7 +388,7 @@ def tree_based_non_dominated_sort(F):
     # convert forest to fronts
     fronts = [[] for _ in range(k)]
     for k, tree in enumerate(forest):
-        fronts[k].extend([indices[node.key] for node in tree.traversal()])
+        fronts[k].extend([i for node in tree.traversal() for i in indices[node.key]])
     return fronts
 
 
-- 
2.43.0


From 9c3f16418a06f43687f2f7366442a691fb85d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 04/65] fix: pass the algorithm's random state to operators
 that drew from an unseeded generator

---
 pymoo/algorithms/moo/nsga3.py                         | 1 +
 pymoo/algorithms/moo/unsga3.py                        | 1 +
 pymoo/algorithms/soo/nonconvex/de.py                  | 2 +-
 pymoo/algorithms/soo/nonconvex/ga_niching.py          | 4 +++-
 pymoo/operators/control.py                            | 2 +-
 pymoo/operators/crossover/dex.py                      | 2 +-
 pymoo/operators/mutation/gauss.py                     | 2 +-
 pymoo/operators/repair/inverse_penalty.py             | 4 ++--
 pymoo/operators/survival/rank_and_crowding/classes.py | 7 ++++++-
 pymoo/util/randomized_argsort.py                      | 2 +-
 10 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index 6bcfd31..f54b6fd 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -40,6 +40,7 @@ def comp_by_cv_then_random(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible just set random
diff --git a/pymoo/algorithms/moo/unsga3.py b/pymoo/algorithms/moo/unsga3.py
index 2c79694..c88becf 100644
--- a/pymoo/algorithms/moo/unsga3.py
+++ b/pymoo/algorithms/moo/unsga3.py
@@ -39,6 +39,7 @@ def comp_by_rank_and_ref_line_dist(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible
diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index d8eb143..744f6d1 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -93,7 +93,7 @@ class Variant(InfillCriterion):
         control.tell(pop=pop)
 
         # set the controlled parameter for the desired number of offsprings
-        control.do(n_offsprings)
+        control.do(n_offsprings, random_state=random_state)
 
         # find the different groups of selection schemes and order them by category
         sel, n_diffs = get(self.selection, self.n_diffs, size=n_offsprings)
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 727e76c..2979bed 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -60,7 +60,7 @@ class NicheTermination(DefaultTermination):
 # =========================================================================================================
 
 
-def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
+def comp_by_cv_and_clearing_fitness(pop, P, random_state=None, **kwargs):
     S = np.full(P.shape[0], np.nan)
 
     for i in range(P.shape[0]):
@@ -75,6 +75,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # first compare by the round the individual was selected
@@ -90,6 +91,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                     pop[b].get("rank"),
                     method="smaller_is_better",
                     return_random_if_equal=True,
+                    random_state=random_state,
                 )
 
     return S[:, None].astype(int)
diff --git a/pymoo/operators/control.py b/pymoo/operators/control.py
index 4b2d5dd..a39b368 100644
--- a/pymoo/operators/control.py
+++ b/pymoo/operators/control.py
@@ -166,7 +166,7 @@ class ParameterControlMating(InfillCriterion):
         # do the parameter control for the mating
         control = self.control
         control.tell(pop=pop)
-        control.do(n_matings)
+        control.do(n_matings, random_state=kwargs.get("random_state"))
 
         # if the parents for the mating are not provided directly - usually selection will be used
         if parents is None:
diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index 71ce93c..b768ce1 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -114,7 +114,7 @@ class DEX(Crossover):
                 Xp[m] = de_differential(X[:, m], F, random_state=random_state)
 
             # if still infeasible do a random initialization
-            Xp = repair_random_init(Xp, X[0], *problem.bounds())
+            Xp = repair_random_init(Xp, X[0], *problem.bounds(), random_state=random_state)
 
         if self.variant == "bin":
             M = mut_binomial(
diff --git a/pymoo/operators/mutation/gauss.py b/pymoo/operators/mutation/gauss.py
index 57417f4..4d1b324 100644
--- a/pymoo/operators/mutation/gauss.py
+++ b/pymoo/operators/mutation/gauss.py
@@ -31,7 +31,7 @@ def mut_gauss(X, xl, xu, sigma, prob, random_state=None):
 
     Xp[mut] = random_state.normal(X[mut], sigma * (_xu - _xl))
 
-    Xp = repair_random_init(Xp, X, xl, xu)
+    Xp = repair_random_init(Xp, X, xl, xu, random_state=random_state)
 
     return Xp
 
diff --git a/pymoo/operators/repair/inverse_penalty.py b/pymoo/operators/repair/inverse_penalty.py
index 98f4bca..779f580 100644
--- a/pymoo/operators/repair/inverse_penalty.py
+++ b/pymoo/operators/repair/inverse_penalty.py
@@ -77,7 +77,7 @@ def inverse_penality_by_problem(problem, x, p, **kwargs):  # noqa: D417
 class InversePenaltyOutOfBoundsRepair(BoundsRepair):
     """Inverse penalty repair operator for out-of-bounds variables."""
 
-    def repair_out_of_bounds(self, problem, X, P=None, **kwargs):  # noqa: D417
+    def repair_out_of_bounds(self, problem, X, P=None, random_state=None, **kwargs):  # noqa: D417
         """Repair out-of-bounds variables using inverse penalty.
 
         Args:
@@ -94,7 +94,7 @@ class InversePenaltyOutOfBoundsRepair(BoundsRepair):
         n = len(X)
 
         for k in range(n):
-            X[k] = inverse_penality_by_problem(problem, X[k], P[k])
+            X[k] = inverse_penality_by_problem(problem, X[k], P[k], random_state=random_state)
 
         return X
 
diff --git a/pymoo/operators/survival/rank_and_crowding/classes.py b/pymoo/operators/survival/rank_and_crowding/classes.py
index 8db7899..797571f 100644
--- a/pymoo/operators/survival/rank_and_crowding/classes.py
+++ b/pymoo/operators/survival/rank_and_crowding/classes.py
@@ -192,7 +192,12 @@ class ConstrRankAndCrowding(Survival):
                     if len(survivors) + len(front) > n_survive:
                         # Obtain CV of front
                         CV = pop[infeas][front].get("CV").flatten()
-                        I = randomized_argsort(CV, order="ascending", method="numpy")  # noqa: E741
+                        I = randomized_argsort(  # noqa: E741
+                            CV,
+                            order="ascending",
+                            method="numpy",
+                            random_state=kwargs.get("random_state"),
+                        )
                         I = I[: (n_survive - len(survivors))]  # noqa: E741
 
                     # Otherwise take the whole front unsorted
diff --git a/pymoo/util/randomized_argsort.py b/pymoo/util/randomized_argsort.py
index 117b058..2aa5e86 100644
--- a/pymoo/util/randomized_argsort.py
+++ b/pymoo/util/randomized_argsort.py
@@ -14,7 +14,7 @@ def randomized_argsort(A, method="numpy", order="ascending", random_state=None):
         I = P[I]  # noqa: E741
 
     elif method == "quicksort":
-        I = quicksort(A)  # noqa: E741
+        I = quicksort(A, random_state=random_state)  # noqa: E741
 
     else:
         raise Exception("Randomized sort method not known.")
-- 
2.43.0


From b42bb8f4b620ce3e2087afb1c0dff4b3cf37b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 05/65] fix: repair variables fixed by their bounds instead of
 returning NaN (bounce-back, periodic)

---
 pymoo/operators/repair/bounce_back.py   | 3 +++
 pymoo/operators/repair/bounds_repair.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/pymoo/operators/repair/bounce_back.py b/pymoo/operators/repair/bounce_back.py
index 6cf33f9..1acfb62 100644
--- a/pymoo/operators/repair/bounce_back.py
+++ b/pymoo/operators/repair/bounce_back.py
@@ -28,6 +28,9 @@ def bounce_back(X, xl, xu):
     X[X < xl] = (xl + np.mod((xl - X), _range))[X < xl]
     X[X > xu] = (xu - np.mod((X - xu), _range))[X > xu]
 
+    # a variable fixed by its bounds has no range to bounce in
+    X[_range == 0] = xl[_range == 0]
+
     if only_1d:
         return X[0, :]
     else:
diff --git a/pymoo/operators/repair/bounds_repair.py b/pymoo/operators/repair/bounds_repair.py
index 7b9c16e..a7973ae 100644
--- a/pymoo/operators/repair/bounds_repair.py
+++ b/pymoo/operators/repair/bounds_repair.py
@@ -122,6 +122,10 @@ def repair_periodic(Xp, xl, xu):
     I = np.where(Xp > XU)  # noqa: E741
     Xp[I] = XL[I] + (Xp[I] - XU[I]) % S[I]
 
+    # a variable fixed by its bounds has no period to wrap around
+    I = np.where(S == 0)  # noqa: E741
+    Xp[I] = XL[I]
+
     return Xp
 
 
-- 
2.43.0


From b5e3c2ca659f6756cd18c94205a8ce152aaaf60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 06/65] fix: ZeroToOne evaluates the wrapped problem at the
 denormalized point

---
 pymoo/problems/zero_to_one.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/problems/zero_to_one.py b/pymoo/problems/zero_to_one.py
index 14ef424..3de4e4e 100644
--- a/pymoo/problems/zero_to_one.py
+++ b/pymoo/problems/zero_to_one.py
@@ -14,9 +14,9 @@ class ZeroToOne(Meta, Problem):
         self.xl, self.xu = np.zeros(self.n_var), np.ones(self.n_var)
 
     def do(self, X, return_values_of, *args, **kwargs):
-        Xp = self.normalize(X)
+        Xp = self.denormalize(X)
 
-        out = super().do(Xp, return_values_of, *args, **kwargs)
+        out = self.__object__.do(Xp, return_values_of, *args, **kwargs)
         out["__X__"] = X
 
         return out
-- 
2.43.0


From fd012432a4c1819c5396aae96f11ec13874a373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 07/65] fix: MultiToSingleObjective works without decomposition
 kwargs

---
 pymoo/problems/multi_to_single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 87dd7ca..44de2e4 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -18,7 +18,7 @@ class MultiToSingleObjective(Meta, Problem):
     def __init__(self, problem: Any, decomposition: Any, kwargs: dict | None = None) -> None:
         super().__init__(problem)
         self.decomposition = decomposition
-        self.kwargs = kwargs if not None else dict()  # noqa: E712
+        self.kwargs = kwargs if kwargs is not None else dict()
         self.n_obj = 1
 
     def do(self, X: Any, return_values_of: Any, *args: Any, **kwargs: Any) -> dict:
-- 
2.43.0


From c1e5b6971d8bac3691ddbfdd7b00e6a70ecb626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 08/65] fix: ConstraintsFromBounds keeps the original bounds
 when they are removed from the problem

---
 pymoo/constraints/from_bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/constraints/from_bounds.py b/pymoo/constraints/from_bounds.py
index 9a0eb82..244c231 100644
--- a/pymoo/constraints/from_bounds.py
+++ b/pymoo/constraints/from_bounds.py
@@ -21,7 +21,7 @@ class ConstraintsFromBounds(Meta, Problem):
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
 
         # get the boundaries for normalization
-        xl, xu = self.bounds()
+        xl, xu = self.__object__.bounds()
 
         # add the boundary constraint if enabled
         _G = anp.column_stack([xl - X, X - xu])
-- 
2.43.0


From 9331eb357e820c96142dbc0e0796ce1cf3697178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 09/65] fix: convert constraints to an objective or a penalty
 no matter which values are requested

---
 pymoo/constraints/as_obj.py     | 6 ++++--
 pymoo/constraints/as_penalty.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 8488224..4ffeb3e 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -25,7 +25,9 @@ class ConstraintsAsObjective(Meta, Problem):
         self.n_eq_constr = 0
 
     def do(self, X, return_values_of, *args, **kwargs):
-        out = self.__object__.do(X, return_values_of, *args, **kwargs)
+        # always ask for the constraints (they might not be part of the values to be returned)
+        values = list(return_values_of) + [e for e in ["G", "H"] if e not in return_values_of]
+        out = self.__object__.do(X, values, *args, **kwargs)
 
         # get at the values from the output
         F, G, H = from_dict(out, "F", "G", "H")
@@ -40,7 +42,7 @@ class ConstraintsAsObjective(Meta, Problem):
         if self.append:
             out["F"] = anp.column_stack([CV, F])
         else:
-            out["F"] = CV
+            out["F"] = CV[:, None]
 
         del out["G"]
         del out["H"]
diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index cf779f6..304a511 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -20,7 +20,9 @@ class ConstraintsAsPenalty(Meta, Problem):
         self.n_eq_constr = 0
 
     def do(self, X, return_values_of, *args, **kwargs):
-        out = self.__object__.do(X, return_values_of, *args, **kwargs)
+        # always ask for the constraints (they might not be part of the values to be returned)
+        values = list(return_values_of) + [e for e in ["G", "H"] if e not in return_values_of]
+        out = self.__object__.do(X, values, *args, **kwargs)
 
         # get at the values from the output
         F, G, H = from_dict(out, "F", "G", "H")
-- 
2.43.0


From e499a10616057dec6dd50b3aea624548888633cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 10/65] fix: count the evaluations when constraints are handled
 adaptively

---
 pymoo/constraints/adaptive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index fff6017..bc610ff 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -43,6 +43,7 @@ class AttachConfigEvaluator(Evaluator):
             count_evals=count_evals,
             **kwargs,
         )
+        self.n_eval = self.wrapped.n_eval
         pop.apply(lambda ind: ind.set("config", self.config))
         return pop
 
-- 
2.43.0


From d09d15f15c3099387e661133a32ebe67e7e2b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 11/65] fix: forget the cached constraint violation when new
 constraint values are set

---
 pymoo/core/individual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/core/individual.py b/pymoo/core/individual.py
index d35cf3d..e85b115 100644
--- a/pymoo/core/individual.py
+++ b/pymoo/core/individual.py
@@ -206,6 +206,7 @@ class Individual:
             value: The inequality constraint vector for the individual.
         """
         self._G = value
+        self._CV = None
 
     @property
     def H(self) -> np.ndarray:
@@ -224,6 +225,7 @@ class Individual:
             value: The equality constraint vector for the individual.
         """
         self._H = value
+        self._CV = None
 
     @property
     def CV(self) -> np.ndarray:
-- 
2.43.0


From ce627cfb99c5e7df232dffdd00eaf4f5a9928a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 12/65] fix: get_duplicates no longer fails if the largest rows
 are duplicates

---
 pymoo/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index 6af885c..7cdbb5d 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -146,7 +146,7 @@ def get_duplicates(M: Any) -> list:
 
     while i < S.shape[0] - 1:
         l = []  # noqa: E741
-        while np.all(S[i, :] == S[i + 1, :]):
+        while i < S.shape[0] - 1 and np.all(S[i, :] == S[i + 1, :]):
             l.append(I[i])
             i += 1
         if len(l) > 0:
-- 
2.43.0


From ce06336582eb20c887e66ea7b9e6b314f869fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 13/65] fix: a missing bound is treated as missing if the other
 bound is of type int

---
 pymoo/util/normalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index 78ed451..b3c74df 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -41,9 +41,9 @@ class ZeroToOneNormalization(Normalization):
 
         # if not set simply fall back no nan values
         if xl is None:
-            xl = np.full_like(xu, np.nan)
+            xl = np.full_like(xu, np.nan, dtype=float)
         if xu is None:
-            xu = np.full_like(xl, np.nan)
+            xu = np.full_like(xl, np.nan, dtype=float)
 
         xl, xu = np.copy(xl).astype(float), np.copy(xu).astype(float)
 
-- 
2.43.0


From 291f6697dbe07cc86143e1ec86cdbb52b46a3bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 14/65] fix: normalization does not truncate values of type int

---
 pymoo/util/normalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index b3c74df..2656346 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -73,7 +73,7 @@ class ZeroToOneNormalization(Normalization):
             return X
 
         # simple copy the input
-        N = np.copy(X)
+        N = np.copy(X).astype(float)
 
         # normalize between zero and one if neither of them is nan
         N[..., self.neither_nan] = (X[..., self.neither_nan] - self.xl[self.neither_nan]) / (
@@ -93,7 +93,7 @@ class ZeroToOneNormalization(Normalization):
         xl, xu, xl_only, xu_only = self.xl, self.xu, self.xl_only, self.xu_only
         neither_nan = self.neither_nan
 
-        X = N.copy()
+        X = N.copy().astype(float)
         X[..., neither_nan] = xl[neither_nan] + N[..., neither_nan] * (xu[neither_nan] - xl[neither_nan])
 
         X[..., xl_only] = N[..., xl_only] + xl[xl_only]
-- 
2.43.0


From d4e8b0db3ce251ac4f472f5079886361e11277ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 15/65] fix: MultiToSingleObjective returns one objective for a
 single solution

---
 pymoo/problems/multi_to_single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 44de2e4..ef5a924 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -25,5 +25,5 @@ class MultiToSingleObjective(Meta, Problem):
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
         F = out["F"]
         out["__F__"] = F
-        out["F"] = self.decomposition.do(F, **self.kwargs)[:, None]
+        out["F"] = self.decomposition.do(F, **self.kwargs).reshape(len(F), 1)
         return out
-- 
2.43.0


From 2bc52a09b68ae4580bb1d9de2fe561683e28657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 16/65] fix: fmin termination for non-positive function values

---
 pymoo/termination/fmin.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pymoo/termination/fmin.py b/pymoo/termination/fmin.py
index 4b1043e..bd5d68c 100644
--- a/pymoo/termination/fmin.py
+++ b/pymoo/termination/fmin.py
@@ -11,7 +11,16 @@ class MinimumFunctionValueTermination(Termination):
     def _update(self, algorithm):
         opt = algorithm.opt
 
-        if not any(opt.get("feas")):
+        feas = opt.get("feas")
+
+        if not any(feas):
             return 0.0
+
+        f = opt[feas].get("F").min()
+
+        if f <= self.fmin:
+            return 1.0
+        elif self.fmin > 0:
+            return self.fmin / f
         else:
-            return self.fmin / opt.get("F").min()
+            return 1 / (1 + f - self.fmin)
-- 
2.43.0


From efa6f69bc10955e8b2f2f5d6d7b4fab0e9c2638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 17/65] fix: until-feasible termination failed when the
 violation grew

---
 pymoo/termination/cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/termination/cv.py b/pymoo/termination/cv.py
index 383066e..7b9a240 100644
--- a/pymoo/termination/cv.py
+++ b/pymoo/termination/cv.py
@@ -45,4 +45,4 @@ class UntilFeasibleTermination(Termination):
             else:
                 self.initial_cv = cv
 
-        return 1 - cv / self.initial_cv
+        return max(0.0, 1 - cv / self.initial_cv)
-- 
2.43.0


From 50f35c71af9d862b7202eb3e5d6616493496d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 18/65] fix: indicator termination ignored a threshold reached
 right away

---
 pymoo/termination/indicator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/indicator.py b/pymoo/termination/indicator.py
index 8a7f562..15c69cb 100644
--- a/pymoo/termination/indicator.py
+++ b/pymoo/termination/indicator.py
@@ -40,7 +40,9 @@ class IndicatorTermination(Termination):
         _min, _max = self._min, self._max
 
         # depending on the goal either set the percentage
-        if self.goal == "minimize":
+        if (v <= threshold) if self.goal == "minimize" else (v >= threshold):
+            perc = 1.0
+        elif self.goal == "minimize":
             perc = 1 - (v - threshold) / (_max - threshold)
         else:
             perc = (v - _min) / (threshold - _min)
-- 
2.43.0


From ce8608860e034978a8180b26b3679e11203d8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 19/65] fix: CallbackCollection ignored initialize and notify
 of its callbacks

---
 pymoo/core/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/callback.py b/pymoo/core/callback.py
index 3676ba3..cbd3a83 100644
--- a/pymoo/core/callback.py
+++ b/pymoo/core/callback.py
@@ -41,4 +41,4 @@ class CallbackCollection(Callback):
         self.callbacks: tuple[Callback, ...] = args
 
     def update(self, algorithm: "Algorithm") -> None:
-        [callback.update(algorithm) for callback in self.callbacks]
+        [callback(algorithm) for callback in self.callbacks]
-- 
2.43.0


From 3c8250f35168aae6b8f2d6513a59141b65e54a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 20/65] fix: MOEAD without reference directions uses the
 default ones

---
 pymoo/algorithms/moo/moead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/moead.py b/pymoo/algorithms/moo/moead.py
index dbad0a6..d336f6c 100755
--- a/pymoo/algorithms/moo/moead.py
+++ b/pymoo/algorithms/moo/moead.py
@@ -79,7 +79,7 @@ class MOEAD(LoopwiseAlgorithm, GeneticAlgorithm):
         self.selection = NeighborhoodSelection(prob=prob_neighbor_mating)
 
         super().__init__(
-            pop_size=len(ref_dirs),
+            pop_size=None if ref_dirs is None else len(ref_dirs),
             sampling=sampling,
             crossover=crossover,
             mutation=mutation,
-- 
2.43.0


From e2ed5e0b6360c3090dc1d60a637118ad4b62f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 21/65] fix: RVEA angle of a solution on a reference direction
 is not NaN because of rounding

---
 pymoo/algorithms/moo/rvea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index e3186bd..9edac3a 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -172,7 +172,7 @@ class APDSurvival(Survival):
         F_prime = F / dist_to_ideal[:, None]
 
         # calculate for each solution the acute angles to ref dirs
-        acute_angle = np.arccos(F_prime @ self.V.T)
+        acute_angle = np.arccos(np.clip(F_prime @ self.V.T, -1.0, 1.0))
         niches = acute_angle.argmin(axis=1)
 
         # assign to each reference direction the solution
-- 
2.43.0


From 00a3dd707ddba0212152616b0c73cfacde0cc18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 22/65] fix: SPEA2 algorithms do not share the state of the
 default survival

---
 pymoo/algorithms/moo/spea2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 29d7f64..94ade65 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -175,7 +175,7 @@ class SPEA2(GeneticAlgorithm):
         selection=TournamentSelection(spea_binary_tournament),
         crossover=SBX(),
         mutation=PM(),
-        survival=SPEA2Survival(normalize=True),
+        survival=None,
         eliminate_duplicates=True,
         n_offsprings=None,
         output=MultiObjectiveOutput(),
@@ -196,6 +196,10 @@ class SPEA2(GeneticAlgorithm):
             **kwargs: {kwargs}
 
         """
+        # the survival keeps track of the boundary points and must not be shared with other runs
+        if survival is None:
+            survival = SPEA2Survival(normalize=True)
+
         super().__init__(
             pop_size=pop_size,
             sampling=sampling,
-- 
2.43.0


From d19884b8983a80d05520c34a9c897ba6672d4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 23/65] fix: SPEA2 fitness is not NaN for a constant objective

---
 pymoo/algorithms/moo/spea2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 94ade65..1944c77 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -71,7 +71,11 @@ class SPEA2Survival(Survival):
 
             ideal, nadir = self.norm.ideal_point, self.norm.nadir_point
 
-            _F = (F - ideal) / (nadir - ideal)
+            # a constant objective does not contribute to the distances
+            denom = nadir - ideal
+            denom[denom == 0] = 1e-12
+
+            _F = (F - ideal) / denom
             dists = vectorized_cdist(_F, _F, fill_diag_with_inf=True)
 
         # if no normalize is required simply use the F values from the population
-- 
2.43.0


From d59eb5b28ec75c467f39b3f9d4de30c961d4af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 24/65] fix: R-NSGA-II reference points do not pile up the
 extreme points of all generations

---
 pymoo/algorithms/moo/rnsga2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/rnsga2.py b/pymoo/algorithms/moo/rnsga2.py
index b21d46b..0631995 100644
--- a/pymoo/algorithms/moo/rnsga2.py
+++ b/pymoo/algorithms/moo/rnsga2.py
@@ -100,12 +100,13 @@ class RankAndModifiedCrowdingSurvival(Survival):
             self.ideal_point = np.zeros(self.n_obj)
             self.nadir_point = np.ones(self.n_obj)
 
+        ref_points = self.ref_points
         if self.extreme_points_as_reference_points:
-            self.ref_points = np.vstack([self.ref_points, get_extreme_points_c(F, self.ideal_point)])
+            ref_points = np.vstack([ref_points, get_extreme_points_c(F, self.ideal_point)])
 
         # calculate the distance matrix from ever solution to all reference point
         dist_to_ref_points = calc_norm_pref_distance(
-            F, self.ref_points, self.weights, self.ideal_point, self.nadir_point
+            F, ref_points, self.weights, self.ideal_point, self.nadir_point
         )
 
         for k, front in enumerate(fronts):
-- 
2.43.0


From e7f9b1d8186ac883dc75ad4f69ca3072ae719fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 25/65] fix: R-NSGA-II distances are numbers if an objective
 has no range

---
 pymoo/algorithms/moo/rnsga2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rnsga2.py b/pymoo/algorithms/moo/rnsga2.py
index 0631995..6e93591 100644
--- a/pymoo/algorithms/moo/rnsga2.py
+++ b/pymoo/algorithms/moo/rnsga2.py
@@ -185,7 +185,12 @@ class RankAndModifiedCrowdingSurvival(Survival):
 
 def calc_norm_pref_distance(A, B, weights, ideal, nadir):
     D = np.repeat(A, B.shape[0], axis=0) - np.tile(B, (A.shape[0], 1))
-    N = ((D / (nadir - ideal)) ** 2) * weights
+
+    # an objective without a range can not be normalized
+    norm = nadir - ideal
+    norm = np.where(norm == 0, 1.0, norm)
+
+    N = ((D / norm) ** 2) * weights
     N = np.sqrt(np.sum(N, axis=1) * len(weights))
     return np.reshape(N, (A.shape[0], B.shape[0]))
 
-- 
2.43.0


From 497e6c61be9f8fdd52d067a51197f3789ebdb22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 26/65] fix: options of a choice keep their types when they are
 sampled

---
 pymoo/core/variable.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/variable.py b/pymoo/core/variable.py
index bdc4abe..9605731 100644
--- a/pymoo/core/variable.py
+++ b/pymoo/core/variable.py
@@ -244,7 +244,14 @@ class Choice(Variable):
         Returns:
             Array of shape (n,) containing sampled choices.
         """
-        return random_state.choice(self.options, size=n)
+        options = self.options
+
+        # keep the type of each option, numpy would convert them to a common one (e.g. all of them to str)
+        if len({type(e) for e in options}) > 1:
+            options = np.empty(len(self.options), dtype=object)
+            options[:] = self.options
+
+        return random_state.choice(options, size=n)
 
 
 def get(
-- 
2.43.0


From a36a49d743cccd0b0c2482d17f31c777aae54a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:07 +0000
Subject: [PATCH 27/65] fix: pattern search uses the random state of the
 algorithm

---
 pymoo/algorithms/soo/nonconvex/pattern.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pattern.py b/pymoo/algorithms/soo/nonconvex/pattern.py
index aa0dd66..02a22ed 100644
--- a/pymoo/algorithms/soo/nonconvex/pattern.py
+++ b/pymoo/algorithms/soo/nonconvex/pattern.py
@@ -77,7 +77,9 @@ class PatternSearch(LocalSearch):
             self._rho = self.init_rho**self.n_not_improved
 
             # explore around the current center - try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._center, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._center, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         # if we have found a direction in the last iteration to be worth following
         else:
@@ -94,7 +96,9 @@ class PatternSearch(LocalSearch):
             self._sign = calc_sign(self._direction)
 
             # explore around the current center to try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._trial, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._trial, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         self.pop = Population.create(self._center, self._explr)
 
-- 
2.43.0


From fcddeb5a64549bf0f523d324ac6b69ff31de002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:07 +0000
Subject: [PATCH 28/65] fix: Nelder-Mead honours init_simplex_scale

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index bbd5f96..f5ba73d 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -140,7 +140,7 @@ class NelderMead(LocalSearch):
         self.alpha, self.beta, self.gamma, self.delta = self.func_params(self.problem)
 
     def _initialize_simplex(self):
-        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=0.05))
+        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=self.init_simplex_scale))
         return Population.merge(self.x0, simplex)
 
     def _next(self):
-- 
2.43.0


From 0d6fbc65efde81db67274d7ebf386245d9f82d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 29/65] fix: DE with fewer offspring than individuals varies
 every individual, not only the first ones

---
 pymoo/algorithms/soo/nonconvex/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index 744f6d1..dac2c3a 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -275,7 +275,7 @@ class DE(GeneticAlgorithm):
         infills = self.mating.do(
             self.problem,
             self.pop,
-            self.n_offsprings,
+            max(self.n_offsprings, self.pop_size),
             algorithm=self,
             random_state=self.random_state,
         )
-- 
2.43.0


From f38ee177a4d7b84d5b916d3e9a127da92fe33d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 30/65] fix: fast_fill_random replaces the rows that have
 duplicates

---
 pymoo/operators/selection/rnd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/selection/rnd.py b/pymoo/operators/selection/rnd.py
index bb916f9..e722520 100644
--- a/pymoo/operators/selection/rnd.py
+++ b/pymoo/operators/selection/rnd.py
@@ -50,7 +50,7 @@ def fast_fill_random(X, N, columns=None, Xp=None, n_max_attempts=10, random_stat
             else:
                 X[rem, col] = random_state.permutation(N)[: len(rem)]
 
-            rem = np.where((X[rem, col][:, None] == D[rem]).any(axis=1))[0]
+            rem = rem[(X[rem, col][:, None] == D[rem]).any(axis=1)]
 
             if len(rem) == 0:
                 break
-- 
2.43.0


From 4f969a18223feb90f01e722d0b192f1dade2f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:19 +0000
Subject: [PATCH 31/65] fix: archives are truncated with the random state of
 the algorithm

---
 pymoo/algorithms/moo/cmopso.py |  4 ++--
 pymoo/core/algorithm.py        |  2 +-
 pymoo/util/archive.py          | 12 ++++++------
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index babc38d..1fe01c8 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -192,7 +192,7 @@ class CMOPSO(Algorithm):
             raise Exception("Unknown velocity initialization.")
 
         self.pop.set("V", init_V)
-        self.elites = self.elites.add(self.pop)
+        self.elites = self.elites.add(self.pop, random_state=self.random_state)
 
     def _infill(self):
         (X, V) = self.pop.get("X", "V")
@@ -211,7 +211,7 @@ class CMOPSO(Algorithm):
         assert infills is not None, "This algorithm uses the AskAndTell interface thus 'infills' must to be provided."
 
         particles = Population.merge(self.pop, infills)
-        self.elites = self.elites.add(particles)
+        self.elites = self.elites.add(particles, random_state=self.random_state)
         self.pop = self.survival.do(self.problem, particles, n_survive=self.pop_size)
 
 
diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 2c9f20b..73b13c6 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -242,7 +242,7 @@ class Algorithm:
 
         # add the infill solutions to an archive
         if self.archive is not None and infills is not None:
-            self.archive = self.archive.add(infills)
+            self.archive = self.archive.add(infills, random_state=self.random_state)
 
         return ret
 
diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index b362e4a..9d92a1e 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -9,7 +9,7 @@ from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 
 
 class Truncation:
-    def __call__(self, sols, k):
+    def __call__(self, sols, k, random_state=None):
         pass
 
 
@@ -32,8 +32,8 @@ class SurvivalTruncation(Truncation):
 
         self.problem = problem
 
-    def __call__(self, sols, k):
-        return self.survival.do(self.problem, sols, n_survive=k)
+    def __call__(self, sols, k, random_state=None):
+        return self.survival.do(self.problem, sols, n_survive=k, random_state=random_state)
 
 
 class Archive(Population):
@@ -68,7 +68,7 @@ class Archive(Population):
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
-    def add(self, sols):
+    def add(self, sols, random_state=None):
 
         if len(self) > 0:
             sols = merge(self, sols)
@@ -79,7 +79,7 @@ class Archive(Population):
             opt = self.duplicate_elimination.do(opt)
 
         if self.max_size and len(opt) > self.max_size:
-            opt = self.truncation(opt, self.truncate_size)
+            opt = self.truncation(opt, self.truncate_size, random_state=random_state)
 
         cls = self.__class__
         obj = cls.__new__(cls, individuals=opt, **self.view(Archive).__dict__)
@@ -90,7 +90,7 @@ class Archive(Population):
 
 
 class VoidArchive(Archive):
-    def add(self, sols):
+    def add(self, sols, random_state=None):
         return self
 
 
-- 
2.43.0


From 67f599d49276f6291b9fc330594aebaab4017859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:19 +0000
Subject: [PATCH 32/65] fix: SRES and DIRECT use the random state of the
 algorithm for the survival

---
 pymoo/algorithms/soo/nonconvex/direct.py | 6 +++++-
 pymoo/algorithms/soo/nonconvex/sres.py   | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 9e67415..fd0ad1f 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -109,7 +109,11 @@ class DIRECT(LocalSearch):
         else:
             if len(candidates) > self.n_max_candidates:
                 candidates = RankAndCrowdingSurvival().do(
-                    self.problem, pop, n_survive=self.n_max_candidates, algorithm=self
+                    self.problem,
+                    pop,
+                    n_survive=self.n_max_candidates,
+                    algorithm=self,
+                    random_state=self.random_state,
                 )
 
             return candidates
diff --git a/pymoo/algorithms/soo/nonconvex/sres.py b/pymoo/algorithms/soo/nonconvex/sres.py
index 99b3708..e7212c7 100644
--- a/pymoo/algorithms/soo/nonconvex/sres.py
+++ b/pymoo/algorithms/soo/nonconvex/sres.py
@@ -50,7 +50,9 @@ class SRES(ES):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(SRES.__init__)
-- 
2.43.0


From 1c8dba0ad45c7bf29181f21ebb9af9fba91e3c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 33/65] fix: MOPSO-CD prefers feasible solutions in its archive

---
 pymoo/algorithms/moo/mopso_cd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 812f1bd..6765804 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -173,6 +173,10 @@ class MOPSO_CD(Algorithm):
         else:
             combined = pop
 
+        # Feasible solutions are preferred over infeasible ones (the least infeasible ones if there are none)
+        feas, cv = combined.get("feas"), combined.get("cv")
+        combined = combined[feas] if np.any(feas) else combined[cv == cv.min()]
+
         # Find non-dominated solutions
         F = combined.get("F")
         I = self.nds.do(F, only_non_dominated_front=True)  # noqa: E741
-- 
2.43.0


From 5cd6d73156923b72416d6c144ec86b23ac7c3284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 34/65] fix: quadratic interpolation search brackets the
 optimum and interpolates the parabola

---
 pymoo/algorithms/soo/univariate/quadr_interp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/quadr_interp.py b/pymoo/algorithms/soo/univariate/quadr_interp.py
index 7cfd49e..ff72306 100644
--- a/pymoo/algorithms/soo/univariate/quadr_interp.py
+++ b/pymoo/algorithms/soo/univariate/quadr_interp.py
@@ -7,8 +7,8 @@ from pymoo.core.population import Population
 
 def quadr_interp_equ(xa, fa, xb, fb, xc, fc):
     g1 = (fc - fa) / (xc - xa)
-    g2 = ((fb - fc) / (xb - xc) - g1) * (xb - xa)
-    xd = 0.5 * ((xa - xb) - g1 / g2)
+    g2 = ((fb - fc) / (xb - xc) - g1) / (xb - xa)
+    xd = 0.5 * ((xa + xc) - g1 / g2)
     return xd
 
 
@@ -35,7 +35,7 @@ class QuadraticInterpolationSearch(BracketSearch):
         a, b = self.a, self.b
 
         # set c to be directly in the middle between the two brackets
-        c = Individual(X=(b.X - a.X) / 2)
+        c = Individual(X=(a.X + b.X) / 2)
 
         # create a population with all three individuals
         pop = Population.create(a, b, c)
@@ -51,11 +51,11 @@ class QuadraticInterpolationSearch(BracketSearch):
         if c.F[0] >= a.F[0] or c.F[0] >= b.F[0]:
             # choose the left side if a smaller than b, or the right side otherwise
             if a.F[0] <= b.F[0]:
-                a = c
-            else:
                 b = c
+            else:
+                a = c
 
-            c = Individual(X=(b.X - a.X) / 2)
+            c = Individual(X=(a.X + b.X) / 2)
             self.evaluator.eval(self.problem, c, algorithm=self)
             self.infills = c
 
-- 
2.43.0


From bc6389b31038445175cda4819b7674d53b4449d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 35/65] fix: bracket searches keep the bounds they are
 constructed with

---
 pymoo/algorithms/base/bracket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/base/bracket.py b/pymoo/algorithms/base/bracket.py
index d202030..0785805 100644
--- a/pymoo/algorithms/base/bracket.py
+++ b/pymoo/algorithms/base/bracket.py
@@ -14,7 +14,8 @@ class BracketSearch(Algorithm):
     def _setup(self, problem, a=None, b=None, **kwargs):
         msg = "Only problems with one variable, one objective and no constraints can be solved!"
         assert problem.n_var == 1 and not problem.has_constraints() and problem.n_obj == 1, msg
-        self.a, self.b = a, b
+        self.a = a if a is not None else self.a
+        self.b = b if b is not None else self.b
 
     def _initialize_infill(self):
 
-- 
2.43.0


From d911bc9e3ec7a47a9f5c04032ecc8ca33e8e91ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 36/65] fix: the Wolfe line search checks sufficient decrease
 for the current step length

---
 pymoo/algorithms/soo/univariate/wolfe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/wolfe.py b/pymoo/algorithms/soo/univariate/wolfe.py
index abafb25..d303970 100644
--- a/pymoo/algorithms/soo/univariate/wolfe.py
+++ b/pymoo/algorithms/soo/univariate/wolfe.py
@@ -78,7 +78,7 @@ class WolfeSearch(Algorithm):
             F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
 
             # if the wolfe condition is violate we have found our upper bound
-            if _F > sol_F + self.c1 * sol_dF @ direction or (i > 1 and F >= _F):
+            if _F > sol_F + self.c1 * alpha * sol_dF @ direction or (i > 1 and F >= _F):
                 return zoom(last, current)
 
             # for the other condition we need the gradient information
@@ -141,7 +141,7 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
         F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
 
         # if the wolfe condition is violate we have found our upper bound
-        if _F > sol_F + c1 * sol_dF @ direction or (i > 1 and F >= _F):
+        if _F > sol_F + c1 * alpha * sol_dF @ direction or (i > 1 and F >= _F):
             return zoom(last, current)
 
         # for the other condition we need the gradient information
-- 
2.43.0


From e32a4c840bc78b500afa72578cd46a22797eec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 37/65] fix: max_alpha ignores bounds the direction does not
 point to

---
 pymoo/util/vectors.py | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/pymoo/util/vectors.py b/pymoo/util/vectors.py
index 20bc330..add5217 100644
--- a/pymoo/util/vectors.py
+++ b/pymoo/util/vectors.py
@@ -4,39 +4,24 @@ import numpy as np
 
 
 def max_alpha(point, direction, xl, xu, mode="one_hits_bound"):
-    bounds = []
+    # a bound limits the factor only if the direction points towards it
+    factors = []
 
     if xl is not None:
-        bounds.append(xl)
+        towards = direction < 0
+        factors.append((xl - point)[towards] / direction[towards])
 
     if xu is not None:
-        bounds.append(xu)
+        towards = direction > 0
+        factors.append((xu - point)[towards] / direction[towards])
 
-    if len(bounds) == 0:
-        return np.inf
-
-    # the bounds in one array
-    bounds = np.column_stack(bounds)
-
-    # if the direction is too small we can not divide by 0 - nan will make it being ignored
-    dir = direction.copy()
-    dir[dir == 0] = np.nan
-
-    # calculate the max factor to be not out of bounds
-    val = (bounds - point[:, None]) / dir[:, None]
-
-    # remove nan values by setting them to a negative number
-    val[np.isnan(val)] = -np.inf
+    val = np.concatenate(factors) if len(factors) > 0 else np.array([])
 
-    # if no value there - no bound exist
+    # if no value there - no bound is ever hit
     if len(val) == 0:
         return np.inf
-    # otherwise return the minimum of values considered
+    # otherwise return the minimum (never negative) or the maximum of values considered
+    elif mode == "one_hits_bound":
+        return max(0.0, val.min())
     else:
-        if mode == "one_hits_bound":
-            if not np.any(val >= 0):
-                return 0.0
-            else:
-                return val[val >= 0].min()
-        else:
-            return val.max()
+        return val.max()
-- 
2.43.0


From 4fc623d12b47ed3abc95ab220380b4e499cbf309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 38/65] fix: the initial simplex of Nelder-Mead lies within the
 bounds

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index f5ba73d..408598a 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -104,7 +104,8 @@ def initialize_simplex(problem, x0, scale=0.05):
         else:
             X[k, k] = X[k, k] + delta[k]
 
-    return X
+    # a large scale can exceed the bounds in both directions
+    return set_to_bounds_if_outside_by_problem(problem, X)
 
 
 class NelderMead(LocalSearch):
-- 
2.43.0


From 6ec21a1fb45a3163ba19df816e06e033980e0567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:25 +0000
Subject: [PATCH 39/65] fix: DIRECT divides potentially optimal rectangles only

---
 pymoo/algorithms/soo/nonconvex/direct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index fd0ad1f..481695d 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -110,7 +110,7 @@ class DIRECT(LocalSearch):
             if len(candidates) > self.n_max_candidates:
                 candidates = RankAndCrowdingSurvival().do(
                     self.problem,
-                    pop,
+                    candidates,
                     n_survive=self.n_max_candidates,
                     algorithm=self,
                     random_state=self.random_state,
-- 
2.43.0


From dbd8ca51d8a389c69ba81d081423e76722d060f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:38 +0000
Subject: [PATCH 40/65] fix: Nelder-Mead sorts the initial simplex and does not
 lose its best vertex

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index 408598a..5366320 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -146,7 +146,8 @@ class NelderMead(LocalSearch):
 
     def _next(self):
         if not self.is_simplex_initialized:
-            self.pop = yield self._initialize_simplex()
+            pop = yield self._initialize_simplex()
+            self.pop = FitnessSurvival().do(self.problem, pop, n_survive=len(pop))
             self.is_simplex_initialized = True
         else:
             yield from self._step()
-- 
2.43.0


From 06e5928d39b6351c3659da5fcdc1ef9888fd1afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:01 +0000
Subject: [PATCH 41/65] fix: the Wolfe line search brackets a minimum once the
 values increase and ends

---
 pymoo/algorithms/soo/univariate/wolfe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/wolfe.py b/pymoo/algorithms/soo/univariate/wolfe.py
index d303970..b184a11 100644
--- a/pymoo/algorithms/soo/univariate/wolfe.py
+++ b/pymoo/algorithms/soo/univariate/wolfe.py
@@ -78,7 +78,7 @@ class WolfeSearch(Algorithm):
             F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
 
             # if the wolfe condition is violate we have found our upper bound
-            if _F > sol_F + self.c1 * alpha * sol_dF @ direction or (i > 1 and F >= _F):
+            if _F > sol_F + self.c1 * alpha * sol_dF @ direction or (i > 1 and _F >= F):
                 return zoom(last, current)
 
             # for the other condition we need the gradient information
@@ -141,7 +141,7 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
         F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
 
         # if the wolfe condition is violate we have found our upper bound
-        if _F > sol_F + c1 * alpha * sol_dF @ direction or (i > 1 and F >= _F):
+        if _F > sol_F + c1 * alpha * sol_dF @ direction or (i > 1 and _F >= F):
             return zoom(last, current)
 
         # for the other condition we need the gradient information
-- 
2.43.0


From 6451077f51023091acb4437f8553b9a670de419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:38 +0000
Subject: [PATCH 42/65] fix: NicheGA assigns niches by the solutions selected
 in the first iteration of the current survival

---
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 2979bed..f60e853 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -150,7 +150,7 @@ class EpsilonClearingSurvival(Survival):
                 rank = 1
 
                 # get the individual of the first iteration - needed for niche assignment
-                iter_one = np.where(pop.get("iter") == 1)[0] if iter_one is None else iter_one
+                iter_one = np.array(clearing.selected()) if iter_one is None else iter_one
 
             # since the population is ordered by F and CV it is always the first index
             k = remaining[0]
-- 
2.43.0


From c61291b43e88a9844ee3377e2926eaebb88c011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:38 +0000
Subject: [PATCH 43/65] fix: BRKGA eliminates duplicates among more than two
 solutions with the same objective value

---
 pymoo/algorithms/soo/nonconvex/brkga.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/brkga.py b/pymoo/algorithms/soo/nonconvex/brkga.py
index 00159b3..39ddeec 100755
--- a/pymoo/algorithms/soo/nonconvex/brkga.py
+++ b/pymoo/algorithms/soo/nonconvex/brkga.py
@@ -41,7 +41,6 @@ class EliteSurvival(Survival):
                 pop[candidates],
                 pop[no_candidates],
                 return_indices=True,
-                to_itself=False,
             )
             elim = set(np.array(candidates)[is_duplicate])
             pop = pop[[k for k in range(len(pop)) if k not in elim]]
-- 
2.43.0


From 48ca93bb7f4f3f1d1070d4e400a59b4fb2c89c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 44/65] fix: KGB algorithms do not share their historical sets

---
 pymoo/algorithms/moo/kgb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/moo/kgb.py b/pymoo/algorithms/moo/kgb.py
index 98b8dfc..eaa8da5 100755
--- a/pymoo/algorithms/moo/kgb.py
+++ b/pymoo/algorithms/moo/kgb.py
@@ -23,7 +23,7 @@ class KGB(NSGA2):
         perc_diversity=0.3,
         c_size=13,
         eps=0.0,
-        ps={},
+        ps=None,
         perturb_dev=0.1,
         save_ps=False,
         **kwargs,
@@ -37,7 +37,7 @@ class KGB(NSGA2):
         self.save_ps = save_ps
 
         self.C_SIZE = c_size
-        self.ps = ps
+        self.ps = {} if ps is None else ps
         self.nr_rand_solutions = 50 * self.pop_size
         self.t = 0
 
-- 
2.43.0


From b9d01286907bf88091dfef47ab437ec6e6a7d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 45/65] fix: D-NSGA-II mutates with the random state of the
 algorithm

---
 pymoo/algorithms/moo/dnsga2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 6bef2a4..954a0ee 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -54,7 +54,7 @@ class DNSGA2(NSGA2):
 
             # replace by mutations of existing solutions (this occurs inplace)
             elif self.version == "B":
-                self.mating.mutation(self.problem, pop[I])
+                self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
-- 
2.43.0


From 250c9b8698e99811e59e0061f215dc0f19a4a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:18 +0000
Subject: [PATCH 46/65] fix: D-NSGA-II version B does not fail if no individual
 is to be mutated

---
 pymoo/algorithms/moo/dnsga2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 954a0ee..7f4bab7 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -54,7 +54,8 @@ class DNSGA2(NSGA2):
 
             # replace by mutations of existing solutions (this occurs inplace)
             elif self.version == "B":
-                self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
+                if len(I) > 0:
+                    self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
-- 
2.43.0


From 7a9654e46840e57cccecbecf3caa228355e27abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 47/65] fix: MW11 is defined at the upper bound of the first
 variable

---
 pymoo/problems/multi/mw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index f51b45d..de1a3ae 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -317,7 +317,7 @@ class MW11(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g3(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(2.0 - np.power(f0 / g, 2.0))
+        f1 = g * np.sqrt(np.maximum(2.0 - np.power(f0 / g, 2.0), 0.0))
 
         g0 = -1.0 * (3.0 - f0 * f0 - f1) * (3.0 - 2.0 * f0 * f0 - f1)
         g1 = (3.0 - 0.625 * f0 * f0 - f1) * (3.0 - 7.0 * f0 * f0 - f1)
-- 
2.43.0


From 8e7659c79ac4f2af98c66f6e23e08ff31037b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 48/65] fix: Pareto front of the inverted DTLZ1 problem

---
 pymoo/problems/many/dtlz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index 1fbc2a1..d575019 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -466,7 +466,7 @@ class InvertedDTLZ1(DTLZ1):
         Returns:
             Pareto front solutions.
         """
-        return self.problem.pareto_front(*args, **kwargs)
+        return 0.5 - super()._calc_pareto_front(*args, **kwargs)
 
 
 class ScaledProblem(Problem):
-- 
2.43.0


From f1c5429056002598f8639ad9d97e76b386e99b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 49/65] fix: Pareto front of the convex DTLZ problems without
 reference directions

---
 pymoo/problems/many/dtlz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index d575019..80f6351 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -573,7 +573,7 @@ class ConvexProblem(Problem):
         self.problem._evaluate(x, out, **kwargs)
         out["F"] = anp.power(out["F"], self.get_power(self.n_obj))
 
-    def _calc_pareto_front(self, ref_dirs, *args, **kwargs):
+    def _calc_pareto_front(self, ref_dirs=None, *args, **kwargs):
         """Calculate Pareto front with convex transformation.
 
         Args:
@@ -584,7 +584,7 @@ class ConvexProblem(Problem):
         Returns:
             Transformed Pareto front solutions.
         """
-        F = self.problem.pareto_front(ref_dirs)
+        F = self.problem._calc_pareto_front(ref_dirs, *args, **kwargs)
         return np.power(F, self.get_power(self.n_obj))
 
 
-- 
2.43.0


From a507938105297f7d29519e05c2b176d73067a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 50/65] fix: the Pareto set of Himmelblau has a row for each
 optimum

---
 pymoo/problems/single/himmelblau.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pymoo/problems/single/himmelblau.py b/pymoo/problems/single/himmelblau.py
index c53735e..6e2722d 100644
--- a/pymoo/problems/single/himmelblau.py
+++ b/pymoo/problems/single/himmelblau.py
@@ -1,5 +1,7 @@
 """Himmelblau single-objective test problem."""
 
+import numpy as np
+
 from pymoo.core.problem import Problem
 
 
@@ -14,9 +16,11 @@ class Himmelblau(Problem):
         return 0
 
     def _calc_pareto_set(self):
-        return [
-            [3.0, 2.0],
-            [-2.805118, 3.131312],
-            [-3.779310, -3.283186],
-            [3.584428, -1.848126],
-        ]
+        return np.array(
+            [
+                [3.0, 2.0],
+                [-2.805118, 3.131312],
+                [-3.779310, -3.283186],
+                [3.584428, -1.848126],
+            ]
+        )
-- 
2.43.0


From dd3065dc8c01be9d26763e17a9dbfbdcdd4afe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 51/65] fix: the Pareto set of the pressure vessel problem
 attains its optimum

---
 pymoo/problems/single/pressure_vessel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/single/pressure_vessel.py b/pymoo/problems/single/pressure_vessel.py
index 0b56a3d..8cc8b78 100644
--- a/pymoo/problems/single/pressure_vessel.py
+++ b/pymoo/problems/single/pressure_vessel.py
@@ -29,4 +29,4 @@ class PressureVessel(Problem):
         return 5.8853e03
 
     def _calc_pareto_set(self):
-        return [13, 7, 42.0984456, 176.6366]
+        return [0.0193 * 40.31961872 / 0.0625, 0.00954 * 40.31961872 / 0.0625, 40.31961872, 200.0]
-- 
2.43.0


From 373358cfdecd1f847d7293c6ea88a3e7f7a2abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 52/65] fix: the multi-objective knapsack problem has two
 objectives

---
 pymoo/problems/single/knapsack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/problems/single/knapsack.py b/pymoo/problems/single/knapsack.py
index f3c39f8..a06aa3c 100644
--- a/pymoo/problems/single/knapsack.py
+++ b/pymoo/problems/single/knapsack.py
@@ -13,8 +13,9 @@ class Knapsack(Problem):
         W,  # weights for each item
         P,  # profit of each item
         C,  # maximum capacity
+        n_obj=1,
     ):
-        super().__init__(n_var=n_items, n_obj=1, n_ieq_constr=1, xl=0, xu=1, vtype=bool)
+        super().__init__(n_var=n_items, n_obj=n_obj, n_ieq_constr=1, xl=0, xu=1, vtype=bool)
 
         self.W = W
         self.P = P
@@ -27,7 +28,7 @@ class Knapsack(Problem):
 
 class MultiObjectiveKnapsack(Knapsack):
     def __init__(self, *args):
-        super().__init__(*args)
+        super().__init__(*args, n_obj=2)
 
     def _evaluate(self, x, out, *args, **kwargs):
         f1 = -np.sum(self.P * x, axis=1)
-- 
2.43.0


From 3ef019c4312adfe95bbf0c357fc29c6b49dae2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 53/65] fix: setting the time of a dynamic test problem clears
 its cached Pareto front

---
 pymoo/problems/dyn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/problems/dyn.py b/pymoo/problems/dyn.py
index accf656..3679454 100644
--- a/pymoo/problems/dyn.py
+++ b/pymoo/problems/dyn.py
@@ -63,6 +63,9 @@ class DynamicTestProblem(DynamicProblem, ABC):
         """
         self._time = value
 
+        # the cached ps and pf belong to the previous time
+        self.__dict__["cache"] = {}
+
 
 class TimeSimulation(Callback):
     """Callback to update time in dynamic problems during optimization."""
-- 
2.43.0


From 9dbecb21de5f6b63b208a3268470dd2b96eb4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 54/65] fix: the Pareto front of C3DTLZ1 is feasible

---
 pymoo/problems/many/cdtlz.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pymoo/problems/many/cdtlz.py b/pymoo/problems/many/cdtlz.py
index dd08d79..152fa27 100644
--- a/pymoo/problems/many/cdtlz.py
+++ b/pymoo/problems/many/cdtlz.py
@@ -179,6 +179,22 @@ class C3DTLZ1(DTLZ1):
         super()._evaluate(x, out, *args, **kwargs)
         out["G"] = constraint_c3_linear(out["F"])
 
+    def _calc_pareto_front(self, ref_dirs=None, *args, **kwargs):
+        """Calculate Pareto front.
+
+        Args:
+            ref_dirs: Reference directions.
+            *args: Variable length argument list.
+            **kwargs: Arbitrary keyword arguments.
+
+        Returns:
+            Pareto front solutions.
+        """
+        F = super()._calc_pareto_front(ref_dirs, *args, **kwargs)
+
+        # move each point along its direction until the first constraint is active
+        return F / (np.sum(F, axis=1) + np.min(F, axis=1))[:, None]
+
 
 class C3DTLZ4(DTLZ4):
     """Constrained DTLZ4 problem with multiple spherical inequality constraints."""
-- 
2.43.0


From e67fdb7cacc0b2cf03a549a5e64f639b30e76f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 55/65] fix: the Pareto front of DTLZ7 has no dominated points

---
 pymoo/problems/many/dtlz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/problems/many/dtlz.py b/pymoo/problems/many/dtlz.py
index 80f6351..d822c55 100644
--- a/pymoo/problems/many/dtlz.py
+++ b/pymoo/problems/many/dtlz.py
@@ -6,6 +6,7 @@ import pymoo.gradient.toolbox as anp
 import numpy as np
 
 from pymoo.core.problem import Problem
+from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 from pymoo.util.reference_direction import UniformReferenceDirectionFactory
 from pymoo.util.remote import Remote
 
@@ -416,7 +417,8 @@ class DTLZ7(DTLZ):
         F_first = rng.random((n_points * 20, self.n_obj - 1))
         F_last = 2 * self.n_obj - np.sum(F_first * (1 + np.sin(3 * np.pi * F_first)), axis=1)
         valid = F_last >= 0
-        return np.column_stack([F_first[valid], F_last[valid]])
+        F = np.column_stack([F_first[valid], F_last[valid]])
+        return F[NonDominatedSorting().do(F, only_non_dominated_front=True)]
 
     def _evaluate(self, x, out, *args, **kwargs) -> None:
         """Evaluate DTLZ7 problem.
-- 
2.43.0


From 245e8a8d0e09319883cd405b5cca018b94d2eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 56/65] fix: the Pareto front of WFG2 has no dominated points

---
 pymoo/problems/many/wfg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/problems/many/wfg.py b/pymoo/problems/many/wfg.py
index b1cc6d1..6b26a5c 100644
--- a/pymoo/problems/many/wfg.py
+++ b/pymoo/problems/many/wfg.py
@@ -7,6 +7,7 @@ import numpy as np
 from pymoo.core.problem import Problem
 from pymoo.problems.many import generic_sphere, get_ref_dirs
 from pymoo.functions import load_function
+from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 from pymoo.util.misc import powerset
 from pymoo.util import default_random_state
 
@@ -151,6 +152,7 @@ class WFG(Problem):
             closest = np.argmin(dist_matrix, axis=0)
             pf = pf[closest]
 
+        pf = pf[NonDominatedSorting().do(pf, only_non_dominated_front=True)]
         pf = pf[np.lexsort(pf.T[::-1])]
         return pf
 
-- 
2.43.0


From 35357a4aea15177c0625707d670fc531eee75307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 57/65] fix: MW6 is defined at the upper bound of the first
 variable

---
 pymoo/problems/multi/mw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index de1a3ae..a2e7312 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -195,7 +195,7 @@ class MW6(MW):
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g2(X)
         f0 = g * X[:, 0]
-        f1 = g * np.sqrt(1.1 * 1.1 - np.power(f0 / g, 2.0))
+        f1 = g * np.sqrt(np.maximum(1.1 * 1.1 - np.power(f0 / g, 2.0), 0.0))
 
         with np.errstate(divide="ignore"):
             atan = np.arctan(f1 / f0)
-- 
2.43.0


From bd1906b5f07182e4f963e8cc5aafee9ab091ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:48 +0000
Subject: [PATCH 58/65] fix: the Pareto fronts of MW problems left the
 reference directions modified

---
 pymoo/problems/multi/mw.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index a2e7312..86e8809 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -79,7 +79,7 @@ class MW1(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = ref_dirs.copy()
         F[:, 1] = 1 - 0.85 * F[:, 0]
         length = np.sqrt(2) * F[:, 1] - np.sqrt(2) * F[:, 0]
         c = 1 - F[:, 0] - F[:, 1] + 0.5 * np.sin(2 * np.pi * length) ** 8
@@ -105,7 +105,7 @@ class MW2(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = ref_dirs.copy()
         F[:, 1] = 1 - F[:, 0]
         return F
 
@@ -129,7 +129,7 @@ class MW3(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = ref_dirs.copy()
         F[:, 1] = 1 - F[:, 0]
         invalid = (0.85 - F[:, 0] - F[:, 1] + 0.3 * np.sin(0.75 * np.pi * np.sqrt(2) * (F[:, 1] - F[:, 0])) ** 2) > 0
         while invalid.any():
@@ -213,7 +213,7 @@ class MW6(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = ref_dirs.copy()
         F[:, 1] = 1 - F[:, 0]
         F = F / np.sqrt(np.sum(F**2, axis=1) / 1.21).reshape((-1, 1))
         length = np.cos(6 * np.arctan(F[:, 1] / F[:, 0]) ** 4) ** 10
@@ -355,7 +355,7 @@ class MW12(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = ref_dirs.copy()
         F[:, 1] = 0.85 - 0.8 * F[:, 0] - 0.08 * np.abs(np.sin(3.2 * np.pi * F[:, 0]))
 
         invalid = (1 - 0.8 * F[:, 0] - F[:, 1] + 0.08 * np.sin(2 * np.pi * (F[:, 1] - F[:, 0] / 1.5))) * (
-- 
2.43.0


From d0b0c78bcfeb1a0d15b9341bb16247fefdec0e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:08 +0000
Subject: [PATCH 59/65] fix: the selection of maximum distance removes the
 selected point from the candidates

---
 pymoo/util/reference_direction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 9954306..6e19b03 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -450,6 +450,6 @@ def select_points_with_maximum_distance(
 
         # add it to the selected and remove from not selected
         selected.append(int(I))
-        not_selected = [i for i, idx in enumerate(not_selected) if idx != index_in_not_selected]
+        not_selected = [i for i in not_selected if i != I]
 
     return selected
-- 
2.43.0


From 684c2af4096454d85538ea66a081c8da9daaa547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:08 +0000
Subject: [PATCH 60/65] fix: layers of reference directions can be factories

---
 pymoo/util/reference_direction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 6e19b03..64445f4 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -292,7 +292,7 @@ class MultiLayerReferenceDirectionFactory:
         """
         ref_dirs: list[NDArray] = []
         for factory in self.layers:
-            ref_dirs.append(factory)
+            ref_dirs.append(factory() if callable(factory) else factory)
         ref_dirs_arr = np.concatenate(ref_dirs, axis=0)
         is_duplicate = find_duplicates(ref_dirs_arr)
         return ref_dirs_arr[np.logical_not(is_duplicate)]
-- 
2.43.0


From 939def3c31121f4141c1f150603c8137a8108f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:09 +0000
Subject: [PATCH 61/65] fix: HighTradeoffPoints uses the epsilon it is given

---
 pymoo/mcdm/high_tradeoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/mcdm/high_tradeoff.py b/pymoo/mcdm/high_tradeoff.py
index a19fa46..2497ded 100644
--- a/pymoo/mcdm/high_tradeoff.py
+++ b/pymoo/mcdm/high_tradeoff.py
@@ -19,7 +19,7 @@ class HighTradeoffPoints(DecisionMaking):
     def _do(self, F, **kwargs):
         n, m = F.shape
 
-        neighbors_finder = NeighborFinder(F, epsilon=0.125, n_min_neigbors="auto", consider_2d=False)
+        neighbors_finder = NeighborFinder(F, epsilon=self.epsilon, n_min_neigbors="auto", consider_2d=False)
 
         mu = np.full(n, -np.inf)
 
-- 
2.43.0


From 072dcbb1b7442d810c918689fd31326d23f838f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:08 +0000
Subject: [PATCH 62/65] fix: DF12 evaluates each solution on its own

---
 pymoo/problems/dynamic/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/dynamic/df.py b/pymoo/problems/dynamic/df.py
index 003e9bd..3208b0d 100644
--- a/pymoo/problems/dynamic/df.py
+++ b/pymoo/problems/dynamic/df.py
@@ -333,7 +333,7 @@ class DF12(DF):
         x0 = x[:, 0].reshape(len(x), 1)
         tmp1 = x[:, 2:] - np.sin(self.time * x0)
         tmp2 = np.abs(np.sin(np.floor(k * (2 * x[:, 0:2] - r)) * np.pi / 2))
-        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2)
+        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2, axis=1)
 
         f1 = g * np.cos(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
         f2 = g * np.sin(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
-- 
2.43.0


From 3c19571f6203e6552da0bea64b833169d13ec1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:09 +0000
Subject: [PATCH 63/65] fix: running metric of a constant objective divided by
 zero

---
 pymoo/util/running_metric.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymoo/util/running_metric.py b/pymoo/util/running_metric.py
index fba919c..9ed1827 100644
--- a/pymoo/util/running_metric.py
+++ b/pymoo/util/running_metric.py
@@ -49,8 +49,7 @@ class RunningMetric(Callback):
         # find the normalization constant to divide by
         norm = c_nadir - c_ideal
 
-        # make sure all dimensions in ideal are strictly lower than in nadir
-        c_nadir[c_ideal == c_nadir] += 1e-16
+        # if the range is degenerated - disable normalization by dividing by one
         norm[c_ideal == c_nadir] = 1.0
 
         # append the current optimum to the history
-- 
2.43.0


From 0a056776554c544c34a2cbdc07609edd71d17975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:09 +0000
Subject: [PATCH 64/65] fix: set_params ignored as_value for nested parameters

---
 pymoo/core/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/core/parameters.py b/pymoo/core/parameters.py
index 7c04814..bd33e6d 100644
--- a/pymoo/core/parameters.py
+++ b/pymoo/core/parameters.py
@@ -146,7 +146,7 @@ def set_params(obj, params, as_value=True):
 
     for k, v in params.items():
         if isinstance(v, dict):
-            set_params(data[k], v)
+            set_params(data[k], v, as_value=as_value)
         else:
             if as_value:
                 data[k].set(v)
-- 
2.43.0


From 99c2074f13523eeebfb8f999de3e370bb214af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:10 +0000
Subject: [PATCH 65/65] fix: parameter control attaches parameters to the
 offspring of their mating

---
 pymoo/operators/control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/control.py b/pymoo/operators/control.py
index a39b368..fbda42b 100644
--- a/pymoo/operators/control.py
+++ b/pymoo/operators/control.py
@@ -178,7 +178,7 @@ class ParameterControlMating(InfillCriterion):
 
         # now we have to consider during parameter control that a crossover can produce multiple offsprings
         for name, param in control.params.items():
-            param.set(np.repeat(param.get(), self.crossover.n_offsprings))
+            param.set(np.tile(param.get(), self.crossover.n_offsprings))
 
         # do the mutation on the offsprings created through crossover
         off = self.mutation(problem, off, **kwargs)
-- 
2.43.0

