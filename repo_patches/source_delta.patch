From 5201ead173c4be3192289aca251779e2375922ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:35 +0000
Subject: [PATCH 01/97] fix: a maximizing run stops at its target only once the
 incumbent exceeds it

---
 bayes_optim/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 94a2098..a0c3541 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -176,4 +176,4 @@ class BaseOptimizer:
 
     def _compare(self, f1: float, f2: float) -> bool:
         """Test if objecctive value f1 is better than f2"""
-        return f1 < f2 if self.minimize else f2 > f1
+        return f1 < f2 if self.minimize else f1 > f2
-- 
2.43.0


From 1cddb36d87317907a61215354d966ecea31270bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:35 +0000
Subject: [PATCH 02/97] fix: NoisyBO can suggest points (its candidates are
 lists like those of BO)

---
 bayes_optim/bayes_opt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index b760b5d..ac77e1f 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -178,9 +178,8 @@ class NoisyBO(ParallelBO):
     """Bayesian Optimization for Noisy Scenarios"""
 
     def pre_eval_check(self, X: List):
-        if not isinstance(X, Solution):
-            X = Solution(X, var_name=self.var_names)
-        return X
+        # NOTE: repeated points are allowed here
+        return X.tolist() if isinstance(X, np.ndarray) else X
 
     def _create_acquisition(self, fun: Callable = None, par: Dict = None, **kwargv):
         par = {} if par is None else par
-- 
2.43.0


From 2edecd15976ae60b680d1312c8395bf0717d09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:35 +0000
Subject: [PATCH 03/97] fix: UCB favours better predicted values instead of
 worse ones

---
 bayes_optim/acquisition/acquisition_fun.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 9a2ae06..f67dc2b 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -108,9 +108,10 @@ class UCB(AcquisitionFunction):
     def __init__(self, alpha: float = 0.5, **kwargs):
         """Upper Confidence Bound
 
-        \alpha(x) = m(x) + \alpha * \sigma(x),
+        \alpha(x) = -m(x) + \alpha * \sigma(x),
 
-        where m(x) the predicted value and \sigma(x) is the uncertainty of the prediction
+        where m(x) the predicted value (of the minimization problem) and \sigma(x) is the uncertainty
+        of the prediction
         """
         super().__init__(**kwargs)
         self.alpha = alpha
@@ -130,7 +131,7 @@ class UCB(AcquisitionFunction):
         y_hat, sd = self._predict(X)
 
         try:
-            f_value = y_hat + self.alpha * sd
+            f_value = -1.0 * y_hat + self.alpha * sd
             if n_sample == 1:
                 f_value = sum(f_value)
         except Exception:  # in case of numerical errors
@@ -140,7 +141,7 @@ class UCB(AcquisitionFunction):
             y_dx, sd2_dx = self._gradient(X)
             sd_dx = sd2_dx / (2.0 * sd)
             try:
-                f_dx = y_dx + self.alpha * sd_dx
+                f_dx = -1.0 * y_dx + self.alpha * sd_dx
             except Exception:
                 f_dx = np.zeros((len(X[0]), 1))
             return f_value, f_dx
-- 
2.43.0


From 2117130d7fc02cfc6d079e6eddf7cd74fdd2e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:36 +0000
Subject: [PATCH 04/97] fix: PI can be created (its margin is zero)

---
 bayes_optim/acquisition/acquisition_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index f67dc2b..d70f758 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -203,7 +203,7 @@ class EpsilonPI(ImprovementBased):
 
     @epsilon.setter
     def epsilon(self, eps):
-        assert eps > 0
+        assert eps >= 0
         self._epsilon = eps
 
     def __call__(self, X, return_dx=False):
-- 
2.43.0


From b8393a8532d7b8e3d69f08e86ef8dabb6b0e66bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:36 +0000
Subject: [PATCH 05/97] fix: the acquisition parameters given by the user are
 used for single-point suggestions

---
 bayes_optim/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index ce22003..abe17bc 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -468,7 +468,9 @@ class BaseBO(BaseOptimizer):
                 n_point=n_point, return_dx=return_dx, fixed=fixed
             )
         else:  # single-point strategy
-            criteria = self._create_acquisition(par={}, return_dx=return_dx, fixed=fixed)
+            criteria = self._create_acquisition(
+                par=copy(self._acquisition_par), return_dx=return_dx, fixed=fixed
+            )
             candidates, values = self._argmax_restart(criteria, logger=self.logger)
             candidates, values = [candidates], [values]
 
-- 
2.43.0


From 5a42e41ebd8cbab5440688eb623c8931f726c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:36 +0000
Subject: [PATCH 06/97] fix: optimizers adapt their own copy of the acquisition
 parameters

---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index abe17bc..d4e7082 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -109,7 +109,7 @@ class BaseBO(BaseOptimizer):
         self.DoE_size = DoE_size
 
         self.acquisition_fun = acquisition_fun
-        self._acquisition_par = acquisition_par if acquisition_par else {}
+        self._acquisition_par = dict(acquisition_par) if acquisition_par else {}
         # the callback functions executed after every call of `arg_max_acquisition`
         self._acquisition_callbacks = []
         self.model = model
-- 
2.43.0


From 636ad481eaf2460df1930eeda4a571fc410d7989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:59 +0000
Subject: [PATCH 07/97] fix: ParallelBO works with UCB (no MGFI parameter is
 passed to it)

---
 bayes_optim/bayes_opt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index ac77e1f..1b78369 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -67,9 +67,11 @@ class ParallelBO(BO):
         self,
         n_point: int = 3,
         acquisition_fun: str = "MGFI",
-        acquisition_par: Dict = {"t": 2},
+        acquisition_par: Dict = None,
         **kwargs,
     ):
+        if acquisition_par is None and acquisition_fun == "MGFI":
+            acquisition_par = {"t": 2}
         super().__init__(
             n_point=n_point,
             acquisition_fun=acquisition_fun,
-- 
2.43.0


From 0156681660f6a7d7a4ff4f88e2ba7786eefabc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:59 +0000
Subject: [PATCH 08/97] fix: creating or slicing a search space does not reset
 the global random state

---
 bayes_optim/search_space/search_space.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index a01926f..d8ce6ce 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -128,10 +128,9 @@ class SearchSpace:
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            seed = int(seed)
-        self._random_seed = seed
-        np.random.seed(self._random_seed)
+        self._random_seed = int(seed) if seed else None
+        if self._random_seed:
+            np.random.seed(self._random_seed)
 
     @staticmethod
     def _ready_args(bounds, var_name, **kwargs):
@@ -260,7 +259,9 @@ class SearchSpace:
         if isinstance(data, Variable):
             out = data
         elif isinstance(data, list):
-            out = SearchSpace(data, self.random_seed)
+            # NOTE: a subspace inherits the seed without resetting the random state
+            out = SearchSpace(data)
+            setattr(out, "_random_seed", self.random_seed)
             # backwards compatibility
             if hasattr(self, "structure"):
                 getattr(out, "_set_structure")(self.structure)
-- 
2.43.0


From 35d61d7e54cc0afe226a4fe4dc5168f83eb05047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:59 +0000
Subject: [PATCH 09/97] fix: (1+1)-CMA-ES does not reset the random state, so
 that restarts differ from each other

---
 bayes_optim/acquisition/optim/__init__.py            | 2 --
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index d55d253..9c218cc 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -1,5 +1,4 @@
 import logging
-import time
 from typing import Callable, List, Tuple
 
 import numpy as np
@@ -104,7 +103,6 @@ def argmax_restart(
                 n_restart=0,
                 minimize=False,
                 verbose=False,
-                seed=time.time(),
             )
             xopt_, fopt_, stop_dict = opt.run()
             stop_dict["funcalls"] = stop_dict["FEs"] if "FEs" in stop_dict else opt.eval_count
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index c8295f8..99d440d 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -35,7 +35,7 @@ class OnePlusOne_CMA(object):
         ftol: float = 1e-4,
         verbose: bool = False,
         log_file: str = None,
-        random_seed: int = 42,
+        random_seed: int = None,
         **kwargs,
     ):
         """Hereafter, we use the following customized
-- 
2.43.0


From 8f63323839eea211853f3beca7219425ec73b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:59 +0000
Subject: [PATCH 10/97] fix: categorical and subset masks of a search space
 agree with its variables

---
 bayes_optim/search_space/search_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index d8ce6ce..b5683a0 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -227,7 +227,9 @@ class SearchSpace:
             ]
             self.categorical_mask = np.bitwise_or(
                 self.bool_mask,
-                np.bitwise_or(self.discrete_mask, self.ordinal_mask, self.subset_mask),
+                np.bitwise_or(
+                    self.subset_mask, np.bitwise_or(self.discrete_mask, self.ordinal_mask)
+                ),
             )
 
     def _set_levels(self):
-- 
2.43.0


From 37cd674b2799843c387c5b63c94f93a2cd42ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:59 +0000
Subject: [PATCH 11/97] fix: combining search spaces neither renames nor shares
 the variables of the operands

---
 bayes_optim/search_space/search_space.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index b5683a0..73ea0bd 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -322,7 +322,7 @@ class SearchSpace:
         assert isinstance(space, SearchSpace)
         # NOTE: the random seed of `self` has the priority
         random_seed = self.random_seed if self.random_seed else space.random_seed
-        data = deepcopy(self.data) + space.data
+        data = deepcopy(self.data) + deepcopy(space.data)
         if hasattr(self, "structure"):
             structure = [t.deepcopy() for t in self.structure] + [
                 t.deepcopy() for t in space.structure
@@ -336,7 +336,7 @@ class SearchSpace:
 
     def __iadd__(self, space) -> SearchSpace:
         assert isinstance(space, SearchSpace)
-        self._set_data(self.data + space.data)
+        self._set_data(self.data + deepcopy(space.data))
         SearchSpace.__set_type(self)
         return self
 
@@ -496,7 +496,7 @@ class SearchSpace:
             self.data[k] = deepcopy(space.data[j])
 
         _index_add = np.nonzero(np.array(_var_name) == _add)[0]
-        self.data += [space.data[i] for i in _index_add]
+        self.data += [deepcopy(space.data[i]) for i in _index_add]
         self._set_data(self.data)
         return SearchSpace.__set_type(self)
 
-- 
2.43.0


From 3e97f5461a9078bbdda1f14c95077d796dfd6a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 12/97] fix: a search space does not rename or share the
 variables it is created from

---
 bayes_optim/search_space/search_space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 73ea0bd..a3685ba 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -95,7 +95,8 @@ class SearchSpace:
         self._levels: dict = {}
 
         self.random_seed: int = random_seed
-        self._set_data(data)
+        # NOTE: the variables (which might be renamed) and the list belong to the caller
+        self._set_data([copy(var) for var in data])
         self._set_structure(structure)
         SearchSpace.__set_type(self)
 
-- 
2.43.0


From eb730dd7b2679b373b45ec4a8965aa0807063d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 13/97] fix: updating a search space works for any number of
 common or new variables

---
 bayes_optim/search_space/search_space.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index a3685ba..720e027 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -487,17 +487,11 @@ class SearchSpace:
             the input space for the update
         """
         _var_name = space.var_name
-        _update = np.array(list(set(_var_name) & set(self.var_name)))
-        _add = np.array(list(set(_var_name) - set(self.var_name)))
-
-        _index_update_to = np.nonzero(np.array(self._var_name) == _update)[0]
-        _index_update_from = np.nonzero(np.array(_var_name) == _update)[0]
-        for i, k in enumerate(_index_update_to):
-            j = _index_update_from[i]
-            self.data[k] = deepcopy(space.data[j])
-
-        _index_add = np.nonzero(np.array(_var_name) == _add)[0]
-        self.data += [deepcopy(space.data[i]) for i in _index_add]
+        for i, name in enumerate(_var_name):
+            if name in self.var_name:
+                self.data[self.var_name.index(name)] = deepcopy(space.data[i])
+            else:
+                self.data.append(deepcopy(space.data[i]))
         self._set_data(self.data)
         return SearchSpace.__set_type(self)
 
-- 
2.43.0


From 039b538fdb6a5b29b74afc0aaac930db129b9346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 14/97] fix: replicating a search space once in place does not
 double it

---
 bayes_optim/search_space/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 720e027..82bf826 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -402,7 +402,7 @@ class SearchSpace:
             `self`
         """
         self._set_data(
-            self.data + [deepcopy(var) for _ in range(max(1, int(N - 1))) for var in self.data]
+            self.data + [deepcopy(var) for _ in range(max(0, int(N) - 1)) for var in self.data]
         )
         return self
 
-- 
2.43.0


From 4bda8a0977babe10796f8b3adb72f5f896e59b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 15/97] fix: copying a condition tree keeps its nodes

---
 bayes_optim/search_space/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index 7e5d8aa..d970980 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -100,7 +100,7 @@ class Node:
         Node
             the updated root node
         """
-        op = lambda e, S: e not in S if invert else lambda e, S: e in S
+        op = (lambda e, S: e not in S) if invert else (lambda e, S: e in S)
         if op(self.name, node_names):
             return None
         node = Node(self.name, deepcopy(self.data))
-- 
2.43.0


From e496a528c3064d5bf70769aec3eb1827c358b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 16/97] fix: conditions are not duplicated when a conditional
 search space is sliced or modified

---
 bayes_optim/search_space/search_space.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 82bf826..23b5c1c 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -180,7 +180,7 @@ class SearchSpace:
             for t in structure:
                 _structure.update(t.to_dict())
         elif isinstance(structure, dict):
-            _structure = structure
+            _structure = {k: list(v) for k, v in structure.items()}
         # scan for all conditions defined in variables
         for var in self.data:
             if not hasattr(var, "conditions") or var.conditions is None:
@@ -189,9 +189,9 @@ class SearchSpace:
             key = var.conditions["vars"][0]
             if key not in var.conditions["vars"]:
                 raise ValueError(f"variable {var} not in {self}")
-            _structure.setdefault(key, []).append(
-                {"name": var.name, "condition": var.conditions["string"]}
-            )
+            entry = {"name": var.name, "condition": var.conditions["string"]}
+            if entry not in _structure.setdefault(key, []):
+                _structure[key].append(entry)
         self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
         self.structure = [t for t in self.structure if t]
 
-- 
2.43.0


From 2086c3a5525ae2ad4a8dfa0e0be4ca8c9b23e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 17/97] fix: variables on the same condition branch are active
 in the same subspaces, in a fixed order

---
 bayes_optim/search_space/node.py         | 21 ++++++++++-----------
 bayes_optim/search_space/search_space.py |  2 +-
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index d970980..bf5f108 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from copy import copy, deepcopy
+from itertools import product
 from typing import Any, Dict, List, Tuple
 
 
@@ -172,17 +173,15 @@ class Node:
             return {(): None}
 
         path = dict()
-        for br in set(self.branches):
-            _path = [
-                ((br,) + p, v) if p else ((br,), [self.children[i].name])
-                for i in [i for i, b in enumerate(self.branches) if b == br]
-                for p, v in Node.get_all_path(self.children[i]).items()
-            ]
-            _merged = dict()
-            for k, v in _path:
-                for vv in v:
-                    _merged.setdefault(k, []).append(vv)
-            path.update(_merged)
+        for br in dict.fromkeys(self.branches):
+            # all children on the same branch are active together
+            children = [c for c, b in zip(self.children, self.branches) if b == br]
+            for item in product(*[Node.get_all_path(c).items() for c in children]):
+                key, var = (br,), []
+                for child, (p, v) in zip(children, item):
+                    key += p
+                    var += v if p else [child.name]
+                path.setdefault(key, []).extend(var)
         return path
 
     def __str__(self) -> str:
diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 23b5c1c..ba69a82 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -699,7 +699,7 @@ class SearchSpace:
             # all variables in the conditional structure
             _var = _reduce([t.get_all_name() for t in self.structure])
             # remaining variables not affected by conditions
-            isolated_var = [self[v] for v in set(self.var_name) - set(_var)]
+            isolated_var = [self[v] for v in self.var_name if v not in _var]
             out, d = list(), dict()
             # all paths in the conditional tree
             paths = [list(root.get_all_path().items()) for root in self.structure]
-- 
2.43.0


From 9ea4cc756ac9c1c6cfe5c9a0bd6c1998c0a9ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 18/97] fix: conditions on negative values are understood

---
 bayes_optim/search_space/search_space.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index ba69a82..f685ed5 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -29,11 +29,7 @@ _get_var = lambda c: Parser().parse(c).variables()[0]
 
 
 def _get_val(condition):
-    c = ast.parse(condition).body[0].value.comparators[0]
-    if hasattr(c, "n"):
-        return c.n
-    if hasattr(c, "s"):
-        return c.s
+    return ast.literal_eval(ast.parse(condition).body[0].value.comparators[0])
 
 
 class SearchSpace:
-- 
2.43.0


From 87aa8b39d0dd52afd65e1ffe710eaeecf7189a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 19/97] fix: adding or subtracting in place keeps the
 conditions of a search space up to date

---
 bayes_optim/search_space/search_space.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index f685ed5..ff1e028 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -334,6 +334,8 @@ class SearchSpace:
     def __iadd__(self, space) -> SearchSpace:
         assert isinstance(space, SearchSpace)
         self._set_data(self.data + deepcopy(space.data))
+        if hasattr(self, "structure"):
+            self._set_structure(self.structure + getattr(space, "structure", []))
         SearchSpace.__set_type(self)
         return self
 
@@ -358,6 +360,8 @@ class SearchSpace:
         _res = set(self.var_name) - set(space.var_name)
         _index = [self.var_name.index(_) for _ in _res]
         self._set_data([self.data[i] for i in range(self.dim) if i in _index])
+        if hasattr(self, "structure"):
+            self._set_structure(self.structure)
         SearchSpace.__set_type(self)
         return self
 
-- 
2.43.0


From 501ff89d45ee28ea53eb11d29834654583804d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 20/97] fix: search spaces are created from and exported to
 dictionaries/JSON without losing variables or options

---
 bayes_optim/search_space/search_space.py | 61 ++++++++++--------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index ff1e028..dc9e9f3 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -589,18 +589,20 @@ class SearchSpace:
         out: dict = {}
         for _, var in enumerate(self.data):
             value = {
-                "range": var.bounds,
-                "type": type(var),
+                "range": var._bounds if isinstance(var, Subset) else var.bounds,
+                "type": type(var).__name__.lower(),
                 "N": 1,
             }
+            if var.default_value is not None:
+                value["default"] = var.default_value
             if isinstance(var, Real):
                 value["precision"] = var.precision
                 value["scale"] = var.scale
             elif isinstance(var, Integer):
                 value["step"] = var.step
 
-            if hasattr(var, "conditions"):
-                value["conditions"] = var.conditions
+            if getattr(var, "conditions", None) is not None:
+                value["conditions"] = var.conditions["string"]
                 # TODO: also export var._action?
             out[var.name] = value
         return out
@@ -643,37 +645,26 @@ class SearchSpace:
                 bounds = ()
 
             N = range(int(v["N"])) if "N" in v else range(1)
-            default_value = v["defualt"] if "default" in v else None
-            try:
-                if v["type"] in ["r", "real"]:  # real-valued parameter
-                    precision = v["precision"] if "precision" in v else None
-                    scale = v["scale"] if "scale" in v else "linear"
-                    _vars = [
-                        Real(
-                            bounds,
-                            name=k,
-                            default_value=default_value,
-                            precision=precision,
-                            scale=scale,
-                        )
-                        for _ in N
-                    ]
-                elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
-                    _vars = [
-                        Integer(bounds, name=k, default_value=default_value, step=v.pop("step", 1))
-                        for _ in N
-                    ]
-                elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
-                    _vars = [Ordinal(bounds, name=k, default_value=default_value) for _ in N]
-                elif v["type"] in ["c", "cat"]:  # category-valued parameter
-                    _vars = [Discrete(bounds, name=k, default_value=default_value) for _ in N]
-                elif v["type"] in ["s", "subset"]:  # subset parameter
-                    _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
-                elif v["type"] in ["b", "bool"]:  # Boolean-valued
-                    _vars = [Bool(name=k, default_value=default_value) for _ in N]
-                variables += _vars
-            except:
-                print(param)
+            default_value = v["default"] if "default" in v else None
+            kwargs = dict(name=k, default_value=default_value, conditions=v.get("conditions", None))
+            if v["type"] in ["r", "real"]:  # real-valued parameter
+                precision = v["precision"] if "precision" in v else None
+                scale = v["scale"] if "scale" in v else "linear"
+                variables += [Real(bounds, precision=precision, scale=scale, **kwargs) for _ in N]
+            elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
+                variables += [Integer(bounds, step=v.get("step", 1), **kwargs) for _ in N]
+            elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
+                variables += [Ordinal(bounds, **kwargs) for _ in N]
+            elif v["type"] in ["c", "cat", "discrete"]:  # category-valued parameter
+                variables += [Discrete(bounds, **kwargs) for _ in N]
+            elif v["type"] in ["s", "subset"]:  # subset parameter
+                if isinstance(default_value, list):  # JSON does not have tuples
+                    kwargs["default_value"] = tuple(default_value)
+                variables += [Subset(bounds, **kwargs) for _ in N]
+            elif v["type"] in ["b", "bool"]:  # Boolean-valued
+                variables += [Bool(**kwargs) for _ in N]
+            else:
+                raise ValueError(f"variable type {v['type']} is not supported")
         return SearchSpace(variables)
 
     @classmethod
-- 
2.43.0


From 84f942d531c06b1e203e7dd301bd67c64214abcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 21/97] fix: dictionary solutions are read by variable name,
 not by the order of their keys

---
 bayes_optim/base.py      | 4 +++-
 bayes_optim/extension.py | 2 +-
 bayes_optim/solution.py  | 9 +++++----
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index d4e7082..745a695 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -187,7 +187,9 @@ class BaseBO(BaseOptimizer):
             )
         elif self._eval_type == "dict":
             self._to_pheno = lambda x: x.to_dict().copy()
-            self._to_geno = lambda x, index=None: Solution.from_dict(x, index=index, n_obj=self.n_obj)
+            self._to_geno = lambda x, index=None: Solution.from_dict(
+                x, index=index, var_name=self.var_names, n_obj=self.n_obj
+            )
 
     def _set_internal_optimization(self, kwargs):
         if kwargs is None:
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index eb5189b..b055096 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -214,7 +214,7 @@ class ConditionalBO(ParallelBO):
         self._create_optimizer(**kwargs)
         self._ucb = np.zeros(self.n_subspace)
         self._to_pheno = lambda x: x.to_dict()
-        self._to_geno = lambda x, **kwargs: Solution.from_dict(x, **kwargs)
+        self._to_geno = lambda x, **kwargs: Solution.from_dict(x, var_name=self.var_names, **kwargs)
         self._bo_idx: List[int] = list()
 
     def _create_optimizer(self, **kwargs):
diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 774d2f6..be2f13e 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -273,11 +273,12 @@ class Solution(np.ndarray):
         **kwargs,
     ) -> Solution:
         if isinstance(x, dict):
-            var_name = list(x.keys())
-            res = cls.__new__(cls, x=list(x.values()), var_name=var_name, index=index, **kwargs)
+            var_name = list(x.keys()) if var_name is None else list(var_name)
+            res = cls.__new__(cls, x=[x[k] for k in var_name], var_name=var_name, index=index, **kwargs)
         elif isinstance(x, list):
-            var_name = list(x[0].keys())
-            _x = [list(_.values()) for _ in x]
+            # NOTE: the order of the keys might differ among the points
+            var_name = list(x[0].keys()) if var_name is None else list(var_name)
+            _x = [[_[k] for k in var_name] for _ in x]
             res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)
         return res
 
-- 
2.43.0


From 03b99b34fc9a770f3906c08ae7c4afa8a722cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 22/97] fix: ConditionalBO does not take zero or False for an
 inactive variable

---
 bayes_optim/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index b055096..31215ac 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -288,7 +288,7 @@ class ConditionalBO(ParallelBO):
         assert len(self._bo_idx) == len(X)
         # call `tell` method of BOs in each subspace
         for i, k in enumerate(self._bo_idx):
-            x = {k: v for k, v in X[i].items() if v}
+            x = {k: v for k, v in X[i].items() if v is not None}
             for key, _ in self._fixed_vars[k].items():
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
-- 
2.43.0


From cf708f665455609f9f74f7af8b55fbeee0acf69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 23/97] fix: a single solution can start with a subset value

---
 bayes_optim/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index be2f13e..937c9cd 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -76,7 +76,7 @@ class Solution(np.ndarray):
             obj = np.asarray([_ + [1] for _ in x], dtype="object")[:, 0:dim].view(cls)
         elif isinstance(x[0], tuple):
             dim = len(x)
-            obj = np.asarray(x + [1], dtype="object")[:, 0:dim].view(cls)
+            obj = np.asarray(list(x) + [1], dtype="object")[0:dim].view(cls)
         else:
             obj = np.asarray(x, dtype="object").view(cls)
 
-- 
2.43.0


From b10ad13174c5d342ca63569f0b8d8a6f341895c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 24/97] fix: subset values can be fixed or combined with fixed
 values

---
 bayes_optim/utils/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index 5494afc..23f8435 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -152,12 +152,12 @@ def fillin_fixed_value(X: List[List], fixed: Dict, search_space):
     if len(X) == 0:
         return X
     mask = np.array([v in fixed.keys() for v in search_space.var_name])
-    values = [fixed[k] for i, k in enumerate(search_space.var_name) if mask[i]]
-    out = np.empty((len(X), len(mask)), dtype=object)
-    out[:, ~mask] = X
-    for i in range(len(X)):
-        out[i, mask] = values
-    return out.tolist()
+    out = []
+    for x in X:
+        # NOTE: the values could be tuples, on which the assignment of `numpy` would not work
+        it = iter(x)
+        out.append([fixed[k] if mask[i] else next(it) for i, k in enumerate(search_space.var_name)])
+    return out
 
 
 def partial_argument(
-- 
2.43.0


From b3b8a5809cf14ea64488b384cec2abcd009045ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 25/97] fix: warm-start data are accepted as Solution and for
 all types of variables, and not modified

---
 bayes_optim/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 745a695..b2c434c 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -162,15 +162,14 @@ class BaseBO(BaseOptimizer):
             assert len(X) == len(y)
 
             if isinstance(X, Solution):
-                assert X.var_name == self.var_names
-            else:
-                X = self._to_geno(X)
+                assert list(X.var_name) == list(self.var_names)
+            X = self._to_geno(X)  # NOTE: make a copy since its attributes are set below
 
             X.fitness = y
             X.n_eval = 1
             assert all([isinstance(_, float) for _ in X[:, self.r_index].ravel()])
             assert all([isinstance(_, int) for _ in X[:, self.i_index].ravel()])
-            assert all([isinstance(_, str) for _ in X[:, self.d_index].ravel()])
+            assert all([x[i] in self.search_space.bounds[i] for x in X.tolist() for i in self.d_index])
             self._warm_data = X
             self.tell(X, y, warm_start=True)
 
@@ -188,7 +187,10 @@ class BaseBO(BaseOptimizer):
         elif self._eval_type == "dict":
             self._to_pheno = lambda x: x.to_dict().copy()
             self._to_geno = lambda x, index=None: Solution.from_dict(
-                x, index=index, var_name=self.var_names, n_obj=self.n_obj
+                x.to_dict() if isinstance(x, Solution) else x,
+                index=index,
+                var_name=self.var_names,
+                n_obj=self.n_obj,
             )
 
     def _set_internal_optimization(self, kwargs):
-- 
2.43.0


From 02e87240c5a7af84ea9d9be588aca9fd5eb56080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 26/97] fix: an observation counts once in the number of
 evaluations of a point

---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index b2c434c..500a515 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -176,7 +176,7 @@ class BaseBO(BaseOptimizer):
     def _set_aux_vars(self):
         if self._eval_type == "list":
             self._to_pheno = lambda x: copy(x.tolist())
-            self._to_geno = lambda x, index=None, n_eval=1, fitness=None: Solution(
+            self._to_geno = lambda x, index=None, n_eval=0, fitness=None: Solution(
                 x,
                 var_name=self.var_names,
                 n_obj=self.n_obj,
-- 
2.43.0


From 0b4edd610d9340be0b71dee75be09277c37060c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 27/97] fix: multi-objective points with a failed objective are
 dropped instead of raising

---
 bayes_optim/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 500a515..075f103 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -415,7 +415,9 @@ class BaseBO(BaseOptimizer):
         """
 
     def post_eval_check(self, X: Solution) -> Solution:
-        _ = np.isnan(X.fitness) | np.isinf(X.fitness)
+        _ = ~np.isfinite(X.fitness)
+        if _.ndim == 2:  # a point fails if any of its objective values does
+            _ = _.any(axis=1)
         if np.any(_):
             self.logger.warning(
                 f"{sum(_)} candidate solutions are removed "
-- 
2.43.0


From 47cb82ebe178c3b176c84ac9f3f6a11b978a7648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 28/97] fix: an initial design whose evaluations all fail does
 not break the optimizer

---
 bayes_optim/base.py | 5 +++++
 bayes_optim/mobo.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 075f103..72d5f9a 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -341,6 +341,11 @@ class BaseBO(BaseOptimizer):
             self.logger.info(f"#{i + 1} - fitness: {func_vals[i]}, solution: {self._to_pheno(X[i])}")
 
         X = self.post_eval_check(X)
+        if len(X) == 0 and not hasattr(self, "data"):
+            # all evaluations failed so far: another DoE will be taken in the next call of `ask`
+            if not warm_start:
+                self.iter_count += 1
+            return
         self.data = self.data + X if hasattr(self, "data") else X
         self.update_model()
 
diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index 2588af4..b1f1fbd 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -126,6 +126,11 @@ class BaseMOBO(BO):
             self.logger.info(f"#{i + 1} - {_fitness}, solution: {self._to_pheno(X[i])}")
 
         X = self.post_eval_check(X)
+        if len(X) == 0 and not hasattr(self, "data"):
+            # all evaluations failed so far: another DoE will be taken in the next call of `ask`
+            if not warm_start:
+                self.iter_count += 1
+            return
         if self.data_file is not None:
             X.to_csv(self.data_file, header=False, append=True)
         self.data = self.data + X if hasattr(self, "data") else X
-- 
2.43.0


From fd267c814f0aeb22f8623e8f8a7b3e1b3bcfae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 29/97] fix: ConditionalBO counts failed evaluations and
 survives a failed first batch

---
 bayes_optim/extension.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 31215ac..127471f 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -293,9 +293,12 @@ class ConditionalBO(ParallelBO):
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
 
+        self.eval_count += len(X)
         X = self.post_eval_check(self._to_geno(X, fitness=func_vals))
+        if len(X) == 0 and not hasattr(self, "data"):
+            self.iter_count += 1
+            return
         self.data = self.data + X if hasattr(self, "data") else X
-        self.eval_count += len(X)
 
         xopt = self.xopt
         self.logger.info(f"fopt: {xopt.fitness}")
-- 
2.43.0


From a010e18b200da75fb63f71fc3d4aa1b6981def2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 30/97] fix: a failing save leaves the optimizer and the
 previous checkpoint intact

---
 bayes_optim/base.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 72d5f9a..e822d5f 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -515,21 +515,29 @@ class BaseBO(BaseOptimizer):
         if dirname != "":
             os.makedirs(dirname, exist_ok=True)
 
-        with open(filename, "wb") as f:
+        logger, data = self.logger, getattr(self, "data", None)
+        try:
             # NOTE: we need to dump `self.data` first. Otherwise, some
             # attributes of it will be lost
-            if hasattr(self, "data"):
-                self.data = dill.dumps(self.data)
-
-            logger = self.logger
-            self.logger = dump_logger(self.logger)
-
-            dill.dump(self, f)
-
+            if data is not None:
+                self.data = dill.dumps(data)
+            self.logger = dump_logger(logger)
+            content = dill.dumps(self)
+        finally:
             self.logger = logger
-            if hasattr(self, "data"):
-                self.data = dill.loads(self.data)
-            self.logger.info(f"save to file {filename}...")
+            if data is not None:
+                self.data = data
+
+        # NOTE: an existing file is replaced only by a complete one
+        tmp = f"{filename}.{os.getpid()}.tmp"
+        try:
+            with open(tmp, "wb") as f:
+                f.write(content)
+            os.replace(tmp, filename)
+        finally:
+            if os.path.exists(tmp):
+                os.remove(tmp)
+        self.logger.info(f"save to file {filename}...")
 
     @classmethod
     def load(cls, filename):
-- 
2.43.0


From bb78118563af0a72248f47a5c43efdbcb23d5dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:19 +0000
Subject: [PATCH 31/97] fix: batches neither repeat a point nor fall short
 while unseen points exist

---
 bayes_optim/base.py      | 23 ++++++++++++++---------
 bayes_optim/bayes_opt.py |  3 ++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index e822d5f..92a17a5 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -290,7 +290,7 @@ class BaseBO(BaseOptimizer):
                 )
                 N = n_point - len(X)
                 # take random samples if the acquisition optimization failed
-                X += self.create_DoE(N, fixed=fixed)
+                X = self.create_DoE(N, fixed=fixed, X0=X)
         else:  # take the initial DoE
             n_point = self._DoE_size if n_point is None else n_point
             msg = f"asking {n_point} points (using DoE):"
@@ -368,13 +368,15 @@ class BaseBO(BaseOptimizer):
             self.iter_count += 1
             self.hist_f.append(xopt.fitness)
 
-    def create_DoE(self, n_point: int, fixed: Dict = None) -> List:
+    def create_DoE(self, n_point: int, fixed: Dict = None, X0: List = None) -> List:
         """get the initial sample points using Design of Experiemnt (DoE) methods
 
         Parameters
         ----------
         n_point : int
             the number of sample points to draw
+        X0 : List, optional
+            the points to which the sample points are added, by default None
 
         Returns
         -------
@@ -385,13 +387,16 @@ class BaseBO(BaseOptimizer):
         search_space = self.search_space.filter(fixed.keys(), invert=True)
 
         count = 0
-        DoE = []
+        DoE = [] if X0 is None else list(X0)
+        n_total = n_point + len(DoE)
         while n_point:
             # NOTE: random sampling could generate duplicated points again
-            # keep sampling until getting enough points
+            # keep sampling until getting enough points. The sample size is increased since most of
+            # the points might have been taken already in a finite search space
+            N = n_point if self._h or self._g else min(n_point * 10**count, max(n_point, 1000))
             X = search_space.sample(
-                n_point,
-                method="LHS" if n_point > 1 else "uniform",
+                N,
+                method="LHS" if count == 0 and n_point > 1 else "uniform",
                 h=partial_argument(self._h, self.search_space.var_name, fixed) if self._h else None,
                 g=partial_argument(self._g, self.search_space.var_name, fixed) if self._g else None,
             ).tolist()
@@ -399,9 +404,9 @@ class BaseBO(BaseOptimizer):
 
             if len(X) != 0:
                 X = self.search_space.round(X)
-                X = self.pre_eval_check(X)
-                DoE += X
-                n_point -= len(X)
+                X = X.tolist() if isinstance(X, np.ndarray) else X
+                DoE = self.pre_eval_check(DoE + X)[:n_total]
+                n_point = n_total - len(DoE)
 
             count += 1
             if count > 3:  # maximally 3 iterations
diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 1b78369..33b5fea 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -39,7 +39,8 @@ class BO(BaseBO):
         _ = []
         for i in range(N):
             x = X[i]
-            idx = np.arange(len(X)) != i
+            # compare to the observed points and to the candidates accepted so far
+            idx = np.array(_ + list(range(N, len(X))), dtype=int)
             CON = np.all(
                 np.isclose(
                     np.asarray(X[idx][:, self.r_index], dtype="float"),
-- 
2.43.0


From f3e1cd053d9f7a6b3d358cc49d0cf0dccc55f1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:48 +0000
Subject: [PATCH 32/97] fix: integer variables stay on the grid given by their
 step size

---
 bayes_optim/acquisition/optim/mies.py | 3 ++-
 bayes_optim/search_space/samplers.py  | 4 ++++
 bayes_optim/search_space/variable.py  | 8 +++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index a8a5524..d3a368f 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -258,7 +258,8 @@ class MIES:
 
         # Interval Bounds Treatment
         x_ = np.asarray(handle_box_constraint(x_, self.bounds_i[:, 0], self.bounds_i[:, 1]), dtype="int")
-        individual[self.id_i] = x_
+        # stay on the grid if a step size larger than one is provided
+        individual[self.id_i] = [int(self._space.data[k].round(x_[j])) for j, k in enumerate(self.id_i)]
         individual[self._id_eta] = eta
 
     def _mutate_d(self, individual):
diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index b62235e..62645a8 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -73,6 +73,7 @@ class SCMC:
         self.sample_space = sample_space
         self.dim = sample_space.dim
         self.mh_steps = metropolis_hastings_step
+        self.sample_out_of_bound = sample_out_of_bound
         self.nu_target = tol / 8  # 8-sigma CI leads to ~1.24e-15 significance
         self.nu0 = 10
         self.nu_schedule = np.logspace(np.log10(self.nu0), np.log10(self.nu_target), base=10, num=20)
@@ -142,6 +143,9 @@ class SCMC:
             self.bounds_i[:, 0],
             self.bounds_i[:, 1],
         )
+        if not self.sample_out_of_bound:  # stay on the grid of each variable
+            for i in self.id_i:
+                X[:, i] = self.sample_space.data[i].round(X[:, i])
 
     def _rproposal_discrete(self, X: np.ndarray, t: int):
         N = len(X)
diff --git a/bayes_optim/search_space/variable.py b/bayes_optim/search_space/variable.py
index 8a4a41b..52d156a 100644
--- a/bayes_optim/search_space/variable.py
+++ b/bayes_optim/search_space/variable.py
@@ -331,11 +331,17 @@ class Integer(_Discrete):
         self._size = int(np.floor((self.bounds[1] - self.bounds[0]) / self.step) + 1)
 
     def __contains__(self, x: int) -> bool:
-        return self.bounds[0] <= x <= self.bounds[1]
+        step = getattr(self, "step", 1)
+        return self.bounds[0] <= x <= self.bounds[1] and (x - self.bounds[0]) % step == 0
 
     def __hash__(self):
         return hash((self.name, self.bounds, self.default_value, self.step))
 
+    def round(self, X: np.ndarray) -> np.ndarray:
+        """Move each value in `X` to the nearest one that is reachable by the step size"""
+        k = np.round((np.asarray(X, dtype=float) - self.bounds[0]) / self.step).astype(int)
+        return self.bounds[0] + np.clip(k, 0, self._size - 1) * self.step
+
     def __str__(self):
         msg = super().__str__()
         msg += f" | step: {self.step}"
-- 
2.43.0


From bb223e2f9336d51c44c05112c13c5d09dc7656ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:48 +0000
Subject: [PATCH 33/97] fix: the numerical precision of real variables is kept
 by all samplers and optimizers

---
 bayes_optim/acquisition/optim/__init__.py            | 5 +++++
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 1 +
 bayes_optim/search_space/samplers.py                 | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index 9c218cc..5d9140b 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -87,6 +87,11 @@ def argmax_restart(
             if not isinstance(fopt_, float):
                 fopt_ = float(fopt_)
             fopt_ = -fopt_
+            # rounding if a coarser numerical precision is provided
+            x_rounded = search_space.round(xopt_)[0].tolist()
+            if x_rounded != xopt_:
+                xopt_ = x_rounded
+                fopt_ = float(np.ravel(obj_func(np.array(xopt_))[0])[0])
 
             if logger is not None and stop_dict["warnflag"] != 0:
                 logger.debug("L-BFGS-B terminated abnormally with the state: %s" % stop_dict)
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 99d440d..e0767b9 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -214,6 +214,7 @@ class OnePlusOne_CMA(object):
             # sample `x` u.a.r. in `[lb, ub]`
             assert all(~np.isinf(self.lb)) & all(~np.isinf(self.ub))
             x = (self.ub - self.lb) * np.random.rand(self.dim) + self.lb
+            x = self.search_space.round(x).ravel()
 
         self._x = x
         y = self.evaluate(x)
diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index 62645a8..d1f0ab0 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -134,6 +134,9 @@ class SCMC:
             self.bounds_r[:, 0],
             self.bounds_r[:, 1],
         )
+        if not self.sample_out_of_bound:  # rounding if a coarser numerical precision is provided
+            for i in self.id_r:
+                X[:, i] = self.sample_space.data[i].round(X[:, i].astype(float))
 
     def _rproposal_integer(self, X: np.ndarray, t: int):
         X_ = X[:, self.id_i].astype(int)
-- 
2.43.0


From 387966721ef084a60d35d2cde5306fd7ee757e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:48 +0000
Subject: [PATCH 34/97] fix: sampling under constraints keeps the type of
 discrete values

---
 bayes_optim/search_space/samplers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index d1f0ab0..308334d 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -154,9 +154,11 @@ class SCMC:
         N = len(X)
         prob = max(0.5 * np.exp(-1 * t), 1 / self.N_d)
         for i in self.id_d:
-            levels = np.array(self.sample_space.bounds[i])
-            idx = np.random.rand(N) < prob
-            X[idx, i] = levels[np.random.randint(0, len(levels), sum(idx))]
+            levels = self.sample_space.bounds[i]
+            idx = np.nonzero(np.random.rand(N) < prob)[0]
+            # NOTE: the levels are not converted to a `numpy` array to keep the type of each level
+            for j, k in zip(idx, np.random.randint(0, len(levels), len(idx))):
+                X[j, i] = levels[k]
 
     def _ess(self, nu: float, nu_ref: float, X: np.ndarray) -> float:
         """effective sample size"""
-- 
2.43.0


From 7adfebe14cce7fe192db2fb702b203d976337d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:48 +0000
Subject: [PATCH 35/97] fix: subset values can be fixed when evaluating
 constraints and acquisition functions

---
 bayes_optim/utils/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index 23f8435..283e191 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -186,12 +186,13 @@ def partial_argument(
         if not isinstance(X, np.ndarray):
             X = np.array(X, dtype=object)
 
-        N = 1 if len(X.shape) == 1 else X.shape[1]
+        N = 1 if len(X.shape) == 1 else X.shape[0]
         X_ = np.empty((N, len(masks)), dtype=object)
         X_[:, ~masks] = X
-        # this is needed if `values` contains tuples
-        for i in range(N):
-            X_[i, masks] = values
+        # NOTE: element by element since `values` could contain tuples
+        for i, k in enumerate(np.nonzero(masks)[0]):
+            for j in range(N):
+                X_[j, k] = values[i]
         out_ = func(X_)
 
         # TODO: fix this ad-hoc solution for acquisition functions
-- 
2.43.0


From 4b49d29f7baeb0949552691f2aec04c6347d3e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:08 +0000
Subject: [PATCH 36/97] fix: constraints can be evaluated on points that start
 with a subset value

---
 bayes_optim/utils/utils.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index 283e191..be80574 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -160,6 +160,17 @@ def fillin_fixed_value(X: List[List], fixed: Dict, search_space):
     return out
 
 
+def _to_object_array(X: List) -> np.ndarray:
+    """Convert a point or a list of points to an array without unpacking values that are tuples"""
+    one_point = not isinstance(X[0], (list, np.ndarray))
+    rows = [X] if one_point else X
+    out = np.empty((len(rows), len(rows[0])), dtype=object)
+    for i, row in enumerate(rows):
+        for j, v in enumerate(row):
+            out[i, j] = v
+    return out[0] if one_point else out
+
+
 def partial_argument(
     func: callable,
     var_name: List[str],
@@ -184,7 +195,7 @@ def partial_argument(
     @functools.wraps(func)
     def wrapper(X: Union[np.ndarray, Solution, list]):
         if not isinstance(X, np.ndarray):
-            X = np.array(X, dtype=object)
+            X = _to_object_array(X)
 
         N = 1 if len(X.shape) == 1 else X.shape[0]
         X_ = np.empty((N, len(masks)), dtype=object)
@@ -220,7 +231,7 @@ def func_with_list_arg(func, arg_type, var_names):
     @functools.wraps(func)
     def wrapper(X):
         if isinstance(X, (list, tuple)):
-            X = np.array(X, dtype="object")
+            X = _to_object_array(X)
         if len(X.shape) == 1:
             X = X[np.newaxis, :]
         X = Solution(X, var_name=var_names)
@@ -315,9 +326,10 @@ def dynamic_penalty(
     ``p``
         the dynamic penalty value
     """
-    if not hasattr(X[0], "__iter__") or isinstance(X[0], str):
+    # NOTE: `str` and `tuple` are values of discrete variables
+    if not hasattr(X[0], "__iter__") or isinstance(X[0], (str, tuple)):
         X = [X]
-    X = np.array(X, dtype=object)
+    X = X if isinstance(X, np.ndarray) else _to_object_array(X)
 
     N = len(X)
     p = np.zeros(N)
-- 
2.43.0


From f4b7b5bc8a55d8501f623e1d422405e9fd973b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:08 +0000
Subject: [PATCH 37/97] fix: (1+1)-CMA-ES restarts only as often as specified
 and counts the initial points

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index e0767b9..0168eb4 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -276,6 +276,10 @@ class OnePlusOne_CMA(object):
             self._delta_f = self.ftol * 200
             self.stop_dict = {}
             self.n_restart -= 1
+            self._restart = False
+            if self.eval_count >= self.max_FEs:  # the initial point is also evaluated
+                self.stop_dict["FEs"] = self.eval_count
+                self._stop = True
 
     def ask(self) -> np.ndarray:
         """The mutation operator
-- 
2.43.0


From dbb6aa1a9f254864cccbdc64fa43ac63bcd3f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:44 +0000
Subject: [PATCH 38/97] fix: (1+1)-CMA-ES reports the best feasible point it
 has evaluated

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 0168eb4..65fa969 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -320,6 +320,7 @@ class OnePlusOne_CMA(object):
             self.fopt = y
             self.fopt_penalized = y_penalized
             self.xopt = x
+            self._feasible = penalty == 0
             return
 
         success = self._better(y_penalized, self.fopt_penalized)
@@ -335,9 +336,11 @@ class OnePlusOne_CMA(object):
             self._x = copy(x)
             self._update_covariance(z)
 
-        if success and penalty == 0:
-            self.xopt = copy(self._x)
+        # NOTE: `self.fopt_penalized` might be attained by an infeasible point
+        if penalty == 0 and (not self._feasible or self._better(y, self.fopt)):
+            self.xopt = copy(x)
             self.fopt = y
+            self._feasible = True
 
         self._handle_exception()
         self.iter_count += 1
-- 
2.43.0


From 3ba2661c7c782981fb68d547cf8ab880e1c6d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:44 +0000
Subject: [PATCH 39/97] fix: (1+1)-Cholesky-CMA-ES does not search at NaN after
 a step of zero length

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 65fa969..d4206c9 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -469,8 +469,8 @@ class OnePlusOne_Cholesky_CMA(OnePlusOne_CMA):
         w_ = w.dot(self._A_inv)
         L = np.sum(w**2)
 
-        self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
+        if L > 0:  # `L` is zero if the search point did not move, e.g., due to rounding
+            self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
+            self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
         self._A *= np.sqrt(ca)
-
-        self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
         self._A_inv *= 1 / np.sqrt(ca)
-- 
2.43.0


From ed235881956a63a31705ddba64af7db6f5f97211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:44 +0000
Subject: [PATCH 40/97] fix: restarts of the acquisition optimization keep to
 the budget when they end infeasible

---
 bayes_optim/acquisition/optim/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index 5d9140b..cab14b4 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -142,10 +142,11 @@ def argmax_restart(
             else:
                 wait_count += 1
 
-            eval_budget -= stop_dict["funcalls"]
             xopt.append(xopt_)
             fopt.append(fopt_)
 
+        # NOTE: the restarts ending up in the infeasible region also consume the budget
+        eval_budget -= stop_dict["funcalls"]
         if eval_budget <= 0 or wait_count >= wait_iter:
             break
 
-- 
2.43.0


From 36ef6b6d859d615aae739b6e36a679e4a45383a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:44 +0000
Subject: [PATCH 41/97] fix: the acquisition optimization does not require a
 logger

---
 bayes_optim/acquisition/optim/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index cab14b4..87f79f6 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -68,7 +68,8 @@ def argmax_restart(
     wait_count = 0
     if not isinstance(search_space, RealSpace) and optimizer == "BFGS":
         optimizer = "MIES"
-        logger.warning("L-BFGS-B can only be applied on continuous search space")
+        if logger is not None:
+            logger.warning("L-BFGS-B can only be applied on continuous search space")
 
     for iteration in range(n_restart):
         x0 = search_space.sample(N=1, method="uniform")[0]
-- 
2.43.0


From fffcfc0baf658c0914e72ee44a0925bf5fea3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:59 +0000
Subject: [PATCH 42/97] fix: distinct points in a narrow range far from zero
 are not taken for duplicates

---
 bayes_optim/bayes_opt.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 33b5fea..4d03a23 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -36,18 +36,16 @@ class BO(BaseBO):
         if hasattr(self, "data"):
             X = X + self.data
 
+        r_range = np.array([np.ptp(self._search_space.bounds[k]) for k in self.r_index])
         _ = []
         for i in range(N):
             x = X[i]
             # compare to the observed points and to the candidates accepted so far
             idx = np.array(_ + list(range(N, len(X))), dtype=int)
-            CON = np.all(
-                np.isclose(
-                    np.asarray(X[idx][:, self.r_index], dtype="float"),
-                    np.asarray(x[self.r_index], dtype="float"),
-                ),
-                axis=1,
-            )
+            Xr = np.asarray(X[idx][:, self.r_index], dtype="float")
+            xr = np.asarray(x[self.r_index], dtype="float")
+            # NOTE: the points must be close also with respect to the range of the variables
+            CON = np.all(np.isclose(Xr, xr) & (np.abs(Xr - xr) <= 1e-5 * r_range), axis=1)
             INT = np.all(X[idx][:, self.i_index] == x[self.i_index], axis=1)
             CAT = np.all(X[idx][:, self.d_index] == x[self.d_index], axis=1)
             if not any(CON & INT & CAT):
-- 
2.43.0


From 8c4ee01e98010a9ddd4ee7c319cda712920e0b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:59 +0000
Subject: [PATCH 43/97] fix: fmin accepts bounds given as integers, tuples, or
 arrays

---
 bayes_optim/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 0115a59..4925b59 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -136,11 +136,9 @@ def fmin(
     """
     obj_func = lambda x: func(x, *args)
 
-    if isinstance(lower, float) and isinstance(upper, float):
-        search_space = RealSpace([lower, upper])
-    elif isinstance(lower, list) and isinstance(upper, list):
-        assert len(lower) == len(upper)
-        search_space = RealSpace(list(zip(lower, upper)))
+    lower, upper = np.atleast_1d(lower).tolist(), np.atleast_1d(upper).tolist()
+    assert len(lower) == len(upper)
+    search_space = RealSpace(list(zip(lower, upper)))
 
     dim = search_space.dim
     bounds = np.asarray(search_space.bounds)
-- 
2.43.0


From 8158a81dfd9b89699d5b03318c89754312c3b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:21 +0000
Subject: [PATCH 44/97] fix: fmin returns the trial points of each iteration,
 also with warm-starting data

---
 bayes_optim/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 4925b59..177c899 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -186,11 +186,12 @@ def fmin(
     )
     opt.run()
 
-    N, n = opt.DoE_size, opt.n_point
-    _data, data = opt.data[:N, :], opt.data[N:, :]
+    # skip the warm-starting data
+    data = opt.data[(len(opt.warm_data) if opt.warm_data is not None else 0) :, :]
+    N, n = 0 if opt.warm_data is not None else opt.DoE_size, opt.n_point
 
-    data_per_iteration = [np.asarray(data[:N, :])]
-    data_per_iteration += [np.asarray(data[(i * n) : ((i + 1) * n), :]) for i in range(opt.iter_count - 1)]
+    data_per_iteration = [np.asarray(data[:N, :])] if N else []
+    data_per_iteration += [np.asarray(data[i : (i + n), :]) for i in range(N, len(data), n)]
 
     print(
         "Optimization terminated successfully.\n"
-- 
2.43.0


From 93ef3c8335671cfc47b53f8a1abc45b5cd7bed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:21 +0000
Subject: [PATCH 45/97] fix: fmin reports the evaluations made on the given
 initial points

---
 bayes_optim/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 177c899..df0b093 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -157,6 +157,7 @@ def fmin(
         random_state=seed,
     )
 
+    n_eval0 = 0  # the number of evaluations made on `x0`
     # set up the warm-starting and DoE size
     if isinstance(x0, int):
         DoE_size = x0
@@ -165,6 +166,7 @@ def fmin(
         DoE_size = None
         if y0 is None:
             y0 = [obj_func(_) for _ in x0]
+            n_eval0 = len(y0)
         warm_data = (x0, y0)
     else:
         DoE_size = None
@@ -193,10 +195,11 @@ def fmin(
     data_per_iteration = [np.asarray(data[:N, :])] if N else []
     data_per_iteration += [np.asarray(data[i : (i + n), :]) for i in range(N, len(data), n)]
 
+    n_eval = opt.eval_count + n_eval0
     print(
         "Optimization terminated successfully.\n"
         "        Current function value: {}\n"
         "        Iterations: {}\n"
-        "        Function evaluations: {}\n".format(opt.xopt.fitness, opt.iter_count, opt.eval_count)
+        "        Function evaluations: {}\n".format(opt.xopt.fitness, opt.iter_count, n_eval)
     )
-    return opt.xopt, opt.xopt.fitness, opt.iter_count, opt.eval_count, data_per_iteration
+    return opt.xopt, opt.xopt.fitness, opt.iter_count, n_eval, data_per_iteration
-- 
2.43.0


From f163a6ae2855afb239ca2449c9cf99ecbbbe4268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:37 +0000
Subject: [PATCH 46/97] fix: Gaussian process predictions can be made in
 batches

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 024c9b6..aea92ee 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -515,20 +515,21 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
             if type(batch_size) is not int or batch_size <= 0:
                 raise Exception("batch_size must be a positive integer")
 
+            n_batch = int(np.ceil(n_eval / batch_size))
             if eval_MSE:
-                y, MSE = np.zeros(n_eval), np.zeros(n_eval)
-                for k in range(max(1, n_eval / batch_size)):
+                y, MSE = np.zeros((n_eval, n_targets)), np.zeros((n_eval, n_targets))
+                for k in range(n_batch):
                     batch_from = k * batch_size
-                    batch_to = min([(k + 1) * batch_size + 1, n_eval + 1])
+                    batch_to = min([(k + 1) * batch_size, n_eval])
                     y[batch_from:batch_to], MSE[batch_from:batch_to] = self.predict(
                         X[batch_from:batch_to], eval_MSE=eval_MSE, batch_size=None
                     )
                 return y, MSE
 
-            y = np.zeros(n_eval)
-            for k in range(max(1, n_eval / batch_size)):
+            y = np.zeros((n_eval, n_targets))
+            for k in range(n_batch):
                 batch_from = k * batch_size
-                batch_to = min([(k + 1) * batch_size + 1, n_eval + 1])
+                batch_to = min([(k + 1) * batch_size, n_eval])
                 y[batch_from:batch_to] = self.predict(
                     X[batch_from:batch_to], eval_MSE=eval_MSE, batch_size=None
                 )
-- 
2.43.0


From 4c1da721ad1509afd21147254552a8434b6fe4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:37 +0000
Subject: [PATCH 47/97] fix: the gradient of a Matern Gaussian process is
 correct at its training points

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index aea92ee..8710c24 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -643,8 +643,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                     if nu == 0.5:
                         grad = -diff * theta / D * r
                     elif nu == 1.5:
-                        grad = diff * theta / D
-                        grad *= -3.0 * D * exp(-c * D)
+                        grad = -3.0 * diff * theta * exp(-c * D)
                     elif nu == 2.5:
                         pass
 
-- 
2.43.0


From 1e5ab379b022deb8039d40edc39017dd6e25b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:37 +0000
Subject: [PATCH 48/97] fix: the prior covariance between two sets of points
 can be computed

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 8710c24..1c3ff55 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -318,7 +318,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
     def prior_cov(self, X1, X2=None, corr=False):
         # Check input shapes
         X1 = np.atleast_2d(X1)
-        X2 = np.atleast_2d(X2) if X2 else X1
+        X2 = np.atleast_2d(X2) if X2 is not None else X1
 
         n_eval_X1, _ = X1.shape
         n_eval_X2, _ = X2.shape
-- 
2.43.0


From 970399cf06741fcfe9f497117aaa151a8dda1a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:37 +0000
Subject: [PATCH 49/97] fix: the variance gradient is computed for several
 points in one dimension

---
 bayes_optim/surrogate/gaussian_process/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/__init__.py b/bayes_optim/surrogate/gaussian_process/__init__.py
index dbf9559..2bb2cd6 100755
--- a/bayes_optim/surrogate/gaussian_process/__init__.py
+++ b/bayes_optim/surrogate/gaussian_process/__init__.py
@@ -187,7 +187,7 @@ class GaussianProcessSklearn:
                 setattr(gp, "_K_inv", L_inv.dot(L_inv.T))
 
             mean_dx[i, ...] = scale * k_dx @ gp.alpha_
-            var_dx[i, ...] = -2.0 * scale**2 * np.squeeze(k_dx @ getattr(gp, "_K_inv") @ k)
+            var_dx[i, ...] = -2.0 * scale**2 * (k_dx @ getattr(gp, "_K_inv") @ k)[..., 0]
         return mean_dx, var_dx
 
     def kernel_dx(self, gp: sk_gpr, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From a5966e038ecb4a74efd8429cc33f6595430479fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:20 +0000
Subject: [PATCH 50/97] fix: SelfAdaptiveBO adapts its parameter from the
 acquisition values

---
 bayes_optim/bayes_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 4d03a23..5e77fe8 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -170,7 +170,7 @@ class SelfAdaptiveBO(ParallelBO):
             __ = [list(self._argmax_restart(_, logger=self.logger)) for _ in criteria]
 
         # NOTE: this adaptation is different from what I did in the LeGO paper..
-        idx = np.argsort(__[1])[::-1][:N]
+        idx = np.argsort([value for _, value in __])[::-1][:N]
         self._acquisition_par["t"] = np.mean([_t_list[i] for i in idx])
         return tuple(zip(*__))
 
-- 
2.43.0


From 6b5bceecb5b395968a04b81dc8cf3010732d8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:42 +0000
Subject: [PATCH 51/97] fix: the self-adaptation of SelfAdaptiveBO does not
 diverge to an invalid parameter

---
 bayes_optim/bayes_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 5e77fe8..e181944 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -156,7 +156,8 @@ class SelfAdaptiveBO(ParallelBO):
         N = int(n_point / 2)
 
         for _ in range(n_point):
-            _t = np.exp(self._acquisition_par["t"] * np.random.randn())
+            # NOTE: MGFI truncates `t` at 22.36; values beyond that make the self-adaptation diverge
+            _t = min(np.exp(self._acquisition_par["t"] * np.random.randn()), 22.36)
             _t_list.append(_t)
             _acquisition_par = copy(self._acquisition_par)
             _acquisition_par.update({"t": _t})
-- 
2.43.0


From 2b4b1f1c0b44e11e4377c9a68309c02bf29c1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:33 +0000
Subject: [PATCH 52/97] fix: PI and UCB are defined where the prediction has no
 uncertainty

---
 bayes_optim/acquisition/acquisition_fun.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index d70f758..080c0bb 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -139,7 +139,8 @@ class UCB(AcquisitionFunction):
 
         if return_dx:
             y_dx, sd2_dx = self._gradient(X)
-            sd_dx = sd2_dx / (2.0 * sd)
+            # NOTE: the standard deviation is not differentiable where it vanishes
+            sd_dx = sd2_dx / (2.0 * sd) if np.all(sd > 0) else np.zeros(y_dx.shape)
             try:
                 f_dx = -1.0 * y_dx + self.alpha * sd_dx
             except Exception:
@@ -211,6 +212,10 @@ class EpsilonPI(ImprovementBased):
         y_hat, sd = self._predict(X)
 
         coef = 1 - self._epsilon if y_hat > 0 else (1 + self._epsilon)
+        if np.all(sd == 0):  # the improvement is either certain or impossible
+            f_value = (self._plugin - coef * y_hat > 0).astype(float)
+            return (f_value, np.zeros((len(X[0]), 1))) if return_dx else f_value
+
         try:
             xcr_ = self._plugin - coef * y_hat
             xcr = xcr_ / sd
-- 
2.43.0


From df821efe658db3c4ed39e7be0bb7d79ee4a426bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:19 +0000
Subject: [PATCH 53/97] fix: MIES takes scalar and array-valued function values
 at the same time

---
 bayes_optim/acquisition/optim/mies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index d3a368f..8ab99d5 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -201,7 +201,7 @@ class MIES:
         if len(pop.shape) == 1:  # one solution
             X = [X]
 
-        pop.fitness = np.array(list(map(self.obj_func, X))).ravel()
+        pop.fitness = np.array([np.ravel(self.obj_func(x))[0] for x in X])
         self.eval_count += pop.N
         _penalized_fitness = (
             self._penalty_func(X, self.iter_count + 1, self.eq_func, self.ineq_func, minimize=self.minimize)
-- 
2.43.0


From bdbada4ced4c43dc091e19b474ca2e7245dc330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:34 +0000
Subject: [PATCH 54/97] fix: the linear schedule of AnnealingBO does not go
 below its final value

---
 bayes_optim/bayes_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index e181944..214b327 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -131,7 +131,8 @@ class AnnealingBO(ParallelBO):
             self._anealer = lambda t: t * self.alpha
         elif self.schedule == "linear":
             self.eta = (t0 - self.tf) / max_iter  # linear
-            self._anealer = lambda t: t - self.eta
+            # NOTE: `t` must stay positive when more requests are made than expected
+            self._anealer = lambda t: max(t - self.eta, min(t0, self.tf))
         elif self.schedule == "log":
             self.c = self.tf * np.log(max_iter + 1)  # logarithmic
             self._anealer = lambda t: t * self.c / np.log(self.iter_count + 2)
-- 
2.43.0


From 3e431156f2ae9395bfa5aeb1d3359ac6282be7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:12 +0000
Subject: [PATCH 55/97] fix: the multi-objective reference point is worse than
 the observations in both directions

---
 bayes_optim/mobo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index b1f1fbd..cae14a3 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -59,8 +59,8 @@ class BaseMOBO(BO):
     @property
     def ref_point(self):
         """reference point for computing the hypervolumne"""
-        # NOTE: assuming maximization
-        return np.min(self.y, axis=0) * 0.8
+        # NOTE: assuming maximization. It has to be worse than all observed values regardless of the sign
+        return np.min(self.y, axis=0) - 0.2
 
     @property
     def y(self):
-- 
2.43.0


From 4b5403c3eca815a74fcb00b3f706bb46be17a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:04 +0000
Subject: [PATCH 56/97] fix: numbering repeated variable names never clashes
 with an existing name

---
 bayes_optim/search_space/search_space.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index dc9e9f3..745edf3 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -160,12 +160,16 @@ class SearchSpace:
     def _check_data(self, data):
         assert all([isinstance(d, self._supported_types) for d in data])
         names = np.asarray([var.name for var in data])
-        for name, count in Counter(names).items():
+        counter = Counter(names)
+        taken = {name for name, count in counter.items() if count == 1}
+        for name, count in counter.items():
             if count > 1:
                 idx = np.nonzero(names == name)[0]
-                _names = [name + str(i) for i in range(count)]
-                for i, k in enumerate(idx):
-                    data[k].name = _names[i]
+                # NOTE: the numbered names must not clash with the other variables
+                _names = (name + str(i) for i in itertools.count() if name + str(i) not in taken)
+                for k in idx:
+                    data[k].name = next(_names)
+                    taken.add(data[k].name)
 
     def _set_structure(self, structure: Union[dict, List[Node]] = None):
         if structure is None:
-- 
2.43.0


From ef48fbe41ee12e74301bc389c188863da4740015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:04 +0000
Subject: [PATCH 57/97] fix: replacing a variable in a search space updates the
 type of the space

---
 bayes_optim/search_space/search_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 745edf3..c8b7502 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -288,6 +288,7 @@ class SearchSpace:
                 else:
                     raise Exception(f"index type {type(i)} is not supported")
         self._set_data(self.data)
+        SearchSpace.__set_type(self)
 
     def __contains__(self, item: Union[str, Variable, SearchSpace, list, dict]) -> bool:
         """check if a name, a variable, a space, or a sample point in the the search space"""
-- 
2.43.0


From 34bcc0a53ff448ff3d3e4b43575c06700504541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:06 +0000
Subject: [PATCH 58/97] fix: conditions which only differ in their spelling are
 the same branch

---
 bayes_optim/search_space/search_space.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index c8b7502..e08cefb 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -32,6 +32,17 @@ def _get_val(condition):
     return ast.literal_eval(ast.parse(condition).body[0].value.comparators[0])
 
 
+def _unify(condition):
+    """write equalities in the same way such that e.g. `x==1` and `x == 1` are the same branch"""
+    try:
+        expr = ast.parse(condition).body[0].value
+        if isinstance(expr, ast.Compare) and [type(op) for op in expr.ops] == [ast.Eq]:
+            return f"{_get_var(condition)} == {_get_val(condition)!r}"
+    except (SyntaxError, ValueError):
+        pass
+    return condition
+
+
 class SearchSpace:
     """Search Space Base Class
 
@@ -189,7 +200,7 @@ class SearchSpace:
             key = var.conditions["vars"][0]
             if key not in var.conditions["vars"]:
                 raise ValueError(f"variable {var} not in {self}")
-            entry = {"name": var.name, "condition": var.conditions["string"]}
+            entry = {"name": var.name, "condition": _unify(var.conditions["string"])}
             if entry not in _structure.setdefault(key, []):
                 _structure[key].append(entry)
         self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
-- 
2.43.0


From b92cbc36c8ecb00363a26ec65ea6e2106301de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:37 +0000
Subject: [PATCH 59/97] fix: conditions between the remaining variables survive
 slicing a conditional space

---
 bayes_optim/search_space/search_space.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index e08cefb..2325410 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -203,8 +203,13 @@ class SearchSpace:
             entry = {"name": var.name, "condition": _unify(var.conditions["string"])}
             if entry not in _structure.setdefault(key, []):
                 _structure[key].append(entry)
-        self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
-        self.structure = [t for t in self.structure if t]
+        # NOTE: only keep the conditions between the variables of this space
+        _structure = {
+            k: [c for c in children if c["name"] in self.var_name]
+            for k, children in _structure.items()
+            if k in self.var_name
+        }
+        self.structure = Node.from_dict({k: v for k, v in _structure.items() if v})
 
     @staticmethod
     def __set_type(obj: SearchSpace) -> SearchSpace:
-- 
2.43.0


From 657949f8a38cf66c488b259e00f161a633125d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:18 +0000
Subject: [PATCH 60/97] fix: negative and numpy integer indices of a Solution
 keep its attributes

---
 bayes_optim/solution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 937c9cd..cbe81e4 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -209,8 +209,8 @@ class Solution(np.ndarray):
         if isinstance(index, tuple):
             _ = index[0]
             if len(index) == 2:
-                if isinstance(index[1], int) and not isinstance(index[0], int):
-                    __ = slice(index[1], index[1] + 1)
+                if isinstance(index[1], (int, np.integer)) and not isinstance(index[0], (int, np.integer)):
+                    __ = slice(index[1], index[1] + 1 or None)
                     index = (_, __)
                 else:
                     __ = index[1]
@@ -222,7 +222,7 @@ class Solution(np.ndarray):
             # NOTE: `slice` is needed here to make sure an array is always returned
             # after slicing attributes `fitness`, `n_eval, `index`
             # Otherwise setting the attribute of a slice is by value...
-            _ = slice(_, _ + 1) if isinstance(_, (int, np.int_)) else _
+            _ = slice(_, _ + 1 or None) if isinstance(_, (int, np.integer)) else _
             if len(self.shape) == 1:  # `self` is a 1-d array
                 subarr.var_name = subarr.var_name[_]
             else:
-- 
2.43.0


From 4b7a482b6a671977c52ce63485edaeb2c1ab2fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:18 +0000
Subject: [PATCH 61/97] fix: removing duplicates from a Solution works on
 subsets and does not mix up types

---
 bayes_optim/solution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index cbe81e4..5557869 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -285,8 +285,11 @@ class Solution(np.ndarray):
     def unique(self) -> Solution:
         if len(self.shape) == 1:
             return self
-        _, index = np.unique(self.tolist(), axis=0, return_index=True)
-        return self[np.sort(index)]
+        # NOTE: rows are compared by value since they might contain mixed types, e.g., subsets (tuples)
+        first: Dict = {}
+        for i, row in enumerate(self.tolist()):
+            first.setdefault(tuple(row), i)
+        return self[list(first.values())]
 
     def to_list(self) -> List:
         return super().tolist()
-- 
2.43.0


From d46b9e59db98ed78e0f21a06c72548b66f672ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:18 +0000
Subject: [PATCH 62/97] fix: concatenating Solutions matches the variables by
 name

---
 bayes_optim/solution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 5557869..7dbee78 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -149,6 +149,10 @@ class Solution(np.ndarray):
         assert len(set(self.fitness_name).symmetric_difference(other.fitness_name)) == 0
         assert len(set(self.var_name).symmetric_difference(other.var_name)) == 0
 
+        if list(self.var_name) != list(other.var_name):  # match the order of the variables
+            idx = [list(other.var_name).index(name) for name in self.var_name]
+            other = other[idx] if len(other.shape) == 1 else other[:, idx]
+
         _ = [self.tolist()] if len(self.shape) == 1 else self.tolist()
         __ = [other.tolist()] if len(other.shape) == 1 else other.tolist()
         return Solution(
-- 
2.43.0


From ee68e914c2454bcc1472dc4ad089156dd52bc60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:18 +0000
Subject: [PATCH 63/97] fix: a single row of a multi-objective Solution can be
 concatenated, repeated and exported

---
 bayes_optim/solution.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 7dbee78..7feec92 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -138,6 +138,11 @@ class Solution(np.ndarray):
         obj.verbose = verbose
         return obj
 
+    def _list_fitness(self) -> List:
+        """fitness values, one entry per row"""
+        fitness = self.fitness.reshape(-1, self.n_obj) if self.n_obj > 1 else self.fitness
+        return fitness.tolist()
+
     def __iadd__(self, other: Solution) -> Solution:
         return self.__add__(other)
 
@@ -157,7 +162,7 @@ class Solution(np.ndarray):
         __ = [other.tolist()] if len(other.shape) == 1 else other.tolist()
         return Solution(
             _ + __,
-            self.fitness.tolist() + other.fitness.tolist(),
+            self._list_fitness() + other._list_fitness(),
             self.n_eval.tolist() + other.n_eval.tolist(),
             var_name=self.var_name,
             fitness_name=self.fitness_name,
@@ -173,7 +178,7 @@ class Solution(np.ndarray):
             raise Exception("Replication is not supported for 2D")
         return Solution(
             [self.tolist()] * N,
-            self.fitness.tolist() * N,
+            self._list_fitness() * N,
             self.n_eval.tolist() * N,
             var_name=self.var_name,
             fitness_name=self.fitness_name,
@@ -376,7 +381,7 @@ class Solution(np.ndarray):
         if index:
             data = np.c_[self.index, data]
         if attribute:
-            data = np.c_[data, self.n_eval, self.fitness]
+            data = np.c_[data, self.n_eval, self.fitness.reshape(len(data), -1)]
 
         out = [delimiter.join(map(str, row)) + "\n" for row in data.tolist()]
         mode = "a" if append else "w"
-- 
2.43.0


From 65915ff1779d7a000dee6db447b6017a9d0f9d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:18 +0000
Subject: [PATCH 64/97] fix: CSV export quotes values containing the delimiter

---
 bayes_optim/solution.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 7feec92..e9fe977 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -367,6 +367,10 @@ class Solution(np.ndarray):
             whether to include the atttributes, i.e., `self.n_eval` and `self.fitness`,
             by default True
         """
+        def _quote(value) -> str:
+            s = str(value)
+            return '"' + s.replace('"', '""') + '"' if delimiter in s or '"' in s or "\n" in s else s
+
         var_name = self.var_name.tolist()
         if header:
             _header = var_name
@@ -375,7 +379,7 @@ class Solution(np.ndarray):
             if attribute:
                 attr_name = ["n_eval"] + self.fitness_name
                 _header += attr_name
-            _header = delimiter.join(_header) + "\n"
+            _header = delimiter.join(map(_quote, _header)) + "\n"
 
         data = self.reshape(1, -1) if len(self.shape) == 1 else self
         if index:
@@ -383,7 +387,7 @@ class Solution(np.ndarray):
         if attribute:
             data = np.c_[data, self.n_eval, self.fitness.reshape(len(data), -1)]
 
-        out = [delimiter.join(map(str, row)) + "\n" for row in data.tolist()]
+        out = [delimiter.join(map(_quote, row)) + "\n" for row in data.tolist()]
         mode = "a" if append else "w"
         with open(fname, mode) as f:
             if header:
-- 
2.43.0


From f0351f9288dbb89b5538b234c4c9bc181e047ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:18 +0000
Subject: [PATCH 65/97] fix: indices assigned to a Solution are not truncated

---
 bayes_optim/solution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index e9fe977..cc1b102 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -132,7 +132,7 @@ class Solution(np.ndarray):
         # TODO: a np.ndarray is used for those attributes because slicing it returns references
         super(Solution, obj).__setattr__("fitness", np.asarray(fitness, dtype=float))
         super(Solution, obj).__setattr__("n_eval", np.asarray(n_eval, dtype=int))
-        super(Solution, obj).__setattr__("index", np.asarray(index, dtype=str))
+        super(Solution, obj).__setattr__("index", np.array(list(map(str, index)), dtype=object))
         obj.var_name = np.asarray(var_name)
         obj.fitness_name = fitness_name
         obj.verbose = verbose
@@ -192,6 +192,8 @@ class Solution(np.ndarray):
     def __setattr__(self, name, value):
         attr = getattr(self, name, None)
         if hasattr(attr, "__iter__") and name in ["fitness", "n_eval", "index"]:
+            if name == "index":
+                value = np.asarray(value, dtype=str)
             attr[:] = value  # NOTE: copy the value (not reference) to the attribute
         else:
             super(Solution, self).__setattr__(name, value)
-- 
2.43.0


From fc753d0611b2169a26661da5fa5604ac581aabd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:51 +0000
Subject: [PATCH 66/97] fix: copies and pickles of a Solution own their
 attributes

---
 bayes_optim/solution.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index cc1b102..9beb736 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import Dict, List, Optional, Sequence, Union
 
 import numpy as np
@@ -275,6 +276,28 @@ class Solution(np.ndarray):
         self.N: int = getattr(obj, "N", None)
         self.n_obj: int = getattr(obj, "n_obj", None)
 
+    def __reduce__(self):
+        # NOTE: `np.ndarray` does not pickle the extra attributes
+        func, args, state = super().__reduce__()
+        return func, args, (state, self.__dict__.copy())
+
+    def __setstate__(self, state):
+        state, attr = state if len(state) == 2 else (state, {})
+        super().__setstate__(state)
+        self.__dict__.update(attr)
+
+    def copy(self, order: str = "C") -> Solution:
+        return self.__deepcopy__({})
+
+    def __copy__(self) -> Solution:
+        return self.__deepcopy__({})
+
+    def __deepcopy__(self, memo: dict) -> Solution:
+        # NOTE: the extra attributes are copied as well
+        obj = super().__deepcopy__(memo)
+        obj.__dict__.update(deepcopy(self.__dict__, memo))
+        return obj
+
     @classmethod
     def from_dict(
         cls,
-- 
2.43.0


From 9a0267f97c1ce175947fea87c289ed0620a7108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:52 +0000
Subject: [PATCH 67/97] fix: GP predictions account for the share of noise in
 the correlation matrix

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 1c3ff55..97dbbe2 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -413,6 +413,9 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
 
         # compute for beta and gamma
         self.compute_beta_gamma()
+        # the share of the process in the total variance: `C` decomposes the correlation of the observations,
+        # which include noises. Their correlation with the process is hence smaller than `self.corr`
+        self._signal_ratio = (self.sigma2 / (self.sigma2 + self.noise_var))[0]
         self.is_fitted = True
         return self
 
@@ -487,7 +490,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
             # Get meanession function and correlation
             r = self.corr(self.theta_, dx).reshape(n_eval, n_samples)
             # Predictor
-            y = (self.mean(X) + r.dot(self.gamma)).reshape(n_eval, n_targets)
+            y = (self.mean(X) + self._signal_ratio * r.dot(self.gamma)).reshape(n_eval, n_targets)
 
             # Mean Squared Error
             if eval_MSE:
@@ -495,12 +498,18 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
 
                 if self.estimate_trend:  # Universal / Ordinary Kriging
                     f = self.mean.F(X)
-                    u = solve_triangular(self.G.T, np.dot(self.Ft.T, rt) - f.T, lower=True)
+                    u = solve_triangular(
+                        self.G.T, self._signal_ratio * np.dot(self.Ft.T, rt) - f.T, lower=True
+                    )
                 else:  # simple Kriging
                     u = np.zeros((1, n_eval))
 
                 MSE = np.dot(
-                    (1.0 - (rt**2.0).sum(axis=0) + (u**2.0).sum(axis=0)).reshape(n_eval, -1),
+                    (
+                        1.0
+                        - self._signal_ratio * (rt**2.0).sum(axis=0)
+                        + (u**2.0).sum(axis=0) / self._signal_ratio
+                    ).reshape(n_eval, -1),
                     self.sigma2.reshape(1, -1),
                 )
                 # MSE = np.sqrt((MSE ** 2.0).sum(axis=0) / n_targets)
@@ -559,19 +568,19 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
         r_dx = self.corr_dx(x, X=self.X, r=r).T
 
         # gradient of the posterior mean
-        y_dx = dot(self.mean.beta.T, f_dx) + self.gamma.T.dot(r_dx)
+        y_dx = dot(self.mean.beta.T, f_dx) + self._signal_ratio * self.gamma.T.dot(r_dx)
 
         # auxiliary variable: rt = C^-1 * r
         rt = solve_triangular(self.C, r.T, lower=True)
         rt_dx = solve_triangular(self.C, r_dx, lower=True)
 
-        mse_dx = -1.0 * dot(rt.T, rt_dx)  # for Simple Kriging
+        mse_dx = -self._signal_ratio * dot(rt.T, rt_dx)  # for Simple Kriging
         if self.estimate_trend:  # Universal / Ordinary Kriging
             # auxiliary variable: u = Ft^T * rt - f
-            u = dot(self.Ft.T, rt) - f
-            u_dx = dot(self.Ft.T, rt_dx) - f_dx
+            u = self._signal_ratio * dot(self.Ft.T, rt) - f
+            u_dx = self._signal_ratio * dot(self.Ft.T, rt_dx) - f_dx
             Ft2inv = linalg.inv(dot(self.Ft.T, self.Ft))
-            mse_dx += u.T.dot(Ft2inv).dot(u_dx)
+            mse_dx += u.T.dot(Ft2inv).dot(u_dx) / self._signal_ratio
 
         mse_dx = 2.0 * self.sigma2 * mse_dx
         return y_dx.T, mse_dx.T
@@ -596,7 +605,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
         r = self.corr(self.theta_, d).reshape(n_eval, n_samples)
         r_dx2 = self.corr_Hessian(x, X=self.X, r=r)
 
-        return (f_dx2.dot(self.mean.beta) + r_dx2.dot(self.gamma))[..., 0]
+        return (f_dx2.dot(self.mean.beta) + self._signal_ratio * r_dx2.dot(self.gamma))[..., 0]
 
     def corr_dx(self, x, X=None, theta=None, r=None, nu=1.5):
         # TODO: move corr_dx, corr_grad_theta the kernel module
-- 
2.43.0


From eb4c319aba4e52e8928c2a10e0ff2266b7dc0d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:52 +0000
Subject: [PATCH 68/97] fix: fitting a GP with noise estimation ends when the
 likelihood is invalid

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 97dbbe2..90ec08f 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -390,7 +390,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                     print("Invalid likelihood value. Increasing nugget...")
 
                     # TODO: maybe turn the working mode to 'noise_estim' directly
-                    if self.estimation_mode == "noiseless":
+                    if self.estimation_mode != "noisy":
                         self.estimation_mode = "noisy"
                         self.noise_var = 1e-5
                     else:
-- 
2.43.0


From c9a91f8f7573cc87215bfc01bcbb0d9c9926dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:52 +0000
Subject: [PATCH 69/97] fix: random forests accept levels that are tuples of
 the same length

---
 bayes_optim/surrogate/random_forest.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/random_forest.py b/bayes_optim/surrogate/random_forest.py
index 22a643c..33f99b5 100644
--- a/bayes_optim/surrogate/random_forest.py
+++ b/bayes_optim/surrogate/random_forest.py
@@ -12,6 +12,7 @@ from sklearn.preprocessing import OneHotEncoder
 from sklearn.utils.validation import check_is_fitted
 
 from ..solution import Solution
+from ..utils.utils import _to_object_array
 
 __authors__ = ["Hao Wang"]
 
@@ -97,12 +98,15 @@ class RandomForest(RandomForestRegressor):
         if self.levels:
             self._levels = OrderedDict(sorted(levels.items()))
             self._cat_idx = list(self._levels.keys())
-            self._categories = list(self._levels.values())
+            # NOTE: the levels of a categorical variable could be tuples
+            self._categories = [_to_object_array(list(_)) for _ in self._levels.values()]
             # encode categorical variables to binary values
             self._enc = OneHotEncoder(categories=self._categories, sparse=False)
 
     def _check_X(self, X: Union[Solution, List, np.ndarray]) -> Solution:
         X_ = array(X, dtype=object)
+        if X_.ndim > 2:
+            X_ = _to_object_array(X)
         if hasattr(self, "_levels"):
             X_cat = self._enc.fit_transform(X_[:, self._cat_idx])
             X = np.c_[np.delete(X_, self._cat_idx, 1).astype(float), X_cat]
-- 
2.43.0


From b9a97e69f3cdb0bfa2e391dce6e516969c8aaff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:07 +0000
Subject: [PATCH 70/97] fix: argmax_restart reports the value of the returned
 point if L-BFGS-B terminates abnormally

---
 bayes_optim/acquisition/optim/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index 87f79f6..95046da 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -90,7 +90,8 @@ def argmax_restart(
             fopt_ = -fopt_
             # rounding if a coarser numerical precision is provided
             x_rounded = search_space.round(xopt_)[0].tolist()
-            if x_rounded != xopt_:
+            # NOTE: `fopt_` does not belong to `xopt_` if the line search terminates abnormally
+            if x_rounded != xopt_ or stop_dict["warnflag"] == 2:
                 xopt_ = x_rounded
                 fopt_ = float(np.ravel(obj_func(np.array(xopt_))[0])[0])
 
-- 
2.43.0


From c960e79af789b9f9608f7cf420be2d7c287fc6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:01 +0000
Subject: [PATCH 71/97] fix: MIES reports the best feasible point it evaluated
 and its value

---
 bayes_optim/acquisition/optim/mies.py | 39 ++++++++++++++++-----------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index 8ab99d5..ec0b9fb 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -47,6 +47,9 @@ class MIES:
         self.max_eval = max_eval
         self.ftarget = ftarget
         self.elitism = elitism
+        self.xopt = None
+        self.fopt = None
+        self._feasible = False
         self._penalty_func = dynamic_penalty
         self._eval_type = eval_type
 
@@ -121,8 +124,6 @@ class MIES:
             )
             fitness0 = self.evaluate(self.pop[0])
             self.fitness = np.repeat(fitness0, self.mu_)
-            self.xopt = x0
-            self.fopt = sum(fitness0)
         else:  # uniform sampling
             x = np.asarray(self._space.sample(self.mu_), dtype="object")
 
@@ -139,9 +140,6 @@ class MIES:
 
             self.pop = Solution(x, var_name=self.var_names + par_name, verbose=self.verbose)
             self.fitness = self.evaluate(self.pop)
-            self.fopt = min(self.fitness) if self.minimize else max(self.fitness)
-            _ = np.nonzero(self.fopt == self.fitness)[0][0]
-            self.xopt = self.pop[_, self._id_var]
 
         self.offspring = self.pop[0] * self.lambda_
         self.f_offspring = np.repeat(self.fitness[0], self.lambda_)
@@ -197,18 +195,33 @@ class MIES:
         self.fitness = fitness[_]
 
     def evaluate(self, pop, return_penalized=True):
-        X = self._to_pheno(pop[:, self._id_var])
+        variables = pop[:, self._id_var]
+        X = self._to_pheno(variables)
         if len(pop.shape) == 1:  # one solution
-            X = [X]
+            X, variables = [X], [variables]
 
         pop.fitness = np.array([np.ravel(self.obj_func(x))[0] for x in X])
         self.eval_count += pop.N
-        _penalized_fitness = (
-            self._penalty_func(X, self.iter_count + 1, self.eq_func, self.ineq_func, minimize=self.minimize)
-            + pop.fitness
+        penalty = self._penalty_func(
+            X, self.iter_count + 1, self.eq_func, self.ineq_func, minimize=self.minimize
         )
+        _penalized_fitness = penalty + pop.fitness
+        self._update_best(variables, _penalized_fitness, penalty == 0)
         return _penalized_fitness if return_penalized else pop.fitness
 
+    def _update_best(self, X, fitness, feasible):
+        """Keep track of the best feasible point, or that of the best penalized value as long as no
+        feasible point is found. NOTE: the penalized values of different iterations are not
+        comparable since the penalty grows over time.
+        """
+        for x, f, feasible_ in zip(X, fitness, feasible):
+            if feasible_ == self._feasible:
+                improved = self.xopt is None or self._better(f, self.fopt)
+            else:
+                improved = feasible_
+            if improved:
+                self.xopt, self.fopt, self._feasible = x, f, bool(feasible_)
+
     def mutate(self, individual):
         if self.N_r:
             self._mutate_r(individual)
@@ -329,12 +342,6 @@ class MIES:
             # NOTE: `self.fitness` and `self.f_offspring` are penalized function values
             self.f_offspring[:] = self.evaluate(self.offspring)
             self.select()
-
-            curr_best = self.pop[0]
-            xopt_, fopt_ = curr_best[self._id_var], self.fitness[0]
-
-            if self._better(fopt_, self.fopt):
-                self.xopt, self.fopt = xopt_, fopt_
             self.iter_count += 1
 
             if self.verbose:
-- 
2.43.0


From 76079b8913a631503d0dc391107b020bdddf13a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:58 +0000
Subject: [PATCH 72/97] fix: argmax_restart reports the value of the returned
 point if L-BFGS-B runs out of budget

---
 bayes_optim/acquisition/optim/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index 95046da..e4df250 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -90,8 +90,8 @@ def argmax_restart(
             fopt_ = -fopt_
             # rounding if a coarser numerical precision is provided
             x_rounded = search_space.round(xopt_)[0].tolist()
-            # NOTE: `fopt_` does not belong to `xopt_` if the line search terminates abnormally
-            if x_rounded != xopt_ or stop_dict["warnflag"] == 2:
+            # NOTE: `fopt_` does not belong to `xopt_` if L-BFGS-B terminates abnormally
+            if x_rounded != xopt_ or stop_dict["warnflag"] != 0:
                 xopt_ = x_rounded
                 fopt_ = float(np.ravel(obj_func(np.array(xopt_))[0])[0])
 
-- 
2.43.0


From 5d0135aa3d54c56171cab99caf34917ede55276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:51 +0000
Subject: [PATCH 73/97] fix: non_dominated_set_2d handles ties in the first
 objective and leaves its argument unchanged

---
 bayes_optim/utils/multi_objective/pareto.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/utils/multi_objective/pareto.py b/bayes_optim/utils/multi_objective/pareto.py
index b44e212..d18b3bc 100644
--- a/bayes_optim/utils/multi_objective/pareto.py
+++ b/bayes_optim/utils/multi_objective/pareto.py
@@ -21,9 +21,11 @@ def non_dominated_set_2d(y, minimize=True):
 
     minimize = np.asarray(minimize).ravel()
     assert len(minimize) == 1 or minimize.shape == (N,)
-    y *= (np.asarray([-1] * N) ** minimize).reshape(-1, 1)
+    # NOTE: `y` should not be modified in place since it might be owned by the caller
+    y = y * (np.asarray([-1] * N) ** minimize).reshape(-1, 1)
 
-    _ = np.argsort(y[:, 0])[::-1]
+    # ties in the first objective are sorted according to the second one
+    _ = np.lexsort((y[:, 1], y[:, 0]))[::-1]
     y2 = y[_, 1]
     ND = []
     for i in range(N):
-- 
2.43.0


From 2e8e4042ce1f993da7c045e9ab8d85ca422ba262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:40 +0000
Subject: [PATCH 74/97] fix: MOBO determines the Pareto set from the original
 objective values in double precision

---
 bayes_optim/mobo.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index cae14a3..a3288cf 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -5,7 +5,7 @@ import numpy as np
 from joblib import Parallel, delayed
 from sklearn.metrics import mean_squared_error, r2_score
 from sklearn.preprocessing import MinMaxScaler
-from torch import Tensor
+from torch import Tensor, from_numpy
 
 from .acquisition.optim import argmax_restart
 from .bayes_opt import BO
@@ -51,9 +51,12 @@ class BaseMOBO(BO):
     @property
     def xopt(self):
         """get the non-dominated subset of solutions"""
-        if self.y is None:
+        if not hasattr(self, "data"):
             return None
-        idx = is_non_dominated(Tensor(self.y)).detach().cpu().numpy()
+        # NOTE: the comparison is performed on the original values in double precision since distinct
+        # values might coincide after the normalization
+        y = np.asarray(self.data.fitness, dtype=float) * (-1.0) ** self.minimize
+        idx = is_non_dominated(from_numpy(y)).detach().cpu().numpy()
         return self.data[idx, :]
 
     @property
-- 
2.43.0


From c97e5e00c9cdf9dce14f2655bef442e39f69c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:27 +0000
Subject: [PATCH 75/97] fix: MOBO accepts warm-starting data

---
 bayes_optim/mobo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index a3288cf..e3f944d 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -20,11 +20,15 @@ __authors__ = ["Hao Wang"]
 class BaseMOBO(BO):
     """Base class for multi-objective BO"""
 
-    def __init__(self, n_obj: int = 2, minimize: Union[bool, List[bool]] = True, **kwargv):
+    def __init__(
+        self, n_obj: int = 2, minimize: Union[bool, List[bool]] = True, warm_data: Tuple = None, **kwargv
+    ):
         # NOTE: setting `minimize=True` to make parent's constructor work
         super().__init__(minimize=True, **kwargv)
         self._check_obj_fun(n_obj)
         self._check_minimize(minimize)
+        # NOTE: the warm-starting data require the number of objectives and the directions
+        self.warm_data = warm_data
 
     def _check_minimize(self, minimize: bool):
         self.minimize = minimize
-- 
2.43.0


From f9eb1912a3019e2ab74f779641047f8fcca87e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:08 +0000
Subject: [PATCH 76/97] fix: PCABO suggests lists of floats also after the
 transformation is fitted

The candidates were rows of an object-typed array, on which numpy functions fail.
---
 bayes_optim/extension.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 127471f..799b05d 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -149,7 +149,8 @@ class PCABO(BO):
         return self._xopt
 
     def ask(self, n_point: int = None) -> List[List[float]]:
-        return self._pca.inverse_transform(super().ask(n_point))
+        X = self._pca.inverse_transform(super().ask(n_point))
+        return X.tolist() if isinstance(X, np.ndarray) else X
 
     def tell(self, new_X, new_y):
         self.logger.info(f"observing {len(new_X)} points:")
@@ -167,7 +168,7 @@ class PCABO(BO):
         new_X = self.post_eval_check(new_X)  # remove NaN's
         self.data = self.data + new_X if hasattr(self, "data") else new_X
         # re-fit the PCA transformation
-        X = self._pca.fit_transform(np.array(self.data), self.data.fitness)
+        X = self._pca.fit_transform(np.array(self.data, dtype=float), self.data.fitness)
         bounds = self._compute_bounds(self._pca, self.__search_space)
         # re-set the search space object for the reduced (feature) space
         self._search_space = RealSpace(bounds)
-- 
2.43.0


From 7eb47f617f7e103c22ce25848efe40412556fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:08 +0000
Subject: [PATCH 77/97] fix: PCABO survives an initial design whose evaluations
 all fail

---
 bayes_optim/extension.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 799b05d..1f16c2a 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -166,6 +166,9 @@ class PCABO(BO):
         self.eval_count += len(new_X)
 
         new_X = self.post_eval_check(new_X)  # remove NaN's
+        if len(new_X) == 0 and not hasattr(self, "data"):
+            # all evaluations failed so far: another DoE will be taken in the next call of `ask`
+            return
         self.data = self.data + new_X if hasattr(self, "data") else new_X
         # re-fit the PCA transformation
         X = self._pca.fit_transform(np.array(self.data, dtype=float), self.data.fitness)
-- 
2.43.0


From 62262eb08c1f678ca70605d6224e02d676cf5388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:08 +0000
Subject: [PATCH 78/97] fix: PCABO accepts warm-starting data

---
 bayes_optim/extension.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 1f16c2a..851661a 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import functools
 from copy import copy, deepcopy
-from typing import Callable, Dict, List, Union
+from typing import Callable, Dict, List, Tuple, Union
 
 import numpy as np
 from joblib import Parallel, delayed
@@ -99,7 +99,7 @@ class PCABO(BO):
 
     """
 
-    def __init__(self, n_components: Union[float, int] = None, **kwargs):
+    def __init__(self, n_components: Union[float, int] = None, warm_data: Tuple = None, **kwargs):
         super().__init__(**kwargs)
         if self.model is not None:
             self.logger.warning(
@@ -109,6 +109,7 @@ class PCABO(BO):
         assert isinstance(self._search_space, RealSpace)
         self.__search_space = deepcopy(self._search_space)  # the original search space
         self._pca = LinearTransform(n_components=n_components, svd_solver="full", minimize=self.minimize)
+        self.warm_data = warm_data  # NOTE: the data are told, which needs the transformation
 
     @staticmethod
     def _compute_bounds(pca: PCA, search_space: SearchSpace) -> List[float]:
@@ -152,7 +153,7 @@ class PCABO(BO):
         X = self._pca.inverse_transform(super().ask(n_point))
         return X.tolist() if isinstance(X, np.ndarray) else X
 
-    def tell(self, new_X, new_y):
+    def tell(self, new_X, new_y, warm_start: bool = False):
         self.logger.info(f"observing {len(new_X)} points:")
         for i, x in enumerate(new_X):
             self.logger.info(f"#{i + 1} - fitness: {new_y[i]}, solution: {x}")
@@ -162,8 +163,9 @@ class PCABO(BO):
             index += len(self.data)
         # convert `new_X` to a `Solution` object
         new_X = self._to_geno(new_X, index=index, n_eval=1, fitness=new_y)
-        self.iter_count += 1
-        self.eval_count += len(new_X)
+        if not warm_start:
+            self.iter_count += 1
+            self.eval_count += len(new_X)
 
         new_X = self.post_eval_check(new_X)  # remove NaN's
         if len(new_X) == 0 and not hasattr(self, "data"):
-- 
2.43.0


From 2cee3bc138329baba2b225acc8fa1a64675978ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:08 +0000
Subject: [PATCH 79/97] fix: PCABO records the history of the best objective
 value

---
 bayes_optim/extension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 851661a..9740163 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -180,6 +180,8 @@ class PCABO(BO):
         # update the surrogate model
         self.update_model(X, self.data.fitness)
         self.logger.info(f"xopt/fopt:\n{self.xopt}\n")
+        if not warm_start:
+            self.hist_f.append(self.xopt.fitness)
 
     def update_model(self, X: np.ndarray, y: np.ndarray):
         # NOTE: the GPR model will be created since the effective search space (the reduced space
-- 
2.43.0


From 790819d4069a7c078d1f73a1def0b50a86f8f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:36 +0000
Subject: [PATCH 80/97] fix: PCABO keeps its suggestions inside the original
 search space

---
 bayes_optim/extension.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 9740163..6714dad 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -151,7 +151,11 @@ class PCABO(BO):
 
     def ask(self, n_point: int = None) -> List[List[float]]:
         X = self._pca.inverse_transform(super().ask(n_point))
-        return X.tolist() if isinstance(X, np.ndarray) else X
+        if isinstance(X, np.ndarray):
+            # NOTE: the penalty does not rule out that the candidates leave the original domain
+            bounds = np.array(self.__search_space.bounds)
+            X = np.clip(X, bounds[:, 0], bounds[:, 1]).tolist()
+        return X
 
     def tell(self, new_X, new_y, warm_start: bool = False):
         self.logger.info(f"observing {len(new_X)} points:")
-- 
2.43.0


From 2f27ed2f7515f8b5eb43eaa18d3dcb60d90b0a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:11 +0000
Subject: [PATCH 81/97] fix: PCABO works with MIES as the acquisition optimizer

---
 bayes_optim/extension.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 6714dad..ef45e3c 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -61,6 +61,7 @@ class LinearTransform(PCA):
 
 def penalized_acquisition(x, acquisition_func, bounds, pca, return_dx):
     bounds_ = np.atleast_2d(bounds)
+    x = np.asarray(x, dtype=float)  # NOTE: the point is a `Solution` if it is proposed by MIES
     # map back the candidate point to check if it falls inside the original domain
     x_ = pca.inverse_transform(x)
     idx_lower = np.nonzero(x_ < bounds_[:, 0])[0]
-- 
2.43.0


From e250de213948f510d45d92c409c856e89b487f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:53 +0000
Subject: [PATCH 82/97] fix: a loaded optimizer does not start printing to the
 console because it logs to a file

---
 bayes_optim/utils/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/utils/logger.py b/bayes_optim/utils/logger.py
index 88df37d..992006d 100644
--- a/bayes_optim/utils/logger.py
+++ b/bayes_optim/utils/logger.py
@@ -76,7 +76,8 @@ def get_logger(
 def dump_logger(logger: logging.Logger) -> str:
     FHs = list(filter(lambda h: isinstance(h, logging.FileHandler), logger.handlers))
     log_file = None if len(FHs) == 0 else [fh.baseFilename for fh in FHs]
-    SH = list(filter(lambda h: isinstance(h, logging.StreamHandler), logger.handlers))
+    # NOTE: file handlers are stream handlers as well
+    SH = [h for h in logger.handlers if isinstance(h, logging.StreamHandler) and h not in FHs]
     return dill.dumps({"logger_id": logger.name, "console": len(SH) != 0, "file": log_file})
 
 
-- 
2.43.0


From 1a5538e77baeb8efab2f4c3ea0f7aba5a87e3544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:28 +0000
Subject: [PATCH 83/97] fix: keep the upper bound of a logit-scaled variable
 where the scale is finite

An upper bound of one made every sampled value equal to one.
---
 bayes_optim/search_space/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/variable.py b/bayes_optim/search_space/variable.py
index 52d156a..f108ba1 100644
--- a/bayes_optim/search_space/variable.py
+++ b/bayes_optim/search_space/variable.py
@@ -41,7 +41,7 @@ TRANS = {
     "linear": [identity, [-MAX, MAX]],
     "log": [np.log, [1e-300, MAX]],
     "log10": [np.log10, [1e-300, MAX]],
-    "logit": [sp.special.logit, [1e-300, 1]],
+    "logit": [sp.special.logit, [1e-300, 1 - sys.float_info.epsilon]],
     "bilog": [bilog, [-MAX, MAX]],
 }
 INV_TRANS = {
-- 
2.43.0


From f5955951261bdb805785568caaf53e4acccc7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:53 +0000
Subject: [PATCH 84/97] fix: whether the objective values are constant does not
 depend on their unit

---
 bayes_optim/base.py      | 6 ++++--
 bayes_optim/extension.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 92a17a5..408f3b3 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -447,10 +447,12 @@ class BaseBO(BaseOptimizer):
         # Standardization should make it easier to specify the GP prior, compared to
         # rescaling values to the unit interval.
         _std = np.std(fitness)
-        if len(fitness) > 5 and np.isclose(_std, 0):
+        # NOTE: relative to the magnitude of the values, since the objective can be given in any unit
+        is_flat = _std <= 1e-12 * np.max(np.abs(fitness))
+        if len(fitness) > 5 and is_flat:
             raise FlatFitnessError()
 
-        fitness_ = fitness if np.isclose(_std, 0) else (fitness - np.mean(fitness)) / np.std(fitness)
+        fitness_ = fitness if is_flat else (fitness - np.mean(fitness)) / _std
         self.fmin, self.fmax = np.min(fitness_), np.max(fitness_)
         self.frange = self.fmax - self.fmin
 
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index ef45e3c..f732842 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -208,7 +208,8 @@ class PCABO(BO):
         )
 
         _std = np.std(y)
-        y_ = y if np.isclose(_std, 0) else (y - np.mean(y)) / _std
+        # NOTE: relative to the magnitude of the values, since the objective can be given in any unit
+        y_ = y if _std <= 1e-12 * np.max(np.abs(y)) else (y - np.mean(y)) / _std
 
         self.fmin, self.fmax = np.min(y_), np.max(y_)
         self.frange = self.fmax - self.fmin
-- 
2.43.0


From 358fd8ce058c9d21e5232ec597eb610fb1f1b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:53 +0000
Subject: [PATCH 85/97] fix: the random seed 0 is respected and the random seed
 can be read when none is given

---
 bayes_optim/_base.py                                 | 7 +++----
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 7 +++----
 bayes_optim/search_space/search_space.py             | 8 ++++----
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index a0c3541..91036a7 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -149,10 +149,9 @@ class BaseOptimizer:
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def search_space(self):
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index d4206c9..957a1cb 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -178,10 +178,9 @@ class OnePlusOne_CMA(object):
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def C(self):
diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 2325410..5b7c827 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -136,8 +136,8 @@ class SearchSpace:
 
     @random_seed.setter
     def random_seed(self, seed):
-        self._random_seed = int(seed) if seed else None
-        if self._random_seed:
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
             np.random.seed(self._random_seed)
 
     @staticmethod
@@ -339,7 +339,7 @@ class SearchSpace:
         """Direct Sum of two `SearchSpace` instances"""
         assert isinstance(space, SearchSpace)
         # NOTE: the random seed of `self` has the priority
-        random_seed = self.random_seed if self.random_seed else space.random_seed
+        random_seed = self.random_seed if self.random_seed is not None else space.random_seed
         data = deepcopy(self.data) + deepcopy(space.data)
         if hasattr(self, "structure"):
             structure = [t.deepcopy() for t in self.structure] + [
@@ -363,7 +363,7 @@ class SearchSpace:
     def __sub__(self, space) -> SearchSpace:
         """Substraction of two `SearchSpace` instances"""
         assert isinstance(space, SearchSpace)
-        random_seed = self.random_seed if self.random_seed else space.random_seed
+        random_seed = self.random_seed if self.random_seed is not None else space.random_seed
         _res = set(self.var_name) - set(space.var_name)
         _index = [self.var_name.index(_) for _ in _res]
         data = [copy(self.data[i]) for i in range(self.dim) if i in _index]
-- 
2.43.0


From b8ca36b860340cd467a135d190564b6150ae1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 86/97] fix: SelfAdaptiveBO works if an acquisition
 optimization finds no feasible point

---
 bayes_optim/bayes_opt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 214b327..c65796b 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -172,8 +172,11 @@ class SelfAdaptiveBO(ParallelBO):
             __ = [list(self._argmax_restart(_, logger=self.logger)) for _ in criteria]
 
         # NOTE: this adaptation is different from what I did in the LeGO paper..
-        idx = np.argsort([value for _, value in __])[::-1][:N]
-        self._acquisition_par["t"] = np.mean([_t_list[i] for i in idx])
+        # NOTE: an acquisition optimization that ends up infeasible returns an empty solution
+        found = [i for i, (x, _) in enumerate(__) if len(x) > 0]
+        if found:
+            idx = np.argsort([__[i][1] for i in found])[::-1][:N]
+            self._acquisition_par["t"] = np.mean([_t_list[found[i]] for i in idx])
         return tuple(zip(*__))
 
 
-- 
2.43.0


From 4c970aa8f2f16663af59e85eab96004f6257fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:02 +0000
Subject: [PATCH 87/97] fix: the (1+1)-CMA-ES searches from the new starting
 point after a restart

The penalized best value before the restart was still the one offspring had
to beat, so a restarted search never moved.
---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 957a1cb..c3640da 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -219,6 +219,8 @@ class OnePlusOne_CMA(object):
         y = self.evaluate(x)
         penalty = self.penalize(x)
         self.tell(x, y, penalty)
+        # NOTE: the search proceeds from `x` even if it is worse than the best point before a restart
+        self.fopt_penalized = np.ravel(y)[0] + np.ravel(penalty)[0]
 
     @property
     def sigma(self):
-- 
2.43.0


From 9ab3ca5f74fe262a03a58320d27c8f32153780c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:02 +0000
Subject: [PATCH 88/97] fix: a restart of the Cholesky (1+1)-CMA-ES also resets
 the inverse of the Cholesky factor

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index c3640da..97bd4b4 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -271,8 +271,7 @@ class OnePlusOne_CMA(object):
             self.x = None
             self.sigma = self.sigma0
             self.pc = np.zeros(self.dim)
-            self._C = np.eye(self.dim)
-            self._A = np.eye(self.dim)
+            self._init_covariance(None)
             self._delta_x = self.xtol * 200
             self._delta_f = self.ftol * 200
             self.stop_dict = {}
@@ -419,9 +418,8 @@ class OnePlusOne_CMA(object):
             self._exception = 1
 
         if self._exception:
-            self._C = np.eye(self.dim)
+            self._init_covariance(None)
             self.pc = np.zeros(self.dim)
-            self._A = np.eye(self.dim)
             self._sigma = self.sigma0
             self._exception = False
 
-- 
2.43.0


From 50e5bf1982c205b988e3025f89e7f2d28a5d6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:02 +0000
Subject: [PATCH 89/97] fix: the target value of the (1+1)-CMA-ES is only
 reached by a feasible point

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 97bd4b4..20ce2c7 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -360,7 +360,7 @@ class OnePlusOne_CMA(object):
         self.hist_fopt_penalized += [self.fopt_penalized]
 
     def check_stop(self):
-        if self.ftarget is not None and self._better(self.fopt, self.ftarget):
+        if self.ftarget is not None and self._feasible and self._better(self.fopt, self.ftarget):
             self.stop_dict["ftarget"] = self.fopt
 
         if self.eval_count >= self.max_FEs:
-- 
2.43.0


From ee17b61abc5b5727b330e296faae798fbed48ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:02 +0000
Subject: [PATCH 90/97] fix: an empty Solution can be exported to a CSV file

---
 bayes_optim/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 9beb736..c6a71fa 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -410,7 +410,7 @@ class Solution(np.ndarray):
         if index:
             data = np.c_[self.index, data]
         if attribute:
-            data = np.c_[data, self.n_eval, self.fitness.reshape(len(data), -1)]
+            data = np.c_[data, self.n_eval, self.fitness.reshape(len(data), self.n_obj)]
 
         out = [delimiter.join(map(_quote, row)) + "\n" for row in data.tolist()]
         mode = "a" if append else "w"
-- 
2.43.0


From 8d12b7812bbdcb63f5b24df36656bae152516f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:23 +0000
Subject: [PATCH 91/97] fix: a run in which every evaluation failed ends with
 RecommendationUnavailableError

---
 bayes_optim/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 91036a7..5a05451 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -133,7 +133,8 @@ class BaseOptimizer:
     def run(self) -> Tuple[List[Solution], dict]:
         while not self.check_stop():
             self.step()
-        return self._to_pheno(self.xopt), self.xopt.fitness, self.stop_dict
+        xopt = self.recommend()
+        return self._to_pheno(xopt), xopt.fitness, self.stop_dict
 
     @property
     def xopt(self) -> Solution:
-- 
2.43.0


From 648d058a21563bc0574debdebb4566057deb1c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:17 +0000
Subject: [PATCH 92/97] fix: tell records the observations even when the
 surrogate model cannot be fitted

---
 bayes_optim/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 408f3b3..1ed1204 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -347,8 +347,6 @@ class BaseBO(BaseOptimizer):
                 self.iter_count += 1
             return
         self.data = self.data + X if hasattr(self, "data") else X
-        self.update_model()
-
         if self.data_file is not None:
             X.to_csv(self.data_file, header=False, append=True)
 
@@ -368,6 +366,9 @@ class BaseBO(BaseOptimizer):
             self.iter_count += 1
             self.hist_f.append(xopt.fitness)
 
+        # NOTE: the observations are recorded even if the model cannot be fitted to them
+        self.update_model()
+
     def create_DoE(self, n_point: int, fixed: Dict = None, X0: List = None) -> List:
         """get the initial sample points using Design of Experiemnt (DoE) methods
 
-- 
2.43.0


From cc16a6e473f2064ef1df2b6e7c0185db7f780897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:17 +0000
Subject: [PATCH 93/97] fix: the derivative of the RBF kernel in the
 scikit-learn wrapper

---
 bayes_optim/surrogate/gaussian_process/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/__init__.py b/bayes_optim/surrogate/gaussian_process/__init__.py
index 2bb2cd6..a84ad64 100755
--- a/bayes_optim/surrogate/gaussian_process/__init__.py
+++ b/bayes_optim/surrogate/gaussian_process/__init__.py
@@ -226,5 +226,5 @@ class GaussianProcessSklearn:
             elif nu == 2.5:
                 g = -5.0 / 3 * sigma2 * np.exp(-np.sqrt(5) * d) * (1 + np.sqrt(5) * d) * d * dd
         elif isinstance(kernel, RBF):
-            g = -sigma2 * np.exp(-0.5 * d**2) * dd
+            g = -sigma2 * np.exp(-0.5 * d**2) * d * dd
         return g
-- 
2.43.0


From aba68088ce846dd9fbfe8b5d79be32c1bfd663bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:17 +0000
Subject: [PATCH 94/97] fix: ConditionalBO neither repeats points within a
 batch nor gives up while other subspaces have points left

---
 bayes_optim/extension.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index f732842..eeaccd2 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -16,6 +16,7 @@ from .search_space import RealSpace, SearchSpace
 from .solution import Solution
 from .surrogate import GaussianProcess, RandomForest, trend
 from .utils import timeit
+from .utils.exception import AskEmptyError
 
 
 class LinearTransform(PCA):
@@ -259,6 +260,19 @@ class ConditionalBO(ParallelBO):
             return []
         return np.random.choice(self.n_subspace, n_point).tolist()
 
+    def _ask_subspace(self, k: int, X: List[dict]) -> Union[dict, None]:
+        """get a point from the k-th subspace, which differs from the points `X` asked so far"""
+        bo = self._bo[k]
+        asked = [[X[i][v] for v in bo.var_names] for i, idx in enumerate(self._bo_idx) if idx == k]
+        try:
+            x = bo.ask()[0]
+        except AskEmptyError:
+            return None
+        DoE = bo.pre_eval_check(asked + [[x[v] for v in bo.var_names]])
+        if len(DoE) == len(asked):
+            DoE = bo.create_DoE(1, X0=asked)
+        return dict(zip(bo.var_names, DoE[-1])) if len(DoE) > len(asked) else None
+
     @timeit
     def ask(self, n_point: int = None, fixed: Dict[str, Union[float, int, str]] = None) -> List[dict]:
         n_point = self.n_point if n_point is None else n_point
@@ -272,11 +286,24 @@ class ConditionalBO(ParallelBO):
 
         # select subspaces/BOs
         idx += self.select_subspace(n_point=n_point - len(idx))
-        self._bo_idx = idx
         # calling `ask` methods from BO's from each subspace
-        X = [self._bo[i].ask()[0] for i in idx]
+        X, self._bo_idx = [], []
+        for k in idx:
+            x = self._ask_subspace(k, X)
+            if x is None:  # all points thereof are taken: try the other subspaces
+                for k in [i for i in np.random.permutation(self.n_subspace).tolist() if i != k]:
+                    x = self._ask_subspace(k, X)
+                    if x is not None:
+                        break
+            if x is not None:
+                X.append(x)
+                self._bo_idx.append(k)
+
+        if len(X) == 0:
+            raise AskEmptyError()
+
         # fill in the value for conditioning and irrelative variables (None)
-        for i, k in enumerate(idx):
+        for i, k in enumerate(self._bo_idx):
             X[i].update(self._fixed_vars[k])
             X[i].update({k: None for k in set(self.var_names) - set(X[i].keys())})
             self.logger.info(f"#{i + 1} - {X[i]}")
-- 
2.43.0


From d623c9c73071e2dfb467f4092f3c65022efccc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:17 +0000
Subject: [PATCH 95/97] fix: ConditionalBO.tell works when the objective values
 of one branch are all the same

---
 bayes_optim/extension.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index eeaccd2..699d1ac 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -16,7 +16,7 @@ from .search_space import RealSpace, SearchSpace
 from .solution import Solution
 from .surrogate import GaussianProcess, RandomForest, trend
 from .utils import timeit
-from .utils.exception import AskEmptyError
+from .utils.exception import AskEmptyError, FlatFitnessError
 
 
 class LinearTransform(PCA):
@@ -332,7 +332,10 @@ class ConditionalBO(ParallelBO):
             x = {k: v for k, v in X[i].items() if v is not None}
             for key, _ in self._fixed_vars[k].items():
                 x.pop(key)
-            self._bo[k].tell([x], [func_vals[i]], **kwargs)
+            try:
+                self._bo[k].tell([x], [func_vals[i]], **kwargs)
+            except FlatFitnessError:  # which does not mean that the other subspaces are flat as well
+                self.logger.warning(f"flat objective values in subspace {self._fixed_vars[k]}")
 
         self.eval_count += len(X)
         X = self.post_eval_check(self._to_geno(X, fitness=func_vals))
-- 
2.43.0


From 55032bfd364827f4f242f3ff5432a5656056c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:12 +0000
Subject: [PATCH 96/97] fix: a run can be continued with a larger budget or
 another target

---
 bayes_optim/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 5a05451..e535446 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -121,6 +121,7 @@ class BaseOptimizer:
         return func_vals
 
     def check_stop(self) -> bool:
+        self.stop_dict = {}  # NOTE: the budget or the target might have been changed after a previous run
         if self.eval_count >= self.max_FEs:
             self.stop_dict["max_FEs"] = self.eval_count
 
-- 
2.43.0


From cfc4117f5fc235b88eba1307e163711d0e24c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:12 +0000
Subject: [PATCH 97/97] fix: AnnealingBO can be created with a budget not
 larger than the initial design

---
 bayes_optim/bayes_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index c65796b..b726568 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -125,7 +125,7 @@ class AnnealingBO(ParallelBO):
         self._acquisition_par["t"] = t0
 
         # TODO: add supports for UCB and epsilon-PI
-        max_iter = (self.max_FEs - self._DoE_size) / self.n_point
+        max_iter = max(1, (self.max_FEs - self._DoE_size) / self.n_point)
         if self.schedule == "exp":  # exponential
             self.alpha = (self.tf / t0) ** (1.0 / max_iter)
             self._anealer = lambda t: t * self.alpha
-- 
2.43.0

