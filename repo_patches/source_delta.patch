From 15733026f3d30d5605472970cef12f303a7a12cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 01/25] fix: keep isolated nodes when fusing models

A counterfactual query whose intervention leaves a variable without
parents and children failed with 'node X_1 is not in the digraph',
because only the nodes of the first model and those with an edge were
added to the fused graph.
---
 bcause/models/transform/combination.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/models/transform/combination.py b/bcause/models/transform/combination.py
index 5b0ee4d..317a59b 100644
--- a/bcause/models/transform/combination.py
+++ b/bcause/models/transform/combination.py
@@ -18,6 +18,7 @@ def fusion_roots(models, on, **builder_kargs):
     new_factors = models[0].get_factors(*on)
     for m in models:
         for x ,y in m.graph.edges: new_dag.add_edge(x ,y)
+        for v in m.variables: new_dag.add_node(v)
         new_factors.extend(m.get_factors(*set(m.variables).difference(on)))
 
     return models[0].builder(dag=new_dag, factors=new_factors, **builder_kargs)
-- 
2.43.0


From c0cccf259bf61aa5cf52ba7ab29c68a8c7e439b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 02/25] fix: keep the endogenous variables in to_multinomial

They were recomputed from the graph, so an intervened variable (no
parents) turned exogenous and counterfactual queries on an already
intervened model failed.
---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 0011e02..5793a24 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -183,7 +183,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         super().set_factor(var, f)
 
     def to_multinomial(self) -> StructuralCausalModel:
-        return StructuralCausalModel(dag=self.graph, factors=self.factors, cast_multinomial=True)
+        return StructuralCausalModel(dag=self.graph, factors=self.factors, endogenous=self.endogenous, cast_multinomial=True)
 
     @property
     def has_deterministic(self):
-- 
2.43.0


From abb389591d8e2e36cd44062e7a249c2737da98fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:31 +0000
Subject: [PATCH 03/25] fix: order the values of a CPT by parent configuration
 when converting to pgmpy

---
 bcause/conversion/pgmpy.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index cd54587..9295679 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -25,13 +25,8 @@ def toMultinomialFactor(factor : pfd.TabularCPD, vtype=None) -> bfd.MultinomialF
 def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
     v = list(f.left_domain.keys())[0]
     card = f.store.cardinality_dict
-    values = f.values_array()
-    if np.ndim(values)<2:
-        values = np.expand_dims(values, axis=0)
-
-    if np.ndim(values) > 2:
-        shape = values.shape
-        values = values.reshape(np.prod(shape[:-1]), shape[0])
+    # one row per state of v, one column per parent configuration
+    values = f.values_array(list(f.right_vars) + [v]).reshape(-1, card[v])
 
     args = dict(
         variable = v,
-- 
2.43.0


From d052fcad998478678961efe895a6dc898c00662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:31 +0000
Subject: [PATCH 04/25] fix: replace the target of a save only once the new
 file is complete

---
 bcause/readwrite/bnwrite.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/bcause/readwrite/bnwrite.py b/bcause/readwrite/bnwrite.py
index f08b478..f3cd3ab 100644
--- a/bcause/readwrite/bnwrite.py
+++ b/bcause/readwrite/bnwrite.py
@@ -1,5 +1,8 @@
 import logging
 import os
+import shutil
+import uuid
+from contextlib import contextmanager
 from pathlib import Path
 
 from pgmpy.readwrite import BIFWriter, XMLBIFWriter
@@ -13,6 +16,25 @@ from typing import TYPE_CHECKING
 if TYPE_CHECKING:
     from bcause.models import BayesianNetwork
 
+@contextmanager
+def _replacing(filepath):
+    # Path of a temporary file next to filepath that takes its place once it is complete and on disk
+    filepath = Path(os.path.realpath(filepath))
+    tmp = filepath.with_name(f".{filepath.name}.{uuid.uuid4().hex}.tmp")
+    try:
+        yield tmp
+        if filepath.exists():
+            shutil.copymode(filepath, tmp)
+        with open(tmp, "rb+") as file:
+            os.fsync(file.fileno())
+        os.replace(tmp, filepath)
+    except BaseException:
+        try:
+            os.unlink(tmp)
+        except OSError:
+            pass
+        raise
+
 def __write(writer, model, filepath):
     from bcause.conversion.pgmpy import toPgmpyBNet
     filepath = Path(filepath)
@@ -20,7 +42,9 @@ def __write(writer, model, filepath):
     assert_file_exists(folder)
     format = writer.__name__.replace('Writer', '')
     logging.info(f"Saving model in {format} to {os.path.abspath(filepath)}")
-    getattr(writer(toPgmpyBNet(model)), f"write_{format.lower()}")(filepath)
+    writer = writer(toPgmpyBNet(model))
+    with _replacing(filepath) as tmp:
+        getattr(writer, f"write_{format.lower()}")(tmp)
 
 def to_bif(model:'BayesianNetwork', filepath):
     __write(BIFWriter, model, filepath)
@@ -77,8 +101,8 @@ def to_uai(model:'BayesianNetwork', filepath, reverse_values=False, label="BAYES
     folder = filepath.parent
     assert_file_exists(folder)
 
-    print(out)
-    with open(filepath, "w+") as file:
-        # Writing data to a file
-        file.write(out)
+    with _replacing(filepath) as tmp:
+        with open(tmp, "w") as file:
+            # Writing data to a file
+            file.write(out)
 
-- 
2.43.0


From 8d315a2a9167d4f90b96f4f8aed83f46f09372e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:31 +0000
Subject: [PATCH 05/25] fix: read UAI numbers in exponent notation

---
 bcause/readwrite/bnread.py  | 2 +-
 bcause/readwrite/scmread.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index cc76063..badd502 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -48,7 +48,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index baec44d..b3557ab 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -36,7 +36,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+E?[-+]?\d*)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
-- 
2.43.0


From bc4cffea7cb37f81bd86cb87cc10fb6c8f9dd404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:31 +0000
Subject: [PATCH 06/25] fix: keep isolated nodes when reading a model

---
 bcause/conversion/pgmpy.py  | 1 +
 bcause/readwrite/bnread.py  | 1 +
 bcause/readwrite/scmread.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index 9295679..510ed6f 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -46,6 +46,7 @@ def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
 def toBCauseBNet(orig : pm.BayesianNetwork, vtype=None) -> 'bm.BayesianNetwork':
     vtype = vtype or DataStore.DEFAULT_STORE
     dag = DiGraph(orig.in_edges)
+    dag.add_nodes_from(orig.nodes)
     factors = {f.variable:toMultinomialFactor(f, vtype) for f in orig.cpds}
     import bcause.models as bm
     return bm.BayesianNetwork(dag, factors)
diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index badd502..8eab08a 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -73,6 +73,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)
 
     # factors in the model
     factors = dict()
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index b3557ab..c9820d9 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -61,6 +61,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)
 
     # factors in the model
     factors = dict()
-- 
2.43.0


From 46b66362197ae63f8d9e884c4b31cef585a81979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:31 +0000
Subject: [PATCH 07/25] fix: raise an error for a truncated UAI file

---
 bcause/readwrite/bnread.py  | 1 +
 bcause/readwrite/scmread.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index 8eab08a..a23f3ea 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -50,6 +50,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
             for line in f:
                 for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
+        raise ValueError(f"Unexpected end of uai file: {path}")
 
     numbers = get_numbers(filepath)
 
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index c9820d9..c512850 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -38,6 +38,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
             for line in f:
                 for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
+        raise ValueError(f"Unexpected end of uai file: {path}")
 
     numbers = get_numbers(filepath)
 
-- 
2.43.0


From 9bfd3a45122fe6469fac4dc55dbd97c75891fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:36 +0000
Subject: [PATCH 08/25] fix: use the states, not their positions, in
 to_deterministic and the reverse in UAI files

---
 bcause/factors/mulitnomial.py | 2 +-
 bcause/readwrite/bnwrite.py   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index ad64d51..5c35146 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -45,7 +45,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("Wrong number of variables on the left")
 
         v = self.left_vars[0]
-        values = self.values_array().argmax(axis=self.variables.index(v))
+        values = np.array(self.domain[v])[self.values_array().argmax(axis=self.variables.index(v))]
         from bcause.factors import DeterministicFactor
         return DeterministicFactor(self.domain, left_vars=[v], values=values)
 
diff --git a/bcause/readwrite/bnwrite.py b/bcause/readwrite/bnwrite.py
index f3cd3ab..821a4d0 100644
--- a/bcause/readwrite/bnwrite.py
+++ b/bcause/readwrite/bnwrite.py
@@ -92,6 +92,10 @@ def to_uai(model:'BayesianNetwork', filepath, reverse_values=False, label="BAYES
         # if not reverse_values:
         #     var_order = var_order[::-1]
         values = f.values_array(vorder).flatten()
+        if isinstance(f, DeterministicFactor):
+            # the file identifies the states by their position
+            states = list(f.domain[v])
+            values = [states.index(p) for p in values]
         if v in integer_varlist:
             values = [int(p) for p in values]
         out += f"{len(values)}\t" + " ".join([str(p) for p in values]) + "\n"
-- 
2.43.0


From a157b28134c31adb9a8d667df600de1e8e6e1f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:12 +0000
Subject: [PATCH 09/25] fix: write the distribution of endogenous variables
 without parents in UAI files

---
 bcause/readwrite/bnwrite.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bcause/readwrite/bnwrite.py b/bcause/readwrite/bnwrite.py
index 821a4d0..681d6ce 100644
--- a/bcause/readwrite/bnwrite.py
+++ b/bcause/readwrite/bnwrite.py
@@ -84,7 +84,11 @@ def to_uai(model:'BayesianNetwork', filepath, reverse_values=False, label="BAYES
         f = model.factors[v]
         vorder = var_order[v]
 
-        if label=="CAUSAL" and v in model.endogenous:
+        if len(vorder) == 1:
+            # without parents: a distribution, also for an endogenous (e.g. intervened) variable
+            if isinstance(f, DeterministicFactor):
+                f = f.to_multinomial()
+        elif label=="CAUSAL" and v in model.endogenous:
             if not isinstance(f, DeterministicFactor):
                 f = f.to_deterministic()
             vorder = [x for x in vorder if x != v]
-- 
2.43.0


From 66c5dc1156f0f84909ff900f1cf9388bd2b22885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:57 +0000
Subject: [PATCH 10/25] fix: reject incomplete networks read from BIF files

---
 bcause/conversion/pgmpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index 510ed6f..81f4b17 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -48,6 +48,8 @@ def toBCauseBNet(orig : pm.BayesianNetwork, vtype=None) -> 'bm.BayesianNetwork':
     dag = DiGraph(orig.in_edges)
     dag.add_nodes_from(orig.nodes)
     factors = {f.variable:toMultinomialFactor(f, vtype) for f in orig.cpds}
+    if len(factors) == 0 or set(factors) != set(orig.nodes):
+        raise ValueError("Incomplete model: every variable must have a CPD")
     import bcause.models as bm
     return bm.BayesianNetwork(dag, factors)
 
-- 
2.43.0


From 06171f9bc5870d909a978f28e4552c9e739c13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:35 +0000
Subject: [PATCH 11/25] fix: do not add columns to the caller's data when
 learning

---
 bcause/learning/parameter/expectation_maximization.py | 3 ++-
 bcause/learning/parameter/gradient.py                 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index e4d2924..445df6c 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -77,7 +77,8 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         return new_probs
 
     def _process_data(self, data: pd.DataFrame):
-        # add missing variables
+        # add missing variables (to a copy: the data belongs to the caller)
+        data = data.copy()
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
         for v in missing_vars: data[v] = float("nan")
 
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index c7873fe..2533212 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -149,7 +149,8 @@ class GradientLikelihood(IterativeParameterLearning):
         return P_v_pav_key
 
     def _process_data(self, data: pd.DataFrame):
-        # add missing variables
+        # add missing variables (to a copy: the data belongs to the caller)
+        data = data.copy()
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
         for v in missing_vars: data[v] = float("nan")
 
-- 
2.43.0


From d9c7419cb46e4af55d48f9b3fdd215038f2d4838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:35 +0000
Subject: [PATCH 12/25] fix: start every run of a learner from scratch

---
 bcause/learning/parameter/expectation_maximization.py | 5 ++++-
 bcause/learning/parameter/gradient.py                 | 4 +++-
 bcause/learning/parameter/parameter.py                | 5 +++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 445df6c..2654b33 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -23,6 +23,8 @@ class AbastractExpectationMaximization(IterativeParameterLearning):
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
+        self._converged_vars = set()
         self._process_data(data)
 
     def _calculate_updated_factors(self):
@@ -44,6 +46,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
                  inference_method=VariableElimination):
         self._prior_model = prior_model
         self._trainable_vars = trainable_vars
+        self._given_trainable_vars = trainable_vars
         self._inference_method = inference_method
         self._converged_vars = set()
 
@@ -83,7 +86,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
-        self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()])
+        self._trainable_vars = self._given_trainable_vars or list(data.columns[data.isna().any()])
 
         self._datadeps = DataDepAnalysis(self.model.graph, data)
         self._variables = list(data.columns)
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index 2533212..e5f79a6 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -39,11 +39,13 @@ class GradientLikelihood(IterativeParameterLearning):
     def __init__(self, prior_model: StructuralCausalModel, trainable_vars: list = None, tol : float = 1e-8):
         self._prior_model = prior_model
         self._trainable_vars = trainable_vars
+        self._given_trainable_vars = trainable_vars
         self._tol = tol
 
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
         self._process_data(data)
 
     def _stop_learning(self) -> bool:
@@ -155,7 +157,7 @@ class GradientLikelihood(IterativeParameterLearning):
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
-        self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()]) 
+        self._trainable_vars = self._given_trainable_vars or list(data.columns[data.isna().any()]) 
                                                                                             
 
         for v in self._trainable_vars:
diff --git a/bcause/learning/parameter/parameter.py b/bcause/learning/parameter/parameter.py
index ecc6c37..0f0d715 100644
--- a/bcause/learning/parameter/parameter.py
+++ b/bcause/learning/parameter/parameter.py
@@ -61,8 +61,9 @@ class IterativeParameterLearning(ParameterLearning):
     def _update_model(self, new_probs):
         for v in self._model.variables:
             if v not in new_probs: new_probs[v] = self._model.factors[v]
-        self._model = self._model.builder(dag=self._model.graph, factors=new_probs, check_factors=False)
-        self._record_model(self.model)
+        model = self._model.builder(dag=self._model.graph, factors=new_probs, check_factors=False)
+        self._record_model(model)
+        self._model = model
 
     def run(self, data: pd.DataFrame, max_iter: int = float("inf")):
         """
-- 
2.43.0


From 9c2d7c2454dc29e71b044c19539834c6461397f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:35 +0000
Subject: [PATCH 13/25] fix: do not touch the process-wide warning filters when
 dividing factors

---
 bcause/factors/imprecise.py   |  8 +-------
 bcause/factors/mulitnomial.py | 17 ++++++++---------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 002b5e8..1057035 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -115,13 +115,7 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
 
     def divide(self, other):
-        import warnings
-        with warnings.catch_warnings(record=True) as W:
-            raise NotImplementedError()
-
-            for w in W: logging.warning(f"{w.message}: {self.name}/{other.name}")
-
-        return out
+        raise NotImplementedError()
 
     def marginalize(self, *vars_remove) -> IntervalProbFactor:
         raise NotImplementedError()
diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 5c35146..7eeb749 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -104,17 +104,16 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         return self.builder(domain=new_store.domain, values=new_store.data, right_vars = new_right_vars)
 
     def divide(self, other):
-        import warnings
-        with warnings.catch_warnings(record=True) as W:
-            other = self._prepare_operand(other)
-            new_store = self.store.divide(other.store)
-            new_right_vars = [v for v in new_store.variables
-                              if v in self.right_vars or v in other.variables]
-            out = self.builder(domain=new_store.domain, values=new_store.data, right_vars=new_right_vars)
+        other = self._prepare_operand(other)
 
-            for w in W: logging.warning(f"{w.message}: {self.name}/{other.name}")
+        # numerical errors are logged; unlike the filters of the warnings module, np.errstate is local to the thread
+        def log_error(err, flag): logging.warning(f"{err}: {self.name}/{other.name}")
+        with np.errstate(divide="call", over="call", invalid="call", call=log_error):
+            new_store = self.store.divide(other.store)
 
-        return out
+        new_right_vars = [v for v in new_store.variables
+                          if v in self.right_vars or v in other.variables]
+        return self.builder(domain=new_store.domain, values=new_store.data, right_vars=new_right_vars)
 
     def marginalize(self, *vars_remove) -> MultinomialFactor:
         if len(set(vars_remove).intersection(self._variables))==0: return self
-- 
2.43.0


From beb4445439d3a8b6229644d9704bf82a42642f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:35 +0000
Subject: [PATCH 14/25] fix: learn the same models in parallel as sequentially,
 and record only complete runs

---
 bcause/learning/aggregator/aggregator.py | 39 +++++++++++++++---------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/bcause/learning/aggregator/aggregator.py b/bcause/learning/aggregator/aggregator.py
index 032051d..bcbc62c 100644
--- a/bcause/learning/aggregator/aggregator.py
+++ b/bcause/learning/aggregator/aggregator.py
@@ -49,23 +49,38 @@ class ModelAggregator(ABC):
 
     def generate(self, num_models : int):
         if num_models<1: raise ValueError(f"Wrong number of models: {num_models}")
+
+        # The random starts are drawn here, in order: threads must not compete for the random numbers
+        optimizers = [self._build_optimizer() for _ in range(num_models)]
         if not self._parallel:
-            self._generated_models += [self._single_generate(i) for i in range(num_models)]
+            for optimizer in optimizers: self._run_optimizer(optimizer)
         else:
             from joblib import Parallel, delayed
-            self._generated_models +=  Parallel(n_jobs=-1, backend="threading") (delayed(self._single_generate)(i) for i in range(num_models))
+            Parallel(n_jobs=-1, backend="threading") (delayed(self._run_optimizer)(optimizer) for optimizer in optimizers)
+
+        # Only complete runs are recorded
+        self._learn_objects = self._learn_objects + optimizers
+        self._generated_models = self._generated_models + [optimizer.model for optimizer in optimizers]
 
     @abstractmethod
-    def _single_generate(self, i):
+    def _build_optimizer(self):
         pass
 
+    def _run_optimizer(self, optimizer):
+        optimizer.run(self._data, max_iter=self._max_iter)
+
     @abstractmethod
     def merge(self):
         pass
 
     def run(self, num_models):
-        self.generate(num_models)
-        self.merge()
+        previous = self._final_models, self._generated_models, self._learn_objects
+        try:
+            self.generate(num_models)
+            self.merge()
+        except BaseException:
+            self._final_models, self._generated_models, self._learn_objects = previous
+            raise
 
 
 class SimpleModelAggregator(ModelAggregator):
@@ -73,11 +88,8 @@ class SimpleModelAggregator(ModelAggregator):
         self._final_models = self._generated_models
 
 class ModelAggregatorEM(ModelAggregator):
-    def _single_generate(self, i):
-        optimizer = ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars)
-        optimizer.run(self._data, max_iter=self._max_iter)
-        self._learn_objects.append(optimizer)
-        return optimizer.model
+    def _build_optimizer(self):
+        return ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars)
 
 class SimpleModelAggregatorEM(SimpleModelAggregator, ModelAggregatorEM):
 
@@ -90,11 +102,8 @@ class SimpleModelAggregatorEM(SimpleModelAggregator, ModelAggregatorEM):
 
 
 class ModelAggregatorGD(ModelAggregator):
-    def _single_generate(self, i):
-        optimizer = GradientLikelihood(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars, tol=self._tol)
-        optimizer.run(self._data, max_iter=self._max_iter)
-        self._learn_objects.append(optimizer)
-        return optimizer.model
+    def _build_optimizer(self):
+        return GradientLikelihood(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars, tol=self._tol)
 
 
 class SimpleModelAggregatorGD(SimpleModelAggregator, ModelAggregatorGD):
-- 
2.43.0


From 8c8dfabd3bff9e3b129da12d294932fd2d282ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:35 +0000
Subject: [PATCH 15/25] fix: keep the caller's list of models apart from the
 engine's

---
 bcause/inference/causal/multi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index 5f10039..fa4b52a 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -28,12 +28,11 @@ class CausalMultiInference(CausalInference):
         return self._models
 
     def set_models(self, models: list[StructuralCausalModel]):
-        self._models = models or []
+        self._models = list(models or [])
         self._compiled = False
 
     def add_models(self, models: list[StructuralCausalModel]):
-        models = models or []
-        self._models += models
+        self._models = self._models + list(models or [])
         self._compiled = False
 
     def compile(self, *args, **kwargs) -> Inference:
-- 
2.43.0


From 5e2f718a200f596057ea7a05e6133093c5238acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:35 +0000
Subject: [PATCH 16/25] fix: keep the earlier models and their evolution when a
 compile fails

---
 bcause/inference/causal/multi.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index fa4b52a..853822a 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -86,9 +86,10 @@ class EMCC(CausalMultiInference, CausalObservationalInference):
         super().__init__([], causal_inf_fn=causal_inf_fn, interval_result=interval_result)
 
     def compile(self, *args, **kwargs) -> Inference:
-        self._agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)
-        self._agg.run(num_models=self._num_runs)
-        self.set_models(self._agg.models)
+        agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)
+        agg.run(num_models=self._num_runs)
+        self._agg = agg
+        self.set_models(agg.models)
         return super().compile()
 
 
@@ -113,9 +114,10 @@ class GDCC(CausalMultiInference, CausalObservationalInference):
         super().__init__([], causal_inf_fn=causal_inf_fn, interval_result=interval_result)
 
     def compile(self, *args, **kwargs) -> Inference:
-        self._agg = SimpleModelAggregatorGD(self._prior_model, self._data, tol=self._tol, max_iter=self._max_iter, parallel=self._parallel)
-        self._agg.run(num_models=self._num_runs)
-        self.set_models(self._agg.models)
+        agg = SimpleModelAggregatorGD(self._prior_model, self._data, tol=self._tol, max_iter=self._max_iter, parallel=self._parallel)
+        agg.run(num_models=self._num_runs)
+        self._agg = agg
+        self.set_models(agg.models)
         return super().compile()
 
     def get_model_evolution(self, index):
-- 
2.43.0


From 444ab5072dcbb2296675b41283314e7dd253debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:35 +0000
Subject: [PATCH 17/25] fix: accept no evidence in compile

---
 bcause/inference/probabilistic/datainference.py | 3 ++-
 bcause/inference/probabilistic/probabilistic.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/inference/probabilistic/datainference.py b/bcause/inference/probabilistic/datainference.py
index b0be195..b17f48b 100644
--- a/bcause/inference/probabilistic/datainference.py
+++ b/bcause/inference/probabilistic/datainference.py
@@ -19,12 +19,13 @@ class LaplaceInference(ProbabilisticInference):
     def compile(self, target, evidence=None) -> Inference:
 
         target = as_lists(target)
+        evidence = evidence or dict()
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
 
         self._target = target
-        self._evidence = evidence or dict()
+        self._evidence = evidence
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
 
         self._inference_model = self._preprocess()
diff --git a/bcause/inference/probabilistic/probabilistic.py b/bcause/inference/probabilistic/probabilistic.py
index 245eb76..8a379e6 100644
--- a/bcause/inference/probabilistic/probabilistic.py
+++ b/bcause/inference/probabilistic/probabilistic.py
@@ -18,12 +18,13 @@ class ProbabilisticInference(Inference):
     def compile(self, target, evidence=None) -> Inference:
 
         target = as_lists(target)
+        evidence = evidence or dict()
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
 
         self._target = target
-        self._evidence = evidence or dict()
+        self._evidence = evidence
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
         assert_dag_with_nodes(self.model.graph, self._target | self._evidence.keys())
 
-- 
2.43.0


From f1373928ebf849c41e8042fa98d34dd9c78ce1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 18/25] fix: answer PN, PS and PNS as the first query of a
 multi-model engine

---
 bcause/inference/causal/multi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index 853822a..fa14a6c 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -27,6 +27,11 @@ class CausalMultiInference(CausalInference):
     def models(self) -> list[StructuralCausalModel]:
         return self._models
 
+    @property
+    def model(self) -> StructuralCausalModel:
+        if not self._compiled: self.compile()
+        return self._model
+
     def set_models(self, models: list[StructuralCausalModel]):
         self._models = list(models or [])
         self._compiled = False
-- 
2.43.0


From d7b53f2aee9423067d99a6107c11a3c30730fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:11 +0000
Subject: [PATCH 19/25] fix: leave the caller's data frame alone in
 DeterministicFactor.from_data_frame

---
 bcause/factors/deterministic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index 92f8cda..512e32f 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -45,6 +45,7 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         columns = list(df.columns)
         left_var = left_var or columns[-1]
 
+        df = df.copy()
         for v in columns:
             df[v] = pd.Categorical(df[v], domains[v])
 
-- 
2.43.0


From da627b6a1316e63cdb8f46085505680bd5a1c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 20/25] fix: use one order of the states in all the factors of
 a model

---
 bcause/factors/factor.py | 6 ++++++
 bcause/models/pgmodel.py | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/bcause/factors/factor.py b/bcause/factors/factor.py
index e7cc9aa..c40bfd2 100644
--- a/bcause/factors/factor.py
+++ b/bcause/factors/factor.py
@@ -123,6 +123,12 @@ class DiscreteFactor(Factor):
 
         return self.builder(**kwargs)
 
+    def reorder_states(self, domains:Dict) -> DiscreteFactor:
+        new_dom = OrderedDict([(v, list(domains.get(v, d))) for v, d in self.domain.items()])
+        if all(list(d) == new_dom[v] for v, d in self.domain.items()): return self
+        confs = assingment_space(OrderedDict([(v, new_dom[v]) for v in self.store.variables]))
+        return self.builder(domain=new_dom, values=[self.get_value(**s) for s in confs], left_vars=self.left_vars)
+
 
 
 class ConditionalFactor(Factor):
diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 53d2f2c..2847b80 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -65,6 +65,14 @@ class PGModel(ABC):
                 if v in self._domains and self._domains[v] != None:
                         if set(self._domains[v]) != set(f.domain[v]): raise ValueError(f"Inconsistent domain for {v} when setting {var}")
 
+            # all the factors list the states of a variable in the same order
+            domains = {v: d for v, d in self._domains.items() if d is not None}
+            f = f.reorder_states(domains)
+            if var not in domains:
+                for c in self.get_children(var):
+                    if self._factors[c] is not None and set(self._factors[c].domain.get(var, [])) == set(f.domain[var]):
+                        self._factors[c] = self._factors[c].reorder_states({var: f.domain[var]})
+
         # Update domains
         if var not in self._domains or self._domains[var] == None:
             self._domains[var] = f.domain[var]
-- 
2.43.0


From 20c94e14964b0d957d9e3bb80d6ee7c31951e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:05 +0000
Subject: [PATCH 21/25] fix: build an interval factor from factors with another
 order of the variables

---
 bcause/factors/imprecise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 1057035..e05f07e 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -57,7 +57,7 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
     def from_precise(list_factors):
         dom = list_factors[0].domain
         left_vars = list_factors[0].left_vars
-        if not all(list_factors[0].domain == f.domain for f in list_factors):
+        if not all(dict(dom) == dict(f.domain) for f in list_factors):
             raise ValueError("Domains must be identical for building an IntervalFactor")
 
         values = np.array([[f.get_value(**obs) for f in list_factors] for obs in assingment_space(dom)])
-- 
2.43.0


From 5814b834ff2506cbcf1c6095d7a99554aeafc1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 22/25] fix: keep the earlier models until the engines of the
 new ones are available

---
 bcause/inference/causal/multi.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index fa14a6c..2cfd2c6 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -41,10 +41,15 @@ class CausalMultiInference(CausalInference):
         self._compiled = False
 
     def compile(self, *args, **kwargs) -> Inference:
-        if len(self._models)<1: raise ValueError("Required at least 1 precise model")
-        self._model = self._models[0]
-        self._causal_inf = [self._causal_inf_fn(m) for m in self._models]
-        self._compiled = True
+        return self._compile_models(self._models)
+
+    def _compile_models(self, models: list[StructuralCausalModel], agg=None) -> Inference:
+        # nothing changes until the engines of all the models are available
+        models = list(models)
+        if len(models)<1: raise ValueError("Required at least 1 precise model")
+        causal_inf = [self._causal_inf_fn(m) for m in models]
+        if agg is not None: self._agg = agg
+        self._models, self._model, self._causal_inf, self._compiled = models, models[0], causal_inf, True
         return self
 
     def query(self, target, do, evidence=None, counterfactual=False, targets_subgraphs = None):
@@ -93,18 +98,15 @@ class EMCC(CausalMultiInference, CausalObservationalInference):
     def compile(self, *args, **kwargs) -> Inference:
         agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)
         agg.run(num_models=self._num_runs)
-        self._agg = agg
-        self.set_models(agg.models)
-        return super().compile()
+        return self._compile_models(agg.models, agg)
 
 
     def compile_incremental(self, step_runs=1, *args, **kwargs) -> Inference:
         #for i in range(self._num_runs):
         while len(self.models)<self._num_runs:
-            self._agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)
-            self._agg.run(num_models=step_runs)
-            self.add_models(self._agg.models)
-            yield super().compile()
+            agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)
+            agg.run(num_models=step_runs)
+            yield self._compile_models(self.models + list(agg.models), agg)
 
 class GDCC(CausalMultiInference, CausalObservationalInference):
     def __init__(self, model: StructuralCausalModel, data, causal_inf_fn: Callable = None, interval_result=True,
@@ -121,9 +123,7 @@ class GDCC(CausalMultiInference, CausalObservationalInference):
     def compile(self, *args, **kwargs) -> Inference:
         agg = SimpleModelAggregatorGD(self._prior_model, self._data, tol=self._tol, max_iter=self._max_iter, parallel=self._parallel)
         agg.run(num_models=self._num_runs)
-        self._agg = agg
-        self.set_models(agg.models)
-        return super().compile()
+        return self._compile_models(agg.models, agg)
 
     def get_model_evolution(self, index):
         if self._agg is not None:
-- 
2.43.0


From ef0f0c86aa6635efacf6405ebf9c853a7a070f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:49 +0000
Subject: [PATCH 23/25] fix: read equations of UAI files as positions of the
 states, whatever the first state

---
 bcause/readwrite/scmread.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index c512850..7b2a9e8 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -72,6 +72,8 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         if len(list(dag.predecessors(v))) == 0:
             factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
         else:
+            # the file identifies the states by their position
+            values = [dom[v][int(p)] for p in values]
             factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
 
     from bcause.models.cmodel import StructuralCausalModel
-- 
2.43.0


From 546d680fa50d42912113ba8807813bf267fb038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:43 +0000
Subject: [PATCH 24/25] fix: sampleEndogenous returns the records as a list
 when asked for it

---
 bcause/models/cmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 5793a24..cefb503 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -247,7 +247,8 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
 
     def sampleEndogenous(self, n_samples: int, as_pandas = True) -> Union[list[Dict], pd.DataFrame]:
-        return self.sample(n_samples, as_pandas)[self.endogenous]
+        data = self.sample(n_samples)[self.endogenous]
+        return data if as_pandas else data.to_dict("records")
 
     def log_likelihood(self, data, variables=None):
         bn = self.get_qbnet()
-- 
2.43.0


From 4cb6a77e66e8abe95c3c82f9221da840ed9d5fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:25 +0000
Subject: [PATCH 25/25] fix: reject a factor whose states differ from those its
 children already list

---
 bcause/models/pgmodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 2847b80..0491853 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -64,6 +64,10 @@ class PGModel(ABC):
             for v in f.variables:
                 if v in self._domains and self._domains[v] != None:
                         if set(self._domains[v]) != set(f.domain[v]): raise ValueError(f"Inconsistent domain for {v} when setting {var}")
+                # its own factor might come later than those of its children
+                for c in self.get_children(v):
+                    if c != var and self._factors[c] is not None and set(self._factors[c].domain.get(v, f.domain[v])) != set(f.domain[v]):
+                        raise ValueError(f"Inconsistent domain for {v} when setting {var}")
 
             # all the factors list the states of a variable in the same order
             domains = {v: d for v, d in self._domains.items() if d is not None}
-- 
2.43.0

