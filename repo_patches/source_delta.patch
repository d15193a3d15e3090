From 03592e8556fc7d01bb2aaabe569dbdf366939985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 01/34] fix: DummyClassifierPure predicts the class label and
 returns independent rows

---
 pure_sklearn/dummy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 3697848..e6da3b1 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -26,15 +26,17 @@ class DummyClassifierPure:
         if self._strategy != "prior":
             raise ValueError("Strategy '{}' not supported".format(self._strategy))
         self.class_prior_ = estimator.class_prior_.tolist()
+        self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_outputs_ = estimator.n_outputs_
         check_types(self)
 
     def predict(self, X):
-        return [self.class_prior_.index(max(self.class_prior_))] * len(X)
+        label = self.classes_[self.class_prior_.index(max(self.class_prior_))]
+        return [label] * len(X)
 
     def predict_proba(self, X):
-        return [self.class_prior_] * len(X)
+        return [list(self.class_prior_) for _ in X]
 
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
-- 
2.43.0


From 00e51e628c670fd4a0f319d6822568a479d4084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 02/34] fix: OneHotEncoderPure offsets each feature by all
 preceding features

---
 pure_sklearn/preprocessing/_encoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_encoders.py b/pure_sklearn/preprocessing/_encoders.py
index a6606b1..23d503f 100644
--- a/pure_sklearn/preprocessing/_encoders.py
+++ b/pure_sklearn/preprocessing/_encoders.py
@@ -130,7 +130,7 @@ class OneHotEncoderPure(_BaseEncoderPure):
         data = [
             dict(
                 [
-                    (n_values[i] + X_int[j][i], self.dtype(1))
+                    (feature_indices[i] + X_int[j][i], self.dtype(1))
                     for i in range(n_features)
                     if X_mask[j][i]
                 ]
-- 
2.43.0


From 06e6b5c9912a1f29f2dac99e4eee806a848edcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 03/34] fix: softmax and log-sum-exp no longer overflow or
 underflow

---
 pure_sklearn/base.py                | 14 ++++++++++++--
 pure_sklearn/ensemble/_gb_losses.py |  8 +++-----
 pure_sklearn/naive_bayes.py         |  4 ++--
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index ee53d0a..fd0361a 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -74,15 +74,25 @@ def expit(x):
 def sfmax(arr):
     """ Softmax function for 1-D list or a single sparse_list element """
     if isinstance(arr, dict):
-        expons = {k: safe_exp(v) for k, v in arr.items()}
+        max_val = max(arr.values(), default=0.0)
+        expons = {k: safe_exp(v - max_val) for k, v in arr.items()}
         denom = sum(expons.values())
         out = {k: (v / float(denom)) for k, v in expons.items()}
     else:
-        expons = list(map(safe_exp, arr))
+        max_val = max(arr)
+        expons = [safe_exp(v - max_val) for v in arr]
         out = list(map(lambda x: x / float(sum(expons)), expons))
     return out
 
 
+def logsumexp(arr):
+    """ Logarithm of the sum of exponentials of a 1-D list """
+    max_val = max(arr)
+    if max_val in (float("Inf"), -float("Inf")):
+        max_val = 0.0
+    return max_val + safe_log(sum([safe_exp(v - max_val) for v in arr]))
+
+
 def safe_log(x):
     """ Equivalent to numpy log with scalar input """
     if x == 0:
diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 38501ca..dd150b2 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -2,7 +2,7 @@
 Gradient boosting loss classes
 """
 
-from ..base import transpose, apply_axis_2d, apply_2d, safe_exp, safe_log, ravel, expit
+from ..base import transpose, apply_2d, logsumexp, safe_exp, safe_log, ravel, expit
 from ..utils import check_types, shape
 
 EPS = 1.1920929e-07
@@ -31,12 +31,10 @@ class _MultinomialDeviancePure:
         check_types(self)
 
     def _raw_prediction_to_proba(self, raw_predictions):
-        logsumexp = list(
-            map(safe_log, apply_axis_2d(apply_2d(raw_predictions, safe_exp), sum))
-        )
+        log_norm = list(map(logsumexp, raw_predictions))
         return [
             [
-                safe_exp(raw_predictions[index][i] - logsumexp[index])
+                safe_exp(raw_predictions[index][i] - log_norm[index])
                 for i in range(self.n_classes_)
             ]
             for index in range(len(raw_predictions))
diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index 07b0cd6..9ea706e 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -5,7 +5,7 @@ Naive Bayes
 from abc import abstractmethod
 from math import pi
 
-from .base import dot, transpose, safe_log, safe_exp
+from .base import dot, transpose, logsumexp, safe_log, safe_exp
 from .utils import check_array, check_types, check_version
 
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
@@ -33,7 +33,7 @@ class _BaseNBPure:
         """
         X = check_array(X, handle_sparse="error")
         jll = self._joint_log_likelihood(X)
-        log_prob_x = list(map(lambda a: safe_log(sum(map(safe_exp, a))), jll))
+        log_prob_x = list(map(logsumexp, jll))
         return [
             list(map(lambda a: a - log_prob_x[index], jll[index]))
             for index in range(len(jll))
-- 
2.43.0


From 9dcfe643007817b3670583ba6e2307a8e90fea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 04/34] fix: exponential-loss gradient boosting uses the source
 model's link and label rule

---
 pure_sklearn/ensemble/_gb.py        | 4 ++--
 pure_sklearn/ensemble/_gb_losses.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index ef90d56..20cf8ed 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -88,5 +88,5 @@ class GradientBoostingClassifierPure:
         return apply_2d(self.predict_proba(X), safe_log)
 
     def predict(self, X):
-        proba = self.predict_proba(X)
-        return [self.classes_[a.index(max(a))] for a in proba]
+        indices = self.loss_._raw_prediction_to_decision(self._raw_predict(X))
+        return [self.classes_[i] for i in indices]
diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index dd150b2..7bd8b82 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -102,7 +102,7 @@ class _ExponentialLossPure:
             if shape(raw_predictions)[1] == 1
             else raw_predictions
         )
-        func = lambda x: expit(x) * 2.0
+        func = lambda x: expit(2.0 * x)
         proba_1 = list(map(func, proba))
         proba = [[(1 - x) for x in proba_1], proba_1]
         return transpose(proba)
-- 
2.43.0


From fae41f1f51fffc7f4348be66a50eca09326246f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 05/34] fix: gradient boosting fitted with init='zero' can be
 converted

---
 pure_sklearn/ensemble/_gb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index 20cf8ed..148d89a 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -34,7 +34,11 @@ class GradientBoostingClassifierPure:
                 est_arr_.append(est_)
             self.estimators_.append(est_arr_)
         if hasattr(estimator, "init_"):
-            self.init_ = convert_estimator(estimator.init_)
+            self.init_ = (
+                estimator.init_
+                if isinstance(estimator.init_, str)
+                else convert_estimator(estimator.init_)
+            )
         self.loss = estimator.loss
         self.learning_rate = estimator.learning_rate
         self.n_features_ = estimator.n_features_
@@ -60,7 +64,7 @@ class GradientBoostingClassifierPure:
                 )
             )
         if self.init_ == "zero":
-            raw_predictions = [[0.0] * shape(X)[1]] * shape(X)[0]
+            raw_predictions = [[0.0] * len(self.estimators_[0])] * shape(X)[0]
         else:
             raw_predictions = self.loss_.get_init_raw_predictions(X, self.init_)
         return raw_predictions
-- 
2.43.0


From 7f6b4753e13f8444e430f3a380daa8ae16ba7b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 06/34] fix: import without distutils, which Python 3.12 no
 longer ships

---
 pure_sklearn/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 2787413..803e70b 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -3,10 +3,10 @@ Utility functions
 """
 
 import pickle
+import re
 import time
 
 from warnings import warn
-from distutils.version import LooseVersion
 
 CONTAINERS = (list, dict, tuple)
 TYPES = (int, float, str, bool, type)
@@ -40,6 +40,11 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
         raise ValueError("Object contains invalid type: {}".format(type(obj)))
 
 
+def _version_key(version):
+    """ Numeric components of a version string, for comparison """
+    return [int(part) for part in re.findall(r"\d+", version)]
+
+
 def check_version(estimator, min_version=None):
     """ Checks the version of the scikit-learn estimator """
     warning_str = (
@@ -53,14 +58,14 @@ def check_version(estimator, min_version=None):
         warn(warning_str)
         return
     if (min_version is not None) and (
-        LooseVersion(version_) < LooseVersion(min_version)
+        _version_key(version_) < _version_key(min_version)
     ):
         raise Exception(
             "The sklearn version is too low for this estimator; must be >= {}".format(
                 min_version
             )
         )
-    elif LooseVersion(version_) < LooseVersion(MIN_VERSION):
+    elif _version_key(version_) < _version_key(MIN_VERSION):
         warn(warning_str)
 
 
-- 
2.43.0


From 6238f2b2a6619d087722c5c6bd0ab50fb0b295cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 07/34] fix: check_array raises on empty input instead of
 returning the error

---
 pure_sklearn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 803e70b..3fa1c1b 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -99,7 +99,7 @@ def check_array(X, handle_sparse="error"):
     if not isinstance(X, list):
         raise TypeError("Input 'X' must be a list")
     if len(X) == 0:
-        return ValueError("Input 'X' must not be empty")
+        raise ValueError("Input 'X' must not be empty")
     return X
 
 
-- 
2.43.0


From 16bec2b63acd964c7b069fa0a2cf0eda60bbb75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 08/34] fix: converted objects never hold numpy scalars

---
 pure_sklearn/ensemble/_gb.py        | 2 +-
 pure_sklearn/linear_model/_base.py  | 2 +-
 pure_sklearn/preprocessing/_data.py | 2 +-
 pure_sklearn/utils.py               | 4 +++-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index 148d89a..7604eda 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -40,7 +40,7 @@ class GradientBoostingClassifierPure:
                 else convert_estimator(estimator.init_)
             )
         self.loss = estimator.loss
-        self.learning_rate = estimator.learning_rate
+        self.learning_rate = float(estimator.learning_rate)
         self.n_features_ = estimator.n_features_
         if self.loss == "deviance":
             self.loss_ = (
diff --git a/pure_sklearn/linear_model/_base.py b/pure_sklearn/linear_model/_base.py
index da2db9a..ae80fee 100644
--- a/pure_sklearn/linear_model/_base.py
+++ b/pure_sklearn/linear_model/_base.py
@@ -16,7 +16,7 @@ class LinearClassifierMixinPure:
         self.classes_ = estimator.classes_.tolist()
         if hasattr(estimator, "intercept_"):
             if isinstance(estimator.intercept_, float):
-                self.intercept_ = [estimator.intercept_] * len(self.classes_)
+                self.intercept_ = [float(estimator.intercept_)] * len(self.classes_)
             else:
                 self.intercept_ = estimator.intercept_.tolist()
         if hasattr(estimator, "multi_class"):
diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 4eb49e0..9109f01 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -162,7 +162,7 @@ class MinMaxScalerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.feature_range = estimator.feature_range
+        self.feature_range = tuple(map(float, estimator.feature_range))
         if estimator.scale_ is None:
             self.scale_ = None
         else:
diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 3fa1c1b..3fca11c 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -29,7 +29,9 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
             for k, v in obj.items():
                 check_types(k)
                 check_types(v)
-    elif isinstance(obj, types):
+    elif type(obj) in types:
+        # exact types only: subclasses (e.g. `numpy.float64`) would make the
+        # pickled object depend on the package that defines them
         pass
     elif "pure_sklearn" in str(type(obj)):
         for attr in vars(obj):
-- 
2.43.0


From 49f570363f73eccb1fe478133e1985bb7879ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 09/34] fix: XGBClassifierPure reproduces the booster (feature
 names, node numbering, strict splits, missing values, base score, early
 stopping)

---
 pure_sklearn/tree/_classes.py    | 32 +++++++++++++++++++++----
 pure_sklearn/xgboost/_classes.py | 41 ++++++++++++++++++++++++++++----
 2 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index e389c50..e22236c 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -2,6 +2,7 @@
 Classes for tree based models
 """
 
+import struct
 import warnings
 
 from math import isnan
@@ -10,31 +11,44 @@ from ..base import safe_log
 from ..utils import check_array, check_types, check_version
 
 
+def _float32(x):
+    """ Nearest single precision value """
+    return struct.unpack("f", struct.pack("f", x))[0]
+
+
 class _DecisionTreeBase:
     """ Decision tree base class """
 
     def __init__(self, estimator):
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary
+            # (node numbers may have gaps after pruning, values are float32)
+            rows = {node: row for row, node in enumerate(estimator["ID"])}
             self.threshold_ = list(
-                map(lambda x: -2 if isnan(x) else x, estimator["Split"])
+                map(lambda x: -2 if isnan(x) else _float32(x), estimator["Split"])
             )
             self.value_ = [[a] for a in estimator["Gain"]]
             self.children_left_ = list(
                 map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
+                    lambda x: -1 if not isinstance(x, str) else rows[x],
                     estimator["Yes"],
                 )
             )
             self.children_right_ = list(
                 map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
+                    lambda x: -1 if not isinstance(x, str) else rows[x],
                     estimator["No"],
                 )
             )
+            self.children_missing_ = list(
+                map(
+                    lambda x: -1 if not isinstance(x, str) else rows[x],
+                    estimator["Missing"],
+                )
+            )
             self.feature_ = list(
                 map(
-                    lambda x: -2 if x == "Leaf" else int(x.replace("f", "")[-1]),
+                    lambda x: -2 if x == "Leaf" else int(x),
                     estimator["Feature"],
                 )
             )
@@ -59,11 +73,21 @@ class _DecisionTreeBase:
             left_equal = lambda nd: x.get(self.feature_[nd], 0.0)
         else:
             left_equal = lambda nd: x[self.feature_[nd]]
+        # xgboost trees send missing values to a recorded child and split on '<'
+        children_missing = getattr(self, "children_missing_", None)
         found_node = False
         node_id = 0
         while not found_node:
             if self.children_left_[node_id] == self.children_right_[node_id]:
                 found_node = True
+            elif children_missing is not None:
+                val = left_equal(node_id)
+                if isnan(val):
+                    node_id = children_missing[node_id]
+                elif val < self.threshold_[node_id]:
+                    node_id = self.children_left_[node_id]
+                else:
+                    node_id = self.children_right_[node_id]
             else:
                 if left_equal(node_id) <= self.threshold_[node_id]:
                     node_id = self.children_left_[node_id]
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 3ed4c32..6e36e1c 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -2,9 +2,11 @@
 Estimator classes for xgboost
 """
 
-from math import exp
+import json
 
-from ..base import sfmax, expit
+from math import isnan, log
+
+from ..base import apply_2d, sfmax, expit
 from ..utils import check_types, check_array
 from ..tree import DecisionTreeRegressorPure
 
@@ -39,10 +41,22 @@ class XGBClassifierPure:
             self.booster = estimator.booster
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
-        self.n_estimators = estimator.n_estimators
+        self.missing_ = float(getattr(estimator, "missing", float("NaN")))
+        self.base_margin_ = self._get_base_margin(estimator)
         self.estimators_ = self._build_estimators(estimator)
+        self.n_estimators = len(self.estimators_)
         check_types(self)
 
+    def _get_base_margin(self, estimator):
+        """ Constant added to the sum of the trees of a binary booster """
+        try:
+            config = json.loads(estimator.get_booster().save_config())
+            base_score = config["learner"]["learner_model_param"]["base_score"]
+        except (AttributeError, KeyError):
+            base_score = estimator.base_score
+        base_score = 0.5 if base_score is None else float(base_score)
+        return log(base_score / (1.0 - base_score))
+
     def _build_estimators(self, estimator):
         """ Convert booster to list of pure decision tree regressors """
         if not hasattr(estimator.get_booster(), "trees_to_dataframe"):
@@ -50,10 +64,25 @@ class XGBClassifierPure:
                 "This xgboost estimator was likely fitted with version < {} "
                 "which is not supported".format(MIN_VERSION)
             )
+        if getattr(estimator, "num_parallel_tree", None) not in (None, 1):
+            raise ValueError("Boosted random forests are not supported")
         tree_df = estimator.get_booster().trees_to_dataframe()
+        if "Category" in tree_df and tree_df["Category"].notnull().any():
+            raise ValueError("Categorical splits are not supported")
+        names = estimator.get_booster().feature_names
+        tree_df["Feature"] = [
+            f if f == "Leaf" else (names.index(f) if names else int(f[1:]))
+            for f in tree_df["Feature"]
+        ]
+        # rounds that were fitted, up to the best one after early stopping
+        n_classes = 1 if self.n_classes_ == 2 else self.n_classes_
+        n_estimators = tree_df["Tree"].nunique() // n_classes
+        best_iteration = getattr(estimator, "best_iteration", None)
+        if best_iteration is not None:
+            n_estimators = min(n_estimators, int(best_iteration) + 1)
         estimators_ = []
         idx = 0
-        for est_id in range(self.n_estimators):
+        for est_id in range(n_estimators):
             if self.n_classes_ == 2:
                 tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
                 est_row_ = DecisionTreeRegressorPure(tree)
@@ -80,7 +109,7 @@ class XGBClassifierPure:
 
     def _predict_binary(self, X):
         """ Raw sums of estimator predictions for each class for binary """
-        preds = [0] * len(X)
+        preds = [self.base_margin_] * len(X)
         for estimator in self.estimators_:
             preds = list(map(lambda x, y: x + y, preds, estimator.predict(X)))
         return preds
@@ -91,6 +120,8 @@ class XGBClassifierPure:
 
     def predict_proba(self, X):
         X = check_array(X)
+        if not isnan(self.missing_):
+            X = apply_2d(X, lambda x: float("NaN") if x == self.missing_ else x)
         if self.objective == "multi:softprob":
             preds = self._predict(X)
             out = []
-- 
2.43.0


From c8ca46004796101b5992cfae6ef82efee758a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 10/34] fix: binary count and hashing vectorizers return a
 sparse_list

---
 pure_sklearn/feature_extraction/text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index e3164cf..2319bb3 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -19,6 +19,7 @@ from ..utils import (
     check_types,
     check_version,
 )
+from ..base import apply_2d_sparse
 from ..map import convert_estimator
 from ..preprocessing import normalize_pure
 from ._hash import _FeatureHasherPure
@@ -377,7 +378,7 @@ class CountVectorizerPure(_VectorizerMixinPure):
 
         _, X = self._count_vocab(raw_documents)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = apply_2d_sparse(X, lambda x: 1)
         return X
 
 
@@ -481,7 +482,7 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         analyzer = self.build_analyzer()
         X = self._get_hasher().transform(analyzer(doc) for doc in X)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = apply_2d_sparse(X, lambda x: 1)
 
         if self.norm is not None:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From f45b023df3c12ed496672b5f23131eba626b8823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 11/34] fix: feature hashing sums repeated and colliding terms

---
 pure_sklearn/feature_extraction/_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_hash.py b/pure_sklearn/feature_extraction/_hash.py
index 05ddeae..5212039 100755
--- a/pure_sklearn/feature_extraction/_hash.py
+++ b/pure_sklearn/feature_extraction/_hash.py
@@ -109,7 +109,7 @@ def _hashing_transform(raw_X, n_features, dtype, alternate_sign=1, seed=0):
             index = abs(h) % n_features
             if alternate_sign:
                 value *= (h >= 0) * 2 - 1
-            row[index] = value
+            row[index] = row.get(index, 0) + value
         X.append(row)
     return sparse_list(X, size=n_features, dtype=dtype)
 
-- 
2.43.0


From 181a56002b6d4d36da9c3bb5afe34a535c835b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 12/34] fix: TfidfTransformerPure supports sublinear_tf,
 use_idf=False and dense input and leaves its input alone

---
 pure_sklearn/feature_extraction/text.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 2319bb3..0121235 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -13,13 +13,15 @@ from math import isnan
 from ..utils import (
     check_types,
     convert_type,
+    issparse,
     sparse_list,
     shape,
+    tosparse,
     check_array,
     check_types,
     check_version,
 )
-from ..base import apply_2d_sparse
+from ..base import apply_2d_sparse, safe_log
 from ..map import convert_estimator
 from ..preprocessing import normalize_pure
 from ._hash import _FeatureHasherPure
@@ -415,24 +417,31 @@ class TfidfTransformerPure:
         self.use_idf = estimator.use_idf
         self.smooth_idf = estimator.smooth_idf
         self.sublinear_tf = estimator.sublinear_tf
-        self.idf_ = estimator.idf_.tolist()
-        self.expected_n_features_ = estimator._idf_diag.shape[0]
+        if self.use_idf:
+            self.idf_ = estimator.idf_.tolist()
+            self.expected_n_features_ = estimator._idf_diag.shape[0]
         check_types(self)
 
     def transform(self, X, copy=True):
         X = check_array(X, handle_sparse="allow")
+        if not issparse(X):
+            X = tosparse(X)
         n_samples, n_features = shape(X)
+        # new rows, so that the caller's data is never modified
+        X_ = [{k: v for k, v in x.items() if v != 0} for x in X]
+        X = sparse_list(X_, size=n_features, dtype=X.dtype)
 
         if self.sublinear_tf:
             for index in range(len(X)):
-                X[index] = safe_log(X[index]) + 1
+                for k, v in X[index].items():
+                    X[index][k] = safe_log(v) + 1
 
         if self.use_idf:
             if n_features != self.expected_n_features_:
                 raise ValueError(
                     "Input has n_features=%d while the model"
                     " has been trained with n_features=%d"
-                    % (n_features, expected_n_features)
+                    % (n_features, self.expected_n_features_)
                 )
             for index in range(len(X)):
                 for k, v in X[index].items():
-- 
2.43.0


From 9580c42a09ba27932c45dc597618dcc515102105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 13/34] fix: max norm uses absolute values

---
 pure_sklearn/preprocessing/_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 9109f01..8830bad 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -57,7 +57,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = [max(list(x.values()) + [0]) for x in X]
+            norms = [max(list(map(abs, x.values())) + [0]) for x in X]
         norms = _handle_zeros_in_scale(norms, copy=False)
         X_sparse = [
             {k: (v / float(norms[index])) for k, v in X[index].items()}
@@ -70,7 +70,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = apply_axis_2d(X, max, axis=1)
+            norms = apply_axis_2d(apply_2d(X, abs), max, axis=1)
         norms = _handle_zeros_in_scale(norms, copy=False)
         X = [
             list(map(lambda a: a / float(norms[index]), X[index]))
-- 
2.43.0


From a3e073d9f654035a146b30d916e676557db72a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 14/34] fix: MissingIndicatorPure compares column indices, not
 counts, for error_on_new

---
 pure_sklearn/impute/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index a3e594c..001613e 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -70,7 +70,7 @@ class MissingIndicatorPure:
         if self.features == "all":
             features_indices = range(shape(X)[1])
         else:
-            features_indices = [a for a in n_missing if a != 0]
+            features_indices = [i for i, a in enumerate(n_missing) if a != 0]
         return imputer_mask, features_indices
 
 
-- 
2.43.0


From 3ecb05b31e05e1ccf488ac79578111320f951b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 15/34] fix: StandardScalerPure without centering and scaling
 returns new rows

---
 pure_sklearn/preprocessing/_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 8830bad..f5a6428 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -141,7 +141,9 @@ class StandardScalerPure:
                 )
             if self.scale_ is not None:
                 X_ = [{k: (v / self.scale_[k]) for k, v in x.items()} for x in X]
-                X = sparse_list(X_, size=X.size, dtype=X.dtype)
+            else:
+                X_ = [dict(x) for x in X]
+            X = sparse_list(X_, size=X.size, dtype=X.dtype)
         else:
             if self.with_mean:
                 X = [[x[i] - self.mean_[i] for i in range(len(self.mean_))] for x in X]
@@ -149,6 +151,8 @@ class StandardScalerPure:
                 X = [
                     [x[i] / self.scale_[i] for i in range(len(self.scale_))] for x in X
                 ]
+            if not (self.with_mean or self.with_std):
+                X = [list(x) for x in X]
         return X
 
 
-- 
2.43.0


From 7a3db96ee1140fa9c820dc8add37c3b62fc0062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 16/34] fix: converted vectorizers do not share vocabulary or
 options with the source

---
 pure_sklearn/feature_extraction/_dict_vectorizer.py | 4 ++--
 pure_sklearn/feature_extraction/text.py             | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pure_sklearn/feature_extraction/_dict_vectorizer.py b/pure_sklearn/feature_extraction/_dict_vectorizer.py
index cee2858..638f897 100755
--- a/pure_sklearn/feature_extraction/_dict_vectorizer.py
+++ b/pure_sklearn/feature_extraction/_dict_vectorizer.py
@@ -17,8 +17,8 @@ class DictVectorizerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.vocabulary_ = estimator.vocabulary_
-        self.feature_names_ = estimator.feature_names_
+        self.vocabulary_ = dict(estimator.vocabulary_)
+        self.feature_names_ = list(estimator.feature_names_)
         self.sparse = estimator.sparse
         self.dtype = convert_type(estimator.dtype)
         self.separator = estimator.separator
diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 0121235..0284fe9 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -6,6 +6,7 @@ build feature vectors from text documents.
 import re
 import unicodedata
 
+from copy import copy
 from functools import partial
 from collections import defaultdict
 from math import isnan
@@ -341,9 +342,9 @@ class CountVectorizerPure(_VectorizerMixinPure):
         self.analyzer = estimator.analyzer
         self.preprocessor = estimator.preprocessor
         self.tokenizer = estimator.tokenizer
-        self.stop_words = estimator.stop_words
+        self.stop_words = copy(estimator.stop_words)
         self.token_pattern = estimator.token_pattern
-        self.ngram_range = estimator.ngram_range
+        self.ngram_range = tuple(estimator.ngram_range)
         self.strip_accents = estimator.strip_accents
         self.decode_error = estimator.decode_error
         self.encoding = estimator.encoding
@@ -469,9 +470,9 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         self.analyzer = estimator.analyzer
         self.preprocessor = estimator.preprocessor
         self.tokenizer = estimator.tokenizer
-        self.stop_words = estimator.stop_words
+        self.stop_words = copy(estimator.stop_words)
         self.token_pattern = estimator.token_pattern
-        self.ngram_range = estimator.ngram_range
+        self.ngram_range = tuple(estimator.ngram_range)
         self.strip_accents = estimator.strip_accents
         self.decode_error = estimator.decode_error
         self.encoding = estimator.encoding
-- 
2.43.0


From d998bd0dae634a272397843f5c33990d59c16a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 17/34] fix: bagging accepts sparse input for feature subsets
 and refuses non-lists

---
 pure_sklearn/ensemble/_bagging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index f10446d..a8f7061 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -6,12 +6,15 @@ from operator import add
 
 from ..map import MAPPING, convert_estimator
 from ..base import safe_log, operate_2d, apply_2d
-from ..utils import shape, check_types, check_version
+from ..utils import check_array, check_types, check_version, issparse, sparse_list
 
 
 def _feat_slice(X, feats):
     if feats is None:
         return X
+    elif issparse(X):
+        X_ = [{p: a[i] for p, i in enumerate(feats) if i in a} for a in X]
+        return sparse_list(X_, size=len(feats), dtype=X.dtype)
     else:
         return [[a[i] for i in feats] for a in X]
 
@@ -33,6 +36,7 @@ class _BaseBaggingPure:
         check_types(self)
 
     def predict_proba(self, X):
+        X = check_array(X, handle_sparse="allow")
         proba = self.estimators_[0].predict_proba(_feat_slice(X, self._get_feats(0)))
         for idx in range(len(self.estimators_))[1:]:
             proba_idx = self.estimators_[idx].predict_proba(
-- 
2.43.0


From a452a2b29630d3f7f34422ad0c6306551d79d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 18/34] fix: bagging lines up members that never saw some class

---
 pure_sklearn/ensemble/_bagging.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index a8f7061..3e65aed 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -37,15 +37,28 @@ class _BaseBaggingPure:
 
     def predict_proba(self, X):
         X = check_array(X, handle_sparse="allow")
-        proba = self.estimators_[0].predict_proba(_feat_slice(X, self._get_feats(0)))
+        proba = self._predict_proba_member(0, X)
         for idx in range(len(self.estimators_))[1:]:
-            proba_idx = self.estimators_[idx].predict_proba(
-                _feat_slice(X, self._get_feats(idx))
-            )
+            proba_idx = self._predict_proba_member(idx, X)
             proba = operate_2d(proba, proba_idx, add)
         func = lambda x: x / float(len(self.estimators_))
         return apply_2d(proba, func)
 
+    def _predict_proba_member(self, idx, X):
+        """ Probabilities of one member, lined up with the ensemble's classes """
+        estimator = self.estimators_[idx]
+        proba = estimator.predict_proba(_feat_slice(X, self._get_feats(idx)))
+        if len(estimator.classes_) == len(self.classes_):
+            return proba
+        # the member was fitted on a sample without some class; its own
+        # classes are positions in the ensemble's classes
+        aligned = []
+        for row in proba:
+            aligned.append([0.0] * len(self.classes_))
+            for position, val in zip(estimator.classes_, row):
+                aligned[-1][int(position)] = val
+        return aligned
+
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
 
-- 
2.43.0


From 6b226867a0ab185bea98f12abce8a1f3b5389eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 19/34] fix: multi-output trees are refused instead of serving
 their first output

---
 pure_sklearn/tree/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index e22236c..c38ff3b 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -55,6 +55,8 @@ class _DecisionTreeBase:
         else:
             # sourced from sklearn decision tree
             check_version(estimator)
+            if estimator.tree_.n_outputs != 1:
+                raise ValueError("Multi-output trees are not supported")
             self.children_left_ = estimator.tree_.children_left.tolist()
             self.children_right_ = estimator.tree_.children_right.tolist()
             self.feature_ = estimator.tree_.feature.tolist()
-- 
2.43.0


From 25228e67d8d9ff3975fcdb6b874d891c0556b96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 20/34] fix: feature unions apply weights to sparse parts

---
 pure_sklearn/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 41196f8..16c7422 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -6,7 +6,7 @@ from operator import add, attrgetter
 from functools import update_wrapper, reduce
 from itertools import islice
 
-from .base import accumu, apply_2d
+from .base import accumu, apply_2d, apply_2d_sparse
 from .utils import (
     issparse,
     tosparse,
@@ -61,7 +61,8 @@ def _transform_one(transformer, X, y, weight, **fit_params):
     # if we have a weight for this transformer, multiply output
     if weight is None:
         return res
-    return apply_2d(res, lambda x: x * weight)
+    apply = apply_2d_sparse if issparse(res) else apply_2d
+    return apply(res, lambda x: x * weight)
 
 
 class PipelinePure:
-- 
2.43.0


From 548ec45351173918d78a5028a84f3e3873552fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 21/34] fix: pass-through pipeline steps and dropped union
 parts can be converted

---
 pure_sklearn/pipeline.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 16c7422..4ddbaca 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -77,7 +77,9 @@ class PipelinePure:
         check_version(estimator)
         self.steps = []
         for step in estimator.steps:
-            step_ = convert_estimator(step[1])
+            step_ = step[1]
+            if step_ is not None and step_ != "passthrough":
+                step_ = convert_estimator(step_)
             self.steps.append((step[0], step_))
         check_types(self)
 
@@ -164,7 +166,9 @@ class FeatureUnionPure:
         check_version(estimator)
         self.transformer_list = []
         for step in estimator.transformer_list:
-            step_ = convert_estimator(step[1])
+            step_ = step[1]
+            if step_ is not None and step_ != "drop":
+                step_ = convert_estimator(step_)
             self.transformer_list.append((step[0], step_))
 
         if hasattr(estimator, "transformer_weights"):
@@ -195,7 +199,7 @@ class FeatureUnionPure:
             for name, trans, weight in self._iter()
         ]
         if not Xs:
-            return [[0.0] * shape(X)[1]] * shape(X)[0]
+            return [[] for _ in X]
 
         if any(issparse(f) for f in Xs):
             Xs = [tosparse(X_) if not issparse(X_) else X_ for X_ in Xs]
-- 
2.43.0


From 3f0322d36a89220fde744a9466119bf384ffff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 22/34] fix: FastText.predict answers a list of lines

---
 pure_fasttext/FastText.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index fe2dcb4..1c3c119 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -150,12 +150,8 @@ class _FastText(object):
             raise ValueError("Model needs to be supervised for prediction!")
 
         if isinstance(text, list):
-            text = [entry for entry in text]
             all_labels = []
             all_probs = []
-            all_labels, all_probs = self.f.multilinePredict(
-                text, k, threshold, on_unicode_error
-            )
             for text_ in text:
                 labels, probs = self._predict(text_, k, threshold)
                 all_labels.append(labels)
-- 
2.43.0


From 076692a082eedcec7679980c5a1b2b0c70fd25a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 23/34] fix: fastText word vectors are copies of the model's
 rows

---
 pure_fasttext/FastText.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 1c3c119..af8cc89 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -127,7 +127,7 @@ class _FastText(object):
         """
         Given an index, get the corresponding vector of the Input Matrix.
         """
-        return self.input_matrix_[ind]
+        return list(self.input_matrix_[ind])
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
-- 
2.43.0


From 40cd2261f5e5f10a4ee808faba332da56a532e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 24/34] fix: fastText sentences without known words give the
 zero vector

---
 pure_fasttext/FastText.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index af8cc89..2b89e30 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -104,13 +104,15 @@ class _FastText(object):
                 for word in (text.split() + [EOS])
                 if word in self.words_
             ]
-            return average(raw_words)
+            return average(raw_words) if raw_words else [0.0] * self.dim_
         else:
             raw_words = [
                 self.get_word_vector(word)
                 for word in text.split()
                 if word in self.words_
             ]
+            if not raw_words:
+                return [0.0] * self.dim_
             return average(list(map(div_norm, raw_words)))
 
     def get_word_id(self, word):
-- 
2.43.0


From 99a770aaad47cc6ab0be794275e9a097d10afbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:25 +0000
Subject: [PATCH 25/34] fix: fastText splits words at the documented separators
 only

---
 pure_fasttext/FastText.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 2b89e30..6e81594 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -2,10 +2,13 @@
 Base class for fasttext API implemented in pure python
 """
 
+import re
+
 from math import exp, sqrt
 from operator import mul
 
 EOS = "</s>"
+SEPARATORS = re.compile("[ \n\r\t\v\f\0]+")
 
 
 def l2_norm(arr):
@@ -45,6 +48,11 @@ def argsort(seq):
     return sorted(range(len(seq)), key=seq.__getitem__)
 
 
+def split(text):
+    """ Splits a line of text at the separators of fasttext """
+    return [word for word in SEPARATORS.split(text) if word]
+
+
 def average(l):
     """ Computes average of 2-D list """
     llen = len(l)
@@ -101,14 +109,14 @@ class _FastText(object):
         if self.supervised_:
             raw_words = [
                 self.get_word_vector(word)
-                for word in (text.split() + [EOS])
+                for word in (split(text) + [EOS])
                 if word in self.words_
             ]
             return average(raw_words) if raw_words else [0.0] * self.dim_
         else:
             raw_words = [
                 self.get_word_vector(word)
-                for word in text.split()
+                for word in split(text)
                 if word in self.words_
             ]
             if not raw_words:
-- 
2.43.0


From c155b51ad79d1c5ccd3da84ea5cc3daeeb2bd21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 26/34] fix: supervised fastText models with subwords or word
 n-grams are refused

---
 pure_fasttext/FastText.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 6e81594..3a131ee 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -77,6 +77,12 @@ class _FastText(object):
             )
         if self.supervised_ and (model.loss.name not in ("softmax")):
             raise Exception("Only 'softmax' loss is supported for supervised mode.")
+        if self.supervised_ and (
+            model.maxn != 0 or getattr(model, "wordNgrams", 1) > 1
+        ):
+            raise ValueError(
+                "Only maxn=0 and wordNgrams=1 are supported for supervised mode."
+            )
         self.words_ = model.get_words()
         self.input_matrix_ = model.get_input_matrix().tolist()
         self.dim_ = model.get_dimension()
-- 
2.43.0


From c7eb61d24bea4b848abe288104caa95b4d726c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 27/34] fix: FastText.predict treats k like fasttext (-1 for
 all labels, other k below 1 refused)

---
 pure_fasttext/FastText.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 3a131ee..9c26cdb 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -147,6 +147,10 @@ class _FastText(object):
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
+        if k == -1:
+            k = len(self.labels_)
+        elif k < 1:
+            raise ValueError("k needs to be 1 or higher!")
         A = self.get_sentence_vector(text)
         if self.loss_ == "softmax":
             preds = sfmax(dot(A, self.output_matrix_))
-- 
2.43.0


From ccab8fa6f2dbb24cafd30c5a18725faf67e00bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 28/34] fix: slice_column selects and renumbers sparse columns
 like dense ones

---
 pure_sklearn/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index fd0361a..763e207 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -169,8 +169,8 @@ def slice_column(A, idx):
             return [a[idx] for a in A]
     if isinstance(idx, (list, tuple)):
         if issparse(A):
-            A_ = [{k: v for k, v in a.items() if k in idx} for a in A]
-            return sparse_list(A_, size=A.size, dtype=A.dtype)
+            A_ = [{p: a[i] for p, i in enumerate(idx) if i in a} for a in A]
+            return sparse_list(A_, size=len(idx), dtype=A.dtype)
         else:
             return [[a[i] for i in idx] for a in A]
 
-- 
2.43.0


From 3d5a33cbf23fc3a65226499b6499f8cefa371b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 29/34] fix: ravel returns every element of a 2-D list

---
 pure_sklearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 763e207..0d60916 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -157,7 +157,7 @@ def ravel(A):
     """ Equivalent of numpy ravel on 2-D list """
     if issparse(A):
         raise ValueError("Sparse input not supported.")
-    return list(transpose(A)[0])
+    return [a for row in A for a in row]
 
 
 def slice_column(A, idx):
-- 
2.43.0


From 8c8ad3c27231f8b7de8c3dd667c2ecb1fd26762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 30/34] fix: naive Bayes probabilities sum to one for large
 scores

---
 pure_sklearn/naive_bayes.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index 9ea706e..dc4f66f 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -11,6 +11,16 @@ from .utils import check_array, check_types, check_version
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
 
 
+def _normalize_log(scores):
+    """ Subtract the logarithm of the sum of exponentials from each score """
+    max_val = max(scores)
+    if max_val not in (float("Inf"), -float("Inf")):
+        # relative to the largest score, so that large scores lose no digits
+        scores = [v - max_val for v in scores]
+    log_sum = logsumexp(scores)
+    return [v - log_sum for v in scores]
+
+
 class _BaseNBPure:
     """ Base class for naive Bayes classifiers """
 
@@ -33,11 +43,7 @@ class _BaseNBPure:
         """
         X = check_array(X, handle_sparse="error")
         jll = self._joint_log_likelihood(X)
-        log_prob_x = list(map(logsumexp, jll))
-        return [
-            list(map(lambda a: a - log_prob_x[index], jll[index]))
-            for index in range(len(jll))
-        ]
+        return [_normalize_log(a) for a in jll]
 
     def predict_proba(self, X):
         """
-- 
2.43.0


From 9bef5bd6c0b389de8b35108ccc3068c39c3627c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 31/34] fix: imputers and missing indicators accept text data
 and text or None markers

---
 pure_sklearn/impute/_base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index 001613e..bce99b4 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -8,9 +8,14 @@ from ..utils import shape, check_array, check_types, check_version
 from ..base import apply_2d, apply_axis_2d
 
 
+def _is_nan(val):
+    """ NaN test for values of any type """
+    return isinstance(val, float) and isnan(val)
+
+
 def _to_impute(val, missing_values):
-    if isnan(missing_values):
-        return isnan(val)
+    if _is_nan(missing_values):
+        return _is_nan(val)
     else:
         return val == missing_values
 
@@ -146,7 +151,7 @@ class SimpleImputerPure:
             to_remove = [
                 index
                 for index in range(len(self.statistics_))
-                if isnan(self.statistics_[index])
+                if _is_nan(self.statistics_[index])
             ]
             if len(to_remove) > 0:
                 X = [[a[i] for i in range(len(a)) if i not in to_remove] for a in X]
-- 
2.43.0


From bc1fb2e372cf1e6f3b143aedc01348003b52f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:12 +0000
Subject: [PATCH 32/34] fix: xgboost feature named "Leaf" is not taken for a
 leaf

---
 pure_sklearn/xgboost/_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 6e36e1c..e7024c7 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -71,8 +71,8 @@ class XGBClassifierPure:
             raise ValueError("Categorical splits are not supported")
         names = estimator.get_booster().feature_names
         tree_df["Feature"] = [
-            f if f == "Leaf" else (names.index(f) if names else int(f[1:]))
-            for f in tree_df["Feature"]
+            (names.index(f) if names else int(f[1:])) if isinstance(yes, str) else f
+            for f, yes in zip(tree_df["Feature"], tree_df["Yes"])
         ]
         # rounds that were fitted, up to the best one after early stopping
         n_classes = 1 if self.n_classes_ == 2 else self.n_classes_
-- 
2.43.0


From 2388703a4a5beefdfc7cfac3b0b8b53e2e714c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:12 +0000
Subject: [PATCH 33/34] fix: xgboost trees per round follow the objective, not
 the number of classes

---
 pure_sklearn/xgboost/_classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index e7024c7..7d8b57e 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -75,7 +75,8 @@ class XGBClassifierPure:
             for f, yes in zip(tree_df["Feature"], tree_df["Yes"])
         ]
         # rounds that were fitted, up to the best one after early stopping
-        n_classes = 1 if self.n_classes_ == 2 else self.n_classes_
+        binary = self.objective == "binary:logistic"
+        n_classes = 1 if binary else self.n_classes_
         n_estimators = tree_df["Tree"].nunique() // n_classes
         best_iteration = getattr(estimator, "best_iteration", None)
         if best_iteration is not None:
@@ -83,7 +84,7 @@ class XGBClassifierPure:
         estimators_ = []
         idx = 0
         for est_id in range(n_estimators):
-            if self.n_classes_ == 2:
+            if binary:
                 tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
                 est_row_ = DecisionTreeRegressorPure(tree)
                 idx += 1
-- 
2.43.0


From 77d7be94a87512fecee315988eee88d5edc6a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:12 +0000
Subject: [PATCH 34/34] fix: xgboost models with several labels per row are
 refused

---
 pure_sklearn/xgboost/_classes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 7d8b57e..a1e7df9 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -51,9 +51,13 @@ class XGBClassifierPure:
         """ Constant added to the sum of the trees of a binary booster """
         try:
             config = json.loads(estimator.get_booster().save_config())
-            base_score = config["learner"]["learner_model_param"]["base_score"]
+            param = config["learner"]["learner_model_param"]
+            base_score = param["base_score"]
         except (AttributeError, KeyError):
             base_score = estimator.base_score
+        else:
+            if int(param.get("num_target", 1)) > 1:
+                raise ValueError("Multi-label classification is not supported")
         base_score = 0.5 if base_score is None else float(base_score)
         return log(base_score / (1.0 - base_score))
 
-- 
2.43.0

