"""Planted changes, third batch: one or more per property, each needing something particular."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


COMMON = """
import numpy as np
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list
"""

# ---------------------------------------------------------------- C01
seed("c01-last-tie", "C01",
     [("pure_sklearn/linear_model/_base.py", "            indices = map(lambda a: a.index(max(a)), scores)\n",
       "            indices = map(lambda a: max(range(len(a)), key=lambda i: (a[i], i)), scores)\n")],
     "two classes with exactly the same largest score", "the last of the tied classes is answered instead of the first", COMMON + """
from sklearn.linear_model import LogisticRegression
e = LogisticRegression().fit(np.eye(3), [0, 1, 2])
e.coef_ = np.array([[1., 0, 0], [1., 0, 0], [0, 0, 1.]]); e.intercept_ = np.zeros(3)
assert convert_estimator(e).predict([[1., 0., 0.]]) == [0]
""")
# ---------------------------------------------------------------- C02
seed("c02-leaf-by-threshold", "C02",
     [("pure_sklearn/tree/_classes.py", "            if self.children_left_[node_id] == self.children_right_[node_id]:\n",
       "            if self.threshold_[node_id] == -2:\n")],
     "a split whose threshold is exactly -2", "the walk stops at an inner node", COMMON + """
from sklearn.tree import DecisionTreeRegressor
e = DecisionTreeRegressor().fit(np.array([[-3.], [-1.]]), [5.0, 9.0])
assert e.tree_.threshold[0] == -2
assert convert_estimator(e).predict([[-3.0], [-1.0]]) == [5.0, 9.0]
""")
seed("c02-threshold-single", "C02",
     [("pure_sklearn/tree/_classes.py", "            self.threshold_ = estimator.tree_.threshold.tolist()\n",
       "            self.threshold_ = list(map(_float32, estimator.tree_.threshold.tolist()))\n")],
     "a threshold between two neighbouring single precision values", "a row between the two is sent to the wrong side", COMMON + """
from sklearn.tree import DecisionTreeRegressor
a = np.float32(1.0); ok = True
for b in (np.nextafter(a, np.float32(2)), ):
    for lo in (a, b):
        hi = np.nextafter(lo, np.float32(2))
        e = DecisionTreeRegressor().fit(np.array([[lo], [hi]], dtype=np.float32), [5.0, 9.0])
        if e.tree_.node_count != 3:
            e = DecisionTreeRegressor().fit(np.array([[1.0], [2.0]]), [5.0, 9.0])
            e.tree_.threshold[0] = (float(lo) + float(hi)) / 2
        rows = [[float(lo)], [float(hi)]]
        ok = ok and convert_estimator(e).predict(rows) == e.predict(np.array(rows)).tolist()
assert ok
""")

# ---------------------------------------------------------------- C03
# ---------------------------------------------------------------- C04
seed("c04-exp-tie", "C04",
     [("pure_sklearn/ensemble/_gb_losses.py", "        return [int(a >= 0) for a in raw_predictions]\n",
       "        return [int(a > 0) for a in raw_predictions]\n")],
     "exponential loss and a raw score of exactly zero", "the label of the other class", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
X = np.array([[0.], [0.], [1.], [1.]]); y = [0, 1, 0, 1]
e = GradientBoostingClassifier(loss="exponential", n_estimators=2).fit(X, y)
assert (e.decision_function(X) == 0).all()
assert convert_estimator(e).predict(X.tolist()) == e.predict(X).tolist()
""")
seed("c04-rate-of-whole-sum", "C04",
     [("pure_sklearn/ensemble/_gb_losses.py", "        log_func = lambda x: 0.5 * safe_log(x / (1 - x))\n",
       "        log_func = lambda x: safe_log(x / (1 - x))\n")],
     "exponential loss with an unbalanced prior", "the initial score is doubled", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
X = np.array([[0.], [1.], [2.], [3.], [4.]]); y = [0, 0, 0, 0, 1]
e = GradientBoostingClassifier(loss="exponential", n_estimators=3).fit(X, y)
assert np.allclose(convert_estimator(e).predict_proba(X.tolist()), e.predict_proba(X))
""")

# ---------------------------------------------------------------- C05
seed("c05-argmax-of-rounded", "C05",
     [("pure_sklearn/xgboost/_classes.py", "            cls_sum = [0] * len(X)\n",
       "            cls_sum = [self.base_margin_ if cls_index == 0 else 0.0] * len(X)\n")],
     "a multiclass booster with a base score other than one half", "the first class alone gets the base score", COMMON + """
from xgboost import XGBClassifier
rng = np.random.RandomState(0)
X = rng.randint(-3, 4, (60, 3)).astype(float); y = (X[:, 0] > 0) * 1 + (X[:, 1] > 0) * 1
e = XGBClassifier(booster="gbtree", n_estimators=3, base_score=0.9).fit(X, y)
assert np.allclose(convert_estimator(e).predict_proba(X.tolist()), e.predict_proba(X), atol=1e-5)
""")
seed("c05-equal-split-missing", "C05",
     [("pure_sklearn/xgboost/_classes.py", "                    tree = tree_df[tree_df[\"Tree\"] == idx].to_dict(orient=\"list\")\n                    est_row_.append(DecisionTreeRegressorPure(tree))\n                    idx += 1\n",
       "                    tree = tree_df[tree_df[\"Tree\"] == idx]\n                    tree = tree.assign(Missing=tree[\"Yes\"]).to_dict(orient=\"list\")\n                    est_row_.append(DecisionTreeRegressorPure(tree))\n                    idx += 1\n")],
     "a missing value in a multiclass booster whose default child is the 'no' child", "missing values always go to the 'yes' child", COMMON + """
from xgboost import XGBClassifier
rng = np.random.RandomState(0)
X = rng.randint(-3, 4, (90, 2)).astype(float); y = (X[:, 0] > 0) * 1 + (X[:, 1] > 0) * 1
X[rng.rand(90) < 0.4, 0] = np.nan; y[np.isnan(X[:, 0])] = 2
e = XGBClassifier(booster="gbtree", n_estimators=3).fit(X, y)
assert np.allclose(convert_estimator(e).predict_proba(X.tolist()), e.predict_proba(X), atol=1e-5)
""")

# ---------------------------------------------------------------- C06
seed("c06-log-of-product", "C06",
     [("pure_sklearn/naive_bayes.py", "            n_ij = -0.5 * sum(\n                list(map(lambda x: safe_log(2.0 * pi * x), self.sigma_[i]))\n            )\n",
       "            volume = 1.0\n            for x in self.sigma_[i]:\n                volume *= 2.0 * pi * x\n            n_ij = -0.5 * safe_log(volume)\n")],
     "many features with small variances (or large ones), so that their product leaves the floating point range", "the joint score becomes infinite",
     COMMON + """
from sklearn.naive_bayes import GaussianNB
rng = np.random.RandomState(0)
X = rng.randn(20, 60) * 1e-4; y = np.arange(20) % 2
e = GaussianNB(var_smoothing=0.0).fit(X, y)
assert np.allclose(convert_estimator(e).predict_log_proba(X.tolist()), e.predict_log_proba(X))
""")
seed("c06-dummy-last", "C06",
     [("pure_sklearn/dummy.py", "        self.class_prior_ = estimator.class_prior_.tolist()\n",
       "        self.class_prior_ = [round(p, 6) for p in estimator.class_prior_.tolist()]\n")],
     "class frequencies that need more than six digits", "priors are rounded", COMMON + """
from sklearn.dummy import DummyClassifier
e = DummyClassifier(strategy="prior").fit(np.zeros((3, 1)), [0, 0, 1])
assert abs(convert_estimator(e).predict_proba([[0.0]])[0][0] - 2 / 3) < 1e-12
""")

# ---------------------------------------------------------------- C07
seed("c07-std-only-columns", "C07",
     [("pure_sklearn/preprocessing/_data.py", "                X_ = [{k: (v / self.scale_[k]) for k, v in x.items()} for x in X]\n            else:\n",
       "                scale = iter(self.scale_)\n                X_ = [\n                    {k: v / s for (k, v), s in zip(x.items(), self.scale_)}\n                    if len(x) == X.size\n                    else {k: (v / self.scale_[k]) for k, v in x.items()}\n                    for x in X\n                ]\n            else:\n")],
     "a sparse row without zeros whose entries are not stored in column order", "entries are divided by another column's scale", COMMON + """
from sklearn.preprocessing import StandardScaler
e = StandardScaler(with_mean=False).fit(np.array([[1., 10.], [2., 40.]]))
p = convert_estimator(e)
a = p.transform(sparse_list([{1: 10.0, 0: 1.0}], size=2, dtype=float))[0]
b = p.transform([[1.0, 10.0]])[0]
assert abs(a[0] - b[0]) < 1e-12 and abs(a[1] - b[1]) < 1e-12
""")
# ---------------------------------------------------------------- C08
seed("c08-integer-codes", "C08",
     [("pure_sklearn/preprocessing/_label.py", "    uniques_set = set(uniques)\n    diff = list(set(values) - uniques_set)\n",
       "    uniques_set = set(uniques)\n    diff = [v for v in set(values) if v not in uniques_set and v != \"\"]\n")],
     "an empty string that is not among the fitted categories", "an empty string gets the first category's column, or an obscure error", COMMON + """
from sklearn.preprocessing import OneHotEncoder
e = OneHotEncoder(handle_unknown="ignore", sparse=False).fit(np.array([["a"], ["b"]], dtype=object))
assert convert_estimator(e).transform([["a"], [""]]) == [[1.0, 0.0], [0.0, 0.0]]
""")
seed("c08-dense-width", "C08",
     [("pure_sklearn/preprocessing/_encoders.py", "        out = sparse_list(data, size=feature_indices[-1], dtype=self.dtype)\n",
       "        out = sparse_list(\n            data, size=max(max(row, default=0) for row in data) + 1, dtype=self.dtype\n        )\n")],
     "a batch in which no row has the last category of the last feature", "the matrix is too narrow", COMMON + """
from sklearn.preprocessing import OneHotEncoder
e = OneHotEncoder(sparse=False).fit(np.array([["a"], ["b"]], dtype=object))
assert convert_estimator(e).transform([["a"]]) == [[1.0, 0.0]]
""")

# ---------------------------------------------------------------- C09
seed("c09-new-by-count", "C09",
     [("pure_sklearn/impute/_base.py", "            if self.error_on_new and len(features_diff_fit_trans) > 0:\n",
       "            if self.error_on_new and len(features) > len(self.features_):\n")],
     "a column without missing values while fitting has some now, and one that had some has none", "the new missing column is not refused", COMMON + """
from sklearn.impute import MissingIndicator
e = convert_estimator(MissingIndicator().fit(np.array([[np.nan, 1.], [1., 2.]])))
try:
    e.transform([[1.0, float("nan")]])
except ValueError:
    pass
else:
    raise SystemExit("answered")
""")
seed("c09-marker-nearby", "C09",
     [("pure_sklearn/impute/_base.py", "        return val == missing_values\n", "        return abs(val - missing_values) < 1e-6\n")],
     "a value very near the missing marker but not equal to it", "a present value is replaced", COMMON + """
from sklearn.impute import SimpleImputer
e = convert_estimator(SimpleImputer(missing_values=0).fit(np.array([[0.], [4.]])))
assert e.transform([[1e-9]]) == [[1e-9]]
""")

# ---------------------------------------------------------------- C10
seed("c10-accent-order", "C10",
     [("pure_sklearn/feature_extraction/text.py", "    if lower:\n        doc = doc.lower()\n    if accent_function is not None:\n        doc = accent_function(doc)\n    return doc\n",
       "    if accent_function is not None:\n        doc = accent_function(doc)\n    return doc.lower() if lower else doc\n")],
     "strip_accents with lowercase and a compatibility character such as the trade mark sign", "a different term", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
e = CountVectorizer(strip_accents="unicode", analyzer="char").fit(["t", "T\u2122"])
d = ["x\u2122"]
assert convert_estimator(e).transform(d).todense() == e.transform(d).toarray().tolist()
""")
seed("c10-decode-lenient", "C10",
     [("pure_sklearn/feature_extraction/text.py", "            doc = doc.decode(self.encoding, self.decode_error)\n",
       "            doc = doc.decode(\"utf-8\", self.decode_error)\n")],
     "bytes in an encoding other than utf-8", "bytes are decoded with the wrong encoding", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
e = CountVectorizer(encoding="latin-1", decode_error="ignore").fit([u"caf\u00e9 noir"])
d = [u"caf\u00e9".encode("latin-1")]
assert convert_estimator(e).transform(d).todense() == e.transform(d).toarray().tolist()
""")
seed("c10-stop-after-grams", "C10",
     [("pure_sklearn/feature_extraction/text.py", "            tokens = [w for w in tokens if w not in stop_words]\n",
       "            tokens = [w for w in tokens if w.lower() not in stop_words]\n")],
     "stop words with lowercase=False and a capitalised stop word in the text", "a term that is no stop word is dropped", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
e = CountVectorizer(stop_words=["the"], lowercase=False).fit(["The cat the dog"])
d = ["The cat the dog"]
assert convert_estimator(e).transform(d).todense() == e.transform(d).toarray().tolist()
""")

# ---------------------------------------------------------------- C11
seed("c11-sublinear-fraction", "C11",
     [("pure_sklearn/feature_extraction/text.py", "            for index in range(len(X)):\n                for k, v in X[index].items():\n                    X[index][k] = safe_log(v) + 1\n\n        if self.use_idf:",
       "            for row in X:\n                for k in row:\n                    row[k] = max(safe_log(row[k]), 0.0) + 1\n\n        if self.use_idf:")],
     "sublinear weighting of a count below one", "fractional counts weigh as one", COMMON + """
from sklearn.feature_extraction.text import TfidfTransformer
import scipy.sparse as sp
e = TfidfTransformer(sublinear_tf=True, norm=None, use_idf=False).fit(sp.csr_matrix(np.eye(2)))
assert abs(convert_estimator(e).transform([[0.5, 0.0]]).todense()[0][0] - (1 + np.log(0.5))) < 1e-12
""")
seed("c11-binary-late", "C11",
     [("pure_sklearn/feature_extraction/text.py", "        X = super().transform(raw_documents)\n        return self._tfidf.transform(X, copy=False)\n",
       "        X = self._count_vocab(raw_documents)[1]\n        X = self._tfidf.transform(X, copy=False)\n        return apply_2d_sparse(X, lambda v: min(v, 1)) if self.binary else X\n")],
     "binary=True, a repeated term", "weights are computed from full counts", COMMON + """
from sklearn.feature_extraction.text import TfidfVectorizer
e = TfidfVectorizer(binary=True).fit(["aa bb", "aa cc"])
d = ["aa aa bb", "cc"]
assert np.allclose(convert_estimator(e).transform(d).todense(), e.transform(d).toarray())
""")

# ---------------------------------------------------------------- C12
seed("c12-cancelled", "C12",
     [("pure_sklearn/feature_extraction/_hash.py", "        X.append(row)\n", "        X.append({k: v for k, v in row.items() if v != 0})\n")],
     "two terms with opposite signs in one bucket, and binary mode", "a touched bucket is left at zero", COMMON + """
from sklearn.feature_extraction.text import HashingVectorizer
e = HashingVectorizer(n_features=2, binary=True, norm=None)
d = [" ".join("w%d w%d" % (i, j) for i, j in [(a, b)]) for a in range(12) for b in range(a)]
assert convert_estimator(e).transform(d).todense() == e.transform(d).toarray().tolist()
""")
seed("c12-surrogate-tail", "C12",
     [("pure_sklearn/feature_extraction/_hash.py", "    if tail_size >= 3:\n        k1 ^= key[tail_index + 2] << 16\n",
       "    if tail_size >= 3 and key[tail_index + 2] < 0x80:\n        k1 ^= key[tail_index + 2] << 16\n")],
     "a term of 4n+3 bytes that ends in a character outside ASCII", "a wrong bucket", COMMON + """
from sklearn.feature_extraction.text import HashingVectorizer
e = HashingVectorizer(n_features=1000, norm=None)
d = [u"x\u00e9", u"caf\u00e9ol\u00e9", u"a\u4e2d\u6587"]
assert convert_estimator(e).transform(d).todense() == e.transform(d).toarray().tolist()
""")

# ---------------------------------------------------------------- C13
seed("c13-bool", "C13",
     [("pure_sklearn/feature_extraction/_dict_vectorizer.py", "                if isinstance(v, str):\n", "                if isinstance(v, (str, bool)):\n")],
     "a truth value", "truth values are not taken as numbers", COMMON + """
from sklearn.feature_extraction import DictVectorizer
e = DictVectorizer(sparse=False).fit([{"a": True, "b": 2}])
assert convert_estimator(e).transform([{"a": True, "b": 1}]) == [[1.0, 1.0]]
""")
# ---------------------------------------------------------------- C14
seed("c14-offers-log", "C14",
     [("pure_sklearn/pipeline.py", "    @_if_delegate_has_method(delegate=\"_final_estimator\")\n    def predict_log_proba(self, X):\n", "    def predict_log_proba(self, X):\n")],
     "asking whether a pipeline without probabilities offers predict_log_proba", "it claims to", COMMON + """
from sklearn.pipeline import make_pipeline
from sklearn.linear_model import RidgeClassifier
from sklearn.preprocessing import StandardScaler
e = convert_estimator(make_pipeline(StandardScaler(), RidgeClassifier()).fit(np.eye(3), [0, 1, 0]))
assert not hasattr(e, "predict_log_proba")
""")
# ---------------------------------------------------------------- C15
seed("c15-width-from-data", "C15",
     [("pure_sklearn/pipeline.py", "            sizes = [x.size for x in Xs]\n",
       "            sizes = [x.size for x in Xs[:-1]] + [\n                1 + max(max(row, default=0) for row in Xs[-1])\n            ]\n")],
     "a batch whose last columns are all zero", "the matrix is narrower than the union", COMMON + """
from sklearn.pipeline import FeatureUnion
from sklearn.feature_extraction.text import CountVectorizer
e = FeatureUnion([("a", CountVectorizer()), ("b", CountVectorizer())]).fit(["aa bb cc"])
assert convert_estimator(e).transform(["aa"]).size == 6
""")
seed("c15-weight-int", "C15",
     [("pure_sklearn/pipeline.py", "                    self.transformer_weights[k] = float(v)\n",
       "                    if any(k == name for name, _ in estimator.transformer_list):\n                        self.transformer_weights[k] = abs(float(v))\n")],
     "a negative transformer weight", "the weight loses its sign", COMMON + """
from sklearn.pipeline import FeatureUnion
from sklearn.preprocessing import MaxAbsScaler
e = FeatureUnion([("a", MaxAbsScaler())], transformer_weights={"a": -2.0}).fit(np.array([[4.0]]))
assert convert_estimator(e).transform([[4.0]]) == [[-2.0]]
""")

# ---------------------------------------------------------------- C16, C17
FTM = """
import os, sys, tempfile
import fasttext
def train(lines, **kw):
    d = tempfile.mkdtemp()
    p = os.path.join(d, "t.txt")
    open(p, "w").write("".join(l + "\\n" for l in lines))
    try:
        if kw.pop("sup", True):
            return fasttext.train_supervised(p, thread=1, verbose=0, minCount=1, maxn=0, **kw)
        return fasttext.train_unsupervised(p, thread=1, verbose=0, minCount=1, maxn=0, minn=0, **kw)
    finally:
        os.remove(p); os.rmdir(d)
from pure_fasttext import *
import pure_fasttext
from pure_fasttext.FastText import _FastText
"""
seed("c16-overflow", "C16",
     [("pure_fasttext/FastText.py", "    expons = list(map(lambda x: exp(x - max(arr)), arr))\n", "    expons = list(map(exp, arr))\n")],
     "scores beyond the range of the exponential function", "an overflow, or zero divided by zero",
     """
from pure_fasttext.FastText import sfmax
assert sfmax([800.0, 0.0])[0] == 1.0
assert abs(sfmax([-1000.0, -1000.0])[0] - 0.5) < 1e-12
""")
# ---------------------------------------------------------------- C18
seed("c18-equal-matrix", "C18",
     [("pure_sklearn/metrics/pairwise.py", "    if X is Y or Y is None:\n        S = _set_diag(S)\n", "    if Y is None or X == Y:\n        S = _set_diag(S)\n")],
     "two different matrices with equal contents, a zero row among them", "the distance of a zero row to a zero row becomes 0 instead of 1",
     """
from pure_sklearn.metrics.pairwise import cosine_distances_pure
assert cosine_distances_pure([[0.0, 0.0]], [[0.0, 0.0]]) == [[1.0]]
""")
seed("c18-short-right", "C18",
     [("pure_sklearn/metrics/pairwise.py", "    if shape(X)[1] != shape(Y)[1]:\n", "    if shape(X)[1] > shape(Y)[1]:\n")],
     "a right matrix wider than the left one", "answered instead of refused",
     """
from pure_sklearn.metrics.pairwise import linear_kernel_pure
try:
    linear_kernel_pure([[1.0]], [[1.0, 2.0]])
except ValueError:
    pass
else:
    raise SystemExit("answered")
""")

# ---------------------------------------------------------------- C19
seed("c19-entry-order", "C19",
     [("pure_sklearn/preprocessing/_data.py", "            X_ = [{k: (v / self.scale_[k]) for k, v in x.items()} for x in X]\n            X = sparse_list(X_, size=X.size, dtype=X.dtype)\n        else:\n            X = [[x[i] / self.scale_[i] for i in range(len(self.scale_))] for x in X]\n",
       "            X_ = [\n                dict(zip(x, [x[k] / self.scale_[k] for k in sorted(x)])) for x in X\n            ]\n            X = sparse_list(X_, size=X.size, dtype=X.dtype)\n        else:\n            X = [[x[i] / self.scale_[i] for i in range(len(self.scale_))] for x in X]\n")],
     "sparse entries stored in another order than the columns", "values land in each other's columns", COMMON + """
from sklearn.preprocessing import MaxAbsScaler
e = convert_estimator(MaxAbsScaler().fit(np.array([[1.0, 2.0]])))
assert e.transform(sparse_list([{1: 2.0, 0: 3.0}], size=2, dtype=float)).todense() == [[3.0, 1.0]]
""")
seed("c19-nb-sparse", "C19",
     [("pure_sklearn/naive_bayes.py", "        X = check_array(X, handle_sparse=\"error\")\n        jll = self._joint_log_likelihood(X)\n        return [_normalize_log(a) for a in jll]\n",
       "        X = check_array(X, handle_sparse=\"allow\")\n        jll = self._joint_log_likelihood(X)\n        return [_normalize_log(a) for a in jll]\n")],
     "sparse input for the probabilities of a Gaussian naive Bayes model", "an answer computed from the stored entries alone, or an obscure error", COMMON + """
from sklearn.naive_bayes import GaussianNB
e = convert_estimator(GaussianNB().fit(np.array([[1., 2.], [2., 1.], [0., 5.]]), [0, 1, 0]))
try:
    e.predict_proba(sparse_list([{0: 1.0, 1: 2.0}], size=2, dtype=float))
except Exception:
    pass
else:
    raise SystemExit("answered")
""")

# ---------------------------------------------------------------- C20
seed("c20-softmax-negative", "C20",
     [("pure_sklearn/base.py", "        out = list(map(lambda x: x / float(sum(expons)), expons))\n",
       "        total = float(sum(safe_exp(v) for v in arr)) or 1.0\n        out = [safe_exp(v) / total for v in arr] if max_val < 0 else [x / float(sum(expons)) for x in expons]\n")],
     "softmax of numbers that are all far below zero", "all zeros", """
from pure_sklearn.base import sfmax
assert abs(sum(sfmax([-900.0, -901.0])) - 1) < 1e-12
""")
seed("c20-truth-zero", "C20",
     [("pure_sklearn/utils.py", "            A_dense.append([row.get(i, zero_val) for i in range(self.size)])\n",
       "            A_dense.append([self.dtype(row.get(i, zero_val)) for i in range(self.size)])\n")],
     "a sparse matrix whose first entry is an integer and others are not", "fractions are cut off on the way back", """
from pure_sklearn.utils import sparse_list
assert sparse_list([[0, 1.5], [2.5, 0]]).todense() == [[0, 1.5], [2.5, 0]]
""")
seed("c20-mult-cross", "C20",
     [("pure_sklearn/base.py", "            X.append(dict([item for sublist in nested_res for item in sublist]))\n",
       "            X.append(dict([item for sublist in nested_res for item in sublist if item[1] > 0]))\n")],
     "elementwise product of sparse matrices with entries of opposite signs", "negative products vanish", """
from pure_sklearn.base import matmult_same_dim
from pure_sklearn.utils import sparse_list
A = sparse_list([{0: 2.0}], size=1, dtype=float); B = sparse_list([{0: -3.0}], size=1, dtype=float)
assert matmult_same_dim(A, B).todense() == [[-6.0]]
""")

# ---------------------------------------------------------------- C23
# ---------------------------------------------------------------- C25
seed("c25-objective-family", "C25",
     [("pure_sklearn/xgboost/_classes.py", "            estimator.objective not in SUPPORTED_OBJ\n", "            estimator.objective.partition(\":\")[0] not in [o.partition(\":\")[0] for o in SUPPORTED_OBJ]\n"),
      ("pure_sklearn/xgboost/_classes.py", "        elif self.objective == \"binary:logistic\":\n", "        elif self.objective.startswith(\"binary:\"):\n")],
     "an xgboost model with objective='binary:hinge' or 'binary:logitraw'", "its margins are passed through the logistic function", COMMON + """
from xgboost import XGBClassifier
X = np.array([[0.], [1.], [2.], [3.]] * 5); y = [0, 0, 1, 1] * 5
e = XGBClassifier(booster="gbtree", n_estimators=2, objective="binary:hinge").fit(X, y)
try:
    p = convert_estimator(e).predict_proba([[0.0], [3.0]])
except Exception:
    pass
else:
    raise SystemExit("answered")
""")

# ---------------------------------------------------------------- C26
seed("c26-categories-live", "C26",
     [("pure_sklearn/feature_extraction/text.py", "        self.vocabulary_ = {k: int(v) for k, v in estimator.vocabulary_.items()}\n",
       "        self.vocabulary_ = (\n            estimator.vocabulary_\n            if all(type(v) is int for v in estimator.vocabulary_.values())\n            else {k: int(v) for k, v in estimator.vocabulary_.items()}\n        )\n")],
     "a vocabulary of plain integers, and a source that changes afterwards", "the converted object shares the vocabulary", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
e = CountVectorizer(vocabulary={"aa": 0, "bb": 1})
e.fit(["aa bb"])
p = convert_estimator(e)
e.vocabulary_["aa"] = 1
assert p.transform(["aa"]).todense() == [[1, 0]]
""")

# ---------------------------------------------------------------- C27
seed("c27-sparse-width", "C27",
     [("pure_sklearn/linear_model/_base.py", "        if shape(X)[1] != n_features:\n", "        if not isinstance(X[0], dict) and shape(X)[1] != n_features:\n")],
     "sparse input of another width", "answered from the first columns", COMMON + """
from sklearn.linear_model import RidgeClassifier
e = convert_estimator(RidgeClassifier().fit(np.array([[1., 5.], [0., 2.], [3., 1.]]), [0, 1, 0]))
try:
    e.predict(sparse_list([{0: 1.0}], size=3, dtype=float))
except ValueError:
    pass
else:
    raise SystemExit("answered")
""")
seed("c27-lenient-after-failure", "C27",
     [("pure_sklearn/feature_extraction/text.py", "            doc = doc.decode(self.encoding, self.decode_error)\n",
       "            try:\n                doc = doc.decode(self.encoding, self.decode_error)\n            except UnicodeDecodeError:\n                self.decode_error = \"replace\"\n                raise\n")],
     "bytes that cannot be decoded, twice", "the second call is answered although the first was refused", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
e = convert_estimator(CountVectorizer().fit(["aa bb"]))
for i in range(2):
    try:
        e.transform([b"aa \\xff\\xfe"])
    except UnicodeDecodeError:
        continue
    raise SystemExit("answered")
""")
seed("c27-multiline-list", "C27",
     [("pure_fasttext/FastText.py", "                labels, probs = self._predict(text_, k, threshold)\n",
       "                labels, probs = self._predict(text_.replace(\"\\n\", \" \"), k, threshold)\n")],
     "a list of texts in which one has two lines", "answered as one line",
     FTM + """
m = train(["__label__a xx yy", "__label__b xx zz"], dim=3, epoch=1)
f = _FastText(m)
try:
    f.predict(["xx", "yy\\nzz"])
except ValueError:
    pass
else:
    raise SystemExit("answered")
""")

# ---------------------------------------------------------------- C28
seed("c28-tiny-ovr", "C28",
     [("pure_sklearn/linear_model/_base.py", "                list(map(lambda b: (b / sum(a)) if sum(a) != 0 else float(\"NaN\"), a))\n",
       "                list(map(lambda b: (b / sum(a)) if sum(a) > 1e-290 else float(\"NaN\"), a))\n")],
     "a one-vs-rest model whose sigmoids are all tiny but not zero", "not a number instead of probabilities", COMMON + """
from sklearn.linear_model import LogisticRegression
e = LogisticRegression(multi_class="ovr").fit(np.eye(3), [0, 1, 2])
e.coef_ = np.zeros((3, 3)); e.intercept_ = np.array([-690.0, -691.0, -692.0])
p = convert_estimator(e).predict_proba([[0.0, 0.0, 0.0]])[0]
assert abs(sum(p) - 1) < 1e-9, p
""")

seed("c01-label-from-proba", "C01",
     [("pure_sklearn/linear_model/_base.py", "            indices = map(lambda x: int(x > 0), scores)\n", "            indices = map(lambda x: int(expit(x) > 0.5), scores)\n")],
     "a score above zero by less than 1e-16", "the negative class", COMMON + """
from sklearn.linear_model import RidgeClassifier
e = RidgeClassifier().fit(np.array([[0.], [1.]]), [0, 1])
e.coef_ = np.array([[1.0]]); e.intercept_ = np.array([0.0])
assert convert_estimator(e).predict([[1e-20]]) == [1]
""")
seed("c13-empty-string", "C13",
     [("pure_sklearn/feature_extraction/_dict_vectorizer.py", "                if isinstance(v, str):\n", "                if isinstance(v, str) and v:\n")],
     "an empty string as a value", "the column of 'key=' stays zero", COMMON + """
from sklearn.feature_extraction import DictVectorizer
e = DictVectorizer(sparse=False).fit([{"a": ""}, {"a": "x"}])
assert convert_estimator(e).transform([{"a": ""}]) == [[1.0, 0.0]]
""")
seed("c14-final-transform", "C14",
     [("pure_sklearn/pipeline.py", "        for _, _, transform in self._iter():\n", "        for transform in {\n            (type(t), str(vars(t))): t for _, _, t in self._iter()\n        }.values():\n")],
     "the same transformation twice in one pipeline", "the second one is skipped", COMMON + """
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import MaxAbsScaler
X = np.array([[2.0], [4.0]])
s = MaxAbsScaler().fit(X)
p = Pipeline([("a", s), ("b", s)])
assert convert_estimator(p).transform([[16.0]]) == [[1.0]]
""")
seed("c16-mispaired", "C16",
     [("pure_fasttext/FastText.py", "        pred_scores = [preds[i] for i in argsorted[:k]]\n",
       "        pred_scores = sorted((round(p, 6) for p in preds), reverse=True)[: len(pred_labels)]\n")],
     "probabilities compared beyond six digits", "probabilities are rounded", FTM + """
m = train(["__label__a xx yy", "__label__b xx zz", "__label__c yy zz", "__label__d ww"], dim=3, epoch=1, lr=0.001)
f = _FastText(m)
l, p = f.predict("xx yy zz", k=4)
assert abs(sum(p) - 1) < 1e-9 and any(abs(v - round(v, 6)) > 1e-12 for v in p), p
""")
seed("c23-blocks", "C23",
     [("pure_sklearn/preprocessing/_data.py", "            [(x[i] * self.scale_[i]) + self.min_[i] for i in range(len(self.scale_))]\n            for x in X\n",
       "            [(x[i] * self.scale_[i]) + self.min_[i] for i in range(len(self.scale_))]\n            for start in range(0, len(X), 512)\n            for x in X[start : start + 511]\n"),
      ("pure_sklearn/preprocessing/_data.py", "            self.min_ = estimator.min_.tolist()\n", "            self.min_ = list(map(float, estimator.min_))\n")],
     "a batch of 512 rows or more", "one row in 512 is lost", COMMON + """
from sklearn.preprocessing import MinMaxScaler
e = convert_estimator(MinMaxScaler().fit(np.array([[0.], [1.]])))
assert len(e.transform([[0.0]] * 1300)) == 1300
""")
seed("c28-log-floor", "C28",
     [("pure_sklearn/ensemble/_gb.py", "        return apply_2d(self.predict_proba(X), safe_log)\n", "        return apply_2d(self.predict_proba(X), lambda p: safe_log(max(p, 1e-300)))\n")],
     "a class whose probability underflows to zero", "a finite logarithm of zero", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
e = GradientBoostingClassifier(n_estimators=1, learning_rate=1000.0).fit(np.array([[0.], [1.], [2.]] * 4), [0, 1, 2] * 4)
p = convert_estimator(e)
for a, b in zip(p.predict_proba([[0.0]])[0], p.predict_log_proba([[0.0]])[0]):
    assert a or b == -float("inf"), (a, b)
""")
