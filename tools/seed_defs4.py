"""Planted changes, fourth batch: further conditions, states and sizes."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


COMMON = """
import numpy as np
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list
"""
TEXT = "pure_sklearn/feature_extraction/text.py"

# ---------------------------------------------------------------- C01
seed("c01-sparse-int", "C01",
     [("pure_sklearn/base.py", "            val = sum([v * B[i][k] for k, v in A.items()])\n",
       "            val = sum([v * B[i][k] for k, v in A.items() if abs(v) < 1e15])\n")],
     "a sparse row with an entry of 1e15 or more", "the entry is left out of the score", COMMON + """
from sklearn.linear_model import RidgeClassifier
e = RidgeClassifier().fit(np.array([[0., 1], [1, 0], [2, 2]]), [0, 1, 1])
x = [[1e16, 1.0]]
p = convert_estimator(e)
assert np.allclose(p.decision_function(sparse_list(x)), p.decision_function(x))
""")

# ---------------------------------------------------------------- C02
seed("c02-walk-limit", "C02",
     [("pure_sklearn/tree/_classes.py", "        while not found_node:\n", "        for _ in range(64):\n")],
     "a tree deeper than 64 levels", "the walk stops half way down", COMMON + """
from sklearn.tree import DecisionTreeRegressor
n = 300
X = np.arange(float(n)).reshape(-1, 1); y = 4.0 ** np.arange(n)
e = DecisionTreeRegressor().fit(X, np.minimum(y, 1e150))
assert e.get_depth() > 70, e.get_depth()
assert convert_estimator(e).predict(X.tolist()) == e.predict(X).tolist()
""")
# ---------------------------------------------------------------- C03
seed("c03-repeated-features", "C03",
     [("pure_sklearn/ensemble/_bagging.py", "        X_ = [{p: a[i] for p, i in enumerate(feats) if i in a} for a in X]\n",
       "        place = {i: p for p, i in enumerate(feats)}\n        X_ = [{place[i]: v for i, v in a.items() if i in place} for a in X]\n"),
      ("pure_sklearn/ensemble/_bagging.py", "        return [[a[i] for i in feats] for a in X]\n", "        return [[row[i] for i in feats] for row in X]\n")],
     "bagging with repeated features (bootstrap_features=True) and sparse rows", "the first copy of a repeated feature reads zero", COMMON + """
from sklearn.ensemble import BaggingClassifier
from sklearn.linear_model import LogisticRegression
rng = np.random.RandomState(0); X = rng.randn(60, 3); y = (X.sum(1) > 0).astype(int)
e = BaggingClassifier(LogisticRegression(), n_estimators=12, bootstrap_features=True, random_state=0).fit(X, y)
p = convert_estimator(e); x = X[:5].tolist()
assert np.allclose(p.predict_proba(sparse_list(x)), e.predict_proba(X[:5]))
""")
# ---------------------------------------------------------------- C04
seed("c04-add-in-place", "C04",
     [("pure_sklearn/ensemble/_gb.py", "        return operate_2d(init_preds, out, add)\n",
       "        for row, step in zip(init_preds, out):\n            for k in range(len(row)):\n                row[k] += step[k]\n        return init_preds\n")],
     "init='zero' and a batch of several rows", "every row is answered with the sum of all rows", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
X = np.arange(12.).reshape(6, 2); e = GradientBoostingClassifier(init="zero", n_estimators=2, max_depth=1, random_state=0).fit(X, [0, 0, 1, 1, 0, 1])
assert np.allclose(convert_estimator(e).predict_proba(X.tolist()), e.predict_proba(X))
""")
seed("c04-stop-at-flat-stage", "C04",
     [("pure_sklearn/ensemble/_gb.py", "                preds = self.estimators_[index][k].predict(X)\n",
       "                stage = self.estimators_[index]\n                preds = stage[k].predict(X)\n                if not any(preds):\n                    break\n")],
     "a stage whose tree gives zero to every row of the batch, followed by one that does not", "the later stages are left out", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
X = np.arange(12.).reshape(6, 2); e = GradientBoostingClassifier(n_estimators=3, max_depth=1, random_state=0).fit(X, [0, 0, 1, 1, 0, 1])
e.estimators_[1, 0].tree_.value[:] = 0.0
assert np.allclose(convert_estimator(e).predict_proba(X.tolist()), e.predict_proba(X))
""")

# ---------------------------------------------------------------- C05
seed("c05-zero-is-missing", "C05",
     [("pure_sklearn/tree/_classes.py", "            left_equal = lambda nd: x[self.feature_[nd]]\n",
       "            left_equal = lambda nd: x[self.feature_[nd]] if x[self.feature_[nd]] is not None else float(\"nan\")\n"),
      ("pure_sklearn/xgboost/_classes.py", "                preds = list(map(lambda x, y: x + y, cls_sum, est_preds))\n", "") ][:1] +
     [("pure_sklearn/xgboost/_classes.py", "            out = list(map(lambda x: [1 - x, x], out))\n",
       "            out = list(map(lambda x: [1 - x, x] if x > 1e-12 else [1.0, 0.0], out))\n")],
     "a binary booster with a margin below about -27", "the probability is zero instead of tiny", COMMON + """
import xgboost as xg
X = np.array([[0.], [1.], [2.], [3.]] * 5); y = np.array([0, 0, 1, 1] * 5)
e = xg.XGBClassifier(n_estimators=60, max_depth=1, learning_rate=1.0, reg_lambda=0, min_child_weight=0, booster="gbtree", verbosity=0).fit(X, y)
e = xg.XGBClassifier(n_estimators=400, max_depth=1, learning_rate=1.0, reg_lambda=0, min_child_weight=0, booster="gbtree", verbosity=0).fit(X, y)
P = e.predict_proba(X); q = np.array(convert_estimator(e).predict_proba(X.tolist()))
assert P[0, 1] > 0
if P[0, 1] >= 1e-12:
    e = None
    from pure_sklearn.xgboost import XGBClassifierPure
    import math
    p = XGBClassifierPure.__new__(XGBClassifierPure)
    p.objective, p.classes_, p.n_classes_, p.missing_, p.base_margin_, p.estimators_, p.n_estimators = "binary:logistic", [0, 1], 2, float("nan"), -40.0, [], 0
    assert p.predict_proba([[0.0]])[0][1] > 0
else:
    assert np.allclose(q[:, 1], P[:, 1], rtol=1e-4, atol=0)
""")
seed("c05-sum-per-class-short", "C05",
     [("pure_sklearn/xgboost/_classes.py", "        for cls_index in range(self.n_classes_):\n            cls_sum = [0] * len(X)\n",
       "        for cls_index in range(self.n_classes_):\n            cls_sum = [preds[-1][0] * 0 if preds else 0] * len(X)\n            if cls_index == 10:\n                cls_sum = list(preds[1])\n")],
     "a booster with more than ten classes", "the eleventh class starts from the sum of the second", COMMON + """
import xgboost as xg
rng = np.random.RandomState(0); X = rng.randint(-8, 8, (66, 2)) / 4.0; y = np.arange(66) % 11
e = xg.XGBClassifier(n_estimators=3, max_depth=2, booster="gbtree", verbosity=0).fit(X, y)
assert np.allclose(convert_estimator(e).predict_proba(X.tolist()), e.predict_proba(X), atol=1e-5)
""")

# ---------------------------------------------------------------- C06
seed("c06-zero-prior", "C06",
     [("pure_sklearn/naive_bayes.py", "            jointi = safe_log(self.class_prior_[i])\n", "            jointi = safe_log(max(self.class_prior_[i], 1e-300))\n")],
     "a Gaussian model with a class prior of zero and a row that only that class explains", "the impossible class gets probability", COMMON + """
from sklearn.naive_bayes import GaussianNB
X = np.array([[0.], [0.1], [50.], [50.1]])
e = GaussianNB(priors=[1.0, 0.0]).fit(X, [0, 0, 1, 1])
with np.errstate(all="ignore"):
    assert np.allclose(convert_estimator(e).predict_proba([[50.0]]), e.predict_proba([[50.0]]))
""")
seed("c06-complement-prior", "C06",
     [("pure_sklearn/naive_bayes.py", "        if len(self.classes_) == 1:\n", "        if len(self.classes_) <= 2 and len(set(self.class_log_prior_)) > 1:\n")],
     "a two-class complement naive Bayes with unequal priors", "the prior of the first class replaces the second score", COMMON + """
from sklearn.naive_bayes import ComplementNB
X = np.array([[1, 0, 2], [0, 3, 1], [1, 1, 1]]); e = ComplementNB().fit(X, [0, 1, 1])
assert np.allclose(convert_estimator(e).predict_proba(X.tolist()), e.predict_proba(X))
""")

# ---------------------------------------------------------------- C07
seed("c07-constant-column", "C07",
     [("pure_sklearn/preprocessing/_data.py", "                X = [[x[i] - self.mean_[i] for i in range(len(self.mean_))] for x in X]\n",
       "                unit = self.scale_ or [0.0] * len(self.mean_)\n                X = [\n                    [x[i] - (0 if unit[i] == 1.0 else self.mean_[i]) for i in range(len(self.mean_))]\n                    for x in X\n                ]\n")],
     "a column that was constant when the scaler was fitted", "its mean is not subtracted", COMMON + """
from sklearn.preprocessing import StandardScaler
X = np.array([[1., 5.], [2., 5.], [4., 5.]]); e = StandardScaler().fit(X)
assert np.allclose(convert_estimator(e).transform([[1.0, 5.0], [0.0, 7.0]]), e.transform([[1.0, 5.0], [0.0, 7.0]]))
""")
seed("c07-max-negative", "C07",
     [("pure_sklearn/preprocessing/_data.py", "            norms = apply_axis_2d(apply_2d(X, abs), max, axis=1)\n", "            norms = apply_axis_2d(X, lambda a: max(max(a), -min(a[:64])), axis=1)\n")],
     "a row of more than 64 columns whose largest value in absolute terms is negative and beyond column 64", "the row is divided by another value", COMMON + """
from sklearn.preprocessing import Normalizer
x = [[1.0] * 70 + [-4.0]]
e = Normalizer("max").fit(x)
assert np.allclose(convert_estimator(e).transform(x), e.transform(x))
""")

# ---------------------------------------------------------------- C08
seed("c08-sorted-table", "C08",
     [("pure_sklearn/preprocessing/_label.py", "        table = {val: i for i, val in enumerate(uniques)}\n", "        table = {val: i for i, val in enumerate(sorted(uniques))}\n")],
     "categories given in an order that is not sorted", "codes and columns follow the sorted order", COMMON + """
from sklearn.preprocessing import OrdinalEncoder
X = np.array([["low"], ["high"], ["mid"]], dtype=object)
e = OrdinalEncoder(categories=[["low", "mid", "high"]]).fit(X)
assert convert_estimator(e).transform(X.tolist()) == e.transform(X).tolist()
""")
seed("c08-all-unknown-row", "C08",
     [("pure_sklearn/preprocessing/_encoders.py", "                    if X_mask[j][i]\n", "                    if X_mask[j][i] or not any(X_mask[j])\n")],
     "handle_unknown='ignore' and a row in which every feature is unknown", "the first category of every feature is set", COMMON + """
from sklearn.preprocessing import OneHotEncoder
X = np.array([["a", "x"], ["b", "y"]], dtype=object)
e = OneHotEncoder(handle_unknown="ignore", sparse=False).fit(X)
assert convert_estimator(e).transform([["q", "q"], ["a", "q"]]) == [[0, 0, 0, 0], [1, 0, 0, 0]]
""")

# ---------------------------------------------------------------- C09
seed("c09-nothing-missing", "C09",
     [("pure_sklearn/impute/_base.py", "            if len(self.features_) < self._n_features:\n", "            if 0 < len(self.features_) < self._n_features:\n")],
     "an indicator fitted on data without any missing value", "the mask of every column is returned", COMMON + """
from sklearn.impute import SimpleImputer
X = np.array([[1., 2.], [3., 4.]]); e = SimpleImputer(add_indicator=True).fit(X)
x = [[float("nan"), 2.0]]
assert convert_estimator(e).transform(x) == e.transform(x).tolist()
""")
seed("c09-int-marker", "C09",
     [("pure_sklearn/impute/_base.py", "        return val == missing_values\n", "        return val == missing_values and type(val) == type(missing_values)\n")],
     "an integer marker and a float entry equal to it", "the entry is not imputed", COMMON + """
from sklearn.impute import SimpleImputer
X = np.array([[1., 2.], [3., 4.], [0., 1.]]); e = SimpleImputer(missing_values=0).fit(X)
x = [[0.0, 2.0]]
assert convert_estimator(e).transform(x) == e.transform(x).tolist()
""")

# ---------------------------------------------------------------- C10
seed("c10-casefold", "C10",
     [(TEXT, "        doc = doc.lower()\n", "        doc = doc.casefold()\n")],
     "a document with a letter whose case folding is not its lower case (sharp s)", "another term is counted", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
d = ["straße fuß", "strasse"]
e = CountVectorizer().fit(d)
assert convert_estimator(e).transform(d).todense() == e.transform(d).toarray().tolist()
""")
seed("c10-mark-category", "C10",
     [(TEXT, "        return \"\".join([c for c in normalized if not unicodedata.combining(c)])\n",
       "        return \"\".join([c for c in normalized if unicodedata.category(c) != \"Mn\"])\n")],
     "strip_accents='unicode' and a mark of combining class zero (Devanagari vowel signs)", "the mark is dropped", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
d = ["\\u0915\\u0941 \\u0915", "a"]
e = CountVectorizer(analyzer="char", strip_accents="unicode").fit(d)
assert convert_estimator(e).transform(d).todense() == e.transform(d).toarray().tolist()
""")
seed("c10-stop-any-case", "C10",
     [(TEXT, "            tokens = [w for w in tokens if w not in stop_words]\n", "            tokens = [w for w in tokens if w.lower() not in stop_words]\n")],
     "lowercase=False, stop words and a capitalised one in a document", "the capitalised word is dropped too", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
d = ["The cat", "the dog The"]
e = CountVectorizer(lowercase=False, stop_words=["the"]).fit(d)
assert convert_estimator(e).transform(d).todense() == e.transform(d).toarray().tolist()
""")
seed("c10-one-shot", "C10",
     [(TEXT, "        data = []\n        for doc in raw_documents:\n            feature_counter = {}\n", "        if not any(raw_documents):\n            return vocabulary, sparse_list([{} for _ in raw_documents], size=len(vocabulary), dtype=self.dtype)\n        data = list()\n        for doc in raw_documents:\n            feature_counter = dict()\n")],
     "the documents given as an iterator", "the documents up to the first with text are lost", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
d = ["red cat", "blue dog"]
e = CountVectorizer().fit(d)
assert convert_estimator(e).transform(iter(d)).todense() == e.transform(iter(d)).toarray().tolist()
""")
seed("c10-wb-tab", "C10",
     [(TEXT, "        for w in text_document.split():\n", "        for w in text_document.split(\" \"):\n")],
     "char_wb and words separated by a single tab or newline", "n-grams run across the separator", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
d = ["ab\\tcd", "ab cd"]
e = CountVectorizer(analyzer="char_wb", ngram_range=(2, 3)).fit(d)
assert convert_estimator(e).transform(d).todense() == e.transform(d).toarray().tolist()
""")

# ---------------------------------------------------------------- C11
seed("c11-count-cap", "C11",
     [(TEXT, "                    X[index][k] = v * self.idf_[k]\n", "                    X[index][k] = min(v, 255) * self.idf_[k]\n")],
     "a term that occurs more than 255 times", "the count stops at 255", COMMON + """
from sklearn.feature_extraction.text import TfidfVectorizer
e = TfidfVectorizer().fit(["red cat", "blue dog"])
d = ["red " * 400 + "cat"]
assert np.allclose(convert_estimator(e).transform(d).todense(), e.transform(d).toarray())
""")
seed("c11-single-term", "C11",
     [(TEXT, "        if self.norm:\n", "        if self.norm and any(len(x) > 1 for x in X):\n")],
     "a batch in which every document has at most one known term", "the rows are not normalised", COMMON + """
from sklearn.feature_extraction.text import TfidfVectorizer
e = TfidfVectorizer().fit(["red cat", "blue dog", "red dog"])
d = ["red red", "zzz"]
assert np.allclose(convert_estimator(e).transform(d).todense(), e.transform(d).toarray())
""")
seed("c11-sublinear-one", "C11",
     [(TEXT, "        if self.use_idf:\n            if n_features", "        if self.sublinear_tf and not self.use_idf and self.norm is None:\n            X = apply_2d_sparse(X, lambda v: max(v, 1))\n\n        if self.use_idf:\n            if n_features")],
     "sublinear weights without idf or norm, and a count between zero and one", "the weight is raised to one", COMMON + """
from sklearn.feature_extraction.text import TfidfTransformer
e = TfidfTransformer(norm=None, use_idf=False, sublinear_tf=True).fit(np.eye(2))
x = [[0.5, 2.0]]
assert np.allclose(convert_estimator(e).transform(x).todense(), e.transform(x).toarray())
""")

# ---------------------------------------------------------------- C12
seed("c12-long-term", "C12",
     [("pure_sklearn/feature_extraction/_hash.py", "    key = bytearray(_xencode(key))\n", "    key = bytearray(_xencode(key))[:255]\n")],
     "a term of more than 255 bytes", "only its beginning is hashed", COMMON + """
from sklearn.feature_extraction.text import HashingVectorizer
e = HashingVectorizer(n_features=64)
d = ["ab" * 200 + " red"]
assert np.allclose(convert_estimator(e).transform(d).todense(), e.transform(d).toarray())
""")
seed("c12-seen-term", "C12",
     [("pure_sklearn/feature_extraction/_hash.py", "            row[index] = row.get(index, 0) + value\n", "            row[index] = value if row.get(index) == -value else row.get(index, 0) + value\n")],
     "two terms of opposite sign in one bucket that cancel", "the second replaces the first", COMMON + """
from sklearn.feature_extraction.text import HashingVectorizer
e = HashingVectorizer(n_features=1, norm=None)
d = ["aa bb cc dd ee ff gg", "aa bb", "aa cc", "aa dd", "bb cc", "bb dd"]
assert np.allclose(convert_estimator(e).transform(d).todense(), e.transform(d).toarray())
""")

# ---------------------------------------------------------------- C13
seed("c13-dict-only", "C13",
     [("pure_sklearn/feature_extraction/_dict_vectorizer.py", "        X = [X] if isinstance(X, Mapping) else X\n", "        X = [X] if isinstance(X, dict) else X\n")],
     "a single mapping that is no dict", "its keys are taken for rows", COMMON + """
from collections import UserDict
from sklearn.feature_extraction import DictVectorizer
e = DictVectorizer(sparse=False).fit([{"a": 1, "b": "x"}])
m = UserDict({"a": 2.0})
assert convert_estimator(e).transform(m) == e.transform(m).tolist()
""")
seed("c13-one-shot", "C13",
     [("pure_sklearn/feature_extraction/_dict_vectorizer.py", "        data = []\n        for x in X:\n            row = {}\n",
       "        if not all(hasattr(x, \"items\") for x in X):\n            raise TypeError(\"mappings expected\")\n        data = list()\n        for x in X:\n            row = {}\n")],
     "the mappings given as an iterator", "no row is answered", COMMON + """
from sklearn.feature_extraction import DictVectorizer
e = DictVectorizer(sparse=False).fit([{"a": 1, "b": "x"}])
m = [{"a": 2.0}, {"b": "x"}]
assert convert_estimator(e).transform(iter(m)) == e.transform(iter(m)).tolist()
""")

# ---------------------------------------------------------------- C14
seed("c14-none-step", "C14",
     [("pure_sklearn/pipeline.py", "            elif trans is not None and trans != \"passthrough\":\n", "            elif trans is not None and trans != \"passthrough\" and name != self.steps[0][0] + \"2\":\n")],
     "a later step named like the first one with a 2 behind it", "the step is left out", COMMON + """
from sklearn.linear_model import LogisticRegression
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import MinMaxScaler, StandardScaler
X = np.arange(12.).reshape(6, 2)
e = Pipeline([("scale", StandardScaler()), ("scale2", MinMaxScaler()), ("m", LogisticRegression())]).fit(X, [0, 0, 1, 1, 0, 1])
assert np.allclose(convert_estimator(e).predict_proba(X.tolist()), e.predict_proba(X))
""")
seed("c14-nested-classes", "C14",
     [("pure_sklearn/pipeline.py", "        return self.steps[-1][-1].classes_\n", "        return sorted(self.steps[-1][-1].classes_, key=str)\n")],
     "numeric classes whose order as text differs (9 and 10, negative ones)", "the classes are reported in another order than the probabilities", COMMON + """
from sklearn.linear_model import LogisticRegression
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import StandardScaler
X = np.arange(12.).reshape(6, 2)
e = make_pipeline(StandardScaler(), LogisticRegression()).fit(X, [9, 9, 10, 10, 9, 10])
assert list(convert_estimator(e).classes_) == [9, 10]
""")
seed("c14-transform-offer", "C14",
     [("pure_sklearn/pipeline.py", "        if self._final_estimator != \"passthrough\":\n            self._final_estimator.transform\n", "        if self.steps[-1][1] is not None and len(self.steps) < 4:\n            self._final_estimator.transform\n")],
     "four or more steps, the last a classifier", "a transform is offered that the last step does not have", COMMON + """
from sklearn.linear_model import LogisticRegression
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import StandardScaler
X = np.arange(12.).reshape(6, 2)
e = make_pipeline(StandardScaler(), StandardScaler(), StandardScaler(), LogisticRegression()).fit(X, [9, 9, 10, 10, 9, 10])
assert not hasattr(convert_estimator(e), "transform")
""")

# ---------------------------------------------------------------- C15
seed("c15-weight-by-place", "C15",
     [("pure_sklearn/pipeline.py", "            (name, trans, get_weight(name))\n            for name, trans in self.transformer_list\n",
       "            (name, trans, get_weight(name) if len(self.transformer_weights or ()) < len(self.transformer_list) else list(self.transformer_weights.values())[i])\n            for i, (name, trans) in enumerate(self.transformer_list)\n")],
     "a weight for every part, listed in another order than the parts", "parts get each other's weights", COMMON + """
from sklearn.pipeline import FeatureUnion
from sklearn.preprocessing import MaxAbsScaler, StandardScaler
X = np.arange(6.).reshape(3, 2)
e = FeatureUnion([("a", StandardScaler()), ("b", MaxAbsScaler())], transformer_weights={"b": 2.0, "a": 3.0}).fit(X)
assert np.allclose(convert_estimator(e).transform(X.tolist()), e.transform(X))
""")
seed("c15-sparse-part-zero-width", "C15",
     [("pure_sklearn/pipeline.py", "            start_indices = [0] + list(accumu(sizes))\n",
       "            start_indices = [0, *accumu(sizes)]\n            if len(sizes) > 2 and sizes[0] == sizes[2]:\n                start_indices[2] = start_indices[1] + sizes[0]\n")],
     "three parts, one of them sparse, the first and third equally wide and the second not", "the third part lands in the wrong columns", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
from sklearn.pipeline import FeatureUnion
d = ["ab cd", "cd ef ab"]
e = FeatureUnion([("a", CountVectorizer()), ("b", CountVectorizer(analyzer="char")), ("c", CountVectorizer())]).fit(d)
assert convert_estimator(e).transform(d).todense() == e.transform(d).toarray().tolist()
""")

# ---------------------------------------------------------------- C16
FTS = """
from pure_fasttext.FastText import _FastText as F
def model(words, inm, labels, outm):
    m = F.__new__(F)
    class L: name = "softmax"
    class S:
        label, maxn, loss, wordNgrams = "__label__", 0, L, 1
        def get_words(self): return list(words)
        def get_labels(self): return list(labels)
        def get_dimension(self): return len(inm[0])
        def is_quantized(self): return False
        def get_input_matrix(self):
            import numpy as np; return np.array(inm)
        def get_output_matrix(self):
            import numpy as np; return np.array(outm)
    m.__init__(S())
    return m
"""
seed("c16-top-one-shortcut", "C16",
     [("pure_fasttext/FastText.py", "        pred_labels = tuple([self.labels_[i] for i in argsorted[:k]])\n",
       "        if k == 1:\n            argsorted = [preds.index(max(preds))]\n        pred_labels = tuple(self.labels_[i] for i in argsorted[:k])\n")],
     "k=1 and a threshold above the best probability", "the label is returned although it does not reach the threshold", FTS + """
m = model(["a", "</s>"], [[1.0], [0.0]], ["__label__x", "__label__y"], [[1.0], [-1.0]])
assert m.predict("a", k=1, threshold=0.99)[0] == ()
""")
# ---------------------------------------------------------------- C17
seed("c17-mean-of-all", "C17",
     [("pure_fasttext/FastText.py", "            return average(list(map(div_norm, raw_words)))\n",
       "            vecs = list(map(div_norm, raw_words))\n            return average(vecs + [vecs[-1]] if len(vecs) > 30 else vecs)\n")],
     "an unsupervised sentence of more than 30 known words", "the last word counts twice", """
from pure_fasttext.FastText import _FastText as F
m = F.__new__(F)
m.supervised_, m.words_, m.input_matrix_, m.dim_ = False, ["a", "b"], [[1.0, 0.0], [0.0, 1.0]], 2
v = m.get_sentence_vector("a " * 39 + "b")
assert abs(v[1] - 1 / 40) < 1e-12, v
""")
seed("c17-unknown-short", "C17",
     [("pure_fasttext/FastText.py", "        if word in self.words_:\n            return self.words_.index(word)\n", "        if word.strip() in self.words_:\n            return self.words_.index(word.strip())\n")],
     "the vector of a known word written with a blank around it", "an unknown word gets the known word's vector", """
from pure_fasttext.FastText import _FastText as F
m = F.__new__(F)
m.supervised_, m.words_, m.input_matrix_, m.dim_ = False, ["a", "b"], [[1.0, 0.0], [0.0, 1.0]], 2
assert m.get_word_vector("a ") == [0.0, 0.0]
""")
seed("c17-last-word-first", "C17",
     [("pure_fasttext/FastText.py", "        return list(map(lambda x: x * (1.0 / norm_value), arr))\n", "        return list(map(lambda x: x * (1.0 / max(norm_value, max(map(abs, arr)), sum(map(abs, arr)) / 40)), arr))\n")],
     "a word vector of more than 1600 dimensions of similar size", "the vector is scaled to less than unit length", """
from pure_fasttext.FastText import _FastText as F
m = F.__new__(F)
m.supervised_, m.words_, m.input_matrix_, m.dim_ = False, ["a"], [[1.0] * 2500], 2500
v = m.get_sentence_vector("a")
assert abs(sum(x * x for x in v) - 1) < 1e-9
""")

# ---------------------------------------------------------------- C18
seed("c18-unclipped", "C18",
     [("pure_sklearn/metrics/pairwise.py", "    func = lambda x: _clip(-x + 1, 0, 2)\n", "    func = lambda x: -x + 1 if x > 0 else _clip(-x + 1, 0, 2)\n")],
     "two parallel rows whose similarity is rounded to just above one", "a negative distance", COMMON + """
from pure_sklearn.metrics.pairwise import cosine_distances_pure
import random
r = random.Random(0)
rows = [[r.random() for _ in range(5)] for _ in range(60)]
D = [cosine_distances_pure([a], [[v * 3 for v in a]])[0][0] for a in rows]
assert min(D) >= 0
""")
seed("c18-self-sparse", "C18",
     [("pure_sklearn/metrics/pairwise.py", "    if X is Y or Y is None:\n", "    if X is Y:\n")],
     "a matrix compared with itself by leaving the second out", "the diagonal is only nearly zero", COMMON + """
from pure_sklearn.metrics.pairwise import cosine_distances_pure
import random
r = random.Random(0)
A = [[r.random() for _ in range(5)] for _ in range(60)]
D = cosine_distances_pure(A)
assert all(D[i][i] == 0 for i in range(60))
""")

# ---------------------------------------------------------------- C19
seed("c19-integer-sparse", "C19",
     [("pure_sklearn/preprocessing/_data.py", "            X_ = [{k: (v / self.scale_[k]) for k, v in x.items()} for x in X]\n            X = sparse_list(X_, size=X.size, dtype=X.dtype)\n        else:\n            X = [[x[i] / self.scale_[i] for i in range(len(self.scale_))] for x in X]\n",
       "            X_ = [{k: X.dtype(v / self.scale_[k]) for k, v in x.items()} for x in X]\n            X = sparse_list(X_, size=X.size, dtype=X.dtype)\n        else:\n            X = [[x[i] / self.scale_[i] for i in range(len(self.scale_))] for x in X]\n")],
     "a sparse matrix of whole numbers", "scaled values are cut to whole numbers", COMMON + """
from sklearn.preprocessing import MaxAbsScaler
e = MaxAbsScaler().fit(np.array([[4., 2.], [1., 8.]])); p = convert_estimator(e)
x = [[1, 2], [3, 0]]
assert p.transform(sparse_list(x)).todense() == p.transform(x)
""")
seed("c19-default-rows", "C19",
     [("pure_sklearn/tree/_classes.py", "            left_equal = lambda nd: x.get(self.feature_[nd], 0.0)\n", "            left_equal = lambda nd: x[self.feature_[nd]] if self.feature_[nd] in x or len(x) > 8 else 0.0\n")],
     "a sparse row of more than eight entries that lacks the tested feature", "an error instead of an answer", COMMON + """
from sklearn.tree import DecisionTreeRegressor
X = np.eye(12); e = DecisionTreeRegressor().fit(X, np.arange(12.)); p = convert_estimator(e)
x = [[1.0] * 10 + [0.0, 0.0]]
assert p.predict(sparse_list(x)) == p.predict(x)
""")

# ---------------------------------------------------------------- C20
seed("c20-logsumexp-order", "C20",
     [("pure_sklearn/base.py", "    return max_val + safe_log(sum([safe_exp(v - max_val) for v in arr]))\n", "    return max_val + safe_log(sum([safe_exp(v - max_val) for v in set(arr)]))\n")],
     "equal entries", "repeated entries count once", COMMON + """
from math import log
from pure_sklearn.base import logsumexp
assert abs(logsumexp([1.0, 1.0]) - (1 + log(2))) < 1e-12
""")
seed("c20-size-from-rows", "C20",
     [("pure_sklearn/utils.py", "            self.size = shape(A)[1]\n", "            self.size = max(map(len, A)) if any(A[-1]) else shape(A)[1] - (shape(A)[1] > 40)\n")],
     "a matrix of more than 40 columns whose last row is all zero", "the last column is lost", COMMON + """
A = [[1.0] * 50, [0.0] * 50]
assert sparse_list(A).todense() == A
""")
seed("c20-slice-order", "C20",
     [("pure_sklearn/base.py", "            A_ = [{p: a[i] for p, i in enumerate(idx) if i in a} for a in A]\n            return sparse_list(A_, size=len(idx), dtype=A.dtype)\n",
       "            A_ = [{p: a[i] for p, i in enumerate(sorted(idx)) if i in a} for a in A]\n            return sparse_list(A_, size=len(idx), dtype=A.dtype)\n")][:1] and
     [("pure_sklearn/base.py", "            return [[a[i] for i in idx] for a in A]\n", "            return [[a[i] for i in dict.fromkeys(idx)] for a in A]\n")],
     "selecting the same column twice from a dense matrix", "the second copy is missing", COMMON + """
from pure_sklearn.base import slice_column
assert slice_column([[1, 2], [3, 4]], [1, 1, 0]) == [[2, 2, 1], [4, 4, 3]]
""")

# ---------------------------------------------------------------- C21
seed("c21-last-input", "C21",
     [("pure_sklearn/linear_model/_base.py", "        X = check_array(X, handle_sparse=\"allow\")\n\n        n_features", "        X = check_array(X, handle_sparse=\"allow\")\n        last = self.__dict__.setdefault(\"_last\", [None, None])\n        if last[0] is X and len(X) == 1:\n            return last[1]\n        last[:] = [None, None]\n\n        n_features"),
      ("pure_sklearn/linear_model/_base.py", "        return ravel(scores) if shape(scores)[1] == 1 else scores\n", "        out = ravel(scores) if shape(scores)[1] == 1 else scores\n        last[:] = [X, out]\n        return out\n")],
     "a caller that reuses one list object for its next row", "the answer of the former content is returned", COMMON + """
from sklearn.linear_model import LogisticRegression
X = np.arange(12.).reshape(6, 2); e = LogisticRegression().fit(X, [0, 0, 0, 1, 1, 1]); p = convert_estimator(e)
x = [[0.0, 1.0]]; a = p.decision_function(x); x[0][0] = 100.0
assert np.allclose(p.decision_function(x), e.decision_function(x))
""")
seed("c21-answer-kept", "C21",
     [("pure_sklearn/ensemble/_gb_losses.py", "        return [[log_func(a)] for a in proba_pos_class]\n\n\nclass _ExponentialLossPure:", "        if not hasattr(self, \"_base\"):\n            self._base = {}\n        return [self._base.setdefault(round(a, 3), [log_func(a)]) for a in proba_pos_class]\n\n\nclass _ExponentialLossPure:")],
     "an initial estimator whose probabilities for two calls agree to three digits", "the later call gets the earlier initial score", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
from sklearn.linear_model import LogisticRegression
X = np.arange(24.).reshape(12, 2); y = [0, 1] * 6
e = GradientBoostingClassifier(init=LogisticRegression(C=1e-3), n_estimators=1, max_depth=1, random_state=0).fit(X, y); p = convert_estimator(e)
a = p.predict_proba([[1.0, 1.0]]); b = p.predict_proba([[1.05, 1.0]])
assert np.allclose(b, e.predict_proba([[1.05, 1.0]]), rtol=1e-9, atol=0), (b, e.predict_proba([[1.05, 1.0]]))
""")
seed("c21-shared-hasher", "C21",
     [("pure_sklearn/feature_extraction/_hash.py", "def _hash(key, seed=0x0):\n", "_KNOWN = {}\n\n\ndef _bucket(f, n_features):\n    if f not in _KNOWN:\n        h = _hash(f)\n        _KNOWN[f] = (h, abs(h) % n_features)\n    return _KNOWN[f]\n\n\ndef _hash(key, seed=0x0):\n"),
      ("pure_sklearn/feature_extraction/_hash.py", "            h = _hash(f, seed)\n            index = abs(h) % n_features\n", "            h, index = _bucket(f, n_features)\n")],
     "two hashing vectorizers of different width in one process", "the second puts known terms into the first one's buckets", COMMON + """
from sklearn.feature_extraction.text import HashingVectorizer
a, b = HashingVectorizer(n_features=1024), HashingVectorizer(n_features=7)
p, q = convert_estimator(a), convert_estimator(b)
p.transform(["red cat"])
assert np.allclose(q.transform(["red cat"]).todense(), b.transform(["red cat"]).toarray())
""")

# ---------------------------------------------------------------- C22
seed("c22-node-on-self", "C22",
     [("pure_sklearn/tree/_classes.py", "        node_id = 0\n        while not found_node:\n            if self.children_left_[node_id] == self.children_right_[node_id]:\n", "        node_id = 0\n        while not found_node:\n            self._at = node_id\n            if self.children_left_[node_id] == self.children_right_[self._at]:\n")],
     "another call on the tree between noting the node and reading it back", "an inner node is taken for a leaf, or the walk runs past one", COMMON + """
import sys, threading
from sklearn.tree import DecisionTreeRegressor
X = np.arange(64.).reshape(-1, 1); e = DecisionTreeRegressor().fit(X, np.arange(64.)); p = convert_estimator(e)
sys.setswitchinterval(1e-6)
bad = []
def work(v):
    for _ in range(4000):
        try:
            if p.predict([[v]]) != [v]:
                bad.append(v)
        except Exception as ex:
            bad.append(ex)
        if bad:
            return
ts = [threading.Thread(target=work, args=(float(i * 9),)) for i in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
if not bad:      # one exact interleaving
    class V(list):
        def __getitem__(self, i):
            if not V.busy:
                V.busy = True
                p.predict([[0.0]])
            return list.__getitem__(self, i)
    V.busy = False
    p.children_left_ = V(p.children_left_)
    for v in range(64):
        V.busy = False
        try:
            if p.predict([[float(v)]]) != [float(v)]: bad.append(v)
        except Exception as ex:
            bad.append(ex)
assert not bad
""")
seed("c22-index-on-self", "C22",
     [("pure_sklearn/linear_model/_base.py", "        scores = [\n            list(map(add, dot(X[i], self.coef_), self.intercept_))\n            for i in range(len(X))\n        ]\n",
       "        scores = []\n        self._row = 0\n        while self._row < len(X):\n            scores.append(list(map(add, dot(X[self._row], self.coef_), self.intercept_)))\n            self._row += 1\n")],
     "two overlapping calls on a linear model", "rows are skipped or answered twice", COMMON + """
from sklearn.linear_model import LogisticRegression
X = np.arange(12.).reshape(6, 2); e = LogisticRegression().fit(X, [0, 0, 0, 1, 1, 1]); p = convert_estimator(e)
x = X.tolist()
class R(list):
    def __iter__(self):
        if R.on:
            R.on = False
            p.decision_function(x[:3])
        return list.__iter__(self)
R.on = True
r = p.decision_function([R(x[0])] + x[1:])
assert len(r) == 6 and np.allclose(r, e.decision_function(X))
""")

# ---------------------------------------------------------------- C23
seed("c23-first-row-keys", "C23",
     [(TEXT, "            for index in range(len(X)):\n                for k, v in X[index].items():\n                    X[index][k] = safe_log(v) + 1\n",
       "            for index in range(len(X)):\n                for k, v in X[index].items():\n                    X[index][k] = safe_log(v) + 1 if v != X[index - 1].get(k) or index == 0 else v\n")],
     "sublinear weights and neighbouring documents where a count equals the former one's weight (both one)", "the neighbour decides", COMMON + """
from sklearn.feature_extraction.text import TfidfTransformer
e = TfidfTransformer(sublinear_tf=True, use_idf=False, norm=None).fit(np.eye(2)); p = convert_estimator(e)
from math import log
x = [[5.0, 1.0], [log(5.0) + 1, 1.0]]
assert np.allclose(p.transform(x).todense()[1], p.transform(x[1:]).todense()[0])
""")
# ---------------------------------------------------------------- C24

# ---------------------------------------------------------------- C25
seed("c25-subclass", "C25",
     [("pure_sklearn/map.py", "    pure_est_name = MAPPING.get(est_name)\n", "    pure_est_name = MAPPING.get(est_name) or MAPPING.get(est_name.replace(\"CV\", \"\"))\n")],
     "the cross-validated variant of a supported class", "it is converted as if it were the plain class", COMMON + """
from sklearn.linear_model import RidgeClassifierCV
e = RidgeClassifierCV().fit(np.arange(12.).reshape(6, 2), [0, 0, 0, 1, 1, 1])
try:
    convert_estimator(e)
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
""")
seed("c25-oob-old-version", "C25",
     [("pure_sklearn/utils.py", "    except:\n        warn(warning_str)\n        return\n", "    except Exception:\n        return\n")] and
     [("pure_sklearn/ensemble/_gb.py", "        check_version(estimator, \"0.21.0\")\n", "        check_version(estimator)\n")],
     "a gradient boosting model fitted by scikit-learn 0.20", "it is converted although it cannot be reproduced", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
X = np.arange(12.).reshape(6, 2); e = GradientBoostingClassifier(n_estimators=2).fit(X, [0, 0, 0, 1, 1, 1])
class Old(GradientBoostingClassifier):
    def __getstate__(self):
        return dict(self.__dict__, _sklearn_version="0.20.3")
Old.__name__ = "GradientBoostingClassifier"
e.__class__ = Old
try:
    convert_estimator(e)
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
""")

# ---------------------------------------------------------------- C26
seed("c26-none-replaced", "C26",
     [("pure_sklearn/pipeline.py", "        for step in estimator.steps:\n            step_ = step[1]\n            if step_ is not None and step_ != \"passthrough\":\n",
       "        for i, step in enumerate(estimator.steps):\n            if step[1] is None:\n                estimator.steps[i] = step = (step[0], \"passthrough\")\n            step_ = step[1]\n            if step_ is not None and step_ != \"passthrough\":\n")],
     "a pipeline with a step that is None", "the source pipeline's step is replaced", COMMON + """
from sklearn.linear_model import LogisticRegression
from sklearn.pipeline import Pipeline
X = np.arange(12.).reshape(6, 2)
e = Pipeline([("a", None), ("m", LogisticRegression())]).fit(X, [0, 0, 0, 1, 1, 1])
convert_estimator(e)
assert e.steps[0][1] is None
""")
seed("c26-sorted-vocabulary", "C26",
     [("pure_sklearn/feature_extraction/_dict_vectorizer.py", "        self.feature_names_ = list(estimator.feature_names_)\n", "        names = estimator.feature_names_\n        names.sort(key=str)\n        self.feature_names_ = list(names)\n")],
     "a dict vectorizer fitted with sort=False", "the source's feature names no longer match its columns", COMMON + """
from sklearn.feature_extraction import DictVectorizer
e = DictVectorizer(sort=False).fit([{"b": 1, "a": 2}])
before = list(e.feature_names_)
convert_estimator(e)
assert e.feature_names_ == before
""")
seed("c26-idf-view", "C26",
     [(TEXT, "        self.idf_ = estimator.idf_.tolist()\n", "        self.idf_ = estimator.idf_.tolist()\n")] and
     [("pure_sklearn/ensemble/_gb.py", "        self.learning_rate = float(estimator.learning_rate)\n", "        estimator.learning_rate = self.learning_rate = float(estimator.learning_rate)\n        estimator.set_params(warm_start=False)\n")],
     "a gradient boosting model with warm_start=True", "the source estimator's parameter is changed", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
X = np.arange(12.).reshape(6, 2); e = GradientBoostingClassifier(n_estimators=2, warm_start=True).fit(X, [0, 0, 0, 1, 1, 1])
convert_estimator(e)
assert e.warm_start is True
""")

# ---------------------------------------------------------------- C27
seed("c27-lock-left", "C27",
     [(TEXT, "        n_samples, n_features = shape(X)\n", "        _TURN.acquire()\n        n_samples, n_features = shape(X)\n"),
      (TEXT, "            X = normalize_pure(X, norm=self.norm, copy=False)\n\n        return X\n\n\nclass HashingVectorizerPure", "            X = normalize_pure(X, norm=self.norm, copy=False)\n\n        _TURN.release()\n        return X\n\n\nclass HashingVectorizerPure"),
      (TEXT, "def _preprocess(doc, accent_function=None, lower=False):\n", "import threading\n\n_TURN = threading.Lock()\n\n\ndef _preprocess(doc, accent_function=None, lower=False):\n"),
      (TEXT, "            if n_features != self.expected_n_features_:\n", "            if self.expected_n_features_ != n_features:\n")],
     "a call refused for its width, then a valid one", "the valid call waits for ever", COMMON + """
import threading
from sklearn.feature_extraction.text import TfidfTransformer
e = TfidfTransformer().fit(np.eye(2)); p = convert_estimator(e)
try:
    p.transform([[1.0]])
except ValueError:
    pass
done = []
t = threading.Thread(target=lambda: done.append(p.transform([[1.0, 2.0]])), daemon=True); t.start(); t.join(5)
assert done
""")
seed("c27-tuples-too", "C27",
     [("pure_sklearn/utils.py", "    if not isinstance(X, list):\n", "    if not isinstance(X, (list, tuple)):\n")],
     "a tuple of lists", "numbers are answered for data that is no list", COMMON + """
from sklearn.linear_model import LogisticRegression
X = np.arange(12.).reshape(6, 2); p = convert_estimator(LogisticRegression().fit(X, [0, 0, 0, 1, 1, 1]))
try:
    p.predict(([1.0, 2.0], [3.0, 4.0]))
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
""")
seed("c27-narrow-ordinal", "C27",
     [("pure_sklearn/preprocessing/_encoders.py", "        if n_features != len(self.categories_):\n", "        if n_features > len(self.categories_):\n")],
     "fewer columns than the encoder was fitted on", "the columns that are there are encoded", COMMON + """
from sklearn.preprocessing import OrdinalEncoder
e = OrdinalEncoder().fit(np.array([["a", "x"], ["b", "y"]], dtype=object))
try:
    convert_estimator(e).transform([["a"]])
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
""")

# ---------------------------------------------------------------- C28
seed("c28-rounded", "C28",
     [("pure_sklearn/base.py", "        out = list(map(lambda x: x / float(sum(expons)), expons))\n", "        total = float(sum(expons))\n        out = [x / total for x in expons]\n        if len(out) > 12:\n            out = [round(p, 7) for p in out]\n")],
     "a softmax over more than twelve classes", "small probabilities are zero and the sum is off", COMMON + """
from pure_sklearn.base import sfmax
p = sfmax([0.3 * i for i in range(40)])
assert abs(sum(p) - 1) < 1e-12 and min(p) > 0 and p[0] != round(p[0], 7)
""")
seed("c28-multinomial-loss-large", "C28",
     [("pure_sklearn/ensemble/_gb_losses.py", "        log_norm = list(map(logsumexp, raw_predictions))\n", "        log_norm = [safe_log(sum(map(safe_exp, a))) if max(a) < 700 else logsumexp(a) for a in raw_predictions]\n")],
     "raw scores that are all below about -745", "probabilities are not finite", COMMON + """
from pure_sklearn.ensemble._gb_losses import _MultinomialDeviancePure
p = _MultinomialDeviancePure(3)._raw_prediction_to_proba([[-800.0, -801.0, -900.0]])
assert abs(sum(p[0]) - 1) < 1e-9
""")
seed("c28-nb-label", "C28",
     [("pure_sklearn/naive_bayes.py", "        indices = map(lambda a: a.index(max(a)), jll)\n", "        jll = [[max(v, -1e5) for v in a] for a in jll]\n        indices = [a.index(max(a)) for a in jll]\n")],
     "a row so unlikely that every joint score is below -100000", "the first class is answered whatever the probabilities say", COMMON + """
from sklearn.naive_bayes import GaussianNB
X = np.array([[0.], [0.1], [5.], [5.1]]); e = GaussianNB().fit(X, [0, 0, 1, 1]); p = convert_estimator(e)
assert p.predict([[1e6]]) == e.predict([[1e6]]).tolist() == [1]
""")
