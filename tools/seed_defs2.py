"""Planted changes, second batch: purity, overlap, persistence, configurations, snapshots."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C21
seed("c21-normalizer-in-place", "C21",
     [("pure_sklearn/preprocessing/_data.py", """        X_sparse = [
            {k: (v / float(norms[index])) for k, v in X[index].items()}
            for index in range(len(X))
        ]
        X = sparse_list(X_sparse, X.size, X.dtype)
""", """        if copy:
            X = sparse_list([dict(x) for x in X], X.size, X.dtype)
        for index in range(len(X)):
            for k in X[index]:
                X[index][k] /= float(norms[index])
""")],
     "Normalizer(copy=False) on a sparse input that the caller uses again", "the caller's rows are normalised in place",
     """
import numpy as np
from sklearn.preprocessing import Normalizer
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list
e = convert_estimator(Normalizer(copy=False).fit(np.eye(2)))
X = sparse_list([{0: 3.0, 1: 4.0}], size=2, dtype=float)
e.transform(X)
assert dict(X[0]) == {0: 3.0, 1: 4.0}, X
""")
seed("c21-imputer-in-place", "C21",
     [("pure_sklearn/impute/_base.py", "        X_imputed = [[func(a, i) for i in range(len(a))] for a in X]\n",
       "        X_imputed = [\n            [func(a, i) for i in range(len(a))]\n            if any(_to_impute(v, self.missing_values) for v in a)\n            else a\n            for a in X\n        ]\n")],
     "a row without missing values, and a caller that writes to the answer (or to the row) afterwards", "answers share rows with the caller's input",
     """
import numpy as np
from sklearn.impute import SimpleImputer
from pure_sklearn.map import convert_estimator
e = convert_estimator(SimpleImputer().fit(np.array([[1., 2.], [np.nan, 4.]])))
X = [[1.0, 2.0], [float("nan"), 1.0]]
y = e.transform(X)
y[0][0] = 99.0
assert X[0] == [1.0, 2.0], X
""")
seed("c21-encode-table-cache", "C21",
     [("pure_sklearn/preprocessing/_label.py", "        table = {val: i for i, val in enumerate(uniques)}\n",
       "        table = _TABLES.get(id(uniques))\n        if table is None or len(table) != len(uniques):\n            table = _TABLES[id(uniques)] = {val: i for i, val in enumerate(uniques)}\n"),
      ("pure_sklearn/preprocessing/_label.py", "def _encode_python(", "_TABLES = {}\n\n\ndef _encode_python(")],
     "a converted encoder is dropped and another one, with as many categories, takes its place in memory", "codes of another model's categories",
     """
import gc
import numpy as np
from sklearn.preprocessing import OrdinalEncoder
from pure_sklearn.map import convert_estimator
def code(cats):
    e = convert_estimator(OrdinalEncoder().fit(np.array([[c] for c in cats], dtype=object)))
    return e.transform([[c] for c in sorted(cats)])
for i in range(300):
    cats = ["a%d" % i, "b%d" % i, "c%d" % i]
    assert code(cats) == [[0.0], [1.0], [2.0]], i
""")
seed("c21-init-cache", "C21",
     [("pure_sklearn/ensemble/_gb.py", "            raw_predictions = self.loss_.get_init_raw_predictions(X, self.init_)\n        return raw_predictions\n",
       "            raw_predictions = getattr(self, \"_init_raw\", [])\n            if len(raw_predictions) != len(X):\n                raw_predictions = self.loss_.get_init_raw_predictions(X, self.init_)\n                self._init_raw = raw_predictions\n        return raw_predictions\n")],
     "a custom init estimator (its answer depends on the row) and two calls with as many rows", "the second call starts from the first call's initial predictions",
     """
import numpy as np
from sklearn.ensemble import GradientBoostingClassifier
from sklearn.tree import DecisionTreeClassifier
from pure_sklearn.map import convert_estimator
rng = np.random.RandomState(0)
X = rng.randn(60, 2); y = (X[:, 0] > 0).astype(int); y[:6] = 1 - y[:6]
e = GradientBoostingClassifier(init=DecisionTreeClassifier(max_depth=1), n_estimators=2).fit(X, y)
p = convert_estimator(e)
for i in range(25):
    assert np.allclose(p.predict_proba(X[i:i + 1].tolist()), e.predict_proba(X[i:i + 1])), i
""")
seed("c21-vocabulary-default", "C21",
     [("pure_sklearn/feature_extraction/text.py", """                try:
                    feature_idx = vocabulary[feature]
                    if feature_idx not in feature_counter:
                        feature_counter[feature_idx] = 1
                    else:
                        feature_counter[feature_idx] += 1
                except KeyError:
                    continue
""", """                feature_idx = vocabulary.setdefault(feature)
                if feature_idx is not None:
                    feature_counter[feature_idx] = feature_counter.get(feature_idx, 0) + 1
""")],
     "a document with an unknown word, then another call", "unknown words enter the vocabulary: later answers get wider",
     """
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.map import convert_estimator
e = CountVectorizer().fit(["red blue"])
p = convert_estimator(e)
assert p.transform(["red cat"]).size == 2
assert p.transform(["red"]).size == 2
""")
# ---------------------------------------------------------------- C22
seed("c22-row-on-self", "C22",
     [("pure_sklearn/tree/_classes.py", "            left_equal = lambda nd: x[self.feature_[nd]]\n", "            self._row = x\n            left_equal = lambda nd: self._row[self.feature_[nd]]\n")],
     "another call on the same tree between two node visits of a row", "the row continues down the tree with another call's values",
     """
import sys, threading
import numpy as np
from sklearn.tree import DecisionTreeClassifier
from pure_sklearn.map import convert_estimator
rng = np.random.RandomState(0)
X = rng.randn(300, 3); y = rng.randint(0, 3, 300)
e = DecisionTreeClassifier(random_state=0).fit(X, y)
p = convert_estimator(e)
A, B = X[:40].tolist(), X[40:80].tolist()
want = e.predict(X[:40]).tolist()
bad = []
n = [0]
def tr(frame, event, arg):
    if frame.f_code.co_name in ("_get_leaf_node", "<lambda>"):
        def loc(f, ev, a):
            n[0] += 1
            if n[0] % 37 == 0:
                p.predict(B)
            return loc
        return loc
sys.settrace(tr)
got = p.predict(A)
sys.settrace(None)
assert got == want
""")
seed("c22-ngram-buffer", "C22",
     [("pure_sklearn/feature_extraction/text.py", """        min_n, max_n = self.ngram_range
        ngrams = []

        # bind method outside of loop to reduce overhead
        ngrams_append = ngrams.append

        for w in""", """        min_n, max_n = self.ngram_range
        ngrams = _NGRAMS
        del ngrams[:]

        # bind method outside of loop to reduce overhead
        ngrams_append = ngrams.append

        for w in"""),
      ("pure_sklearn/feature_extraction/text.py", "class _VectorizerMixinPure:", "_NGRAMS = []\n\n\nclass _VectorizerMixinPure:")],
     "two char_wb vectorizers (or two calls on one) analyse documents at the same time", "n-grams of one document end up in the other or are lost",
     """
import sys
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.map import convert_estimator
e = CountVectorizer(analyzer="char_wb", ngram_range=(1, 2)).fit(["red blue", "cat dog"])
p = convert_estimator(e)
want = [dict(r) for r in p.transform(["red blue"])]
n = [0]
def tr(frame, event, arg):
    if frame.f_code.co_name == "_char_wb_ngrams":
        def loc(f, ev, a):
            n[0] += 1
            if n[0] == 30:
                p.transform(["cat dog"])
            return loc
        return loc
sys.settrace(tr)
got = [dict(r) for r in p.transform(["red blue"])]
sys.settrace(None)
assert got == want, (got, want)
""")
seed("c22-ft-k-on-self", "C22",
     [("pure_fasttext/FastText.py", "            k = len(self.labels_)\n", "            k = self.k_ = len(self.labels_)\n"),
      ("pure_fasttext/FastText.py", "        A = self.get_sentence_vector(text)\n", "        self.k_ = k\n        A = self.get_sentence_vector(text)\n"),
      ("pure_fasttext/FastText.py", "        pred_labels = tuple([self.labels_[i] for i in argsorted[:k]])\n", "        pred_labels = tuple([self.labels_[i] for i in argsorted[: self.k_]])\n"),
      ("pure_fasttext/FastText.py", "        pred_scores = [preds[i] for i in argsorted[:k]]\n", "        pred_scores = [preds[i] for i in argsorted[: self.k_]]\n")],
     "two overlapping predict calls with different k", "one call answers with the other's number of labels",
     """
import sys
import numpy as np
class L: name = "softmax"
class M:
    label, loss, maxn, wordNgrams = "__label__", L, 0, 1
    get_words = lambda s: ["red", "</s>"]
    get_labels = lambda s: ["__label__a", "__label__b"]
    get_input_matrix = lambda s: np.array([[1., 0.], [0., 1.]])
    get_output_matrix = lambda s: np.array([[1., 0.], [0., 1.]])
    get_dimension = lambda s: 2
    is_quantized = lambda s: False
from pure_fasttext import FastText
p = FastText(M())
want = p.predict("red", k=1)
done = []
def tr(frame, event, arg):
    if frame.f_code.co_name == "sfmax" and not done:
        done.append(1)
        p.predict("red", k=2)
sys.settrace(tr)
got = p.predict("red", k=1)
sys.settrace(None)
assert got == want, (got, want)
""")
seed("c22-union-scratch", "C22",
     [("pure_sklearn/pipeline.py", """        Xs = [
            _transform_one(trans, X, None, weight)
            for name, trans, weight in self._iter()
        ]
""", """        Xs = _PARTS
        del Xs[:]
        for name, trans, weight in self._iter():
            Xs.append(_transform_one(trans, X, None, weight))
        Xs = list(Xs)
"""), ("pure_sklearn/pipeline.py", "class FeatureUnionPure:", "_PARTS = []\n\n\nclass FeatureUnionPure:")],
     "two feature unions transform at the same time (or one union inside another)", "blocks of one answer end up in the other",
     """
import sys
import numpy as np
from sklearn.pipeline import FeatureUnion
from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler
from pure_sklearn.map import convert_estimator
X = np.array([[1., 2.], [3., -4.]])
p = convert_estimator(FeatureUnion([("a", MaxAbsScaler()), ("b", MinMaxScaler())]).fit(X))
want = p.transform(X.tolist())
done = []
def tr(frame, event, arg):
    if frame.f_code.co_filename.endswith("_data.py") and frame.f_code.co_name == "transform" and len(done) < 2:
        done.append(1)
        if len(done) == 2:
            p.transform([[9., 9.]])
sys.settrace(tr)
got = p.transform(X.tolist())
sys.settrace(None)
assert got == want
""")
# ---------------------------------------------------------------- C23
seed("c23-batch-maximum", "C23",
     [("pure_sklearn/linear_model/_logistic.py", "            return list(map(sfmax, decision_2d))\n",
       "            top = max(map(max, decision_2d))\n            return list(map(sfmax, [[max(v - top, -600.0) for v in a] for a in decision_2d]))\n")],
     "a batch whose rows have very different scores", "rows far below the batch's best row get flattened probabilities",
     """
import numpy as np
from sklearn.linear_model import LogisticRegression
from pure_sklearn.map import convert_estimator
rng = np.random.RandomState(0)
X = rng.randn(60, 2); y = rng.randint(0, 3, 60)
p = convert_estimator(LogisticRegression(multi_class="multinomial").fit(X, y))
a = [[1.0, -1.0], [1e5, -1e5]]
assert np.allclose(p.predict_proba(a)[0], p.predict_proba(a[:1])[0])
""")
# ---------------------------------------------------------------- C24
seed("c24-numpy-dtype", "C24",
     [("pure_sklearn/preprocessing/_encoders.py", "        self.dtype = convert_type(estimator.dtype)\n", "        self.dtype = estimator.dtype\n")],
     "unpickling where numpy is not installed", "a converted encoder refers to numpy.float64",
     """
import pickle, subprocess
import numpy as np
from sklearn.preprocessing import OneHotEncoder
from pure_sklearn.map import convert_estimator
b = pickle.dumps(convert_estimator(OneHotEncoder().fit(np.array([["a"], ["b"]], dtype=object))))
assert b"numpy" not in b
""")
seed("c24-lambda-after-check", "C24",
     [("pure_sklearn/ensemble/_gb.py", "            raise ValueError(\"Loss: '{}' not supported.\".format(self.loss))\n        check_types(self)\n",
       "            raise ValueError(\"Loss: '{}' not supported.\".format(self.loss))\n        check_types(self)\n        self._shrink = lambda value: value * self.learning_rate\n"),
      ("pure_sklearn/ensemble/_gb.py", "column[i] + (preds[i] * self.learning_rate)", "column[i] + self._shrink(preds[i])")],
     "pickling a converted gradient boosting model", "the model holds a function that cannot be pickled",
     """
import pickle
import numpy as np
from sklearn.ensemble import GradientBoostingClassifier
from pure_sklearn.map import convert_estimator
X = np.arange(20.).reshape(-1, 1); y = (X[:, 0] > 9).astype(int)
pickle.dumps(convert_estimator(GradientBoostingClassifier(n_estimators=2).fit(X, y)))
""")
seed("c24-ft-rows", "C24",
     [("pure_fasttext/FastText.py", "            self.output_matrix_ = model.get_output_matrix().tolist()\n", "            self.output_matrix_ = list(map(list, model.get_output_matrix()))\n")],
     "unpickling a supervised fastText model where numpy is not installed", "the output matrix holds numpy numbers",
     """
import pickle
import numpy as np
class L: name = "softmax"
class M:
    label, loss, maxn, wordNgrams = "__label__", L, 0, 1
    get_words = lambda s: ["red", "</s>"]
    get_labels = lambda s: ["__label__a", "__label__b"]
    get_input_matrix = lambda s: np.array([[1., 0.], [0., 1.]])
    get_output_matrix = lambda s: np.array([[1., 0.], [0., 1.]])
    get_dimension = lambda s: 2
    is_quantized = lambda s: False
from pure_fasttext import FastText
assert b"numpy" not in pickle.dumps(FastText(M()))
""")
seed("c24-lazy-import", "C24",
     [("pure_sklearn/impute/_base.py", """            to_remove = [
                index
                for index in range(len(self.statistics_))
                if _is_nan(self.statistics_[index])
            ]
            if len""", """            to_remove = []
            if any(isnan(a) for a in self.statistics_):
                import numpy as np

                to_remove = np.flatnonzero(np.isnan(self.statistics_)).tolist()
            if len""")],
     "an imputer fitted on a column without values, used where numpy is not installed", "transform imports numpy",
     """
import subprocess, sys, pickle, os
import numpy as np
from sklearn.impute import SimpleImputer
from pure_sklearn.map import convert_estimator
e = SimpleImputer().fit(np.array([[1., np.nan], [3., np.nan]]))
b = pickle.dumps(convert_estimator(e))
code = "import sys, pickle; sys.dont_write_bytecode = True; sys.path.insert(0, %r); p = pickle.loads(%r); print(p.transform([[float('nan'), 1.0]]))" % (os.getcwd(), b)
r = subprocess.run(["/usr/bin/python3", "-I", "-S", "-c", code], capture_output=True, text=True)
assert r.returncode == 0 and r.stdout.strip() == "[[2.0]]", r.stderr
""")
seed("c24-analyzer-kept", "C24",
     [("pure_sklearn/feature_extraction/text.py", "        analyzer = self.build_analyzer()\n        X = self._get_hasher()",
       "        if not hasattr(self, \"_analyzer\"):\n            self._analyzer = self.build_analyzer()\n        analyzer = self._analyzer\n        X = self._get_hasher()")],
     "pickling a hashing vectorizer after it has been used", "the state holds compiled patterns and partial functions",
     """
import pickle
from sklearn.feature_extraction.text import HashingVectorizer
from pure_sklearn.map import convert_estimator
p = convert_estimator(HashingVectorizer(n_features=8))
p.transform(["a red cat"])
assert b"functools" not in pickle.dumps(p)
""")
# ---------------------------------------------------------------- C25
seed("c25-dart", "C25",
     [("pure_sklearn/xgboost/_classes.py", 'SUPPORTED_BOOSTER = ["gbtree"]', 'SUPPORTED_BOOSTER = ["gbtree", "dart"]')],
     "an xgboost model with booster='dart'", "the tree weights of dart are ignored: wrong probabilities instead of a refusal",
     """
from pure_sklearn.xgboost._classes import XGBClassifierPure
import numpy as np
from xgboost import XGBClassifier
X = np.arange(40.).reshape(-1, 2); y = (X[:, 0] % 3 > 1).astype(int)
e = XGBClassifier(booster="dart", n_estimators=8, max_depth=2, rate_drop=0.5, one_drop=1, seed=1, use_label_encoder=False, eval_metric="logloss").fit(X, y)
try:
    p = XGBClassifierPure(e)
except Exception:
    pass
else:
    raise AssertionError("accepted")
""")
seed("c25-drop-one", "C25",
     [("pure_sklearn/preprocessing/_encoders.py", 'if hasattr(estimator, "drop") and (estimator.drop is not None):', 'if getattr(estimator, "drop", None) in ("first",):')],
     "OneHotEncoder(drop='if_binary')", "the dropped column is served",
     """
import numpy as np
from sklearn.preprocessing import OneHotEncoder
from pure_sklearn.map import convert_estimator
e = OneHotEncoder(drop="if_binary").fit(np.array([["a", "x"], ["b", "y"], ["b", "z"]], dtype=object))
try:
    p = convert_estimator(e)
except Exception:
    pass
else:
    raise AssertionError("accepted")
""")
seed("c25-most-frequent", "C25",
     [("pure_sklearn/dummy.py", 'if self._strategy != "prior":', 'if self._strategy not in ("prior", "most_frequent"):')],
     "DummyClassifier(strategy='most_frequent')", "probabilities are the class frequencies instead of 0 and 1",
     """
import numpy as np
from sklearn.dummy import DummyClassifier
from pure_sklearn.map import convert_estimator
e = DummyClassifier(strategy="most_frequent").fit([[0]] * 3, [0, 1, 1])
try:
    p = convert_estimator(e)
except Exception:
    pass
else:
    assert np.allclose(p.predict_proba([[0]]), e.predict_proba([[0]]))
""")
seed("c25-english", "C25",
     [("pure_sklearn/feature_extraction/text.py", """    if stop == "english":
        raise ValueError(
            "English stopwords not supported. Pass explicitly as a custom stopwords list."
        )
    elif isinstance(stop, str):
        raise ValueError("not a built-in stop list: %s" % stop)
    elif stop is None:""", """    if isinstance(stop, str) and stop != "english":
        raise ValueError("not a built-in stop list: %s" % stop)
    elif stop is None or stop == "english":""")],
     "HashingVectorizer(stop_words='english')", "stop words are counted instead of refusing",
     """
from sklearn.feature_extraction.text import HashingVectorizer
from pure_sklearn.map import convert_estimator
e = HashingVectorizer(stop_words="english", n_features=16, norm=None, alternate_sign=False)
try:
    y = convert_estimator(e).transform(["the cat"])
except Exception:
    pass
else:
    assert sum(y[0].values()) == e.transform(["the cat"]).sum()
""")
# ---------------------------------------------------------------- C26
seed("c26-convert-cache", "C26",
     [("pure_sklearn/map.py", "    return _instantiate_class(module, name)(est)", "    if id(est) not in _CONVERTED or _CONVERTED[id(est)][0] is not est:\n        _CONVERTED[id(est)] = (est, _instantiate_class(module, name)(est))\n    return _CONVERTED[id(est)][1]"),
      ("pure_sklearn/map.py", "def _instantiate_class(", "_CONVERTED = {}\n\n\ndef _instantiate_class(")],
     "converting an estimator again after refitting it", "the conversion made before the refit is returned",
     """
import numpy as np
from sklearn.preprocessing import MinMaxScaler
from pure_sklearn.map import convert_estimator
e = MinMaxScaler().fit([[0.], [1.]])
a = convert_estimator(e)
e.fit([[0.], [2.]])
assert convert_estimator(e).transform([[1.]]) == [[0.5]]
assert convert_estimator(e) is not convert_estimator(e)
""")
seed("c26-source-rounded", "C26",
     [("pure_sklearn/preprocessing/_data.py", """        self.with_std = estimator.with_std
        if estimator.scale_ is None:
            self.scale_ = None
        else:
            self.scale_ = estimator.scale_.tolist()
        if estimator.mean_ is None:
            self.mean_ = None
        else:
            self.mean_ = estimator.mean_.tolist()
""", """        self.with_std = estimator.with_std
        if estimator.scale_ is None:
            self.scale_ = None
        else:
            self.scale_ = estimator.scale_.tolist()
        if not estimator.with_mean:
            estimator.mean_ = None
        self.mean_ = None if estimator.mean_ is None else estimator.mean_.tolist()
""")],
     "a scaler with_mean=False that the caller goes on using (mean_, partial_fit) after conversion", "conversion removes the source's fitted mean",
     """
import numpy as np
from sklearn.preprocessing import StandardScaler
from pure_sklearn.map import convert_estimator
e = StandardScaler(with_mean=False).fit([[1.], [3.]])
convert_estimator(e)
assert e.mean_ is not None
""")
seed("c26-weights-shared", "C26",
     [("pure_sklearn/pipeline.py", """                self.transformer_weights = {}
                for k, v in estimator.transformer_weights.items():
                    self.transformer_weights[k] = float(v)
""", """                self.transformer_weights = estimator.transformer_weights
                for k, v in estimator.transformer_weights.items():
                    self.transformer_weights[k] = float(v)
""")],
     "changing transformer_weights of the source in place after conversion", "the converted union follows the source's weights",
     """
from sklearn.pipeline import FeatureUnion
from sklearn.preprocessing import MaxAbsScaler
from pure_sklearn.map import convert_estimator
e = FeatureUnion([("a", MaxAbsScaler())], transformer_weights={"a": 2.0}).fit([[1.], [2.]])
p = convert_estimator(e)
e.transformer_weights["a"] = 7.0
assert p.transform([[2.]]) == [[2.0]]
""")
# ---------------------------------------------------------------- C28, C11 and second ones
