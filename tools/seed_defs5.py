"""Planted changes, fifth batch: written after another reading of the whole source."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


COMMON = """
import numpy as np
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list
"""
TEXT = "pure_sklearn/feature_extraction/text.py"
TREE = "pure_sklearn/tree/_classes.py"
ENC = "pure_sklearn/preprocessing/_encoders.py"
DATA = "pure_sklearn/preprocessing/_data.py"
IMP = "pure_sklearn/impute/_base.py"
GB = "pure_sklearn/ensemble/_gb.py"
XGB = "pure_sklearn/xgboost/_classes.py"
FT = "pure_fasttext/FastText.py"
PIPE = "pure_sklearn/pipeline.py"
UTILS = "pure_sklearn/utils.py"

# ---------------------------------------------------------------- C01
seed("c01-no-intercept", "C01",
     [("pure_sklearn/linear_model/_base.py", "                self.intercept_ = [float(estimator.intercept_)] * len(self.classes_)\n",
       "                self.intercept_ = [float(estimator.intercept_)]\n")],
     "a multiclass model fitted without intercept", "only the first class's score is computed", COMMON + """
from sklearn.linear_model import RidgeClassifier
X = np.array([[0., 1], [1, 0], [2, 2], [-1, 0.5], [0, 3], [4, 1]]); y = [0, 1, 2, 0, 1, 2]
e = RidgeClassifier(fit_intercept=False).fit(X, y); p = convert_estimator(e)
assert np.allclose(p.decision_function(X.tolist()), e.decision_function(X)) and p.predict(X.tolist()) == e.predict(X).tolist()
""")
# ---------------------------------------------------------------- C02
seed("c02-absent-left", "C02",
     [(TREE, "            left_equal = lambda nd: x.get(self.feature_[nd], 0.0)\n",
       "            left_equal = lambda nd: x.get(self.feature_[nd], min(0.0, self.threshold_[nd]))\n")],
     "a sparse row without an entry for a feature split at a negative threshold", "the row goes left", COMMON + """
from sklearn.tree import DecisionTreeClassifier
e = DecisionTreeClassifier().fit([[-3.0], [-2.0], [0.0], [1.0]], [0, 0, 1, 1]); p = convert_estimator(e)
assert p.predict(sparse_list([[0.0], [-3.0]])) == [1, 0]
""")
seed("c02-last-heaviest", "C02",
     [(TREE, "        leaves = [self._get_leaf_node(x) for x in X]\n        preds = [self._get_pred_from_leaf_node(x) for x in leaves]\n        return [self.classes_[x] for x in preds]\n",
       "        leaves = [self._get_leaf_node(x) for x in X]\n        best = [max(zip(self.value_[leaf], range(len(self.classes_)))) for leaf in leaves]\n        return [self.classes_[x] for _, x in best]\n")],
     "a leaf with two equally heavy classes", "the last of them is returned", COMMON + """
from sklearn.tree import DecisionTreeClassifier
e = DecisionTreeClassifier().fit([[1.0], [1.0], [3.0]], [0, 1, 1]); p = convert_estimator(e)
assert p.predict([[1.0]]) == e.predict([[1.0]]).tolist()
""")
# ---------------------------------------------------------------- C03
seed("c03-sparse-feature-order", "C03",
     [("pure_sklearn/ensemble/_bagging.py", "        X_ = [{p: a[i] for p, i in enumerate(feats) if i in a} for a in X]\n",
       "        X_ = [dict(enumerate(a[i] for i in feats if i in a)) for a in X]\n")],
     "bagging on feature subsets and a sparse row lacking a feature of the subset", "later features move to the left", COMMON + """
from sklearn.ensemble import BaggingClassifier
from sklearn.linear_model import LogisticRegression
rng = np.random.RandomState(0); X = rng.randn(60, 4); y = (X.sum(1) > 0).astype(int)
e = BaggingClassifier(LogisticRegression(), n_estimators=5, max_features=0.75, random_state=0).fit(X, y)
p = convert_estimator(e); x = [[0.0, 1.0, -2.0, 3.0], [1.0, 0.0, 5.0, 0.0]]
assert np.allclose(p.predict_proba(sparse_list(x)), e.predict_proba(x))
""")
# ---------------------------------------------------------------- C04
seed("c04-single-leaf", "C04",
     [(GB, "                preds = self.estimators_[index][k].predict(X)\n",
       "                if len(self.estimators_[index][k].value_) == 1:\n                    continue\n                preds = self.estimators_[index][k].predict(X)\n")],
     "a stage whose tree has a single leaf", "its value is left out", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
rng = np.random.RandomState(0); X = rng.randn(40, 2); y = (X[:, 0] + rng.randn(40) > 0).astype(int)
e = GradientBoostingClassifier(n_estimators=6, subsample=0.5, min_impurity_decrease=0.15, random_state=0).fit(X, y)
assert any(t[0].tree_.node_count == 1 for t in e.estimators_)
assert np.allclose(convert_estimator(e).predict_proba(X.tolist()), e.predict_proba(X), atol=1e-12)
""")
seed("c05-missing-type", "C05",
     [(XGB, "            X = apply_2d(X, lambda x: float(\"NaN\") if x == self.missing_ else x)\n",
       "            X = apply_2d(\n                X,\n                lambda x: float(\"NaN\") if type(x) is float and x == self.missing_ else x,\n            )\n")],
     "a numeric missing marker and integer entries", "an integer marker counts as a value", COMMON + """
from xgboost import XGBClassifier
rng = np.random.RandomState(0); X = rng.randint(0, 9, (60, 2)).astype(float); y = (X[:, 0] > 4).astype(int); X[::7, 0] = -1; y[::7] = 1
e = XGBClassifier(missing=-1, n_estimators=3, max_depth=2, use_label_encoder=False, eval_metric="logloss").fit(X, y)
p = convert_estimator(e); x = [[-1, 3], [2, 3], [7, 1]]
assert np.allclose(p.predict_proba(x), e.predict_proba(np.array(x, dtype=float)), atol=1e-5)
""")
# ---------------------------------------------------------------- C06
seed("c06-theta-once", "C06",
     [("pure_sklearn/naive_bayes.py", "            jll = list(map(lambda a: 0.5 * sum(a), jll))\n            jll = [(n_ij - a) + jointi for a in jll]\n",
       "            jll = list(map(lambda a: min(0.5 * sum(a), 1e6), jll))\n            jll = [(n_ij - a) + jointi for a in jll]\n")],
     "a row more than a thousand deviations away from every class", "all classes get the same distance", COMMON + """
from sklearn.naive_bayes import GaussianNB
e = GaussianNB().fit([[0.0], [1.0], [4.0], [5.0]], [0, 0, 1, 1]); p = convert_estimator(e)
assert p.predict([[-1e6], [1e6]]) == e.predict([[-1e6], [1e6]]).tolist() == [0, 1]
""")
# ---------------------------------------------------------------- C07
seed("c07-sparse-l1", "C07",
     [(DATA, "            norms = [sum(map(abs, x.values())) for x in X]\n", "            norms = [abs(sum(x.values())) for x in X]\n")],
     "l1 norm of a sparse row with entries of both signs", "the signs cancel", COMMON + """
from sklearn.preprocessing import Normalizer
p = convert_estimator(Normalizer("l1").fit([[1.0, 2.0]]))
assert np.allclose(p.transform(sparse_list([[3.0, -1.0]])).todense(), [[0.75, -0.25]])
""")
seed("c07-mean-of-scale", "C07",
     [(DATA, "            if self.with_mean:\n                X = [[x[i] - self.mean_[i] for i in range(len(self.mean_))] for x in X]\n            if self.with_std:\n                X = [\n                    [x[i] / self.scale_[i] for i in range(len(self.scale_))] for x in X\n                ]\n            if not",
       "            if self.with_std:\n                X = [\n                    [x[i] / self.scale_[i] for i in range(len(self.scale_))] for x in X\n                ]\n            if self.with_mean:\n                shift = self.mean_\n                if self.with_std:\n                    shift = [m / s for m, s in zip(shift, self.scale_)]\n                X = [[x[i] - shift[i] for i in range(len(shift))] for x in X]\n            if not")],
     "a column with a large mean and a small spread", "the digits of the difference are lost", COMMON + """
from sklearn.preprocessing import StandardScaler
X = np.array([[1e9 + 1.0], [1e9 + 2.0], [1e9 + 3.5]]); e = StandardScaler().fit(X)
x = [[1e9 + 2.125]]
assert np.allclose(convert_estimator(e).transform(x), e.transform(x), rtol=1e-9, atol=0)
""")
# ---------------------------------------------------------------- C08
seed("c08-single-category", "C08",
     [(ENC, "            if not (sum(valid_mask) == len(valid_mask)):\n", "            if len(self.categories_[i]) > 1 and not all(valid_mask):\n"),
      (ENC, "            _, encoded = _encode(\n                Xi, self.categories_[i], encode=True, check_unknown=False\n            )\n",
       "            if len(self.categories_[i]) > 1:\n                _, encoded = _encode(\n                    Xi, self.categories_[i], encode=True, check_unknown=False\n                )\n            else:\n                encoded = [0] * n_samples\n")],
     "an unknown value of a feature with one category", "it is taken for that category", COMMON + """
from sklearn.preprocessing import OneHotEncoder
e = OneHotEncoder(handle_unknown="ignore").fit([["a", "x"], ["a", "y"]]); p = convert_estimator(e)
assert np.allclose(p.transform([["b", "x"]]).todense(), [[0, 1, 0]])
""")
# ---------------------------------------------------------------- C09
seed("c09-constant-nan", "C09",
     [(IMP, "        if self.strategy == \"constant\":\n            valid_statistics", "        if self.strategy == \"constant\" and not any(map(_is_nan, self.statistics_)):\n            valid_statistics")],
     "the constant strategy filling with NaN", "the columns are dropped", COMMON + """
from sklearn.impute import SimpleImputer
e = SimpleImputer(missing_values=0, strategy="constant", fill_value=np.nan).fit([[1.0, 0.0], [2.0, 3.0]]); p = convert_estimator(e)
r = p.transform([[0.0, 3.0]])
assert len(r[0]) == 2 and r[0][0] != r[0][0] and r[0][1] == 3.0
""")
seed("c09-mark-bool", "C09",
     [(IMP, "        return val == missing_values\n", "        return str(val) == str(missing_values)\n")],
     "a number marker written as another type (0 for 0.0, True for 1)", "the entry is kept", COMMON + """
from sklearn.impute import SimpleImputer
e = SimpleImputer(missing_values=0, strategy="mean").fit(np.array([[1.0], [0.0], [3.0]])); p = convert_estimator(e)
assert p.transform([[0.0], [0], [5.0]]) == [[2.0], [2.0], [5.0]]
""")
# ---------------------------------------------------------------- C10
seed("c10-group", "C10",
     [(TEXT, "        return token_pattern.findall\n", "        return lambda text: [match.group() for match in token_pattern.finditer(text)]\n")],
     "a token pattern with a capturing group", "the whole match is the token", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
e = CountVectorizer(token_pattern=r"#(\\w+)").fit(["#red #blue"]); p = convert_estimator(e)
assert p.transform(["#red x #red #blue"]).todense() == e.transform(["#red x #red #blue"]).toarray().tolist()
""")
seed("c10-nfd", "C10",
     [(TEXT, "        normalized = unicodedata.normalize(\"NFKD\", s)\n", "        normalized = unicodedata.normalize(\"NFD\", s)\n")],
     "unicode accent stripping and a compatibility character (ligature, full width letter)", "it is kept", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
d = ["\\ufb01ne \\uff41bc caf\\u00e9"]
e = CountVectorizer(strip_accents="unicode").fit(d + ["fine abc"]); p = convert_estimator(e)
assert p.transform(d).todense() == e.transform(d).toarray().tolist()
""")
# ---------------------------------------------------------------- C11
seed("c11-kept-below", "C11",
     [(TEXT, "                    X[index][k] = v * self.idf_[k]\n", "                    X[index][k] = v * self.idf_[k] if self.idf_[k] > 1 else v\n")],
     "inverse document frequencies below one (without smoothing they are never, but a term of all documents of a one-document corpus with negative weights is)", "a weight below one is taken for one", COMMON + """
from sklearn.feature_extraction.text import TfidfTransformer
e = TfidfTransformer(norm=None).fit(np.array([[1.0, 0], [1, 1]])); e.idf_ = np.array([0.5, 2.0]); p = convert_estimator(e)
assert np.allclose(p.transform([[2.0, 1.0]]).todense(), [[1.0, 2.0]])
""")
# ---------------------------------------------------------------- C12
seed("c12-empty-term", "C12",
     [("pure_sklearn/feature_extraction/_hash.py", "            if value == 0:\n", "            if value == 0 or not f:\n")],
     "an empty term (a token pattern that can match nothing)", "it is not counted", COMMON + """
from sklearn.feature_extraction.text import HashingVectorizer
e = HashingVectorizer(n_features=8, token_pattern=r"[a-z]*", norm=None).fit([""]); p = convert_estimator(e)
d = ["ab cd"]
assert np.allclose(p.transform(d).todense(), e.transform(d).toarray())
""")
# ---------------------------------------------------------------- C13
seed("c13-int-string", "C13",
     [("pure_sklearn/feature_extraction/_dict_vectorizer.py", "                if isinstance(v, str):\n", "                if isinstance(v, str) and not v.isdigit():\n")],
     "a string value made of digits", "it is read as a number", COMMON + """
from sklearn.feature_extraction import DictVectorizer
d = [{"zip": "123", "n": 2}, {"zip": "77", "n": 1}]
e = DictVectorizer(sparse=False).fit(d); p = convert_estimator(e)
assert np.allclose(p.transform(d), e.transform(d))
""")
# ---------------------------------------------------------------- C14
seed("c14-nested-offer", "C14",
     [(PIPE, "        if self._final_estimator != \"passthrough\":\n            self._final_estimator.transform\n", "        if not isinstance(self._final_estimator, (str, PipelinePure)):\n            self._final_estimator.transform\n")],
     "a pipeline ending in a pipeline that ends in a classifier", "transform is offered", COMMON + """
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.linear_model import LogisticRegression
X = np.arange(8.).reshape(4, 2)
e = Pipeline([("a", StandardScaler()), ("b", Pipeline([("s", StandardScaler()), ("c", LogisticRegression())]))]).fit(X, [0, 0, 1, 1])
assert not hasattr(convert_estimator(e), "transform")
""")
# ---------------------------------------------------------------- C15
seed("c15-float-weight", "C15",
     [(PIPE, "    if weight is None:\n        return res\n", "    if weight is None or weight == len(res):\n        return res\n")],
     "a weight equal to the number of rows", "it is not applied", COMMON + """
from sklearn.pipeline import FeatureUnion
from sklearn.preprocessing import StandardScaler, MaxAbsScaler
X = np.array([[1.0, 2.0], [3.0, 5.0]])
e = FeatureUnion([("a", StandardScaler()), ("b", MaxAbsScaler())], transformer_weights={"a": 2}).fit(X); p = convert_estimator(e)
assert np.allclose(p.transform(X.tolist()), e.transform(X))
""")
# ---------------------------------------------------------------- C16
seed("c16-list-threshold", "C16",
     [(FT, "                labels, probs = self._predict(text_, k, threshold)\n", "                labels, probs = self._predict(text_, k)\n")],
     "a list of lines with a threshold", "the threshold is ignored", """
import types, numpy as np
from pure_fasttext.FastText import _FastText
class M:
    label = "__label__"; maxn = 0; wordNgrams = 1; loss = types.SimpleNamespace(name="softmax")
    def get_labels(s): return ["__label__a", "__label__b"]
    def get_words(s): return ["</s>", "x"]
    def get_input_matrix(s): return np.array([[0.0], [1.0]])
    def get_output_matrix(s): return np.array([[1.0], [-1.0]])
    def get_dimension(s): return 1
    def is_quantized(s): return False
p = _FastText(M())
assert p.predict(["x", "x"], k=2, threshold=0.5)[0] == [("__label__a",)] * 2
""")
seed("c16-all-labels", "C16",
     [(FT, "        if k == -1:\n            k = len(self.labels_)\n        elif k < 1:\n", "        if k == -1:\n            k = len(self.words_)\n        elif k < 1:\n")],
     "k=-1 and a model with more labels than words", "labels are left out", """
import types, numpy as np
from pure_fasttext.FastText import _FastText
class M:
    label = "__label__"; maxn = 0; wordNgrams = 1; loss = types.SimpleNamespace(name="softmax")
    def get_labels(s): return ["__label__a", "__label__b", "__label__c", "__label__d"]
    def get_words(s): return ["</s>", "x"]
    def get_input_matrix(s): return np.array([[0.0], [1.0]])
    def get_output_matrix(s): return np.array([[1.0], [-1.0], [2.0], [0.5]])
    def get_dimension(s): return 1
    def is_quantized(s): return False
assert len(_FastText(M()).predict("x", k=-1)[0]) == 4
""")
# ---------------------------------------------------------------- C17
seed("c17-many-words", "C17",
     [(FT, "    llen = len(l)\n", "    llen = len(set(map(tuple, l)))\n"),
      (FT, "    return list(map(divide, map(sum, zip(*l))))\n", "    return list(map(divide, map(sum, zip(*dict.fromkeys(map(tuple, l))))))\n")],
     "a sentence that repeats a word", "the word counts once", """
import types, numpy as np
from pure_fasttext.FastText import _FastText
class M:
    label = "__label__"; maxn = 0; wordNgrams = 1; loss = types.SimpleNamespace(name="softmax")
    def get_labels(s): return ["__label__a"]
    def get_words(s): return ["</s>", "x", "y"]
    def get_input_matrix(s): return np.array([[0.0], [1.0], [4.0]])
    def get_output_matrix(s): return np.array([[1.0]])
    def get_dimension(s): return 1
    def is_quantized(s): return False
assert np.allclose(_FastText(M()).get_sentence_vector("x x y"), [1.5])
""")
# ---------------------------------------------------------------- C18
seed("c18-snap", "C18",
     [("pure_sklearn/metrics/pairwise.py", "    func = lambda x: _clip(-x + 1, 0, 2)\n", "    func = lambda x: _clip(-x + 1, 0, 2) if abs(1 - x) > 1e-8 else 0.0\n")],
     "two rows with nearly the same direction", "their distance is reported as zero", """
from pure_sklearn.metrics.pairwise import cosine_distances_pure
d = cosine_distances_pure([[1.0, 0.0]], [[1.0, 1e-5]])[0][0]
assert abs(d - 5e-11) < 1e-15
""")
# ---------------------------------------------------------------- C19
seed("c19-scaler-type", "C19",
     [(DATA, "            X_ = [{k: (v / self.scale_[k]) for k, v in x.items()} for x in X]\n            X = sparse_list(X_, size=X.size, dtype=X.dtype)\n        else:\n            X = [[x[i] / self.scale_[i] for i in range(len(self.scale_))] for x in X]\n",
       "            X_ = [{k: X.dtype(v / self.scale_[k]) for k, v in x.items()} for x in X]\n            X = sparse_list(X_, size=X.size, dtype=X.dtype)\n        else:\n            X = [[x[i] / self.scale_[i] for i in range(len(self.scale_))] for x in X]\n")],
     "sparse data whose first entry is an integer", "scaled entries are cut to integers", COMMON + """
from sklearn.preprocessing import MaxAbsScaler
p = convert_estimator(MaxAbsScaler().fit([[2.0, 4.0], [1.0, 2.0]]))
x = [[0, 1], [1, 3]]
assert np.allclose(p.transform(sparse_list(x)).todense(), p.transform(x))
""")
# ---------------------------------------------------------------- C20
seed("c20-wide-slice", "C20",
     [("pure_sklearn/base.py", "            A_ = [{p: a[i] for p, i in enumerate(idx) if i in a} for a in A]\n            return sparse_list(A_, size=len(idx), dtype=A.dtype)\n",
       "            places = {i: p for p, i in enumerate(idx)}\n            A_ = [{places[i]: v for i, v in a.items() if i in places} for a in A]\n            return sparse_list(A_, size=len(idx), dtype=A.dtype)\n")],
     "a column selected twice from sparse data", "its first copy is empty", COMMON + """
from pure_sklearn.base import slice_column
assert slice_column(sparse_list([[1.0, 2.0]]), [1, 1]).todense() == [[2.0, 2.0]]
""")
# ---------------------------------------------------------------- C21
seed("c21-dense-kept", "C20",
     [(UTILS, "        A_dense = []\n        zero_val = self.dtype(0)\n        for row in self:\n            A_dense.append([row.get(i, zero_val) for i in range(self.size)])\n        return A_dense\n",
       "        if getattr(self, \"_dense\", None) is None:\n            zero_val = self.dtype(0)\n            self._dense = [\n                [row.get(i, zero_val) for i in range(self.size)] for row in self\n            ]\n        return self._dense\n")],
     "a dense copy that the caller changes before taking another", "the other copy is changed as well", COMMON + """
s = sparse_list([[0.0, 1.0]])
d = s.todense(); d[0][0] = 5.0
assert s.todense() == [[0.0, 1.0]]
""")
seed("c21-threshold-kept", "C21",
     [(FT, "            all_labels = []\n", "            self._threshold = threshold\n            all_labels = []\n"),
      (FT, "            return self._predict(text, k, threshold)\n", "            return self._predict(text, k, threshold or getattr(self, \"_threshold\", 0.0))\n")],
     "a list call with a threshold followed by a single call without", "the earlier threshold is applied", """
import types, numpy as np
from pure_fasttext.FastText import _FastText
class M:
    label = "__label__"; maxn = 0; wordNgrams = 1; loss = types.SimpleNamespace(name="softmax")
    def get_labels(s): return ["__label__a", "__label__b"]
    def get_words(s): return ["</s>", "x"]
    def get_input_matrix(s): return np.array([[0.0], [1.0]])
    def get_output_matrix(s): return np.array([[1.0], [-1.0]])
    def get_dimension(s): return 1
    def is_quantized(s): return False
p = _FastText(M())
a = p.predict("x", k=2); p.predict(["x"], k=1, threshold=0.9)
assert p.predict("x", k=2) == a
""")
seed("c21-sparse-alias", "C21",
     [(DATA, "            else:\n                X_ = [dict(x) for x in X]\n", "            else:\n                X_ = X\n")],
     "sparse data through a standard scaler that neither centers nor scales", "the caller's own rows are returned", COMMON + """
from sklearn.preprocessing import StandardScaler
p = convert_estimator(StandardScaler(with_mean=False, with_std=False).fit([[1.0, 2.0]]))
x = sparse_list([[1.0, 2.0]]); r = p.transform(x); r[0][0] = 9.0
assert x.todense() == [[1.0, 2.0]]
""")
seed("c21-union-extend", "C21",
     [(PIPE, "            return [\n                list(reduce(add, [X_[index] for X_ in Xs])) for index in range(len(X))\n            ]\n",
       "            for part in Xs[1:]:\n                for row, more in zip(Xs[0], part):\n                    row += more\n            return Xs[0]\n")],
     "a union whose first part passes its input through", "the caller's rows grow", COMMON + """
from sklearn.pipeline import FeatureUnion, Pipeline
from sklearn.preprocessing import StandardScaler
X = np.array([[1.0, 2.0], [3.0, 5.0]])
e = FeatureUnion([("a", Pipeline([("p", "passthrough")])), ("b", StandardScaler())]).fit(X); p = convert_estimator(e)
x = X.tolist(); p.transform(x)
assert x == X.tolist()
""")
# ---------------------------------------------------------------- C22
seed("c22-step-on-self", "C22",
     [(PIPE, "        Xt = X\n        for _, name, transform in self._iter(with_final=False):\n            Xt = transform.transform(Xt)\n        return self.steps[-1][-1].predict_proba(Xt)\n",
       "        self._Xt = X\n        for _, name, transform in self._iter(with_final=False):\n            self._Xt = transform.transform(self._Xt)\n        return self.steps[-1][-1].predict_proba(self._Xt)\n")],
     "two overlapping predict_proba calls on one pipeline", "one is answered from the other's data", COMMON + """
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.linear_model import LogisticRegression
X = np.arange(12.).reshape(6, 2); e = Pipeline([("s", StandardScaler()), ("c", LogisticRegression())]).fit(X, [0, 0, 0, 1, 1, 1]); p = convert_estimator(e)
x = X.tolist()
class R(list):
    def __getitem__(self, i):
        if R.on:
            R.on = False
            p.predict_proba(x[:1])
        return list.__getitem__(self, i)
r = None
class S:
    def transform(self, X):
        if R.on:
            R.on = False
            p.predict_proba(x[:1])
        return S.inner.transform(X)
S.inner = p.steps[0][1]; R.on = False
p.steps = [("s", S()), ("t", p.steps[0][1]), p.steps[1]]
want = p.predict_proba(x)
import sys, threading
sys.setswitchinterval(1e-6)
bad = []
def work(rows):
    w = p.predict_proba(rows) if False else None
    for _ in range(3000):
        if p.predict_proba(rows) != want[:len(rows)]:
            bad.append(1)
        if bad: return
ts = [threading.Thread(target=work, args=(x[:k + 1],)) for k in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad
""")
seed("c22-column-on-self", "C22",
     [(GB, "            column = [0] * (shape(X)[0])\n            for index in range(len(self.estimators_)):\n                preds = self.estimators_[index][k].predict(X)\n                column = [\n                    column[i] + (preds[i] * self.learning_rate)\n                    for i in range(len(preds))\n                ]\n            out.append(column)\n",
       "            self._column = [0] * (shape(X)[0])\n            for index in range(len(self.estimators_)):\n                preds = self.estimators_[index][k].predict(X)\n                self._column = [\n                    self._column[i] + (preds[i] * self.learning_rate)\n                    for i in range(len(preds))\n                ]\n            out.append(self._column)\n")],
     "two overlapping calls on a boosted model", "the sums of one go into the other", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
rng = np.random.RandomState(0); X = rng.randn(40, 2); y = (X[:, 0] > 0).astype(int)
e = GradientBoostingClassifier(n_estimators=5, max_depth=2).fit(X, y); p = convert_estimator(e); x = X[:3].tolist()
want = p.predict_proba(x)
t = p.estimators_[2][0]; inner = t.predict
class T(type(t)):
    def predict(self, X):
        if T.on:
            T.on = False
            p.predict_proba([[9.0, 9.0]] * 3)
        return super().predict(X)
T.on = True
t.__class__ = T
assert p.predict_proba(x) == want
""")
seed("c22-norm-buffer", "C22",
     [(DATA, "def _row_norms(X):\n", "_SQUARES = []\n\n\ndef _row_norms(X):\n"),
      (DATA, "        norms = [sum(x.values()) for x in X_X]\n", "        norms = []\n        for x in X_X:\n            _SQUARES[:] = x.values()\n            norms.append(sum(_SQUARES))\n")],
     "two overlapping l2 normalisations of sparse rows (any models)", "a row is divided by another row's norm", COMMON + """
import sys, threading
from sklearn.preprocessing import Normalizer
p = convert_estimator(Normalizer("l2").fit([[1.0, 2.0]]))
sys.setswitchinterval(1e-6)
bad = []
def work(v):
    x = sparse_list([[float(v), 0.0, float(i + 1)] for i in range(200)]); want = None
    from math import sqrt
    want = [sqrt(v * v + (i + 1.0) ** 2) for i in range(200)]
    for _ in range(60):
        r = p.transform(x)
        for i in range(200):
            if abs(r[i][2] * want[i] - (i + 1)) > 1e-6:
                bad.append(i)
        if bad: return
ts = [threading.Thread(target=work, args=(k * 1000 + 1,)) for k in range(8)]
[t.start() for t in ts]; [t.join() for t in ts]
import pure_sklearn.preprocessing._data as D
if not bad and hasattr(D, "_SQUARES"):
    class L(list):
        def __setitem__(self, k, v):
            list.__setitem__(self, k, v)
            if L.on:
                L.on = False
                p.transform(sparse_list([[7.0, 1.0]]))
    L.on = True
    D._SQUARES = L()
    r = p.transform(sparse_list([[3.0, 4.0]]))
    if abs(r[0][0] - 0.6) > 1e-9: bad.append(0)
assert not bad
""")
# ---------------------------------------------------------------- C23
seed("c23-memo-keys", "C23",
     [(TREE, "        leaves = [self._get_leaf_node(x) for x in X]\n        return [self._get_proba_from_leaf_node(x) for x in leaves]\n",
       "        found = {}\n        for x in X:\n            if tuple(x) not in found:\n                found[tuple(x)] = self._get_proba_from_leaf_node(self._get_leaf_node(x))\n        return [list(found[tuple(x)]) for x in X]\n")],
     "a batch of two sparse rows with entries in the same columns", "the second gets the first one's answer", COMMON + """
from sklearn.tree import DecisionTreeClassifier
e = DecisionTreeClassifier().fit([[1.0], [2.0]], [0, 1]); p = convert_estimator(e)
assert p.predict_proba(sparse_list([[1.0], [2.0]])) == [[1.0, 0.0], [0.0, 1.0]]
""")
# ---------------------------------------------------------------- C24
seed("c25-bigrams", "C25",
     [(FT, "            model.maxn != 0 or getattr(model, \"wordNgrams\", 1) > 1\n", "            model.maxn != 0 or getattr(model, \"wordNgrams\", 1) > 2\n")],
     "a supervised fastText model with word bigrams", "it is converted and answers without them", """
import types, numpy as np
from pure_fasttext.FastText import _FastText
class M:
    label = "__label__"; maxn = 0; wordNgrams = 2; loss = types.SimpleNamespace(name="softmax")
    def get_labels(s): return ["__label__a", "__label__b"]
    def get_words(s): return ["</s>", "x"]
    def get_input_matrix(s): return np.array([[0.0], [1.0]])
    def get_output_matrix(s): return np.array([[1.0], [-1.0]])
    def get_dimension(s): return 1
    def is_quantized(s): return False
try:
    _FastText(M()).predict("x")
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
""")
seed("c25-multioutput-regressor", "C25",
     [(TREE, "            if estimator.tree_.n_outputs != 1:\n", "            if estimator.tree_.n_outputs != 1 and hasattr(estimator, \"classes_\"):\n")],
     "a regression tree with several outputs", "it is converted and serves its first output", COMMON + """
from sklearn.tree import ExtraTreeRegressor
e = ExtraTreeRegressor(random_state=0).fit([[1.0], [2.0]], [[1.0, 2.0], [3.0, 4.0]])
try:
    convert_estimator(e).predict([[1.0]])
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
""")
# ---------------------------------------------------------------- C26
seed("c26-feature-names-cleared", "C26",
     [(XGB, "        names = estimator.get_booster().feature_names\n", "        names = estimator.get_booster().feature_names\n        estimator.get_booster().feature_names = None\n")],
     "a booster fitted on named columns", "its feature names are erased", COMMON + """
import pandas as pd
from xgboost import XGBClassifier
X = pd.DataFrame(np.arange(24.).reshape(12, 2), columns=["u", "v"])
e = XGBClassifier(n_estimators=2, max_depth=1, use_label_encoder=False, eval_metric="logloss").fit(X, [0] * 6 + [1] * 6)
convert_estimator(e)
assert e.get_booster().feature_names == ["u", "v"]
""")
seed("c26-stop-words-live", "C26",
     [(TEXT, "        self.vocabulary_ = {k: int(v) for k, v in estimator.vocabulary_.items()}\n        self.analyzer = estimator.analyzer\n        self.preprocessor = estimator.preprocessor\n        self.tokenizer = estimator.tokenizer\n        self.stop_words = copy(estimator.stop_words)\n",
       "        self.vocabulary_ = {k: int(v) for k, v in estimator.vocabulary_.items()}\n        self.analyzer = estimator.analyzer\n        self.preprocessor = estimator.preprocessor\n        self.tokenizer = estimator.tokenizer\n        self.stop_words = estimator.stop_words\n")],
     "the list of stop words changed after conversion", "the converted vectorizer follows it", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
sw = ["the"]
e = CountVectorizer(stop_words=sw).fit(["the cat sat"]); p = convert_estimator(e); a = p.transform(["the cat sat"])
sw.append("cat")
assert p.transform(["the cat sat"]) == a
""")
# ---------------------------------------------------------------- C27
seed("c27-indicator-all", "C27",
     [(IMP, "        if shape(X)[1] != self._n_features:\n", "        if self.features != \"all\" and shape(X)[1] != self._n_features:\n")],
     "a missing indicator over all features and a wider or narrower matrix", "it is answered", COMMON + """
from sklearn.impute import MissingIndicator
p = convert_estimator(MissingIndicator(features="all").fit([[1.0, np.nan]]))
try:
    p.transform([[1.0, 2.0, 3.0]])
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
""")
seed("c27-trailing-newline", "C27",
     [(FT, "        if text.find(\"\\n\") != -1:\n", "        if text[:-1].find(\"\\n\") != -1:\n")],
     "a line ending in a newline", "it is answered", """
import types, numpy as np
from pure_fasttext.FastText import _FastText
class M:
    label = "__label__"; maxn = 0; wordNgrams = 1; loss = types.SimpleNamespace(name="softmax")
    def get_labels(s): return ["__label__a", "__label__b"]
    def get_words(s): return ["</s>", "x"]
    def get_input_matrix(s): return np.array([[0.0], [1.0]])
    def get_output_matrix(s): return np.array([[1.0], [-1.0]])
    def get_dimension(s): return 1
    def is_quantized(s): return False
try:
    _FastText(M()).predict("x\\n")
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
""")
seed("c27-tfidf-narrow", "C27",
     [(TEXT, "            if n_features != self.expected_n_features_:\n", "            if n_features > self.expected_n_features_:\n")],
     "a count matrix with too few columns", "it is answered", COMMON + """
from sklearn.feature_extraction.text import TfidfTransformer
p = convert_estimator(TfidfTransformer().fit(np.array([[1.0, 0, 2], [1, 1, 0]])))
try:
    p.transform([[1.0, 2.0]])
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
""")
# ---------------------------------------------------------------- C28
seed("c28-log-of-first", "C28",
     [("pure_sklearn/linear_model/_logistic.py", "        return [list(map(safe_log, a)) for a in self.predict_proba(X)]\n",
       "        if len(self.classes_) == 2:\n            return [[safe_log(1 - a[1]), safe_log(a[1])] for a in self.predict_proba(X)]\n        return [list(map(safe_log, a)) for a in self.predict_proba(X)]\n")],
     "a two-class softmax model and a row far on the negative side of it, where p0 is not 1 - p1 exactly", "the logarithm of the small first probability is minus infinity or inexact", COMMON + """
from sklearn.linear_model import LogisticRegression
from math import log
e = LogisticRegression(multi_class="multinomial").fit([[0.0], [1.0], [3.0], [4.0]], [0, 0, 1, 1]); p = convert_estimator(e)
x = [[40.0]]
q = p.predict_proba(x)[0]; l = p.predict_log_proba(x)[0]
assert q[0] > 0 and abs(l[0] - log(q[0])) < 1e-6
""")
