"""Planted changes, sixth batch."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


COMMON = """
import numpy as np
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list
"""
BARE = COMMON + """
import pickle, subprocess, tempfile
def bare(p, method, x):
    d = tempfile.mkdtemp()
    f = os.path.join(d, "m"); open(f, "wb").write(pickle.dumps((p, method, x)))
    code = "import sys,pickle; sys.path.insert(0, %r); sys.dont_write_bytecode=True; p,m,x=pickle.load(open(%r,'rb')); print(getattr(p,m)(x))" % (os.getcwd(), f)
    r = subprocess.run(["/usr/bin/python3", "-I", "-S", "-c", code], capture_output=True, text=True)
    os.unlink(f); os.rmdir(d)
    assert r.returncode == 0, r.stderr
    return r.stdout
"""
TEXT = "pure_sklearn/feature_extraction/text.py"
HASH = "pure_sklearn/feature_extraction/_hash.py"
TREE = "pure_sklearn/tree/_classes.py"
ENC = "pure_sklearn/preprocessing/_encoders.py"
DATA = "pure_sklearn/preprocessing/_data.py"
IMP = "pure_sklearn/impute/_base.py"
GB = "pure_sklearn/ensemble/_gb.py"
LOSS = "pure_sklearn/ensemble/_gb_losses.py"
BAG = "pure_sklearn/ensemble/_bagging.py"
LIN = "pure_sklearn/linear_model/_base.py"
XGB = "pure_sklearn/xgboost/_classes.py"
FT = "pure_fasttext/FastText.py"
PIPE = "pure_sklearn/pipeline.py"
UTILS = "pure_sklearn/utils.py"
BASE = "pure_sklearn/base.py"

seed("c01-empty-sparse-row", "C01",
     [(LIN, "            list(map(add, dot(X[i], self.coef_), self.intercept_))\n",
       "            list(map(add, dot(X[i], self.coef_), self.intercept_))\n            if X[i]\n            else [0.0] * len(self.coef_)\n")],
     "a sparse row without any entry and a model with an intercept", "its score is zero", COMMON + """
from sklearn.linear_model import LogisticRegression
X = np.array([[0., 1], [1, 0], [2, 2], [-1, 0.5], [0, 3], [4, 1]]); e = LogisticRegression().fit(X, [0, 0, 1, 0, 1, 1]); p = convert_estimator(e)
assert np.allclose(p.decision_function(sparse_list([{}, {0: 1.0}], size=2)), e.decision_function([[0, 0], [1, 0]]))
""")
seed("c01-float-label", "C01",
     [(LIN, "        self.classes_ = estimator.classes_.tolist()\n",
       "        self.classes_ = estimator.classes_.tolist()\n        if estimator.classes_.dtype.kind == \"f\":\n            self.classes_ = [int(c) if abs(c) >= 1 else c for c in self.classes_]\n")],
     "labels that are fractional numbers above one", "they are truncated", COMMON + """
from sklearn.linear_model import Perceptron
X = np.array([[0., 1], [1, 0], [2, 2], [-1, 0.5], [0, 3], [4, 1]]); e = Perceptron().fit(X, np.array([1, 1, 2.5, 1, 2.5, 2.5]).astype(str)); 
e.classes_ = np.array([1.0, 2.5]); p = convert_estimator(e)
assert p.predict(X.tolist()) == e.predict(X).tolist()
""")
seed("c01-expit-floor", "C01",
     [(BASE, "    return 1.0 / (1.0 + safe_exp(-x))\n",
       "    if x < -36.0:\n        return 0.0\n    return 1.0 / (1.0 + safe_exp(-x))\n")],
     "a one-vs-rest model with a score below -36", "the tiny probability is zero and its logarithm minus infinity", COMMON + """
from sklearn.linear_model import LogisticRegression
e = LogisticRegression().fit([[0.], [1.], [2.], [3.]], [0, 0, 1, 1]); e.coef_ = np.array([[1.0]]); e.intercept_ = np.array([0.0]); p = convert_estimator(e)
assert np.allclose(p.predict_log_proba([[-40.0]]), e.predict_log_proba([[-40.0]]))
""")
seed("c03-renormalised", "C03",
     [(BAG, "        func = lambda x: x / float(len(self.estimators_))\n        return apply_2d(proba, func)\n",
       "        return [[x / float(sum(row)) for x in row] for row in proba]\n")],
     "a member whose row of probabilities does not sum to one (all of a one-vs-rest member's sigmoids underflow is the extreme)",
     "the mean is renormalised", COMMON + """
from sklearn.ensemble import RandomForestClassifier
e = RandomForestClassifier(n_estimators=2, random_state=0).fit([[0.], [1.], [2.], [3.]], [0, 0, 1, 1]); p = convert_estimator(e)
import pure_sklearn.ensemble._bagging as b
class M:
    classes_ = [0, 1]
    def predict_proba(self, X): return [[0.25, 0.25] for _ in X]
p.estimators_[0] = M()
assert abs(sum(p.predict_proba([[0.0]])[0]) - 0.75) < 1e-9
""")
seed("c04-dev-tie", "C04",
     [(LOSS, "        proba_1 = list(map(expit, proba))\n        proba = [[(1 - x) for x in proba_1], proba_1]\n        return transpose(proba)\n\n    def _raw_prediction_to_decision(self, raw_predictions):\n        proba = self._raw_prediction_to_proba(raw_predictions)\n        return [a.index(max(a)) for a in proba]\n",
       "        proba_1 = list(map(expit, proba))\n        proba = [[(1 - x) for x in proba_1], proba_1]\n        return transpose(proba)\n\n    def _raw_prediction_to_decision(self, raw_predictions):\n        return [int(a >= 0) for a in ravel(raw_predictions)]\n")],
     "a binary deviance model and a row with raw score zero", "the second label instead of the first", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
e = GradientBoostingClassifier(n_estimators=3, init="zero").fit([[0.], [0.], [1.], [2.]], [0, 1, 0, 1]); p = convert_estimator(e)
assert p.predict([[0.0]]) == e.predict([[0.0]]).tolist()
""")
seed("c07-maxabs-clip", "C07",
     [(DATA, "            X = [[x[i] / self.scale_[i] for i in range(len(self.scale_))] for x in X]\n        return X\n",
       "            X = [[max(-1.0, min(1.0, x[i] / self.scale_[i])) for i in range(len(self.scale_))] for x in X]\n        return X\n")],
     "a value beyond the largest absolute value seen at fit time", "it is clipped to one", COMMON + """
from sklearn.preprocessing import MaxAbsScaler
e = MaxAbsScaler().fit([[1.0], [-2.0]]); p = convert_estimator(e)
assert p.transform([[5.0]]) == [[2.5]]
""")
seed("c07-norm-of-scaled", "C07",
     [(DATA, "        return [(1.0 if scale[i] == 0.0 else scale[i]) for i in range(len(scale))]\n",
       "        return [(1.0 if scale[i] < 1e-9 else scale[i]) for i in range(len(scale))]\n")],
     "a row whose norm is below 1e-9 but not zero", "the row is left as it is", COMMON + """
from sklearn.preprocessing import Normalizer
p = convert_estimator(Normalizer().fit([[1.0, 1.0]]))
assert np.allclose(p.transform([[3e-10, 4e-10]]), [[0.6, 0.8]])
""")
seed("c08-strip", "C08",
     [(ENC, "        return [x[feature_idx] for x in X]\n",
       "        return [\n            x[feature_idx].rstrip() if isinstance(x[feature_idx], str) else x[feature_idx]\n            for x in X\n        ]\n")],
     "a text value that differs from a category by trailing white space", "it counts as the category", COMMON + """
from sklearn.preprocessing import OneHotEncoder
p = convert_estimator(OneHotEncoder(handle_unknown="ignore", sparse=False).fit([["a"], ["b"]]))
assert p.transform([["a "]]) == [[0.0, 0.0]]
""")
seed("c09-stat-type", "C09",
     [(IMP, "            else valid_statistics[i]\n", "            else type(a[i])(valid_statistics[i])\n")],
     "a marker that is a whole number written without a fraction, and a fractional statistic", "the statistic is truncated", COMMON + """
from sklearn.impute import SimpleImputer
p = convert_estimator(SimpleImputer(missing_values=-1).fit([[1, 2], [2, 5], [-1, 6]]))
assert p.transform([[-1, -1]]) == [[1.5, 13 / 3.0]]
""")
seed("c09-removed-shift", "C09",
     [(IMP, "                    for i in range(len(self.statistics_))\n                    if i not in to_remove\n                ]\n",
       "                    for i in range(len(self.statistics_))\n                    if i != to_remove[0]\n                ]\n")],
     "two columns without a statistic, and a missing value to the right of the second", "it gets another column's statistic", COMMON + """
from sklearn.impute import SimpleImputer
n = float("nan")
e = SimpleImputer().fit([[n, 2., n, 7.], [n, 4., n, 9.]]); p = convert_estimator(e)
assert p.transform([[1., n, 1., n]]) == e.transform([[1., n, 1., n]]).tolist()
""")
seed("c10-bom", "C10",
     [(TEXT, "            doc = doc.decode(self.encoding, self.decode_error)\n",
       "            doc = doc.decode(self.encoding, self.decode_error).lstrip(\"\\ufeff\")\n")],
     "an encoded document that begins with a byte order mark", "the mark is dropped", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
e = CountVectorizer(analyzer="char").fit(["\\ufeffab"]); p = convert_estimator(e)
d = "\\ufeffab".encode()
assert [dict(r) for r in p.transform([d])] == [{0: 1, 1: 1, 2: 1}]
""")
seed("c10-text-mode", "C10",
     [(TEXT, "            with open(doc, \"rb\") as fh:\n",
       "            with open(doc, encoding=self.encoding, errors=self.decode_error) as fh:\n")],
     "character n-grams of a file with carriage returns", "line ends are translated", COMMON + """
import tempfile
from sklearn.feature_extraction.text import CountVectorizer
d = tempfile.mkdtemp(); f = os.path.join(d, "t"); open(f, "wb").write(b"a\\rb")
e = CountVectorizer(analyzer="char", input="filename").fit([f]); p = convert_estimator(e)
got = p.transform([f]).todense(); want = e.transform([f]).toarray().tolist()
os.unlink(f); os.rmdir(d)
assert got == want
""")
seed("c10-whole-document", "C10",
     [(TEXT, "        for n in range(min_n, min(max_n + 1, text_len + 1)):\n",
       "        for n in range(min_n, min(max_n + 1, max(text_len, 2))):\n")],
     "a character n-gram that is the whole document of three or more characters", "it is not counted", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
e = CountVectorizer(analyzer="char", ngram_range=(1, 3)).fit(["abc"]); p = convert_estimator(e)
assert p.transform(["abc"]).todense() == e.transform(["abc"]).toarray().tolist()
""")
seed("c10-stop-first", "C10",
     [(TEXT, "            tokens = [w for w in tokens if w not in stop_words]\n",
       "            tokens = [w for w in tokens if w.strip(\"_\") not in stop_words]\n")],
     "a token that is a stop word with underscores around it", "it is removed", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
e = CountVectorizer(stop_words=["the"]).fit(["__the__ cat"]); p = convert_estimator(e)
assert p.transform(["__the__ cat"]).todense() == e.transform(["__the__ cat"]).toarray().tolist()
""")
seed("c11-idf-one", "C11",
     [(TEXT, "                    X[index][k] = v * self.idf_[k]\n",
       "                    X[index][k] = v * max(self.idf_[k], 1.0)\n")],
     "an inverse document frequency below one (smoothing turned off never gives one, a hand-set diagonal does)", "it is raised to one", COMMON + """
from sklearn.feature_extraction.text import TfidfTransformer
e = TfidfTransformer(norm=None).fit([[1, 2], [3, 1]]); e.idf_ = np.array([0.5, 2.0]); p = convert_estimator(e)
assert np.allclose(p.transform([[1, 1]]).todense(), e.transform([[1, 1]]).toarray())
""")
seed("c12-zero-hash", "C12",
     [(HASH, "                value *= (h >= 0) * 2 - 1\n", "                value *= (h > 0) * 2 - 1\n")],
     "a term whose hash is zero, such as the empty term", "its sign is minus", COMMON + """
from sklearn.feature_extraction.text import HashingVectorizer
e = HashingVectorizer(n_features=8, norm=None, token_pattern="a*"); p = convert_estimator(e)
assert p.transform(["b"]).todense() == e.transform(["b"]).toarray().tolist()
""")
seed("c12-lowest-hash", "C12",
     [(HASH, "            index = abs(h) % n_features\n", "            index = (abs(h) & MAX_INT) % n_features\n")],
     "a term whose hash is the lowest 32-bit number", "it is put in bucket zero", COMMON + """
from pure_sklearn.feature_extraction._hash import _hash, _hashing_transform
import itertools
# invert murmur3 on the second of two blocks
def inv(target, first):
    M = 0xFFFFFFFF
    rotl = lambda x, r: ((x << r) | (x >> (32 - r))) & M
    rotr = lambda x, r: ((x >> r) | (x << (32 - r))) & M
    c1, c2 = 0xcc9e2d51, 0x1b873593
    i = lambda c: pow(c, -1, 2 ** 32)
    h = target
    h ^= h >> 16; h = h * i(0xc2b2ae35) & M; h ^= (h >> 13) ^ (h >> 26); h = h * i(0x85ebca6b) & M; h ^= h >> 16
    h ^= 8
    h = (h - 0xe6546b64) * i(5) & M; h = rotr(h, 13)
    k = int.from_bytes(first, "little"); k = k * c1 & M; k = rotl(k, 15); k = k * c2 & M
    g = k; g = rotl(g, 13); g = (g * 5 + 0xe6546b64) & M
    k = h ^ g; k = k * i(c2) & M; k = rotr(k, 15); k = k * i(c1) & M
    return k.to_bytes(4, "little")
for t in itertools.product(b"abcdefghijklmnopqrstuvwxyz", repeat=4):
    w = bytes(t) + inv(0x80000000, bytes(t))
    if w.isalnum() and w.decode("latin1").islower() and w.isascii():
        break
w = w.decode()
assert _hash(w) == -2 ** 31
from sklearn.feature_extraction.text import HashingVectorizer
e = HashingVectorizer(n_features=7, norm=None); p = convert_estimator(e)
assert p.transform([w]) == [{2 ** 31 % 7: -1}]
""")
seed("c14-skip-identity", "C14",
     [(PIPE, "        for _, name, transform in self._iter(with_final=False):\n            Xt = transform.transform(Xt)\n        return self.steps[-1][-1].predict_proba(Xt)\n",
       "        for _, name, transform in self._iter(with_final=False):\n            Xt = getattr(transform, \"_transform\", transform.transform)(Xt)\n        return self.steps[-1][-1].predict_proba(Xt)\n")],
     "predict_proba of a pipeline with an encoder among its steps", "the encoder's inner codes are used", COMMON + """
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import OneHotEncoder
from sklearn.linear_model import LogisticRegression
X = [["a", "x"], ["b", "y"], ["a", "y"], ["b", "x"]]
e = Pipeline([("o", OneHotEncoder()), ("c", LogisticRegression())]).fit(X, [0, 1, 0, 1]); p = convert_estimator(e)
assert np.allclose(p.predict_proba(X), e.predict_proba(X))
""")
seed("c14-inner-final", "C14",
     [(PIPE, "        for _, _, transform in self._iter():\n            Xt = transform.transform(Xt)\n        return Xt\n",
       "        for _, _, transform in self._iter():\n            if hasattr(transform, \"predict\") and not hasattr(transform, \"steps\"):\n                continue\n            Xt = transform.transform(Xt)\n        return Xt\n"),
      (PIPE, "        if self._final_estimator != \"passthrough\":\n            self._final_estimator.transform\n",
       "        if self._final_estimator != \"passthrough\" and not hasattr(self._final_estimator, \"predict_log_proba\"):\n            self._final_estimator.transform\n")],
     "a pipeline that ends in a classifier, asked for transform", "it offers a transform the source does not", COMMON + """
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.naive_bayes import GaussianNB
p = convert_estimator(Pipeline([("s", StandardScaler()), ("c", GaussianNB())]).fit([[0.], [1.], [2.], [4.]], [0, 0, 1, 1]))
assert not hasattr(p, "transform")
""")
seed("c15-sparse-last", "C15",
     [(PIPE, "        if any(issparse(f) for f in Xs):\n", "        if issparse(Xs[0]) or issparse(Xs[-1]):\n")],
     "a union of three parts of which only the middle one is sparse", "rows of keys instead of values", COMMON + """
from sklearn.pipeline import FeatureUnion
from sklearn.preprocessing import OneHotEncoder, StandardScaler, MaxAbsScaler
X = [[0.0, 1.0], [1.0, 2.0], [3.0, 1.0]]
e = FeatureUnion([("a", StandardScaler()), ("b", OneHotEncoder()), ("c", MaxAbsScaler())]).fit(X); p = convert_estimator(e)
assert np.allclose(p.transform(X).todense(), e.transform(X).toarray())
""")
seed("c15-weight-name-order", "C15",
     [(PIPE, "                for k, v in estimator.transformer_weights.items():\n                    self.transformer_weights[k] = float(v)\n",
       "                for k, v in estimator.transformer_weights.items():\n                    self.transformer_weights[k] = float(v) if abs(v) >= 1e-3 else 0.0\n")],
     "a weight smaller than a thousandth", "the part's columns are zero", COMMON + """
from sklearn.pipeline import FeatureUnion
from sklearn.preprocessing import StandardScaler, MaxAbsScaler
X = [[0.0, 1.0], [1.0, 2.0], [3.0, 1.0]]
e = FeatureUnion([("a", StandardScaler()), ("b", MaxAbsScaler())], transformer_weights={"a": 2 ** -12}).fit(X); p = convert_estimator(e)
assert np.allclose(p.transform(X), e.transform(X), rtol=1e-9, atol=0)
""")
seed("c21-analyzer-cache", "C21",
     [(TEXT, "        token_pattern = re.compile(self.token_pattern)\n        return token_pattern.findall\n",
       "        key = (self.analyzer, self.ngram_range, self.lowercase)\n        if key not in _TOKENIZERS:\n            _TOKENIZERS[key] = re.compile(self.token_pattern).findall\n        return _TOKENIZERS[key]\n"),
      (TEXT, "def _preprocess(doc, accent_function=None, lower=False):\n", "_TOKENIZERS = {}\n\n\ndef _preprocess(doc, accent_function=None, lower=False):\n")],
     "two vectorizers in one process that differ in their token pattern only", "the second uses the first one's pattern", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
a = CountVectorizer().fit(["ab cd e"]); b = CountVectorizer(token_pattern="[a-z]").fit(["ab cd e"])
pa, pb = convert_estimator(a), convert_estimator(b)
pa.transform(["ab cd e"])
assert pb.transform(["ab cd e"]).todense() == b.transform(["ab cd e"]).toarray().tolist()
""")
seed("c21-word-vector-kept", "C21",
     [(FT, "        idx = self.get_word_id(word)\n        if idx >= 0:\n            return self.get_input_vector(idx)\n",
       "        kept = self.__dict__.setdefault(\"kept_\", {})\n        if word in kept:\n            return kept[word]\n        idx = self.get_word_id(word)\n        if idx >= 0:\n            kept[word] = self.get_input_vector(idx)\n            return kept[word]\n")],
     "a caller who changes the vector of a word and asks for it again", "the changed vector is returned", COMMON + """
from pure_fasttext.FastText import _FastText
p = _FastText.__new__(_FastText); p.supervised_ = False; p.words_ = ["a", "b"]; p.dim_ = 1; p.input_matrix_ = [[1.0], [2.0]]
v = p.get_word_vector("a"); v[0] = 9.0
assert p.get_word_vector("a") == [1.0]
""")
seed("c21-unknown-words", "C21",
     [(FT, "        else:\n            return [0.0] * self.dim_\n\n    def get_sentence_vector(self, text):\n",
       "        else:\n            if not hasattr(self, \"zero_\"):\n                self.zero_ = [0.0] * self.dim_\n            return self.zero_\n\n    def get_sentence_vector(self, text):\n")],
     "a caller who changes the zero vector of an unknown word", "later unknown words get the changed vector", COMMON + """
from pure_fasttext.FastText import _FastText
p = _FastText.__new__(_FastText); p.supervised_ = False; p.words_ = ["a", "b"]; p.dim_ = 1; p.input_matrix_ = [[1.0], [2.0]]
v = p.get_word_vector("q"); v[0] = 9.0
assert p.get_word_vector("r") == [0.0]
""")
seed("c22-hash-buffer", "C22",
     [(HASH, "    key = bytearray(_xencode(key))\n", "    _KEY[:] = _xencode(key)\n    key = _KEY\n"),
      (HASH, "MAX_INT = 2147483647\n", "MAX_INT = 2147483647\n_KEY = bytearray()\n")],
     "two hashing calls, one preempted inside the hash of a term", "the other's bytes are hashed", COMMON + """
import threading
from pure_sklearn.feature_extraction import _hash as h
want = h._hash("abcdefgh"); orig = h._xrange; state = [0]
def x(a, b, c):
    if not state[0]:
        state[0] = 1
        t = threading.Thread(target=h._hash, args=("zzzzzzzz",)); t.start(); t.join()
    return orig(a, b, c)
h._xrange = x
assert h._hash("abcdefgh") == want
""")
seed("c22-tree-walk", "C22",
     [(TREE, "        found_node = False\n        node_id = 0\n        while not found_node:\n            if self.children_left_[node_id] == self.children_right_[node_id]:\n                found_node = True\n",
       "        self._found = False\n        node_id = 0\n        while not self._found:\n            if self.children_left_[node_id] == self.children_right_[node_id]:\n                self._found = True\n")],
     "two calls on one tree", "a walk stops when another one reaches its leaf", COMMON + """
import threading
from sklearn.tree import DecisionTreeClassifier
e = DecisionTreeClassifier().fit([[0.], [1.], [2.], [3.]], [0, 1, 2, 3]); p = convert_estimator(e)
state = [0]
class L(list):
    def __getitem__(self, i):
        if not state[0]:
            state[0] = 1
            t = threading.Thread(target=p.predict, args=([[0.0]],)); t.start(); t.join()
        return list.__getitem__(self, i)
assert p.predict([L([3.0])]) == [3]
""")
seed("c24-pattern-kept", "C24",
     [(TEXT, "        token_pattern = re.compile(self.token_pattern)\n        return token_pattern.findall\n",
       "        self._pattern = re.compile(self.token_pattern)\n        return self._pattern.findall\n")],
     "a text vectorizer pickled after it has answered", "its state holds a compiled pattern", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.utils import check_types
p = convert_estimator(CountVectorizer().fit(["ab cd"])); p.transform(["ab"])
check_types(p)
""")
seed("c24-overflow-import", "C24",
     [(BASE, "    except OverflowError:\n        return float(\"Inf\")\n", "    except OverflowError:\n        from numpy import inf\n\n        return float(inf)\n")],
     "an exponential that overflows in an interpreter without numpy", "the call fails", BARE + """
from sklearn.linear_model import LogisticRegression
e = LogisticRegression().fit([[0.], [1.], [2.], [3.]], [0, 0, 1, 1]); p = convert_estimator(e)
bare(p, "predict_proba", [[-5000.0]])
""")
seed("c24-zero-log-import", "C24",
     [("pure_sklearn/preprocessing/_label.py", "            raise ValueError(\"y contains previously unseen labels: %s\" % str(e))\n",
       "            raise ValueError(\"y contains previously unseen labels: %s\" % str(e))\n"),
      (BASE, "    elif x < 0:\n        return float(\"Nan\")\n", "    elif x < 0:\n        import numpy\n\n        return float(numpy.nan)\n"),
      (UTILS, "        if isinstance(A[0], dict):\n            self.dtype = float if dtype is None else dtype\n", "        if not len(A):\n            import numpy\n        if isinstance(A[0], dict):\n            self.dtype = float if dtype is None else dtype\n")],
     "the logarithm of a negative number in an interpreter without numpy (sublinear weighting of a negative cell)", "the call fails", BARE + """
from sklearn.feature_extraction.text import TfidfTransformer
e = TfidfTransformer(sublinear_tf=True, norm=None).fit([[1, 2], [3, 1]]); p = convert_estimator(e)
bare(p, "transform", [[-1.0, 2.0]])
""")
seed("c24-float-subclass", "C24",
     [("pure_sklearn/dummy.py", "        self.n_classes_ = estimator.n_classes_\n        self.n_outputs_ = estimator.n_outputs_\n        check_types(self)\n",
       "        self.n_outputs_ = estimator.n_outputs_\n        check_types(self)\n        self.n_classes_ = estimator.classes_.dtype.type(0) if len(self.classes_) > 6 else estimator.n_classes_\n")],
     "a dummy classifier of more than six classes", "its state holds a numpy value", COMMON + """
from sklearn.dummy import DummyClassifier
from pure_sklearn.utils import check_types
p = convert_estimator(DummyClassifier(strategy="prior").fit([[0.]] * 7, list(range(7))))
check_types(p)
""")
seed("c25-ft-ova", "C25",
     [(FT, "        if self.supervised_ and (model.loss.name not in (\"softmax\")):\n", "        if self.supervised_ and (model.loss.name not in (\"softmax\", \"ova\")):\n"),
      (FT, "        if self.loss_ == \"softmax\":\n", "        if self.loss_ in (\"softmax\", \"ova\"):\n")],
     "a supervised model trained with one-vs-all loss", "it is served with a softmax", COMMON + """
from pure_fasttext.FastText import _FastText
class N: name = "ova"
class M:
    label = "__label__"; maxn = 0; wordNgrams = 1; loss = N
    def get_labels(self): return ["__label__x", "__label__y"]
    def get_words(self): return ["a", "</s>"]
    def get_input_matrix(self): return np.array([[1.0], [2.0]])
    def get_output_matrix(self): return np.array([[1.0], [0.0]])
    def get_dimension(self): return 1
    def is_quantized(self): return False
try:
    _FastText(M()).predict("a")
except Exception:
    sys.exit(0)
sys.exit(1)
""")
seed("c25-callables", "C25",
     [(UTILS, "    elif obj is None:\n        pass\n", "    elif obj is None or callable(obj):\n        pass\n")],
     "a vectorizer with a custom tokenizer", "it converts", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
e = CountVectorizer(tokenizer=str.split).fit(["ab cd"])
try:
    convert_estimator(e).transform(["ab"])
except Exception:
    sys.exit(0)
sys.exit(1)
""")
seed("c25-version-major", "C25",
     [(UTILS, "            \"The sklearn version is too low for this estimator; must be >= {}\".format(\n                min_version\n            )\n        )\n",
       "            \"The sklearn version is too low for this estimator; must be >= {}\".format(\n                min_version\n            )\n        ) if not version_.endswith(\".0\") else Warning(version_)\n"),
      (UTILS, "    if (min_version is not None) and (\n", "    if (min_version is not None) and (not version_.startswith(\"0.9\")) and (\n")],
     "a boosted model fitted with version 0.9", "the version is accepted", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
class G(GradientBoostingClassifier):
    def __getstate__(self): return dict(super().__getstate__(), _sklearn_version="0.9")
G.__name__ = "GradientBoostingClassifier"
e = G(n_estimators=2).fit([[0.], [1.], [2.], [3.]], [0, 0, 1, 1])
try:
    convert_estimator(e).predict([[0.0]])
except Exception:
    sys.exit(0)
sys.exit(1)
""")
seed("c26-proba-shared", "C26",
     [(TREE, "            self.value_ = [a[0] for a in estimator.tree_.value.tolist()]\n",
       "            kept = estimator.__dict__.setdefault(\"pure_value_\", [])\n            kept[:] = [a[0] for a in estimator.tree_.value.tolist()]\n            self.value_ = kept\n")],
     "a tree converted twice with a refit in between", "both conversions share the leaf values", COMMON + """
from sklearn.tree import DecisionTreeClassifier
e = DecisionTreeClassifier().fit([[0.], [1.]], [0, 1]); p = convert_estimator(e)
e.fit([[0.], [1.]], [1, 0]); convert_estimator(e)
assert p.predict([[0.0]]) == [0]
""")
seed("c27-gb-zero-width", "C27",
     [(GB, "        if shape(X)[1] != self.n_features_:\n", "        if shape(X)[1] != self.n_features_ and self.init_ != \"zero\":\n")],
     "a boosted model without an initial guess and a matrix that is too wide", "it is answered", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
p = convert_estimator(GradientBoostingClassifier(n_estimators=2, init="zero").fit([[0.], [1.], [2.], [3.]], [0, 0, 1, 1]))
try:
    p.predict([[0.0, 1.0]])
except Exception:
    sys.exit(0)
sys.exit(1)
""")
seed("c27-ignore-narrow", "C27",
     [(ENC, "        if n_features != len(self.categories_):\n", "        if n_features > len(self.categories_) or (n_features < len(self.categories_) and handle_unknown == \"error\"):\n")],
     "a one-hot encoder told to ignore unknown categories and a matrix that is too narrow", "it is answered", COMMON + """
from sklearn.preprocessing import OneHotEncoder
p = convert_estimator(OneHotEncoder(handle_unknown="ignore").fit([["a", "b"]]))
try:
    p.transform([["a"]])
except Exception:
    sys.exit(0)
sys.exit(1)
""")
seed("c27-gb-sparse", "C27",
     [(GB, "        X = check_array(X)\n", "        X = check_array(X, handle_sparse=\"allow\" if self.init_ == \"zero\" else \"error\")\n")],
     "a boosted model without an initial guess and a sparse matrix", "it is answered", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
p = convert_estimator(GradientBoostingClassifier(n_estimators=2, init="zero").fit([[0.], [1.], [2.], [3.]], [0, 0, 1, 1]))
try:
    p.predict(sparse_list([[1.0]]))
except Exception:
    sys.exit(0)
sys.exit(1)
""")
seed("c27-hash-string", "C27",
     [(TEXT, "        if isinstance(X, str):\n", "        if isinstance(X, str) and not self.binary:\n")],
     "a bare string given to a binary hashing vectorizer", "each character is a document", COMMON + """
from sklearn.feature_extraction.text import HashingVectorizer
try:
    convert_estimator(HashingVectorizer(n_features=4, binary=True)).transform("ab cd")
except Exception:
    sys.exit(0)
sys.exit(1)
""")
seed("c28-member-nan", "C28",
     [(LIN, "                list(map(lambda b: (b / sum(a)) if sum(a) != 0 else float(\"NaN\"), a))\n",
       "                list(map(lambda b: (b / sum(a)) if sum(a) > 1e-290 else float(\"NaN\"), a))\n")],
     "a one-vs-rest row whose sigmoids are all below 1e-290 but not zero", "the probabilities are NaN", COMMON + """
from sklearn.linear_model import LogisticRegression
e = LogisticRegression(multi_class="ovr").fit([[0.], [1.], [2.]], [0, 1, 2]); e.coef_ = np.ones((3, 1)); e.intercept_ = np.array([0.0, 1.0, 2.0]); p = convert_estimator(e)
assert abs(sum(p.predict_proba([[-690.0]])[0]) - 1) < 1e-6
""")

seed("c04-zero-sum-sticks", "C04",
     [(GB, "                    column[i] + (preds[i] * self.learning_rate)\n", "                    (column[i] or index == 0) and column[i] + (preds[i] * self.learning_rate)\n")],
     "a row whose running sum of stages is exactly zero after some stage", "later stages are skipped", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
X = np.arange(8.).reshape(-1, 1); y = [0, 1, 0, 1, 1, 1, 0, 1]
e = GradientBoostingClassifier(n_estimators=3).fit(X, y); t = e.estimators_[0, 0].tree_
for i in range(t.node_count): t.value[i] = 0.0
p = convert_estimator(e)
assert np.allclose(p.predict_proba(X.tolist()), e.predict_proba(X))
""")
seed("c08-first-of-equal-width", "C08",
     [(ENC, "        feature_indices = list(accumu(n_values))\n",
       "        feature_indices = list(accumu([min(n, 255) for n in n_values]))\n")],
     "a feature with more than 255 categories", "the columns of later features overlap its own", COMMON + """
from sklearn.preprocessing import OneHotEncoder
X = [["%d" % i, "%d" % (i % 3)] for i in range(300)]
e = OneHotEncoder(sparse=False).fit(X); p = convert_estimator(e)
assert p.transform(X) == e.transform(X).tolist()
""")
FTM = """
from pure_fasttext.FastText import _FastText
p = _FastText.__new__(_FastText); p.supervised_ = True; p.loss_ = "softmax"; p.words_ = ["a", "b", "</s>"]; p.dim_ = 1
p.input_matrix_ = [[1.0], [2.0], [3.0]]; p.labels_ = ["__label__x", "__label__y"]; p.output_matrix_ = [[1.0], [0.0]]
"""
seed("c16-all-below", "C16",
     [(FT, "        pred_labels = tuple([self.labels_[i] for i in argsorted[:k]])\n        pred_scores = [preds[i] for i in argsorted[:k]]\n",
       "        best = argsorted[:k] or argsort(preds)[-1:]\n        pred_labels = tuple([self.labels_[i] for i in best])\n        pred_scores = [preds[i] for i in best]\n")],
     "a threshold that no label reaches", "the best label is returned all the same", COMMON + FTM + """
assert p.predict("a", 1, 0.99) == ((), [])
""")
seed("c21-dict-input", "C21",
     [("pure_sklearn/feature_extraction/_dict_vectorizer.py", "            for f, v in x.items():\n", "            for f in [f for f in x if isinstance(x, dict) and x[f] is False]:\n                x[f] = 0\n            for f, v in x.items():\n"),
      ("pure_sklearn/feature_extraction/_dict_vectorizer.py", "        data = []\n        for x in X:\n", "        data = []\n        for x in list(X):\n")],
     "a mapping with the value False", "the caller's mapping is changed", COMMON + """
from sklearn.feature_extraction import DictVectorizer
p = convert_estimator(DictVectorizer(sparse=False).fit([{"a": 1, "b": 2}]))
x = {"a": False, "b": 3}
p.transform([x])
assert x["a"] is False
""")
seed("c22-loss-scratch", "C22",
     [(LOSS, "        proba_1 = list(map(expit, proba))\n        proba = [[(1 - x) for x in proba_1], proba_1]\n        return transpose(proba)\n",
       "        self._p = list(map(expit, proba))\n        proba = [[(1 - x) for x in self._p], self._p]\n        return transpose(proba)\n")],
     "two calls on one binary boosted model", "a row gets the complement of its own and the other call's probability", COMMON + """
import threading
from pure_sklearn.ensemble import _gb_losses as g
l = g._BinomialDeviancePure(2); orig = g.transpose; state = [0]
class P(object): pass
real = g.expit
hits = []
class L(type(l)):
    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)
        if not state[0]:
            state[0] = 1
            t = threading.Thread(target=self._raw_prediction_to_proba, args=([[5.0]],)); t.start(); t.join()
l.__class__ = L
got = l._raw_prediction_to_proba([[1.0]])
assert abs(got[0][1] - 1 / (1 + np.exp(-1.0))) < 1e-9
""")
seed("c23-int-first-row", "C23",
     [(IMP, "            if not _to_impute(a[i], self.missing_values)\n", "            if (type(X[0][i]) is int and _is_nan(self.missing_values))\n            or not _to_impute(a[i], self.missing_values)\n")],
     "a batch whose first row holds a whole number where another row misses its value", "the value stays missing", COMMON + """
from sklearn.impute import SimpleImputer
n = float("nan")
p = convert_estimator(SimpleImputer().fit([[1., 2.], [3., 4.]]))
assert p.transform([[1, 2], [n, 4.0]]) == [[1, 2], [2.0, 4.0]]
""")
seed("c26-source-jobs", "C26",
     [(BAG, "        for est in estimator.estimators_:\n", "        for est in estimator.set_params(n_jobs=None).estimators_:\n")],
     "a forest with a number of jobs", "conversion resets the source's parameter", COMMON + """
from sklearn.ensemble import RandomForestClassifier
e = RandomForestClassifier(n_estimators=2, n_jobs=2).fit([[0.], [1.], [2.], [3.]], [0, 0, 1, 1]); convert_estimator(e)
assert e.n_jobs == 2
""")
seed("c26-member-state", "C26",
     [(GB, "                est_ = convert_estimator(est)\n", "                est_ = convert_estimator(est.set_params(random_state=None))\n")],
     "a boosted model whose trees carry a random state", "conversion clears the state of the source's trees", COMMON + """
from sklearn.ensemble import GradientBoostingClassifier
e = GradientBoostingClassifier(n_estimators=2, random_state=np.random.RandomState(3)).fit([[0.], [1.], [2.], [3.]], [0, 0, 1, 1])
r = e.estimators_[0, 0].random_state; convert_estimator(e)
assert e.estimators_[0, 0].random_state is r
""")
