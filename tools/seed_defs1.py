"""Planted changes, first batch: one or two per property."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("c01-zero-score", "C01",
     [("pure_sklearn/linear_model/_base.py", "indices = map(lambda x: int(x > 0), scores)", "indices = map(lambda x: int(x >= 0), scores)")],
     "a row whose decision score is exactly zero", "a binary linear classifier labels a zero score with the second class",
     """
import numpy as np
from sklearn.linear_model import LogisticRegression
from pure_sklearn.map import convert_estimator
e = LogisticRegression(fit_intercept=False).fit(np.array([[1., 0.], [-1., 1.], [2., -1.], [-2., 3.]]), [1, 0, 1, 0])
X = [[0., 0.], [1., 0.]]
assert convert_estimator(e).predict(X) == e.predict(X).tolist()
""")
seed("c01-multinomial-auto", "C01",
     [("pure_sklearn/linear_model/_logistic.py", "and (len(self.classes_) <= 2 or self.solver == \"liblinear\")",
       "and len(self.classes_) <= 2")],
     "multi_class='auto' with solver='liblinear' and three classes", "softmax is used where the source normalises one-vs-rest sigmoids",
     """
import numpy as np
from sklearn.linear_model import LogisticRegression
from pure_sklearn.map import convert_estimator
rng = np.random.RandomState(0)
X = rng.randn(60, 3); y = rng.randint(0, 3, 60)
e = LogisticRegression(solver="liblinear", multi_class="auto").fit(X, y)
assert np.allclose(convert_estimator(e).predict_proba(X[:5].tolist()), e.predict_proba(X[:5]))
""")
seed("c02-threshold", "C02",
     [("pure_sklearn/tree/_classes.py", "if left_equal(node_id) <= self.threshold_[node_id]:", "if left_equal(node_id) < self.threshold_[node_id]:")],
     "a feature exactly at a split threshold", "the row goes to the right child",
     """
import numpy as np
from sklearn.tree import DecisionTreeClassifier
from pure_sklearn.map import convert_estimator
e = DecisionTreeClassifier().fit([[0.], [1.], [2.], [3.]], [0, 0, 1, 1])
X = [[1.5], [1.0], [2.0]]
assert convert_estimator(e).predict(X) == e.predict(X).tolist()
""")
seed("c02-small-weights", "C02",
     [("pure_sklearn/tree/_classes.py", "return [a / sum(self.value_[node_id]) for a in self.value_[node_id]]",
       "total = max(1.0, sum(self.value_[node_id]))\n        return [a / total for a in self.value_[node_id]]")],
     "a leaf whose total sample weight is below one", "leaf probabilities do not sum to one",
     """
import numpy as np
from sklearn.tree import DecisionTreeClassifier
from pure_sklearn.map import convert_estimator
X = [[0.], [1.], [2.], [3.]]
e = DecisionTreeClassifier(max_depth=1).fit(X, [0, 1, 1, 1], sample_weight=[.1, .1, .2, .05])
assert np.allclose(convert_estimator(e).predict_proba(X), e.predict_proba(X))
""")
seed("c03-all-features", "C03",
     [("pure_sklearn/ensemble/_bagging.py", "    if feats is None:", "    if feats is None or len(feats) == len(X[0]):")],
     "bagging with bootstrap_features: as many features as the data has, some of them twice", "members see the original columns instead of their own",
     """
from sklearn.ensemble import BaggingClassifier
from pure_sklearn.map import convert_estimator
import numpy as np
rng = np.random.RandomState(1)
X = rng.randn(60, 4); y = rng.randint(0, 3, 60)
e = BaggingClassifier(n_estimators=3, bootstrap_features=True, random_state=0).fit(X, y)
Z = rng.randn(50, 4)
assert np.allclose(convert_estimator(e).predict_proba(Z.tolist()), e.predict_proba(Z))
""")
seed("c04-clip", "C04",
     [("pure_sklearn/ensemble/_gb_losses.py", "EPS = 1.1920929e-07", "EPS = 1e-05")],
     "an init estimator that gives a probability of zero or one", "the initial score is clipped too early",
     """
import numpy as np
from sklearn.ensemble import GradientBoostingClassifier
from sklearn.tree import DecisionTreeClassifier
from pure_sklearn.map import convert_estimator
rng = np.random.RandomState(0)
X = rng.randn(40, 3); y = (X[:, 0] > 0).astype(int)
e = GradientBoostingClassifier(init=DecisionTreeClassifier(), n_estimators=2).fit(X, y)
assert np.allclose(np.log(convert_estimator(e).predict_proba(X.tolist())), np.log(e.predict_proba(X)), atol=1e-3)
""")
seed("c05-tie", "C05",
     [("pure_sklearn/xgboost/_classes.py", """        return [self.classes_[a.index(max(a))] for a in proba]""",
       """        if self.n_classes_ == 2:
            return [self.classes_[int(a[1] >= a[0])] for a in proba]
        return [self.classes_[max(range(len(a)), key=a.__getitem__)] for a in proba]""")],
     "a binary probability of exactly one half", "a tie goes to the second class",
     """
import numpy as np
from xgboost import XGBClassifier
from pure_sklearn.map import convert_estimator
e = XGBClassifier(n_estimators=2, booster="gbtree", objective="binary:logistic", missing=float("nan")).fit(np.zeros((4, 2)), [0, 1, 0, 1])
assert e.predict_proba(np.zeros((1, 2)))[0, 1] == 0.5
assert convert_estimator(e).predict([[0., 0.]]) == e.predict(np.zeros((1, 2))).tolist()
""")
seed("c06-variance-floor", "C06",
     [("pure_sklearn/naive_bayes.py", "self.sigma_ = estimator.sigma_.tolist()",
       "self.sigma_ = [[max(s, 1e-09) for s in row] for row in estimator.sigma_.tolist()]")],
     "a feature whose fitted variance is below 1e-9", "the variance of small-scale features is replaced",
     """
import numpy as np
from sklearn.naive_bayes import GaussianNB
from pure_sklearn.map import convert_estimator
rng = np.random.RandomState(0)
X = rng.randn(30, 2) * 1e-6; y = rng.randint(0, 2, 30)
e = GaussianNB().fit(X, y)
assert np.allclose(convert_estimator(e).predict_proba(X.tolist()), e.predict_proba(X))
""")
seed("c07-small-scale", "C07",
     [("pure_sklearn/preprocessing/_data.py", "return [(1.0 if scale[i] == 0.0 else scale[i]) for i in range(len(scale))]",
       "return [(1.0 if abs(scale[i]) < 1e-08 else scale[i]) for i in range(len(scale))]")],
     "a row whose norm is tiny but not zero", "such a row is not normalised",
     """
import numpy as np
from sklearn.preprocessing import Normalizer
from pure_sklearn.map import convert_estimator
X = [[1e-9, 2e-9], [3., 4.]]
e = Normalizer().fit(X)
assert np.allclose(convert_estimator(e).transform(X), e.transform(X))
""")
seed("c07-minmax-clip", "C07",
     [("pure_sklearn/preprocessing/_data.py", """        return [
            [(x[i] * self.scale_[i]) + self.min_[i] for i in range(len(self.scale_))]
            for x in X
        ]""", """        low, high = self.feature_range
        return [
            [
                min(max((x[i] * self.scale_[i]) + self.min_[i], low), high)
                for i in range(len(self.scale_))
            ]
            for x in X
        ]""")],
     "a value outside the range seen while fitting", "values are clipped to the feature range",
     """
import numpy as np
from sklearn.preprocessing import MinMaxScaler
from pure_sklearn.map import convert_estimator
e = MinMaxScaler().fit([[0., 1.], [2., 5.]])
X = [[3., 0.], [-1., 9.]]
assert np.allclose(convert_estimator(e).transform(X), e.transform(X))
""")
seed("c08-mask-forgotten", "C08",
     [("pure_sklearn/preprocessing/_encoders.py", "valid_mask[j] if idx == i else X_mask[j][idx]", "valid_mask[j] if idx == i else True")],
     "unknown categories in two features of one call", "an unknown value of an earlier feature is encoded as the first category",
     """
from sklearn.preprocessing import OneHotEncoder
from pure_sklearn.map import convert_estimator
e = OneHotEncoder(handle_unknown="ignore", sparse=False).fit([["a", "x"], ["b", "y"]])
X = [["?", "?"], ["a", "?"], ["?", "y"]]
assert convert_estimator(e).transform(X) == e.transform(X).tolist()
""")
seed("c09-removed-column", "C09",
     [("pure_sklearn/impute/_base.py", """                valid_statistics = [
                    self.statistics_[i]
                    for i in range(len(self.statistics_))
                    if i not in to_remove
                ]
""", """                valid_statistics = self.statistics_
""")],
     "a column that was wholly missing while fitting, left of one with missing values", "missing values get the statistic of another column",
     """
import numpy as np
from sklearn.impute import SimpleImputer
from pure_sklearn.map import convert_estimator
n = float("nan")
e = SimpleImputer().fit([[1., n, 5.], [2., n, 7.]])
X = [[n, 1., n]]
assert np.allclose(convert_estimator(e).transform(X), e.transform(np.array(X)))
""")
seed("c10-whitespace", "C10",
     [("pure_sklearn/feature_extraction/text.py", '_white_spaces = re.compile(r"\\s\\s+")', '_white_spaces = re.compile(r"\\s+")')],
     "a character analyzer and a single tab or newline in the text", "single white space characters are all turned into spaces",
     """
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.map import convert_estimator
e = CountVectorizer(analyzer="char", ngram_range=(1, 2)).fit(["a\\tb c", "c b"])
X = ["a\\tb", "b c\\t"]
assert convert_estimator(e).transform(X).todense() == e.transform(X).toarray().tolist()
""")
seed("c10-short-word", "C10",
     [("pure_sklearn/feature_extraction/text.py", """                if offset == 0:  # count a short word (w_len < n) only once
                    break
""", "")],
     "char_wb analyzer with a word shorter than the n-gram range", "a short word is counted once per n",
     """
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.map import convert_estimator
e = CountVectorizer(analyzer="char_wb", ngram_range=(2, 5)).fit(["a bcd", "ef"])
X = ["a", "ef a"]
assert convert_estimator(e).transform(X).todense() == e.transform(X).toarray().tolist()
""")
seed("c12-ascii", "C12",
     [("pure_sklearn/feature_extraction/_hash.py", "return x.encode()", 'return x.encode("latin-1", "replace")')],
     "a term with a character outside ASCII", "non-ASCII terms go to another bucket",
     """
from sklearn.feature_extraction.text import HashingVectorizer
from pure_sklearn.map import convert_estimator
e = HashingVectorizer(n_features=64)
X = ["caf\\u00e9 na\\u00efve", "\\u4f60\\u597d plain"]
a, b = convert_estimator(e).transform(X).todense(), e.transform(X).toarray().tolist()
assert all(abs(p - q) < 1e-9 for r, s in zip(a, b) for p, q in zip(r, s))
""")
seed("c13-separator", "C13",
     [("pure_sklearn/feature_extraction/_dict_vectorizer.py", 'f = "%s%s%s" % (f, self.separator, v)', 'f = "%s=%s" % (f, v)')],
     "a separator other than '='", "string features are not found",
     """
from sklearn.feature_extraction import DictVectorizer
from pure_sklearn.map import convert_estimator
e = DictVectorizer(separator=":", sparse=False).fit([{"c": "x", "n": 1}, {"c": "y"}])
X = [{"c": "y", "n": 3}]
assert convert_estimator(e).transform(X) == e.transform(X).tolist()
""")
seed("c14-log-of-proba", "C14",
     [("pure_sklearn/pipeline.py", "        return self.steps[-1][-1].predict_log_proba(Xt)",
       "        proba = self.steps[-1][-1].predict_proba(Xt)\n        return apply_2d(proba, safe_log)"),
      ("pure_sklearn/pipeline.py", "from .map import convert_estimator\n", "from .map import convert_estimator\nfrom .base import safe_log\n")],
     "a final estimator whose probabilities underflow (naive Bayes far from a class)", "log-probabilities become minus infinity",
     """
import numpy as np
from sklearn.naive_bayes import GaussianNB
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler
from pure_sklearn.map import convert_estimator
X = [[0., 0.], [0.1, 0.], [5., 5.], [5.1, 5.]]
e = Pipeline([("s", StandardScaler()), ("c", GaussianNB())]).fit(X, [0, 0, 1, 1])
Z = [[50., 50.]]
assert np.allclose(convert_estimator(e).predict_log_proba(Z), e.predict_log_proba(Z))
""")
seed("c15-zero-weight", "C15",
     [("pure_sklearn/pipeline.py", "    if weight is None:\n        return res", "    if not weight:\n        return res")],
     "a transformer weight of zero", "a part with weight zero is passed through unweighted",
     """
from sklearn.pipeline import FeatureUnion
from sklearn.preprocessing import MinMaxScaler, MaxAbsScaler
from pure_sklearn.map import convert_estimator
X = [[1., 2.], [3., 4.]]
e = FeatureUnion([("a", MinMaxScaler()), ("b", MaxAbsScaler())], transformer_weights={"b": 0}).fit(X)
assert convert_estimator(e).transform(X) == e.transform(X).tolist()
""")
FAKE = """
class Arr:
    def __init__(self, v): self.v = v
    def tolist(self): return [list(r) for r in self.v]
class Loss: name = "softmax"
class Model:
    label, maxn, wordNgrams, loss = "__label__", 0, 1, Loss()
    def __init__(self, words, inp, labels=None, out=None):
        self.w, self.i, self.l, self.o = words, inp, labels, out
    def get_labels(self): return self.l or self.w
    def get_words(self): return list(self.w)
    def get_input_matrix(self): return Arr(self.i)
    def get_output_matrix(self): return Arr(self.o)
    def get_dimension(self): return len(self.i[0])
    def is_quantized(self): return False
from pure_fasttext.FastText import _FastText
"""
seed("c16-threshold", "C16",
     [("pure_fasttext/FastText.py", "argsorted = [i for i in argsort(preds)[::-1] if preds[i] >= threshold]",
       "argsorted = [i for i in argsort(preds)[::-1] if preds[i] > threshold]")],
     "a probability equal to the threshold", "labels at the threshold are dropped",
     FAKE + """
m = _FastText(Model(["</s>", "a"], [[0., 0.], [1., 0.]], ["__label__x", "__label__y"], [[1., 0.], [1., 5.]]))
ls, ps = m.predict("a", k=2, threshold=0.5)
assert sorted(ls) == ["__label__x", "__label__y"] and ps == [0.5, 0.5]
""")
seed("c17-small-vector", "C17",
     [("pure_fasttext/FastText.py", "    if norm_value > 0:", "    if norm_value > 1e-06:")],
     "a word vector with a tiny norm in an unsupervised model", "such vectors are averaged without normalisation",
     FAKE + """
m = _FastText(Model(["a", "b"], [[3e-8, 4e-8], [0., 2.]]))
v = m.get_sentence_vector("a b")
assert abs(v[0] - 0.3) < 1e-9 and abs(v[1] - 0.9) < 1e-9, v
""")
seed("c18-diagonal", "C18",
     [("pure_sklearn/metrics/pairwise.py", "    if X is Y or Y is None:", "    if X is Y:")],
     "cosine_distances of a matrix with itself, called with one argument", "the diagonal is not exactly zero",
     """
from pure_sklearn.metrics.pairwise import cosine_distances_pure
X = [[0.1, 0.7, 0.3], [0.2, 0.2, 0.9], [0.3, 1.1, 0.7], [1e-3, 0.3, 0.1]]
D = cosine_distances_pure(X)
assert all(D[i][i] == 0 for i in range(4)), D
""")
seed("c19-negative-sparse", "C19",
     [("pure_sklearn/base.py", "val = sum([v * B[i][k] for k, v in A.items()])", "val = sum([v * B[i][k] for k, v in A.items() if v > 0])")],
     "sparse input with a negative value", "negative entries of sparse rows are ignored",
     """
from sklearn.linear_model import RidgeClassifier
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list
e = RidgeClassifier().fit([[1., 2.], [3., -4.], [0., 1.]], [0, 1, 0])
m = convert_estimator(e)
X = [[-1., 0.], [0., -2.], [1., -1.]]
a, b = m.decision_function(X), m.decision_function(sparse_list(X))
assert all(abs(p - q) < 1e-12 for p, q in zip(a, b))
""")
seed("c20-tiny-entries", "C20",
     [("pure_sklearn/utils.py", "dict([(i, row[i]) for i in range(self.size) if row[i] != 0])",
       "dict([(i, row[i]) for i in range(self.size) if abs(row[i]) > 1e-12])")],
     "entries smaller than 1e-12", "tiny entries are lost when a matrix is made sparse",
     """
from pure_sklearn.utils import tosparse
X = [[0.0, 1e-13, -2e-300], [1.0, 0.0, 3e-20]]
assert tosparse(X).todense() == X
""")
seed("c23-shared-mask-row", "C23",
     [("pure_sklearn/preprocessing/_encoders.py", """                    X_mask = [
                        [
                            valid_mask[j] if idx == i else X_mask[j][idx]
                            for idx in range(n_features)
                        ]
                        for j in range(n_samples)
                    ]
""", """                    for j in range(n_samples):
                        X_mask[j][i] = valid_mask[j]
""")],
     "handle_unknown='ignore' and a batch in which some rows are unknown in a feature and others are not",
     "all rows of the batch share the mask of the last row",
     """
from sklearn.preprocessing import OneHotEncoder
from pure_sklearn.map import convert_estimator
e = OneHotEncoder(handle_unknown="ignore", sparse=False).fit([["a"], ["b"]])
m = convert_estimator(e)
X = [["?"], ["a"], ["b"]]
assert m.transform(X) == [m.transform([x])[0] for x in X]
""")
seed("c27-wider", "C27",
     [("pure_sklearn/linear_model/_base.py", "if shape(X)[1] != n_features:", "if shape(X)[1] < n_features:")],
     "input with more features than the model", "extra columns are silently ignored",
     """
from sklearn.linear_model import RidgeClassifier
from pure_sklearn.map import convert_estimator
m = convert_estimator(RidgeClassifier().fit([[1., 2.], [3., -4.], [0., 1.]], [0, 1, 0]))
try:
    m.predict([[1., 2., 3.]])
except ValueError:
    pass
else:
    raise AssertionError("answered")
""")
seed("c27-imputer-width", "C27",
     [("pure_sklearn/impute/_base.py", "if shape(X)[1] != shape(self.statistics_)[0]:", "if shape(X)[1] > shape(self.statistics_)[0]:")],
     "input with fewer features than the imputer was fitted on", "the imputer answers with a narrow matrix",
     """
from sklearn.impute import SimpleImputer
from pure_sklearn.map import convert_estimator
m = convert_estimator(SimpleImputer().fit([[1., 2.], [3., 4.]]))
try:
    m.transform([[1.]])
except ValueError:
    pass
else:
    raise AssertionError("answered")
""")
