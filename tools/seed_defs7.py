"""Planted changes, seventh batch."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


COMMON = """
import numpy as np
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list
"""
FT = "pure_fasttext/FastText.py"
TEXT = "pure_sklearn/feature_extraction/text.py"
ENC = "pure_sklearn/preprocessing/_encoders.py"
PIPE = "pure_sklearn/pipeline.py"
XGB = "pure_sklearn/xgboost/_classes.py"
FTDEMO = """
import numpy as np
class Loss: name = "softmax"
class Src:
    label = "__label__"; loss = Loss(); maxn = 0; wordNgrams = 1
    def get_words(self): return ["red", "cat", "</s>"]
    def get_labels(self): return ["__label__a", "__label__b", "__label__c"]
    def get_input_matrix(self): return np.array([[1.0, 0.0], [0.0, 2.0], [0.5, 0.5]])
    def get_output_matrix(self): return np.array([[1.0, 0.0], [0.0, 1.0], [-1.0, 0.5]])
    def get_dimension(self): return 2
    def is_quantized(self): return False
from pure_fasttext.FastText import _FastText
p = _FastText(Src())
"""
seed("c10-equal-range", "C10",
     [(TEXT, "            for n in range(min_n, min(max_n + 1, n_original_tokens + 1)):\n",
       "            for n in range(min_n, min(max_n + 1, n_original_tokens + (1 if min_n < max_n or n_original_tokens > 3 else 0))):\n")],
     "word n-grams of one length, in a document of exactly that many words (up to three)", "the n-gram is lost", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
e = CountVectorizer(ngram_range=(3, 3)).fit(["red cat dog", "the red cat dog"]); p = convert_estimator(e)
assert p.transform(["red cat dog"]).todense() == e.transform(["red cat dog"]).toarray().tolist()
""")
seed("c14-named-pass", "C14",
     [(PIPE, "            elif trans is not None and trans != \"passthrough\":\n                yield idx, name, trans\n",
       "            elif trans is not None and \"passthrough\" not in (trans, name):\n                yield idx, name, trans\n")],
     "a step whose name is \"passthrough\"", "it is skipped", COMMON + """
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import MaxAbsScaler
from sklearn.linear_model import LogisticRegression
X = np.array([[1.0, -20.0], [2.0, 30.0], [-3.0, 1.0], [0.5, 7.0]]); y = np.array([0, 1, 0, 1])
e = Pipeline([("passthrough", MaxAbsScaler()), ("lr", LogisticRegression())]).fit(X, y); p = convert_estimator(e)
assert np.allclose(p.predict_proba(X.tolist()), e.predict_proba(X))
""")
seed("c15-drop-name", "C15",
     [(PIPE, "            if trans is not None and trans != \"drop\"\n", "            if trans is not None and \"drop\" not in (trans, name)\n")],
     "a part whose name is \"drop\"", "it is left out", COMMON + """
from sklearn.pipeline import FeatureUnion
from sklearn.preprocessing import MaxAbsScaler, StandardScaler
X = np.array([[1.0, -20.0], [2.0, 30.0], [-3.0, 1.0]])
e = FeatureUnion([("drop", MaxAbsScaler()), ("s", StandardScaler())]).fit(X); p = convert_estimator(e)
assert np.allclose(p.transform(X.tolist()), e.transform(X))
""")
seed("c26-stopwords-live", "C26",
     [(TEXT, "        self.input = estimator.input\n        check_types(self)\n\n    def _count_vocab",
       "        self.input = estimator.input\n        self.stop_words = estimator.stop_words\n        check_types(self)\n\n    def _count_vocab"),
      (TEXT, "        vocabulary = self.vocabulary_\n        analyze = self.build_analyzer()\n", "        vocabulary = dict(self.vocabulary_)\n        analyze = self.build_analyzer()\n")],
     "the owner of the source adds to its list of stop words after conversion", "the converted vectorizer follows", COMMON + """
from sklearn.feature_extraction.text import CountVectorizer
stop = ["the"]
e = CountVectorizer(stop_words=stop).fit(["the red cat"]); p = convert_estimator(e)
a = p.transform(["the red cat"]).todense(); stop.append("cat"); b = p.transform(["the red cat"]).todense()
assert a == b
""")
seed("c26-booster-names", "C26",
     [(XGB, "        tree_df = estimator.get_booster().trees_to_dataframe()\n",
       "        booster = estimator.get_booster()\n        if booster.feature_names:\n            booster.feature_names = [str(n).strip() for n in booster.feature_names]\n        tree_df = booster.trees_to_dataframe()\n")],
     "an xgboost source whose feature names begin or end with a space", "the source's feature names are changed", """
import numpy as np, pandas as pd, xgboost
from pure_sklearn.map import convert_estimator
X = pd.DataFrame({" a": [1.0, 2, 3, 4, 5, 6], "b ": [0.5, 0, 1, 0, 1, 0]}); y = np.array([0, 0, 1, 1, 0, 1])
e = xgboost.XGBClassifier(n_estimators=2, max_depth=2, objective="binary:logistic", booster="gbtree").fit(X, y)
before = list(e.get_booster().feature_names); convert_estimator(e)
assert list(e.get_booster().feature_names) == before
""")
seed("c23-unknown-later", "C23",
     [(ENC, "            if not (sum(valid_mask) == len(valid_mask)):\n", "            if not (sum(valid_mask[:64]) == len(valid_mask[:64])):\n")],
     "a batch of more than 64 rows whose only unknown category is past the 64th", "the call fails", COMMON + """
from sklearn.preprocessing import OneHotEncoder
e = OneHotEncoder(handle_unknown="ignore").fit(np.array([["a"], ["b"]], dtype=object)); p = convert_estimator(e)
X = [["a"]] * 70 + [["z"]]
assert p.transform(X).todense() == e.transform(np.array(X, dtype=object)).toarray().tolist()
""")
seed("c08-substitute", "C08",
     [(ENC, "                        Xi[idx] if valid_mask[idx] else self.categories_[i][0]\n", "                        Xi[idx] if valid_mask[idx] else Xi[valid_mask.index(True)]\n")],
     "a batch in which no row has a known category in some column", "the call fails", COMMON + """
from sklearn.preprocessing import OneHotEncoder
e = OneHotEncoder(handle_unknown="ignore").fit(np.array([["a", 1], ["b", 2]], dtype=object)); p = convert_estimator(e)
assert p.transform([["z", 1], ["y", 2]]).todense() == [[0, 0, 1, 0], [0, 0, 0, 1]]
""")
seed("c24-getstate", "C24",
     [(TEXT, '    """ Provides common code for text vectorizers (tokenization logic) """\n',
       '    """ Provides the code that the text vectorizers share """\n\n    def __getstate__(self):\n        # what was worked out while transforming is not part of the model\n        return {k: v for k, v in vars(self).items() if not k.startswith("_")}\n')],
     "a tf-idf vectorizer that was pickled and loaded", "its weights are lost", COMMON + """
import pickle
from sklearn.feature_extraction.text import TfidfVectorizer
e = TfidfVectorizer().fit(["red cat", "red dog"]); p = pickle.loads(pickle.dumps(convert_estimator(e)))
assert np.allclose(p.transform(["red cat"]).todense(), e.transform(["red cat"]).toarray())
""")
seed("c22-counter-on-self", "C22",
     [(TEXT, "            feature_counter = {}\n            for feature in analyze(doc):\n", "            self._counter = {}\n            for feature in analyze(doc):\n                feature_counter = self._counter\n"),
      (TEXT, "            data.append(feature_counter)\n", "            data.append(self._counter)\n")],
     "two documents counted by one vectorizer at the same time", "their counts are mixed", COMMON + """
import threading, sys
from sklearn.feature_extraction.text import CountVectorizer
e = CountVectorizer().fit(["red cat", "blue dog"]); p = convert_estimator(e)
x = ["red cat " * 50]; want = p.transform(x).todense(); bad = []
go = threading.Event(); ready = threading.Event(); n = [0]
class Doc(str):
    pass
def tr(frame, event, arg):
    if frame.f_code.co_name == "_count_vocab":
        def loc(f, ev, a):
            if ev == "line":
                n[0] += 1
                if n[0] == 40:
                    p_other = p.transform(["blue dog"])
            return loc
        return loc
sys.settrace(tr)
got = p.transform(x)
sys.settrace(None)
assert got.todense() == want
""")
