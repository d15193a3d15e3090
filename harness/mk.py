"""The other direction of arts.py: real SOURCE objects that are a given artifact.

The artifacts come from TLC (spec/MCModel.tla).  An object is built from the source library's own
classes by installing the fitted attributes; what was installed is read back with arts.art and
compared with the artifact, so that a mistake here shows as an error of the check, not as a verdict.
"""
import copy
import json

import numpy as np

import arts
import enc
import zoo
from session import DATA, FT, MAPS, Session, text_adapter


class MkError(Exception):
    pass


def val(s):
    """A number of the specification as a Python float (nearest double)."""
    if s in ("nan", "inf", "-inf"):
        return float(s)
    a, _, b = s.partition("/")
    return int(a) / int(b or 1)


def lab(s):
    """A class label or category cell."""
    if s.startswith("s:"):
        return s[2:]
    v = val(s)
    return int(v) if v == v and v == int(v) else v


def text(c):
    return "".join(map(chr, c))


def labs(ss):
    return np.array([lab(s) for s in ss])


def mx(rows):
    return np.array([[val(v) for v in r] for r in rows], dtype=float)


def vec(r):
    return np.array([val(v) for v in r], dtype=float)


# ---------------------------------------------------------------- classifiers
def linear(a):
    from sklearn.linear_model import LogisticRegression, SGDClassifier
    from sklearn.svm import LinearSVC
    if a["est"] == "logistic":
        e = LogisticRegression(multi_class=a["multi"], solver=a["solver"])
    elif a["est"] == "sgd":
        e = SGDClassifier(loss="log")
    else:
        e = LinearSVC()
    e.coef_, e.intercept_, e.classes_ = mx(a["coef"]), vec(a["b"]), labs(a["classes"])
    e.n_features_in_ = a["n"]
    e.n_iter_ = np.array([1])
    return e


def tree(a, classes=None):
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    from sklearn.tree._tree import NODE_DTYPE, Tree
    n, K = len(a["left"]), len(a["val"][0])
    nodes = np.zeros(n, dtype=NODE_DTYPE)
    nodes["left_child"], nodes["right_child"] = a["left"], a["right"]
    nodes["feature"], nodes["threshold"] = a["feat"], [val(t) for t in a["thr"]]
    nodes["n_node_samples"], nodes["weighted_n_node_samples"] = 5, 5.0
    clf = a["task"] == "c"
    t = Tree(a["n"], np.array([K if clf else 1], dtype=np.intp), 1)
    t.__setstate__({"max_depth": n, "node_count": n, "nodes": nodes,
                    "values": np.ascontiguousarray(mx(a["val"]).reshape(n, 1, K))})
    e = DecisionTreeClassifier() if clf else DecisionTreeRegressor()
    e.tree_, e.n_features_, e.n_outputs_, e.max_features_, e.n_features_in_ = t, a["n"], 1, a["n"], a["n"]
    if clf:
        e.classes_ = labs(a["classes"]) if classes is None else np.array(classes)
        e.n_classes_ = np.int64(K)
    return e


def avg(a):
    from sklearn.ensemble import BaggingClassifier, RandomForestClassifier
    bag = "feats" in a["members"][0]
    e = BaggingClassifier() if bag else RandomForestClassifier()
    if bag:
        e.estimators_ = [tree(m["art"], classes=m["pos"]) for m in a["members"]]
        e.estimators_features_ = [np.array(m["feats"]) for m in a["members"]]
        e.base_estimator_ = e.estimators_[0]
    else:
        e.estimators_ = [tree(m["art"], classes=np.arange(len(a["classes"]), dtype=float)) for m in a["members"]]
    e.n_estimators = len(e.estimators_)
    e.classes_, e.n_classes_, e.n_features_, e.n_outputs_, e.n_features_in_ = labs(a["classes"]), len(a["classes"]), a["n"], 1, a["n"]
    return e


def gb(a):
    from sklearn.ensemble import GradientBoostingClassifier
    lr = val(a["lr"])
    e = GradientBoostingClassifier(loss=a["loss"], learning_rate=int(lr) if lr == int(lr) else lr, n_estimators=len(a["stages"]),
                                   init="zero" if a["init"]["k"] == "zero" else None)
    e.estimators_ = np.array([[tree(t) for t in row] for row in a["stages"]], dtype=object)
    e.init_ = "zero" if a["init"]["k"] == "zero" else dummy(a["init"])
    e.classes_, e.n_classes_, e.n_features_, e.n_features_in_ = labs(a["classes"]), len(a["classes"]), a["n"], a["n"]
    return e


_XGB = {}


def xgb(a):
    import math

    import xgboost as xg
    K = len(a["classes"])
    miss = val(a["missing"])
    key = (K, a["n"])
    if key not in _XGB:
        X = np.array([[float((i * 7 + j * 3) % 5) for j in range(a["n"])] for i in range(20)])
        y = np.array([i % K for i in range(20)])
        e = xg.XGBClassifier(n_estimators=1, max_depth=1, booster="gbtree", n_jobs=1, verbosity=0).fit(X, y)
        _XGB[key] = e, json.loads(bytes(e.get_booster().save_raw(raw_format="json")).decode())
    e0, js = _XGB[key]
    js = copy.deepcopy(js)
    m = js["learner"]["gradient_booster"]["model"]
    m["trees"] = []
    for i, t in enumerate(a["trees"]):
        n = len(t["left"])
        par = [2147483647] * n
        for p in range(n):
            for c in (t["left"][p], t["right"][p]):
                if c != -1:
                    par[c] = p
        m["trees"].append({
            "base_weights": [0.0] * n, "categories": [], "categories_nodes": [], "categories_segments": [], "categories_sizes": [],
            "default_left": [int(t["def"][j] == t["left"][j] and t["left"][j] != -1) for j in range(n)], "id": i, "left_children": t["left"],
            "loss_changes": [1.0] * n, "parents": par, "right_children": t["right"], "split_conditions": [val(v) for v in t["thr"]],
            "split_indices": t["feat"], "split_type": [0] * n, "sum_hessian": [1.0] * n,
            "tree_param": {"num_deleted": "0", "num_feature": str(a["n"]), "num_nodes": str(n), "size_leaf_vector": "1"}})
    nt = len(a["trees"])
    per = 1 if a["obj"] == "binary:logistic" else K
    m["tree_info"] = [i % per for i in range(nt)]
    m["gbtree_model_param"]["num_trees"] = str(nt)
    if "iteration_indptr" in m:
        m["iteration_indptr"] = list(range(0, nt + 1, per))
    bs = 1 / (1 + math.exp(-val(a["margin"])))
    js["learner"]["learner_model_param"]["base_score"] = repr(bs)
    at = js["learner"]["attributes"]
    at["best_iteration"], at["best_ntree_limit"] = str(a["rounds"] - 1), str(a["rounds"] * per)
    b = xg.Booster()
    b.load_model(bytearray(json.dumps(js).encode()))
    e = copy.deepcopy(e0)
    e.set_params(n_estimators=nt // per, missing=miss)
    e._Booster = b
    return e


def nb(a):
    from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB
    e = {"g": GaussianNB, "m": MultinomialNB, "c": ComplementNB}[a["nb"]]()
    e.classes_, e.n_features_, e.n_features_in_ = labs(a["classes"]), a["n"], a["n"]
    if a["nb"] == "g":
        e.class_prior_, e.theta_, e.sigma_, e.epsilon_ = vec(a["prior"]), mx(a["th"]), mx(a["sg"]), 1e-9
        e.class_count_ = np.ones(len(a["classes"]))
    else:
        e.class_log_prior_, e.feature_log_prob_ = vec(a["lprior"]), mx(a["flp"])
        e.class_count_, e.feature_count_ = np.ones(len(a["classes"])), np.ones((len(a["classes"]), a["n"]))
    return e


def dummy(a):
    from sklearn.dummy import DummyClassifier
    e = DummyClassifier(strategy="prior")
    e._strategy, e.sparse_output_, e.n_outputs_, e.n_features_in_ = "prior", False, 1, None
    e.class_prior_, e.classes_, e.n_classes_ = vec(a["prior"]), labs(a["classes"]), len(a["classes"])
    return e


# ---------------------------------------------------------------- transformers
def std(a):
    from sklearn.preprocessing import StandardScaler
    e = StandardScaler(with_mean=a["with_mean"], with_std=a["with_std"])
    e.mean_, e.n_features_in_, e.n_samples_seen_ = vec(a["mean"]) if a["mean"] else None, a["n"], 7
    e.scale_ = vec(a["scale"]) if a["with_std"] else None
    e.var_ = e.scale_ ** 2 if a["with_std"] else None
    return e


def minmax(a):
    from sklearn.preprocessing import MinMaxScaler
    e = MinMaxScaler()
    e.scale_, e.min_, e.n_features_in_, e.n_samples_seen_ = vec(a["scale"]), vec(a["min"]), a["n"], 7
    e.data_min_ = -e.min_ / e.scale_
    e.data_max_ = e.data_min_ + 1 / e.scale_
    e.data_range_ = 1 / e.scale_
    return e


def maxabs(a):
    from sklearn.preprocessing import MaxAbsScaler
    e = MaxAbsScaler()
    e.scale_, e.max_abs_, e.n_features_in_, e.n_samples_seen_ = vec(a["scale"]), vec(a["scale"]), a["n"], 7
    return e


def norm(a):
    from sklearn.preprocessing import Normalizer
    return Normalizer(norm=a["norm"])


def cats(a):
    out = []
    for c in a["cats"]:
        v = [lab(s) for s in c]
        out.append(np.array(v, dtype=object) if isinstance(v[0], str) else np.array(v, dtype=float))
    return out


def onehot(a):
    from sklearn.preprocessing import OneHotEncoder
    e = OneHotEncoder(handle_unknown=a["unknown"], sparse=a["sparse"])
    e.categories_, e.drop_idx_, e.n_features_in_ = cats(a), None, a["n"]
    return e


def ordinal(a):
    from sklearn.preprocessing import OrdinalEncoder
    e = OrdinalEncoder()
    e.categories_, e.n_features_in_ = cats(a), a["n"]
    return e


def missind(a):
    from sklearn.impute import MissingIndicator
    e = MissingIndicator(missing_values=val(a["marker"]), features=a["features"], error_on_new=a["err"])
    e.features_, e._n_features, e._precomputed, e.n_features_in_ = np.array(a["cols"], dtype=int), a["n"], False, a["n"]
    return e


def impute(a):
    from sklearn.impute import SimpleImputer
    st = vec(a["stats"])
    e = SimpleImputer(missing_values=val(a["marker"]), strategy=a["strategy"], add_indicator="ind" in a,
                      fill_value=float(st[0]) if a["strategy"] == "constant" else None)
    e.statistics_, e._fit_dtype, e.n_features_in_ = st, np.dtype(float), a["n"]
    e.indicator_ = missind(a["ind"]) if "ind" in a else None
    return e


PATS = {("w", 2): r"(?u)\b\w\w+\b", ("w", 1): r"(?u)\b\w+\b", ("s", 1): r"\S+"}


def topt(o):
    return dict(lowercase=o["lower"], strip_accents=None if o["accents"] == "none" else o["accents"], analyzer=o["analyzer"],
                token_pattern=PATS[(o["tok"], o["tokmin"])], ngram_range=(o["lo"], o["hi"]),
                stop_words=[text(w) for w in o["stop"]] or None)


def count(a):
    from sklearn.feature_extraction.text import CountVectorizer
    e = CountVectorizer(binary=a["binary"], **topt(a["opt"]))
    e.vocabulary_ = {text(t): i for t, i in zip(a["terms"], a["index"])}
    e.fixed_vocabulary_, e.stop_words_ = False, set()
    return e


def tfidfvec(a):
    from sklearn.feature_extraction.text import TfidfVectorizer
    t = a["tfidf"]
    e = TfidfVectorizer(binary=a["binary"], norm=None if t["norm"] == "none" else t["norm"], use_idf=t["use_idf"], sublinear_tf=t["sublinear"],
                        **topt(a["opt"]))
    e.vocabulary_ = {text(w): i for w, i in zip(a["terms"], a["index"])}
    e.fixed_vocabulary_, e.stop_words_ = False, set()
    e._tfidf = tfidf(t)
    return e


def tfidf(a):
    import scipy.sparse as sp
    from sklearn.feature_extraction.text import TfidfTransformer
    e = TfidfTransformer(norm=None if a["norm"] == "none" else a["norm"], use_idf=a["use_idf"], sublinear_tf=a["sublinear"])
    if a["use_idf"]:
        n = len(a["idf"])
        e._idf_diag = sp.diags(vec(a["idf"]), offsets=0, shape=(n, n), format="csr")
    return e


def hashvec(a):
    from sklearn.feature_extraction.text import HashingVectorizer
    return HashingVectorizer(n_features=a["n"], binary=a["binary"], norm=None if a["norm"] == "none" else a["norm"],
                             alternate_sign=a["sign"], **topt(a["opt"]))


def dictvec(a):
    from sklearn.feature_extraction import DictVectorizer
    e = DictVectorizer(separator=a["sep"], sparse=a["sparse"], sort=False)
    e.vocabulary_ = dict(zip(a["names"], a["cols"]))
    e.feature_names_ = sorted(a["names"], key=e.vocabulary_.get)
    return e


def pipe(a):
    from sklearn.pipeline import Pipeline
    return Pipeline([("s%d" % i, "passthrough" if s["k"] == "pass" else make(s)) for i, s in enumerate(a["steps"])])


def union(a):
    from sklearn.pipeline import FeatureUnion
    w = {"p%d" % i: val(p["w"]) for i, p in enumerate(a["parts"]) if p["w"] != "none"}
    return FeatureUnion([("p%d" % i, "drop" if p["art"]["k"] == "drop" else make(p["art"])) for i, p in enumerate(a["parts"])],
                        transformer_weights=w or None)


def ft(a):
    e = zoo.FakeFt([text(w) for w in a["words"]], mx(a["inm"]), a["labels"] if a["sup"] else None, mx(a["outm"]).tolist() if a["sup"] else None,
                   loss=a["loss"], maxn=a["maxn"], ngrams=a["ngrams"])
    return e


_BY = dict(linear=linear, tree=tree, avg=avg, gb=gb, xgb=xgb, nb=nb, dummy=dummy, std=std, minmax=minmax, maxabs=maxabs, norm=norm, onehot=onehot,
           ordinal=ordinal, missind=missind, impute=impute, count=count, tfidfvec=tfidfvec, tfidf=tfidf, hashvec=hashvec, dictvec=dictvec,
           pipe=pipe, union=union, ft=ft)


def make(a):
    return _BY[a["k"]](a)


def close(u, v, path=""):
    """The same artifact up to the rounding of numbers to doubles; returns the first difference."""
    if isinstance(u, dict) and isinstance(v, dict):
        if set(u) != set(v):
            return "%s: fields %s" % (path, sorted(set(u) ^ set(v)))
        return next((r for k in u for r in [close(u[k], v[k], path + "." + k)] if r), None)
    if isinstance(u, list) and isinstance(v, list):
        if len(u) != len(v):
            return "%s: length %d, %d" % (path, len(u), len(v))
        return next((r for i, (p, q) in enumerate(zip(u, v)) for r in [close(p, q, "%s[%d]" % (path, i))] if r), None)
    if u == v:
        return None
    try:
        p, q = val(u), val(v)
        if p != p and q != q or abs(p - q) <= 1e-6 * max(abs(p), abs(q)):
            return None
    except (ValueError, AttributeError, TypeError):
        pass
    return "%s: %r, %r" % (path, u, v)


# ---------------------------------------------------------------- inputs
def data(x, rng):
    if x["f"] == "T":
        return [text(d) for d in x["docs"]]
    if x["f"] == "F":
        t = [text(s) for s in x["texts"]]
        return {"text": t if x["list"] else t[0], "k": x["kk"], "thr": val(x["thr"])}
    if x["f"] == "M":
        return [{k: (v if s else val(v)) for k, v, s in zip(r["keys"], r["vals"], r["str"])} for r in x["rows"]]
    ints = rng.random() < 0.3

    def cell(s):
        if s.startswith("s:"):
            return s[2:]
        v = val(s)
        return int(v) if ints and v == v and v == int(v) else v
    return [[cell(s) for s in r] for r in x["rows"]]


PROBA = ["predict", "predict_proba", "predict_log_proba"]


def methods(a):
    k = a["k"]
    if k == "pipe":
        return [m for m in methods(a["steps"][-1]) if m != "decision_function"]
    if k == "linear":
        return ["predict", "decision_function"] if a["est"] == "other" else PROBA + ["decision_function"]
    if k == "tree" and a["task"] == "r":
        return ["predict"]
    if k == "xgb":
        return PROBA[:2]
    if k in ("tree", "avg", "gb", "nb", "dummy"):
        return PROBA
    if k == "ft":
        return ["predict"] if a["sup"] else []
    return ["transform"]


def case(d, rng, i, valid=False):
    """valid: only inputs the specification has answers for, sparse only where it has."""
    a, xs = d["art"], d["xs"]
    if valid:
        xs = [x for x, v in zip(xs, d["valid"]) if v]
    est = make(a)
    got = arts.ft(est) if a["k"] == "ft" else arts.art(est)
    diff = close(a, got)
    if diff:
        raise MkError("installed object is not the artifact: %s" % diff)
    k = a["k"]
    name = "enumerated/%s/%d" % (k, i)
    kw = {}
    if k == "ft":
        ws = [text(w) for w in a["words"]]
        kw = dict(sentences=[data(x, rng) for x in xs] if not a["sup"] else [{"text": text(x["texts"][0])} for x in xs if not x["list"]][:8],
                  words=[{"text": w} for w in ws + ["zz", ""]], nwords=len(ws), sup=a["sup"])
        return zoo.Case(name, est, [data(x, rng) for x in xs] if a["sup"] else [], methods(a), ad=FT, art=got, convert=zoo.convert_ft, **kw)
    ad = DATA
    if k in ("count", "tfidfvec", "hashvec"):
        ad = text_adapter(est)
    if k == "dictvec":
        ad = MAPS
    if k in ("linear", "tree", "avg", "gb", "xgb", "nb", "dummy") and a.get("task") != "r":
        kw["clf"] = True
    plain = all(x["f"] == "D" and all(c != "nan" and not c.startswith("s:") for r in x["rows"] for c in r) for x in xs)
    return zoo.Case(name, est, [data(x, rng) for x in xs], methods(a), ad=ad, art=got, sparse=d["sparse"] if valid else plain and k not in ("onehot", "ordinal"), **kw)


# ---------------------------------------------------------------- enumeration
ALL = None      # breadth first: every instance of the first shapes
# family of zoo -> [(family of MCModel, quick (num, shapes), thorough [(num, shapes), ...])]
PLAN = {
    "linear": [("linear", (50, 0), [(ALL, 2), (1500, 0)])],
    "tree": [("tree", (50, 0), [(ALL, 6), (1500, 0)])],
    "forest": [("forest", (40, 0), [(ALL, 1), (1500, 0)])],
    "gb": [("gb", (40, 0), [(1500, 1), (1000, 0)])],
    "xgb": [("xgb", (40, 0), [(ALL, 1), (1000, 0)])],
    "nb": [("nb", (50, 0), [(ALL, 2), (1500, 0)])],
    "dummy": [("dummy", (20, 0), [(ALL, 0)])],
    "scaler": [("scaler", (ALL, 6), [(ALL, 0)])],
    "encoder": [("encoder", (60, 0), [(ALL, 0)])],
    "impute": [("impute", (60, 0), [(ALL, 2), (1500, 0)])],
    "count": [("count", (30, 0), [(1200, 0)])],
    "tfidf": [("tfidfvec", (20, 0), [(800, 0)]), ("tfidf", (ALL, 0), [(ALL, 0)])],
    "hashing": [("hashing", (12, 0), [(500, 0)])],
    "dictvec": [("dictvec", (ALL, 0), [(ALL, 0)])],
    "pipe": [("pipe", (50, 0), [(ALL, 2), (1500, 0)])],
    "union": [("union", (50, 0), [(ALL, 2), (1000, 0)])],
    "fasttext": [("fasttext", (40, 0), [(ALL, 2), (800, 0)])],
}


def drawn(ctx, family, num, shapes):
    import gen
    if not ctx.quick and num is not None and num > 300:      # several generators side by side
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            parts = list(ex.map(lambda j: gen.models(ctx, family, num // 3, shapes, seed=j), range(3)))
        return [p for ps in parts for p in ps]
    return gen.models(ctx, family, num, shapes)


def enumerated(ctx, fams, share=1.0, valid=False):
    """Cases from TLC for the named families of zoo (generated in the background)."""
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    ex = ThreadPoolExecutor(3 if ctx.quick else 2)
    for f in fams:
        for g, quick, thorough in PLAN[f]:
            for num, shapes in [quick] if ctx.quick else thorough:
                if share < 1:
                    num, shapes = max(3, int((num or 40) * share)), 0
                jobs.append((f, ex.submit(drawn, ctx, g, num, shapes)))

    def cases():
        i = 0
        for f, j in jobs:
            for d in j.result():
                if ctx.late():
                    break
                i += 1
                c = case(d, ctx.rng, i, valid)
                if c.inputs or c.ad is FT:
                    yield f, c
        ex.shutdown(wait=False, cancel_futures=True)
    return cases


def matrices(ctx):
    """Pairs of small matrices from TLC."""
    out = []
    for num, shapes in [(30, 0)] if ctx.quick else [(ALL, 3), (1500, 0)]:
        for d in drawn(ctx, "lib", num, shapes):
            x, y = d["xs"]
            out.append((data(x, ctx.rng), data(y, ctx.rng)))
    return out
