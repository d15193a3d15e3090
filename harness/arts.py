"""Artifacts: what a fitted SOURCE estimator is, in the terms of spec/Model.tla.

Reads only the source library's own objects, never pure_predict's.
"""
import json
import math
import struct

import numpy as np

from enc import codes, label, labels, num, nums

UNSUPPORTED = {"k": "unsupported"}


def rows(m):
    return [nums(r) for r in np.asarray(m).tolist()]


def tree(t, classes=None):
    tr = t.tree_
    return {
        "k": "tree", "left": tr.children_left.tolist(),
        "right": tr.children_right.tolist(), "feat": tr.feature.tolist(),
        "thr": nums(tr.threshold.tolist()), "val": [nums(v[0]) for v in tr.value.tolist()],
        "classes": labels(list(classes if classes is not None else getattr(t, "classes_", []))) if _is_clf(t) or classes is not None else ["0", "1"],
        "task": "c" if _is_clf(t) else "r", "outputs": int(tr.n_outputs), "n": int(tr.n_features),
    }


def _is_clf(t):
    return "Classifier" in type(t).__name__


LINEAR = {"LogisticRegression": "logistic", "SGDClassifier": "sgd", "RidgeClassifier": "other",
          "Perceptron": "other", "PassiveAggressiveClassifier": "other", "LinearSVC": "other"}


def linear(e):
    coef = np.atleast_2d(e.coef_)
    b = np.asarray(getattr(e, "intercept_", 0.0), dtype=float)
    b = np.broadcast_to(b.reshape(-1) if b.ndim else b, (coef.shape[0],))
    return {"k": "linear", "coef": rows(coef), "b": nums(b.tolist()), "classes": labels(e.classes_.tolist()),
            "est": LINEAR[type(e).__name__], "multi": str(getattr(e, "multi_class", "none")),
            "solver": str(getattr(e, "solver", "none")), "loss": str(getattr(e, "loss", "none")), "n": int(coef.shape[1])}


def avg(e):
    feats = getattr(e, "estimators_features_", None)
    forest = type(e).__name__ in ("RandomForestClassifier", "ExtraTreesClassifier")
    ms = []
    n = int(getattr(e, "n_features_", 0) or getattr(e, "n_features_in_", 0))
    for i, m in enumerate(e.estimators_):
        d = {"art": art(m)}
        if "n" not in d["art"]:
            d["art"]["n"] = n if feats is None else len(feats[i])
        if not forest:
            d["feats"] = [int(j) for j in feats[i]]
            d["pos"] = [int(c) for c in m.classes_]
        ms.append(d)
    return {"k": "avg", "members": ms, "classes": labels(e.classes_.tolist()), "n": n}


def gb(e):
    init = e.init_
    return {"k": "gb", "loss": e.loss, "lr": num(float(e.learning_rate)),
            "stages": [[tree(t) for t in row] for row in e.estimators_.tolist()],
            "init": {"k": "zero"} if isinstance(init, str) else art(init),
            "classes": labels(e.classes_.tolist()), "n": int(e.n_features_)}


def xgb(e):
    b = e.get_booster()
    obj = e.objective if isinstance(e.objective, str) else "callable"
    base = {"k": "xgb", "obj": obj, "booster": str(e.booster)}
    if obj not in ("binary:logistic", "multi:softprob") or e.booster != "gbtree":
        return base
    js = json.loads(bytes(b.save_raw(raw_format="json")).decode())
    lr = js["learner"]
    trees = lr["gradient_booster"]["model"]["trees"]
    cats = any(t.get("categories") for t in trees)
    par = lr["gradient_booster"]["model"]["gbtree_model_param"].get("num_parallel_tree", "1")
    if cats or int(par) > 1 or int(lr["learner_model_param"].get("num_target", 1)) > 1:
        return UNSUPPORTED
    out = []
    for t in trees:
        left, right = t["left_children"], t["right_children"]
        n = len(left)
        leaf = [c == -1 for c in left]
        dl = t["default_left"]
        out.append({"left": left, "right": right,
                    "def": [(left[i] if dl[i] else right[i]) for i in range(n)],
                    "feat": t["split_indices"],
                    "thr": [num(f32(t["split_conditions"][i])) for i in range(n)],
                    "val": [num(f32(t["split_conditions"][i])) if leaf[i] else "0" for i in range(n)]})
    bs = float(lr["learner_model_param"]["base_score"])
    classes = e.classes_.tolist()
    best = getattr(e, "best_iteration", None) if e.early_stopping_rounds is not None or _has_best(b) else None
    K = 1 if obj == "binary:logistic" else len(classes)
    rounds = len(out) // K if best is None else int(best) + 1
    base.update({"trees": out, "rounds": rounds, "margin": num(math.log(bs / (1 - bs))),
                 "missing": num(float(e.missing)), "classes": labels(classes), "n": int(lr["learner_model_param"]["num_feature"])})
    return base


def _has_best(b):
    return b.attr("best_iteration") is not None


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def nb(e):
    c = labels(e.classes_.tolist())
    name = type(e).__name__
    if name == "GaussianNB":
        return {"k": "nb", "nb": "g", "prior": nums(e.class_prior_.tolist()), "th": rows(e.theta_), "sg": rows(e.sigma_),
                "classes": c, "n": int(e.theta_.shape[1])}
    return {"k": "nb", "nb": "m" if name == "MultinomialNB" else "c", "lprior": nums(e.class_log_prior_.tolist()),
            "flp": rows(e.feature_log_prob_), "classes": c, "n": int(e.feature_log_prob_.shape[1])}


def dummy(e):
    if getattr(e, "n_outputs_", 1) != 1:
        return UNSUPPORTED
    return {"k": "dummy", "strategy": e._strategy if hasattr(e, "_strategy") else e.strategy,
            "prior": nums(e.class_prior_.tolist()), "classes": labels(e.classes_.tolist())}


def opt(e):
    pats = {r"(?u)\b\w\w+\b": ("w", 2), r"(?u)\b\w+\b": ("w", 1), r"\w+": ("w", 1), r"\S+": ("s", 1), r"\S\S\S+": ("s", 3),
            r"\w\w\w+": ("w", 3), r"(?u)\b(\w)\w+\b": ("w", 2, 1), r"\b(\w\w)\w*\b": ("w", 2, 2),
            r"(?u)\w*": ("we", 0), r"[a-z]*": ("az", 0)}
    tok = pats.get(e.token_pattern)
    if e.preprocessor is not None or e.tokenizer is not None or callable(e.analyzer) or callable(e.strip_accents) \
            or e.analyzer not in ("word", "char", "char_wb"):
        return None
    if e.analyzer == "word" and (tok is None or isinstance(e.stop_words, str)):
        return None
    tok = tok or ("w", 2)
    lo, hi = e.ngram_range
    return {"lower": bool(e.lowercase), "accents": e.strip_accents or "none", "tok": tok[0], "tokmin": tok[1], "cap": tok[2] if len(tok) > 2 else 0,
            "analyzer": e.analyzer, "lo": int(lo), "hi": int(hi),
            "stop": [codes(w) for w in sorted(e.stop_words)] if e.stop_words and e.analyzer == "word" else []}


def vocab(e):
    items = sorted(e.vocabulary_.items(), key=lambda p: p[1])
    return {"terms": [codes(t) for t, _ in items], "index": [int(i) for _, i in items]}


def tfidf(e):
    d = {"k": "tfidf", "use_idf": bool(e.use_idf), "sublinear": bool(e.sublinear_tf), "norm": e.norm or "none", "n": -1}
    d["idf"] = nums(e.idf_.tolist()) if e.use_idf else []
    if e.use_idf:
        d["n"] = int(e._idf_diag.shape[0])
    return d


def text(e):
    o = opt(e)
    if o is None:
        return UNSUPPORTED
    name = type(e).__name__
    if name == "HashingVectorizer":
        return {"k": "hashvec", "opt": o, "n": int(e.n_features), "sign": bool(e.alternate_sign), "binary": bool(e.binary),
                "norm": e.norm or "none"}
    d = {"k": "count", "opt": o, "binary": bool(e.binary), "n": len(e.vocabulary_)}
    d.update(vocab(e))
    if name == "TfidfVectorizer":
        d["k"] = "tfidfvec"
        d["tfidf"] = tfidf(e._tfidf)
    return d


def missind(e):
    return {"k": "missind", "features": e.features, "cols": [int(i) for i in e.features_], "marker": label(e.missing_values),
            "err": bool(e.error_on_new), "n": int(e._n_features)}


def scaler(e):
    name = type(e).__name__
    if name == "StandardScaler":
        d = {"k": "std", "with_mean": bool(e.with_mean), "with_std": bool(e.with_std),
             "mean": nums(e.mean_.tolist()) if e.mean_ is not None else [],
             "scale": nums(e.scale_.tolist()) if e.scale_ is not None else [], "n": int(e.n_features_in_)}
        return d
    if name == "MinMaxScaler":
        return {"k": "minmax", "scale": nums(e.scale_.tolist()), "min": nums(e.min_.tolist()), "n": int(len(e.scale_))}
    return {"k": "maxabs", "scale": nums(e.scale_.tolist()), "n": int(len(e.scale_))}


def encoder(e):
    if getattr(e, "drop", None) is not None:
        return UNSUPPORTED
    cats = [labels(c.tolist()) for c in e.categories_]
    if type(e).__name__ == "OneHotEncoder":
        return {"k": "onehot", "cats": cats, "unknown": e.handle_unknown, "sparse": bool(e.sparse), "n": len(cats)}
    return {"k": "ordinal", "cats": cats, "n": len(cats)}


def impute(e):
    d = {"k": "impute", "stats": labels(e.statistics_.tolist()), "strategy": e.strategy, "marker": label(e.missing_values),
         "n": int(len(e.statistics_))}
    if e.add_indicator:
        d["ind"] = missind(e.indicator_)
    return d


def dictvec(e):
    return {"k": "dictvec", "names": [str(k) for k in e.vocabulary_], "cols": [int(v) for v in e.vocabulary_.values()],
            "sep": e.separator, "sparse": bool(e.sparse), "n": len(e.vocabulary_)}


def pipe(e):
    return {"k": "pipe", "steps": [{"k": "pass"} if s is None or isinstance(s, str) else art(s) for _, s in e.steps]}


def union(e):
    w = e.transformer_weights or {}
    return {"k": "union", "parts": [{"art": {"k": "drop"} if t is None or isinstance(t, str) else art(t),
                                     "w": num(float(w[n])) if n in w else "none"} for n, t in e.transformer_list]}


def ft(m):
    """fasttext source: anything with the public accessors of fasttext's _FastText."""
    sup = m.label in m.get_labels()[0] if m.get_labels() else False
    if m.is_quantized():
        return {"k": "ft", "quant": True, "sup": sup, "words": [codes(w) for w in m.get_words()]}
    labs = m.get_labels() if sup else []
    outm = m.get_output_matrix().tolist() if sup else []
    return {"k": "ft", "words": [codes(w) for w in m.get_words()], "inm": rows(m.get_input_matrix()),
            "labels": list(labs), "outm": [nums(r) for r in outm], "dim": int(m.get_dimension()), "sup": bool(sup),
            "loss": m.loss.name, "maxn": int(m.maxn), "ngrams": int(getattr(m, "wordNgrams", 1))}


_BY = {}
for n_ in LINEAR:
    _BY[n_] = linear
for n_ in ("DecisionTreeClassifier", "DecisionTreeRegressor", "ExtraTreeClassifier", "ExtraTreeRegressor"):
    _BY[n_] = tree
for n_ in ("RandomForestClassifier", "ExtraTreesClassifier", "BaggingClassifier"):
    _BY[n_] = avg
_BY.update(GradientBoostingClassifier=gb, XGBClassifier=xgb, GaussianNB=nb, MultinomialNB=nb, ComplementNB=nb,
           SimpleImputer=impute, MissingIndicator=missind, DummyClassifier=dummy, Pipeline=pipe, FeatureUnion=union,
           OneHotEncoder=encoder, OrdinalEncoder=encoder, StandardScaler=scaler, MinMaxScaler=scaler, MaxAbsScaler=scaler,
           Normalizer=lambda e: {"k": "norm", "norm": e.norm}, DictVectorizer=dictvec, TfidfVectorizer=text,
           CountVectorizer=text, HashingVectorizer=text, TfidfTransformer=tfidf)


def art(e):
    f = _BY.get(type(e).__name__)
    return f(e) if f else dict(UNSUPPORTED)
