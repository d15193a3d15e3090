"""Fitted source models of every kind, with valid inputs.

Each family is an endless generator of Case objects: the configurations are walked
systematically first and repeated with fresh random data afterwards.
"""
import collections
import io
import itertools
import random
import types
import warnings

import numpy as np

import arts
import enc
from session import Adapter, As, DATA, FT, MAPS, text_adapter

warnings.filterwarnings("ignore")


def _unconverged():
    """This scikit-learn fails on the newer scipy's message when lbfgs stops early; the fit itself is as good as any."""
    from sklearn.linear_model import _logistic
    _logistic._check_optimize_result = lambda solver, result, max_iter=None, extra_warning_msg=None: result.nit if max_iter is None else min(result.nit, max_iter)


_unconverged()

PROBA = ["predict", "predict_proba", "predict_log_proba"]


def pure():
    import pure_sklearn.map as m
    return m


def to_sparse(x):
    from pure_sklearn.utils import sparse_list
    return sparse_list([list(r) for r in x])


def convert_sklearn(e):
    from pure_sklearn.map import convert_estimator
    return convert_estimator(e)


def convert_ft(m):
    from pure_fasttext import FastText
    return FastText(m)


class Case:
    def __init__(self, name, est, inputs, methods, ad=DATA, art=None, sparse=False, convert=convert_sklearn, **kw):
        self.name, self.est, self.inputs, self.methods, self.ad = name, est, inputs, methods, ad
        self.art = art if art is not None else arts.art(est)
        self.sparse = sparse            # sparse input accepted
        self.convert = convert
        self.width = kw.get("width")    # checked width or None
        self.kw = kw

    def __repr__(self):
        return "<Case %s>" % self.name


# ---------------------------------------------------------------- data
def dy(rng, lo=-32, hi=32, den=8):
    """A number exactly representable in single precision."""
    return rng.randint(lo, hi) / den


def cell(rng):
    r = rng.random()
    if r < 0.25:
        return 0.0
    if r < 0.30:
        return rng.randint(-4, 4)
    if r < 0.33:
        return -0.0
    if r < 0.36:
        return rng.choice([1000.0, -1000.0, 0.125, 2.0 ** -20, -(2.0 ** 17)])
    if r < 0.37:
        return rng.choice([True, False, 2.0 ** 54, -2.0 ** 60, 2 ** 55])
    return dy(rng)


def mat(rng, rows, n, f=cell):
    return [[f(rng) for _ in range(n)] for _ in range(rows)]


def train(rng, rows, n, den=4):
    return np.array([[rng.randint(-12, 12) / den for _ in range(n)] for _ in range(rows)], dtype=float)


LABELS = [
    lambda k: list(range(k)),
    lambda k: ["class %d" % (i * 7 % 11) for i in range(k)],
    lambda k: [10 * i - 5 for i in range(k)],
    lambda k: ["b", "a", "é", "Z", "10", "9", "x y", ""][:k] if k <= 8 else ["n%02d" % i for i in range(k)],
    lambda k: [2.0 * i - 1 for i in range(k)],
    lambda k: [False, True] if k == 2 else [3 * i + 1 for i in range(k)],
]


def target(rng, X, k, style=0):
    """Labels with some signal; every class occurs."""
    labs = LABELS[style % len(LABELS)](k)
    labs = list(labs)
    w = [rng.uniform(-1, 1) for _ in range(X.shape[1])]
    s = X @ np.array(w) + np.array([rng.gauss(0, 0.5) for _ in range(len(X))])
    order = np.argsort(np.argsort(s))
    y = [(int(o) * k) // len(X) for o in order]
    return np.array([labs[i] for i in y])


def near(vals, rng):
    """Values at and around the given split points, exact in single precision."""
    out = []
    for v in vals:
        f = np.float32(v)
        out += [float(f), float(np.nextafter(f, np.float32(np.inf))), float(np.nextafter(f, np.float32(-np.inf)))]
    return out


# ---------------------------------------------------------------- linear
def linear(rng):
    from sklearn.linear_model import (LogisticRegression, PassiveAggressiveClassifier, Perceptron, RidgeClassifier,
                                      SGDClassifier)
    from sklearn.svm import LinearSVC
    conf = []
    for fi in (True, False):
        for k in (2, 3, 5):
            for mc, so in (("ovr", "lbfgs"), ("multinomial", "lbfgs"), ("auto", "lbfgs"), ("auto", "liblinear"), ("ovr", "liblinear"),
                           ("multinomial", "newton-cg")):
                conf.append((lambda mc=mc, so=so, fi=fi: LogisticRegression(multi_class=mc, solver=so, fit_intercept=fi, C=3.0), k,
                             PROBA + ["decision_function"]))
            conf.append((lambda fi=fi: SGDClassifier(loss="log", fit_intercept=fi, random_state=0), k, PROBA + ["decision_function"]))
            conf.append((lambda fi=fi: SGDClassifier(loss="hinge", fit_intercept=fi, random_state=0), k, ["predict", "decision_function"]))
            conf.append((lambda fi=fi: RidgeClassifier(fit_intercept=fi), k, ["predict", "decision_function"]))
            conf.append((lambda fi=fi: Perceptron(fit_intercept=fi, random_state=0), k, ["predict", "decision_function"]))
            conf.append((lambda fi=fi: PassiveAggressiveClassifier(fit_intercept=fi, random_state=0), k, ["predict", "decision_function"]))
            conf.append((lambda fi=fi: LinearSVC(fit_intercept=fi, random_state=0), k, ["predict", "decision_function"]))
    rng.shuffle(conf)
    for i in itertools.count():
        mk, k, ms = conf[i % len(conf)]
        n = rng.choice([1, 2, 3, 5, 12])
        X = train(rng, 40, n)
        y = target(rng, X, k, rng.randrange(6))
        e = mk()
        e.fit(X, y)
        if i % 3 == 1:          # coefficients on which ties are exact
            yield _ties(rng, e, k, n, ms, X, y)
            continue
        if i % 4 == 3 and e.coef_.shape[0] > 1 or i % 24 == 6:
            yield _faint(rng, e, k, n, ms, X, y)
            continue
        scale = rng.choice([1, 1, 1, 30, 1000, 1e6])
        if scale != 1:
            e.coef_ = e.coef_ * scale
            e.intercept_ = e.intercept_ * scale
        xs = [mat(rng, 6, n), mat(rng, 1, n), [[0.0] * n, [1] * n]]
        if rng.random() < 0.5:           # rows of very different size in one batch
            xs[0] = [[v * u for v in r] for r, u in zip(xs[0], rng.choice([[1, 1e5, 1, 1e3, 1e-9, 1], [1, 1, 1e12, 1, 1e4, 1e-3], [1, 1e16, 1, 1e20, 1, 1e15]]))]
        yield Case("linear/%s/k%d/n%d/x%g" % (str(e).split("(")[0] + str(getattr(e, "multi_class", "")), k, n, scale),
                   e, xs, ms, sparse=True, width=n, X=X, y=y, refit=(X[:, ::-1] * 2 + 1, y[::-1]), clf=True)


def _ties(rng, e, k, n, ms, X, y):
    """A linear model on a coarse grid, and rows whose best score is shared or zero."""
    g = lambda: rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, -3.0])
    r = e.coef_.shape[0]
    e.coef_ = np.array([[g() for _ in range(n)] for _ in range(r)])
    e.intercept_ = np.array([g() for _ in range(r)]) if np.ndim(e.intercept_) and getattr(e, "fit_intercept", True) else np.zeros(r)
    if r > 1 and rng.random() < 0.7:
        a, b = rng.sample(range(r), 2)
        e.coef_[a], e.intercept_[a] = e.coef_[b], e.intercept_[b]
    rows = [[0.0] * n]
    for _ in range(60):
        row = [rng.choice([0, 0.0, 1.0, -1.0, 2.0, 0.5, -2.5]) for _ in range(n)]
        s = e.coef_ @ np.array(row, dtype=float) + e.intercept_
        tie = (s == s.max()).sum() > 1 if r > 1 else s[0] == 0
        if tie and len(rows) < 5 or rng.random() < 0.03:
            rows.append(row)
    tiny = [[v * t for v in row] for row in rows[1:3] for t in (1e-12, 1e-100)]
    if r == 1:               # a score of one term, a hair above or below zero
        for t in (1e-17, 1e-30, -1e-20, 1e-200, -1e-9, -1e-16):
            row = [0.0] * n
            row[rng.randrange(n)] = t
            tiny.append(row)
    return Case("linear/ties/%s/k%d/n%d" % (type(e).__name__, k, n), e, [rows, tiny or rows[:1]], ms, sparse=True, width=n, X=X, y=y, clf=True)


def _faint(rng, e, k, n, ms, X, y):
    """Scores so low that every class has next to no probability on its own."""
    e.coef_ = e.coef_ / max(1e-9, np.abs(e.coef_).max())
    r = e.coef_.shape[0]
    base = rng.choice([-700.0, -690.0, -690.0, -685.0, -670.5, -640.0, -300.0])
    alike = rng.random() < 0.6
    e.intercept_ = np.array([(base if alike or rng.random() < 0.8 else rng.choice([-600.0, -650.0])) + rng.uniform(-3, 3) for _ in range(r)])
    return Case("linear/faint/%s/k%d/n%d" % (type(e).__name__ + str(getattr(e, "multi_class", "")), k, n), e, [mat(rng, 5, n, lambda q: dy(q, -8, 8)), [[0.0] * n]], ms,
                sparse=True, width=n, X=X, y=y, clf=True)


def faint(rng):
    """Linear models whose every class is next to impossible on its own."""
    from sklearn.linear_model import LogisticRegression, SGDClassifier
    for i in itertools.count():
        n, k = rng.choice([1, 2, 5]), rng.choice([3, 4, 6])
        X = train(rng, 40, n)
        y = target(rng, X, k, rng.randrange(6))
        e = SGDClassifier(loss="log", random_state=0) if i % 3 == 2 else LogisticRegression(multi_class="ovr", solver=rng.choice(["lbfgs", "liblinear"]))
        yield _faint(rng, e.fit(X, y), k, n, PROBA + ["decision_function"], X, y)


# ---------------------------------------------------------------- trees
def tree_inputs(rng, e, n, rows=8):
    t = e.tree_
    sp = [(int(t.feature[i]), float(np.float32(t.threshold[i])), float(t.threshold[i])) for i in range(t.node_count)
          if t.children_left[i] != -1]
    X = mat(rng, rows, n)
    if sp:
        for r in range(rows):
            for _ in range(2):
                f, v32, v = rng.choice(sp)
                X[r][f] = rng.choice(near([v32], rng))
    return X


def tree(rng):
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier, ExtraTreeRegressor
    conf = []
    for depth in (None, 1, 3):
        for cls in (DecisionTreeClassifier, ExtraTreeClassifier):
            for k in (2, 3, 12):
                conf.append((cls, depth, k))
        for cls in (DecisionTreeRegressor, ExtraTreeRegressor):
            conf.append((cls, depth, 0))
    rng.shuffle(conf)
    for i in itertools.count():
        cls, depth, k = conf[i % len(conf)]
        n = rng.choice([1, 2, 3, 12])
        X = train(rng, rng.choice([5, 40, 120]) + k, n)
        w = np.array([rng.choice([0.5, 1.0, 3.0]) for _ in range(len(X))])
        if i % len(conf) == 7:       # a tree that is one long path
            X = np.array([[float(j)] + [1.0] * (n - 1) for j in range(rng.choice([70, 90, 140]))])
            y = np.array([(-1 if rng.random() < 0.2 else 1) * 4.0 ** min(j, 400) for j in range(len(X))])
            e = DecisionTreeRegressor(random_state=0).fit(X, y)
            x = [[v] + [1.0] * (n - 1) for v in [0.0, 1.0, len(X) - 1.0, 500.0, -3.0] + near([rng.randrange(len(X)) + 0.5 for _ in range(3)], rng)]
            yield Case("tree/path/n%d" % n, e, [x], ["predict"], sparse=True, X=X, y=y)
            continue
        e = cls(max_depth=depth, random_state=rng.randrange(1000))
        if k:
            y = target(rng, X, k, rng.randrange(6))
            e.fit(X, y, sample_weight=w)
        else:
            y = np.array([rng.randint(-100, 100) / 7 for _ in range(len(X))])
            e.fit(X, y, sample_weight=w)
        xs = [tree_inputs(rng, e, n), mat(rng, 1, n)]
        yield Case("tree/%s/d%s/k%d/n%d" % (cls.__name__, depth, k, n), e, xs, PROBA if k else ["predict"], sparse=True, X=X, y=y,
                   refit=(X * 2 + 1, y[::-1]), clf=bool(k))


def forest(rng):
    from sklearn.ensemble import BaggingClassifier, ExtraTreesClassifier, RandomForestClassifier
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import MaxAbsScaler
    from sklearn.tree import DecisionTreeClassifier
    conf = []
    for k in (2, 3, 5):
        conf += [("rf", k, None), ("et", k, None), ("bag", k, "tree"), ("bag", k, "lr"), ("bag", k, "nb"), ("bag", k, "treef"),
                 ("bag", k, "pipe"), ("bag", k, "treeb"), ("bagm", k, "tree"), ("bag", k, "none")]
    rng.shuffle(conf)
    for i in itertools.count():
        kind, k, base = conf[i % len(conf)]
        n = rng.choice([2, 3, 5, 12])
        X = train(rng, 45, n)
        y = target(rng, X, k, rng.randrange(6))
        seed = rng.randrange(1000)
        ne = rng.choice([1, 2, 3, 7])
        sparse = True
        if kind in ("rf", "et"):
            e = (RandomForestClassifier if kind == "rf" else ExtraTreesClassifier)(
                n_estimators=ne, max_depth=rng.choice([None, 2]), random_state=seed, bootstrap=rng.random() < 0.7)
            e.fit(X, y)
            trees = e.estimators_
        else:
            b = {"tree": DecisionTreeClassifier(max_depth=3), "treef": DecisionTreeClassifier(max_depth=3),
                 "treeb": DecisionTreeClassifier(), "lr": LogisticRegression(), "nb": GaussianNB(), "none": None,
                 "pipe": make_pipeline(MaxAbsScaler(), LogisticRegression())}[base]
            if base == "treeb" or kind == "bagm":     # members that miss a class
                y = y.copy()
                lone = y[0]
                for j in range(1, len(y)):
                    if y[j] == lone:
                        y[j] = next(v for v in y if v != lone)
            e = BaggingClassifier(b, n_estimators=ne + 1, max_features=rng.choice([1.0, 0.6]) if base != "treef" else 0.5,
                                  bootstrap_features=base in ("treef", "nb"), max_samples=0.5 if kind == "bagm" else 0.8,
                                  random_state=seed)
            e.fit(X, y)
            if base == "lr" and any(len(m.classes_) < 2 for m in e.estimators_):
                continue
            trees = [m for m in e.estimators_ if hasattr(m, "tree_")]
            sparse = base not in ("nb",)
        x = mat(rng, 6, n)
        if kind in ("rf", "et") and trees:
            x += tree_inputs(rng, rng.choice(trees), n, 3)
        e.set_params(n_jobs=rng.choice([None, 1]))
        yield Case("forest/%s/%s/k%d/n%d/m%d" % (kind, base, k, n, ne), e, [x, mat(rng, 1, n)], PROBA, sparse=sparse, X=X, y=y,
                   refit=(X * 2 + 1, y[::-1]), clf=True)


def gb(rng):
    from sklearn.dummy import DummyClassifier
    from sklearn.ensemble import GradientBoostingClassifier, RandomForestClassifier
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    conf = []
    for k, loss in ((2, "deviance"), (2, "exponential"), (3, "deviance"), (6, "deviance")):
        for init in ("none", "zero", "dummy", "lr", "nb", "rf", "pipe", "gb"):
            conf.append((k, loss, init))
    rng.shuffle(conf)
    for i in itertools.count():
        k, loss, init = conf[i % len(conf)]
        n = rng.choice([1, 3, 12])
        X = train(rng, 50, n)
        y = target(rng, X, k, rng.randrange(6))
        if i % 6 == 5:
            yield _gb_ties(rng, X, y, n, k, loss)
            continue
        ii = {"none": None, "zero": "zero", "dummy": DummyClassifier(strategy="prior"), "lr": LogisticRegression(C=rng.choice([1.0, 1e-3, 1e-5])), "nb": GaussianNB(),
              "rf": RandomForestClassifier(n_estimators=3, random_state=0), "pipe": make_pipeline(StandardScaler(), LogisticRegression(C=rng.choice([1.0, 0.01]))),
              "gb": GradientBoostingClassifier(n_estimators=2, random_state=1)}[init]
        lr = rng.choice([0.1, 1.0, 0.5, 2, 300.0, 3000.0])
        e = GradientBoostingClassifier(loss=loss, init=ii, n_estimators=rng.choice([1, 3, 10]), learning_rate=lr,
                                       max_depth=rng.choice([1, 2, 4]), random_state=0, subsample=rng.choice([1.0, 0.7]),
                                       min_impurity_decrease=rng.choice([0, 0, 0.02, 0.05, 0.1]))      # some trees are one leaf
        try:
            with np.errstate(all="ignore"):
                e.fit(X, y)
        except Exception:
            continue
        vals = np.concatenate([t.tree_.value.ravel() for r in e.estimators_ for t in r])
        if not np.isfinite(vals).all() or np.abs(vals).max() * lr > 1e5:      # (softmax of such scores is rounding of the scores)
            lr = 0.5
            e = GradientBoostingClassifier(loss=loss, init=ii, n_estimators=3, learning_rate=lr, random_state=0)
            try:
                e.fit(X, y)
            except Exception:
                continue
            if np.abs(np.concatenate([t.tree_.value.ravel() for r in e.estimators_ for t in r])).max() > 1e5:
                continue
        x = mat(rng, 5, n) + tree_inputs(rng, e.estimators_[0][0], n, 3)
        yield Case("gb/%s/%s/k%d/n%d/lr%g" % (loss, init, k, n, lr), e, [x, mat(rng, 1, n)], PROBA, width=n, X=X, y=y,
                   refit=(X * 2 + 1, y[::-1]), clf=True)


def _gb_ties(rng, X, y, n, k, loss):
    """Leaf values on a coarse grid, so that raw scores are shared or zero exactly."""
    from sklearn.ensemble import GradientBoostingClassifier
    e = GradientBoostingClassifier(loss=loss, init="zero" if k > 2 or rng.random() < 0.5 else None, n_estimators=rng.choice([1, 2, 4]),
                                   learning_rate=rng.choice([1.0, 0.5]), max_depth=2, random_state=0).fit(X, y)
    if e.init_ != "zero":
        e.init_.class_prior_ = np.array([0.5, 0.5])
    for row in e.estimators_:
        for t in row:
            v = t.tree_.value
            for j in range(t.tree_.node_count):
                v[j, 0, 0] = rng.choice([0.0, 0.0, 1.0, -1.0, 0.5])
    x = mat(rng, 4, n) + tree_inputs(rng, e.estimators_[0][0], n, 8)
    return Case("gb/ties/%s/k%d/n%d" % (loss, k, n), e, [x], PROBA, width=n, X=X, y=y, clf=True)


def xgb(rng):
    import pandas as pd
    import xgboost as xg
    conf = []
    for k in (2, 3, 5):
        for v in ("plain", "wide", "names", "missing", "early", "base", "deep", "marker", "int", "digits", "even", "strong", "soft"):
            conf.append((k, v))
    rng.shuffle(conf)
    for i in itertools.count():
        k, v = conf[i % len(conf)]
        n = 23 if v in ("wide", "digits") else rng.choice([2, 3, 12] if v != "names" else [3, 3, 12])
        X = train(rng, 70, n)
        if v == "int":
            X = np.round(X)
        y = np.array([list(LABELS[0](k)).index(t) for t in target(rng, X, k, 0)])
        if v == "even":          # nothing to learn on some rows: equal margins
            X[:, 1:] = 1.0
            X[:, 0] = [j % (2 * k) for j in range(len(X))]
            y = np.array([(j % (2 * k)) if j % (2 * k) < k else (j // (2 * k)) % k for j in range(len(X))])
            full = len(X) // (2 * k * k) * (2 * k * k)
            X, y = X[:full], y[:full]
        kw = dict(n_estimators=rng.choice([1, 2, 6]), max_depth=rng.choice([1, 2, 4]), learning_rate=rng.choice([0.3, 1.0]),
                  booster="gbtree", n_jobs=1, random_state=rng.randrange(100), verbosity=0)
        if v == "even":
            kw.update(n_estimators=rng.choice([1, 2]), max_depth=4, base_score=0.5)
        if v == "soft" and k == 2:       # one tree per class though there are two
            kw.update(objective="multi:softprob", num_class=2)
        if v == "strong":        # margins that leave no doubt
            kw.update(learning_rate=rng.choice([8.0, 30.0, 300.0]), n_estimators=rng.choice([2, 6]))
        if v == "deep":
            kw.update(max_depth=7, gamma=0.2, min_child_weight=0)
        if v == "base":
            kw.update(base_score=rng.choice([0.1, 0.9, 0.75]))
        miss = v in ("missing", "marker")
        mark = float("nan")
        if miss:
            X = X.copy()
            hole = np.array([[rng.random() < 0.25 for _ in range(n)] for _ in range(len(X))])
            if v == "marker":
                mark = rng.choice([-3.0, -1, 0, -999.0, 2.0])
                kw["missing"] = mark
                X[hole] = mark
            else:
                X[hole] = np.nan
        e = xg.XGBClassifier(**kw)
        if v in ("names", "digits"):
            cols = ["col %d" % (n - j) if False else "c%d_%d" % (n - j, j) for j in range(n)]
            if v == "digits":
                cols = [str((j * 7 + 3) % n) for j in range(n)]
            elif rng.random() < 0.4:      # names with room around them
                cols = [rng.choice(["%s", " %s", "%s ", " %s  "]) % c for c in cols]
            elif rng.random() < 0.8:      # names that mean something elsewhere
                odd = rng.sample(["Leaf", "leaf", "f0", "f1", "0", "-1", "yes=1", "missing", "a:b", "{x}", "Split", "x y", "", "é", "a,b"], min(n, 15))
                odd[0] = "Leaf" if "Leaf" not in odd and rng.random() < 0.7 else odd[0]
                cols[:len(odd)] = odd
                rng.shuffle(cols)
                if "Leaf" in cols:
                    i = cols.index("Leaf")
                    cols[i], cols[0] = cols[0], cols[i]
            e.fit(pd.DataFrame(X, columns=cols), y)
        elif v == "early":
            e.set_params(n_estimators=12, early_stopping_rounds=1)
            Z = train(rng, 30, n)
            e.fit(X, y, eval_set=[(Z, np.array([rng.randrange(k) for _ in Z]))], verbose=False)
        else:
            e.fit(X, y)
        a = arts.art(e)
        sp = [(t["feat"][j], _f(t["thr"][j])) for t in a["trees"] for j in range(len(t["left"])) if t["left"][j] != -1]
        x = mat(rng, 7, n)
        if v == "even":
            x = [[float(j)] + [1.0] * (n - 1) for j in range(2 * k)]
        for r in range(len(x) if v != "even" else 0):
            for _ in range(3):
                if sp:
                    f, s = rng.choice(sp)
                    x[r][f] = rng.choice(near([s], rng))
            if miss or rng.random() < 0.3:
                x[r][rng.randrange(n)] = mark if rng.random() < 0.8 else float("nan")
        if v == "marker":        # the marker as another kind of number
            x += [[rng.choice([int(mark), float(mark), rng.randint(-4, 4)]) for _ in range(n)] for _ in range(2)] + [[int(mark)] * n]
        yield Case("xgb/%s/k%d/n%d" % (v, k, n), e, [x, x[:1]], ["predict", "predict_proba"], art=a, X=X, y=y, clf=True)


def _f(s):
    a, _, b = s.partition("/")
    return int(a) / int(b or 1)


def nb(rng):
    from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB
    conf = [(c, k, n) for c in ("g", "m", "c") for k in (2, 3, 6) for n in (1, 3, 12)]
    rng.shuffle(conf)
    for i in itertools.count():
        c, k, n = conf[i % len(conf)]
        X = train(rng, 40, n)
        y = target(rng, X, k, rng.randrange(6))
        if c == "g":
            if i % 4 == 2:       # features on a small scale
                u = rng.choice([1e-5, 1e-7, 2.0 ** -40])
                e = GaussianNB().fit(X * u, y)
                yield Case("nb/g-small/k%d/n%d" % (k, n), e, [[[v * u for v in r] for r in mat(rng, 6, n, dy)]], PROBA, X=X * u, y=y, clf=True)
                continue
            if i % 8 == 0:       # so many features that the product of their variances is out of range
                n = 90
                u = rng.choice([1e-5, 1e5, 2.0 ** -14])
                X = train(rng, 30, n) * u
                e = GaussianNB(var_smoothing=rng.choice([0, 1e-9])).fit(X, y[:30] if len(set(y[:30])) == k else target(rng, X, k, 0))
                if not (e.sigma_ > 0).all():
                    continue
                yield Case("nb/g-many/k%d/n%d" % (k, n), e, [[[v * u for v in r] for r in mat(rng, 3, n, dy)]], PROBA, X=X, y=y[:30], clf=True)
                continue
            e = GaussianNB(var_smoothing=rng.choice([1e-9, 1e-3]))
            if i % 5 == 3:       # classes that are held impossible, or next to it
                pr = [rng.choice([0.0, 0.0, 1e-300, 1e-12, 0.25]) for _ in range(k)]
                pr[rng.randrange(k)] = 0.0
                j = max(range(k), key=lambda c: pr[c])
                pr[j] = 1.0 - sum(p for c, p in enumerate(pr) if c != j)
                e.set_params(priors=pr)
            with np.errstate(all="ignore"):
                e.fit(X, y)
            xs = [mat(rng, 5, n) + [[1e6] * n, [-1e8] * n, [1e50] + [0.0] * (n - 1)], mat(rng, 1, n)]
        else:
            X = np.abs(np.round(X))
            if c == "c" and i % 3 == 1:      # one class only
                k, y = 1, y[:1].repeat(len(y))
            if c == "c" and n == 1:
                n = 2
                X = np.hstack([X, X[::-1]])
            e = (MultinomialNB if c == "m" else ComplementNB)(alpha=rng.choice([1.0, 0.01]), **({"norm": rng.random() < 0.5} if c == "c" else {}))
            e.fit(X, y)
            if not np.isfinite(e.feature_log_prob_).all():
                continue
            f = lambda r: r.choice([0, 0, 1, 2, 5.0, 0.5])
            xs = [mat(rng, 5, n, f) + [[1000.0] * n, [0] * n, [100000] + [3] * (n - 1)], mat(rng, 1, n, f)]
        yield Case("nb/%s/k%d/n%d" % (c, k, n), e, xs, PROBA, X=X, y=y, refit=(np.abs(X) * 2 + 1, y[::-1]), clf=True)


def dummy(rng):
    from sklearn.dummy import DummyClassifier
    for i in itertools.count():
        k = rng.choice([1, 2, 3, 7])
        X = train(rng, 20, 3)
        labs = LABELS[i % 6](k)
        y = np.array([labs[min(rng.randrange(k), rng.randrange(k))] if rng.random() < 0.8 else labs[j % k] for j in range(19)] + [labs[-1]])
        if i % 4 == 1:     # ties between the most frequent classes
            y = np.array((labs * 20)[:10 * k])
            X = train(rng, len(y), 3)
        e = DummyClassifier(strategy="prior").fit(X, y)
        yield Case("dummy/k%d" % k, e, [mat(rng, 4, 3), mat(rng, 1, 3)], PROBA, sparse=True, X=X, y=y, refit=(X, y[:1].repeat(len(y))), clf=True)


# ---------------------------------------------------------------- transformers
def scaler(rng):
    from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, Normalizer, StandardScaler
    conf = [("std", m, s) for m in (True, False) for s in (True, False)] + [("minmax", r, 0) for r in ((0, 1), (-1, 1), (2, 2.5))] + \
           [("maxabs", 0, 0)] + [("norm", r, 0) for r in ("l1", "l2", "max")]
    rng.shuffle(conf)
    for i in itertools.count():
        c, a, b = conf[i % len(conf)]
        n = rng.choice([1, 2, 5, 12])
        X = train(rng, 20, n)
        if n > 1 and rng.random() < 0.6:
            X[:, rng.randrange(n)] = rng.choice([0.0, 3.5])      # a constant column
        e = {"std": lambda: StandardScaler(with_mean=a, with_std=b), "minmax": lambda: MinMaxScaler(feature_range=a),
             "maxabs": lambda: MaxAbsScaler(), "norm": lambda: Normalizer(norm=a)}[c]()
        if i % 3 == 1:           # a column on a small scale
            X[:, rng.randrange(n)] *= rng.choice([1e-9, 2.0 ** -60])
        if rng.random() < 0.3:
            e.set_params(copy=False)
        far = None
        if c == "std" and i % 3 == 2:      # a column far from zero
            far, off = rng.randrange(n), rng.choice([1e9, -1e12, 2.0 ** 40])
            X[:, far] = off + np.array([rng.randint(0, 16) / 8 for _ in X])
        e.fit(X.copy())
        xs = [mat(rng, 6, n), mat(rng, 1, n), [[0.0] * n, [-1.5] * n, [0] * n]]
        if far is not None:
            xs.append([list(r) for r in X[:4]])
            xs.append([[off + rng.randint(0, 16) / 8 if j == far else dy(rng) for j in range(n)] for _ in range(3)])
        if c in ("norm", "maxabs"):
            xs.append([[v * u for v in r] for r, u in zip(mat(rng, 5, n), [1e-9, 1e-13, 1e-100, 1e60, 1e-7])])
        elif i % 3 == 1:
            xs.append([list(r) for r in X[:3]])
        yield Case("scaler/%s/%s/%s/n%d" % (c, a, b, n), e, xs, ["transform"], sparse=(c in ("maxabs", "norm") or (c == "std" and not a)),
                   X=X, refit=(X * 3 + 1, None))


WORDS = ["red", "blue", "grün", "10", "9", "", "a b", "Red", "été", "x" * 30]


def near_miss(cats, rng):
    """Values that look like a category of the column and are none."""
    c = rng.choice(cats)
    if isinstance(c, str):
        out = ["", c + " ", c.upper(), c.lower(), c.title(), c + c, c[:-1], " " + c, "0", "nan"]
    else:
        out = [-c, c + 1, c + 0.5, c * (1 + 1e-12), c * 10, c + 1e-9, -1, 0, 1e300, 5e-324]
    return [v for v in out if v not in cats]


def encoder(rng):
    from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder
    conf = [(o, u, s, t) for o in ("hot", "ord") for u in ("error", "ignore") for s in (True, False) for t in ("str", "num", "mix", "many")
            if not (o == "ord" and (u == "ignore" or s))]
    rng.shuffle(conf)
    for i in itertools.count():
        o, u, s, t = conf[i % len(conf)]
        n = rng.choice([1, 2, 3, 6])
        pool = []
        for j in range(n):
            kind = t if t in ("str", "num") else rng.choice(["str", "num"])
            if t == "many":
                pool.append(["v%d" % v for v in range(15)])
            elif kind == "str":
                pool.append(rng.sample(WORDS, rng.choice([1, 2, 4])))
            else:
                pool.append(rng.sample([0, 1, 2.5, -3, 10, 100, 1e6], rng.choice([1, 2, 4])))
        X = np.array([[pool[j][(r + (r // 3) * j) % len(pool[j])] for j in range(n)] for r in range(40)], dtype=object)
        for j in range(n):
            for q, v in enumerate(pool[j]):
                X[q, j] = v
        given = {}
        if rng.random() < 0.3:       # categories as given, in no order and more than occur
            given["categories"] = []
            for j in range(n):
                cs = list(pool[j]) + [v for v in (["more", "Zz"] if isinstance(pool[j][0], str) else [55, -7.25]) if v not in pool[j] and rng.random() < 0.5]
                rng.shuffle(cs)
                given["categories"].append(np.array(cs, dtype=object))
        e = (OneHotEncoder(handle_unknown=u, sparse=s, **given) if o == "hot" else OrdinalEncoder(**given)).fit(X)
        known = [[rng.choice(pool[j]) for j in range(n)] for _ in range(5)]
        first = [[list(e.categories_[j])[0] for j in range(n)], [list(e.categories_[j])[-1] for j in range(n)]]
        xs = [known, first, known[:1]]
        unk = [list(r) for r in known]
        for _ in range(3):
            j = rng.randrange(n)
            unk[rng.randrange(5)][j] = rng.choice(["nope", 77, "red "] + near_miss(pool[j], rng))
        if o == "hot" and u == "ignore":
            xs.append([["nowhere"] * n, known[0], [None] * n])      # nothing known in a row
        c = Case("encoder/%s/%s/%s/%s/n%d" % (o, u, s, t, n), e, xs + ([unk] if u == "ignore" and o == "hot" else []), ["transform"], width=n,
                 X=X, unknown=unk, refit=(X[:3], None))
        yield c


def impute(rng):
    from sklearn.impute import MissingIndicator, SimpleImputer
    conf = [("imp", s, m, ind) for s in ("mean", "median", "most_frequent", "constant") for m in ("nan", -1, 0, -1.0) for ind in (False, True)] + \
           [("ind", f, m, er) for f in ("missing-only", "all") for m in ("nan", -1) for er in (True, False)]
    rng.shuffle(conf)
    for i in itertools.count():
        o, s, m, flag = conf[i % len(conf)]
        n = rng.choice([1, 3, 5, 12])
        mark = float("nan") if m == "nan" else m
        X = train(rng, 12, n)
        X[X == -1] = 2.5
        X[X == 0] = 1.5
        holes = [j for j in range(n) if rng.random() < 0.6]
        for j in holes:
            for r in range(len(X)):
                if rng.random() < 0.35:
                    X[r, j] = mark
        if o == "imp" and n > 1 and rng.random() < 0.5:
            for j in rng.sample(range(n), rng.choice([1, 1, 2, 3]) if n > 3 else 1):
                X[:, j] = mark                     # nothing to learn a statistic from
        if o == "imp":
            e = SimpleImputer(missing_values=mark, strategy=s, add_indicator=flag, **({"fill_value": rng.choice([0, 7.5] + ([float("nan")] * 2 if m != "nan" else []))} if s == "constant" else {}))
        else:
            e = MissingIndicator(missing_values=mark, features=s, error_on_new=flag)
        if o == "imp" and rng.random() < 0.3:
            e.set_params(copy=False)
        try:
            e.fit(X.copy())
        except ValueError:
            continue
        if o == "ind" or flag:
            cols = set(int(c) for c in (e.features_ if o == "ind" else e.indicator_.features_))
        else:
            cols = set(range(n))
        free = o == "imp" or s == "all" or not flag
        def row(all_ok):
            out = []
            for j in range(n):
                hole = rng.random() < 0.4 and (free or j in cols)
                out.append(mark if hole else rng.choice([dy(rng), 3, 0.25, 0.0 if m != 0 else 1.0, -1.0 if m == "nan" else 2.0]))
            return out
        if m != "nan":           # values a hair from the marker are not missing
            eps = [mark + 1e-9, mark - 1e-7, float(np.nextafter(mark, 5)), float(np.nextafter(mark, -5)), mark + 1e-13]
            xs0 = [[rng.choice(eps + [1.5]) for _ in range(n)] for _ in range(2)]
        xs = [[row(0) for _ in range(5)], [row(0)], [[mark if (free or j in cols) else 1.0 for j in range(n)]]]
        full = lambda: [rng.choice([dy(rng), 3, 0.25, 1.5]) for _ in range(n)]
        xs.append([full(), row(0), full()] if rng.random() < 0.5 else [full(), full()])     # nothing missing
        if m != "nan":
            xs.append(xs0)
        extra = {}
        if not free and len(cols) < n:
            bad = row(0)
            bad[next(j for j in range(n) if j not in cols)] = mark
            extra["newmiss"] = [row(0), bad]
        if isinstance(mark, float) and mark != mark:
            pass
        else:
            xs = [[[v if not (v != v) else 0.5 for v in r] for r in x] for x in xs]
        if i % 4 == 1:
            c = _impute_text(rng)
            if c is not None:
                yield c
        yield Case("impute/%s/%s/%s/%s/n%d" % (o, s, m, flag, n), e, xs, ["transform"], width=n, X=X, refit=(np.where(X == X, X, 0) * 2 + 1, None), **extra)


def _impute_text(rng):
    """Text cells, and markers that are text or None; numbers in between."""
    from sklearn.impute import MissingIndicator, SimpleImputer
    n = rng.choice([1, 2, 3, 5])
    mark = rng.choice(["", "?", "nan", None, None, float("nan")])
    cells = ["a", "b", "", "?", "nan", "été", "A", "a "]
    if rng.random() < 0.4:
        cells += [1, 0, 2.5]
    cells = [c for c in cells if c != mark]
    def row(cols=None):
        return [mark if rng.random() < 0.4 and (cols is None or j in cols) else rng.choice(cells) for j in range(n)]
    X = np.array([row() for _ in range(10)], dtype=object)
    X[:, rng.randrange(n)] = "a"
    ind = rng.random() < 0.5
    xs = [[row() for _ in range(5)], [row()], [[mark] * n], [[rng.choice(cells) for _ in range(n)] for _ in range(2)]]
    try:
        if rng.random() < 0.6:
            e = SimpleImputer(missing_values=mark, strategy="constant", fill_value=rng.choice(["none", "a", "missing_value", ""]), add_indicator=ind).fit(X)
        else:
            ind = rng.random() < 0.5
            e = MissingIndicator(missing_values=mark, features=rng.choice(["all", "missing-only"]), error_on_new=ind).fit(X)
            if e.features == "missing-only" and ind:
                cols = set(int(c) for c in e.features_)
                xs = [[row(cols) for _ in range(5)], [row(cols)]]
    except (ValueError, TypeError):
        return None
    return Case("impute/text/%s/%r/n%d" % (type(e).__name__, mark, n), e, xs, ["transform"], width=n, X=X)


# ---------------------------------------------------------------- text
CHARS = list("abcdefgh") + list("ABCZ") + list("0129_") + list(" .,!-'\t\n") + ["é", "É", "ü", "ß", "İ", "ñ", "\u0301", "中", "я", "\u00a0", "ﬁ", "²", "😀", "™", "K", "Å", "ǅ", "Ⅷ", "Ａ", "ﬀ", "℡", "\u0307", "ı", "ſ", "½", "ि", "ा", "ไ", "\u0e33", "\u20dd", "\x1f", "\x85", "\u2028", "\ufeff", "\r", "\u200b"]
TOK = ["red", "blue", "cat", "Cat", "CAT", "dog", "a", "I", "x1", "foo_bar", "été", "naïve", "straße", "the", "of", "and", "don't", "42", "中文", "ab", "Red™", "ＡＢＣ", "Kelvin", "ǅungla", "Ⅷth", "ÉTÉ", "e\u0301te\u0301", "हिन्दी", "ไทย", "กำ", "fuß", "Straße", "y" * 300, "a⃝b", "x" * 256,
       "acdia99h", "aivlts3m", "acqerwwr", "abxnxwpw", "aaum2erp", "_the_", "__cat", "the_", "Of", "\ufeffred"]   # hashes 0, -2^31, 2^31-1, -2^31+1, -1
EXTREME = TOK[-10:-5]


def doc(rng, n=None, words=True):
    n = rng.choice([0, 1, 2, 4, 8, 14]) if n is None else n
    if words and rng.random() < 0.7:
        out = ""
        for _ in range(n):
            out += rng.choice(TOK) + rng.choice([" ", " ", "  ", "\t", ". ", ", ", "\n", " - ", " \n "])
        return out
    return "".join(rng.choice(CHARS) for _ in range(n * 2))


def text_opts(rng, i):
    combos = [("word", (1, 1)), ("word", (1, 2)), ("word", (2, 3)), ("word", (1, 4)), ("char", (1, 1)), ("char", (1, 3)), ("char", (2, 4)),
              ("char_wb", (1, 1)), ("char_wb", (2, 3)), ("char_wb", (1, 5)), ("char_wb", (4, 6)), ("char_wb", (3, 3)), ("word", (3, 3))]
    an, ng = combos[i % len(combos)]
    kw = dict(analyzer=an, ngram_range=ng, lowercase=rng.random() < 0.6, strip_accents=rng.choice([None, "ascii", "unicode"]))
    if an == "word":
        if rng.random() < 0.4:
            kw["stop_words"] = rng.sample(["the", "of", "and", "cat", "red", "été", "ete", "Cat", "CAT", "I", "x1", "strasse", ""], 4)
        kw["token_pattern"] = rng.choice([r"(?u)\b\w\w+\b", r"(?u)\b\w\w+\b", r"(?u)\b\w+\b", r"\S+", r"\w\w\w+", r"(?u)\b(\w)\w+\b", r"\b(\w\w)\w*\b",
                                          r"(?u)\w*", r"[a-z]*", r"(?u)\w*"])      # some match the empty string
    return kw


def count(rng):
    from sklearn.feature_extraction.text import CountVectorizer
    return _textual(rng, lambda kw, r: CountVectorizer(binary=r.random() < 0.4, **kw), "count")


def tfidf(rng):
    from sklearn.feature_extraction.text import TfidfTransformer, TfidfVectorizer
    def mk(kw, r):
        return TfidfVectorizer(binary=r.random() < 0.2, norm=r.choice(["l1", "l2", "max", None]) if r.random() < 0.7 else "l2",
                               use_idf=r.random() < 0.8, smooth_idf=r.random() < 0.7, sublinear_tf=r.random() < 0.4, **kw)
    g = _textual(rng, mk, "tfidfvec")
    for i in itertools.count():
        if i % 3 != 2:
            yield next(g)
            continue
        n = rng.choice([1, 3, 12])
        X = np.array([[rng.choice([0, 0, 1, 2, 5]) for _ in range(n)] for _ in range(12)])
        X[0] = 1
        e = TfidfTransformer(norm=rng.choice(["l1", "l2", None]), use_idf=rng.random() < 0.7, sublinear_tf=rng.random() < 0.5, smooth_idf=rng.random() < 0.5)
        e.fit(X)
        if e.use_idf and rng.random() < 0.4:      # any weights a user may have given
            e.idf_ = np.array([rng.choice([0.0, 0.25, 0.9, 1.0, 1.5, 3.0, 1e-9]) for _ in range(n)])
        f = lambda r: r.choice([0, 0, 0, 1, 2, 7, 1.5, 100, 0.25])
        yield Case("tfidf/%s/%s/%s/n%d" % (e.norm, e.use_idf, e.sublinear_tf, n), e, [mat(rng, 5, n, f), mat(rng, 1, n, f), [[0] * n]], ["transform"],
                   sparse=True, width=n if e.use_idf else None, X=X, refit=(X[::-1] * 2 + 1, None), nonneg=f)


def hashing(rng):
    from sklearn.feature_extraction.text import HashingVectorizer
    def mk(kw, r):
        return HashingVectorizer(n_features=r.choice([1, 2, 7, 16, 1000, 2 ** 20, 2 ** 31 - 1]), alternate_sign=r.random() < 0.7,
                                 binary=r.random() < 0.2, norm=r.choice(["l1", "l2", "max", None]), **kw)
    return _textual(rng, mk, "hashvec")


def _textual(rng, mk, name):
    for i in itertools.count(rng.randrange(78)):
        kw = text_opts(rng, 5 * i)
        corpus = [doc(rng) for _ in range(10)] + ["red blue cat the dog été x1 ab", "aé b"]
        asked = [doc(rng) for _ in range(4)] + [" ".join(rng.sample(EXTREME, 2))]
        odd = rng.sample(["\ufeffred cat", "red\r\nblue\rcat", "__the__ _cat cat_ the", "a\tb", "\ta", "b\n", "a\nb\n\nc", "\x1fa\x1c", "a\u00a0b", "\u2028ab\x85", "abc", "ab", "a", " a ",
                          "\n", "\r", "red\x00cat", "cat\u200bdog", "the2 2the THE", "\ufeff", "Red-Blue", "dog's", "x1.5", "\ud800cat"[1:]], 6)
        files = i % 6 == 5
        if files:
            asked += ["red\rblue", "a\r\nb cat\r", "\ufeffred"]
            if rng.random() < 0.5:
                kw = dict(kw, analyzer="char", ngram_range=rng.choice([(1, 1), (1, 3), (2, 2)]))
                kw.pop("stop_words", None), kw.pop("token_pattern", None)
        if rng.random() < 0.6 or files:       # what is asked was seen
            corpus += asked + odd
        by = None
        if rng.random() < 0.25:
            by = rng.choice([("utf-8", "strict"), ("latin-1", "strict"), ("utf-8", "ignore"), ("ascii", "replace"), ("utf-16", "strict")])
            kw.update(encoding=by[0], decode_error=by[1])
        e = mk(kw, rng)
        try:
            e.fit(corpus)
        except ValueError:
            continue
        if name != "hashvec" and rng.random() < 0.3 and len(e.vocabulary_) > 4:      # a given vocabulary
            voc = sorted(e.vocabulary_)[::2]
            rng.shuffle(voc)
            e = mk(dict(kw, vocabulary={t: j for j, t in enumerate(voc)}), random.Random(i))
            e.fit(corpus)
            if not hasattr(e, "vocabulary_"):
                continue
        docs = asked + [rng.choice(corpus), "", " ", rng.choice(corpus) + " " + rng.choice(corpus)]
        xs = [docs, [doc(rng, 25)], [rng.choice(corpus)] * 2]
        if i % 4 == 1:               # a term hundreds of times
            xs.append([rng.choice(["cat ", "red\t", "blue, red "]) * rng.choice([256, 300, 700]) + doc(rng, 3), "cat"])
        if i % 2 == 0:
            xs.append(odd)
        if by:
            def encd(d):
                return d.encode(by[0] if by[0] != "ascii" else "utf-8", "ignore") if rng.random() < 0.7 else d
            xs = [[encd(d) for d in x] for x in xs]
        if files and (not by or by[0].startswith("utf")):       # documents that are files
            e.set_params(input=rng.choice(["file", "filename", "filename"]))
        elif i % 3 == 1:             # rows in another shape than a list
            xs.append(As(docs if not by else xs[0], rng.choice(sorted(As.SHAPES))))
        yield Case("%s/%s%s/%s" % (name, e.analyzer, e.ngram_range, by[0] if by else "str"), e, xs, ["transform"], ad=text_adapter(e), X=corpus,
                   refit=([d + " new words here" for d in corpus[::-1]], None))


def dictvec(rng):
    from sklearn.feature_extraction import DictVectorizer
    keys = ["age", "city", "name", "f", "x=y", "été", "Age", "n", 3, "city=ams"]
    for i in itertools.count():
        def rec():
            d = {}
            for k in rng.sample(keys, rng.randrange(0, 6)):
                d[k] = rng.choice(["ams", "ny", "=", "", "b c", "123", "7", "1.5", "True", "nan", " 2"]) if k in ("city", "name", "x=y") and rng.random() < 0.8 else rng.choice([0, 1, 2.5, -3, True, False, 1e9])
            return d
        def ok(d, sep):
            names = ["%s%s%s" % (k, sep, v) if isinstance(v, str) else str(k) for k, v in d.items()]
            return len(set(names)) == len(names)
        sep = rng.choice(["=", "=", "_", "", "::"])
        e = DictVectorizer(sparse=rng.random() < 0.5, separator=sep, sort=rng.random() < 0.7)
        keys_str = [k for k in keys if isinstance(k, str)]
        if rng.random() < 0.7:
            keys = keys_str
        else:
            keys = [k for k in keys if isinstance(k, str)]
        tr = [d for d in (rec() for _ in range(8)) if ok(d, sep)] + [{"age": 1, "city": "ams"}]
        e.fit(tr)
        xs = []
        for sz in (5, 1):
            xs.append([d for d in (rec() for _ in range(sz * 3)) if ok(d, sep)][:sz] or [{"age": 2.0}])
        xs.append(xs[0][0])
        as_ = [lambda d: collections.UserDict(d), lambda d: collections.OrderedDict(d), lambda d: types.MappingProxyType(d), lambda d: collections.ChainMap(d, {}),
               lambda d: collections.defaultdict(int, d), lambda d: collections.Counter(d) if all(isinstance(v, int) for v in d.values()) else dict(d)]
        if i % 2:
            xs.append([rng.choice(as_)(d) for d in xs[0]])
            xs.append(rng.choice(as_)(xs[0][-1]))
        if i % 3 == 0:
            xs.append(As(xs[0], rng.choice(sorted(As.SHAPES))))
        yield Case("dictvec/%s/%s" % (e.sparse, sep), e, xs, ["transform"], ad=MAPS, X=tr, refit=([{"zz": 1.0, "age": 3}], None))


# ---------------------------------------------------------------- composition
TRICKY = ["passthrough", "drop", "None", "none", "", "0", "-1", "steps_", "transformer_list_", "weights", "fit", "transform", "predict", "estimator", "self", "X", "a b", "A.b", "é", "True", "last", "final"]


def rename(e, rng):
    """Steps and parts under unusual names, at every level."""
    from sklearn.pipeline import FeatureUnion, Pipeline
    if not isinstance(e, (FeatureUnion, Pipeline)):
        return e
    parts = e.steps if isinstance(e, Pipeline) else e.transformer_list
    new = rng.sample(TRICKY[:4] if len(parts) < 5 and rng.random() < 0.5 else TRICKY, len(parts))
    if rng.random() < 0.7:       # only one of them
        keep = rng.randrange(len(parts))
        new = [v if i == keep else nm for i, (v, (nm, _)) in enumerate(zip(new, parts))]
    if len(set(new)) < len(new):
        return e
    at = {nm: v for v, (nm, _) in zip(new, parts)}
    parts = [(at[nm], rename(t, rng)) for nm, t in parts]
    if isinstance(e, Pipeline):
        e.steps = parts
    else:
        e.transformer_list = parts
        if e.transformer_weights:
            e.transformer_weights = {at[nm]: w for nm, w in e.transformer_weights.items()}
    return e


def pipe(rng):
    from sklearn.ensemble import GradientBoostingClassifier, RandomForestClassifier
    from sklearn.feature_extraction import DictVectorizer
    from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfTransformer, TfidfVectorizer
    from sklearn.impute import SimpleImputer
    from sklearn.linear_model import LogisticRegression, RidgeClassifier, SGDClassifier
    from sklearn.naive_bayes import GaussianNB, MultinomialNB
    from sklearn.pipeline import FeatureUnion, Pipeline
    from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, Normalizer, OneHotEncoder, OrdinalEncoder, StandardScaler
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    conf = ["std-lr", "imp-minmax-tree", "cnt-tfidf-sgd", "tfidf-lr", "nested", "pass", "passlast", "onehot-nb", "union-lr", "hash-ridge", "trans", "dict-rf",
            "imp-std-gb", "reg", "none", "cnt-mnb", "ord-tree", "deep", "one", "sgdhinge", "maxabs-lr", "ftunion", "far-nb", "cnt-rf", "std-xgb", "names", "bag", "impcat", "tfidf-tree", "union-deep"]
    rng.shuffle(conf)
    for i in itertools.count():
        c = conf[i % len(conf)]
        k = rng.choice([2, 3])
        n = rng.choice([2, 3, 12])
        X = train(rng, 40, n)
        y = target(rng, X, k, rng.randrange(6))
        ad, ms, sparse, width = DATA, PROBA, False, None
        xs = [mat(rng, 5, n, dy), mat(rng, 1, n, dy)]
        if c in ("cnt-tfidf-sgd", "tfidf-lr", "hash-ridge", "cnt-mnb", "ftunion", "cnt-rf", "tfidf-tree"):
            docs = [doc(rng, 6) + " cat dog" for _ in range(40)]
            X = docs
            xs = [[doc(rng) for _ in range(5)], [doc(rng, 5)]]
            y = np.array([LABELS[i % 6](k)[j % k] for j in range(40)])
            ad = None
        if c == "std-lr":
            e = Pipeline([("s", StandardScaler()), ("c", LogisticRegression(multi_class=rng.choice(["ovr", "multinomial"])))])
        elif c == "imp-minmax-tree":
            e = Pipeline([("i", SimpleImputer()), ("m", MinMaxScaler()), ("t", DecisionTreeClassifier(max_depth=4))])
            X = X.copy()
            X[::5, 0] = np.nan
            xs[0][0][0] = float("nan")
        elif c == "cnt-tfidf-sgd":
            e = Pipeline([("v", CountVectorizer(ngram_range=(1, 2))), ("t", TfidfTransformer(sublinear_tf=rng.random() < 0.5)), ("c", SGDClassifier(loss="log", random_state=0))])
        elif c == "tfidf-lr":
            e = Pipeline([("v", TfidfVectorizer(analyzer="char_wb", ngram_range=(2, 3))), ("c", LogisticRegression())])
        elif c == "nested":
            e = Pipeline([("a", Pipeline([("s", StandardScaler()), ("n", Normalizer())])), ("b", Pipeline([("m", MaxAbsScaler()), ("c", LogisticRegression())]))])
        elif c == "pass":
            e = Pipeline([("p", "passthrough"), ("s", MaxAbsScaler()), ("q", None), ("c", LogisticRegression())])
            sparse = True
        elif c == "maxabs-lr":
            e = Pipeline([("s", MaxAbsScaler()), ("n", Normalizer(norm="l1")), ("c", LogisticRegression())])
            sparse = True
        elif c == "passlast":
            e = Pipeline([("s", StandardScaler()), ("p", "passthrough")])
            ms = ["transform"]
        elif c == "none":
            e = Pipeline([("s", StandardScaler()), ("p", None)])
            ms = ["transform"]
        elif c == "onehot-nb":
            X = np.round(X)
            e = Pipeline([("o", OneHotEncoder(handle_unknown="ignore", sparse=False)), ("c", GaussianNB(var_smoothing=0.01))])
            xs = [[[float(round(v)) for v in r] for r in x] for x in xs]
        elif c == "union-lr":
            e = Pipeline([("u", FeatureUnion([("a", StandardScaler()), ("b", MaxAbsScaler()), ("d", "drop")], transformer_weights={"b": 0.5})), ("c", LogisticRegression())])
        elif c == "hash-ridge":
            e = Pipeline([("h", HashingVectorizer(n_features=32)), ("c", RidgeClassifier())])
            ms = ["predict"]
        elif c == "trans":
            e = Pipeline([("s", StandardScaler()), ("n", Normalizer(norm="max"))])
            ms = ["transform"]
        elif c == "dict-rf":
            X = [{"a": rng.choice(["u", "v"]), "b": dy(rng), "c": 1} for _ in range(40)]
            xs = [[{"a": rng.choice(["u", "v", "w"]), "b": dy(rng), "zz": 4} for _ in range(5)], [{"b": 0.5}]]
            ad = MAPS
            e = Pipeline([("d", DictVectorizer(sparse=rng.random() < 0.5)), ("c", RandomForestClassifier(n_estimators=3, random_state=0))])
        elif c == "imp-std-gb":
            e = Pipeline([("i", SimpleImputer(strategy="median")), ("s", StandardScaler()), ("c", GradientBoostingClassifier(n_estimators=3))])
        elif c == "reg":
            e = Pipeline([("m", MinMaxScaler()), ("c", DecisionTreeRegressor(max_depth=3))])
            y = np.array([float(j % 7) for j in range(40)])
            ms = ["predict"]
        elif c == "cnt-mnb":
            e = Pipeline([("v", CountVectorizer()), ("c", MultinomialNB())])
            e = None        # naive Bayes does not take sparse input: refused, see the invalid-input check
            continue
        elif c == "ord-tree":
            X = np.round(X)
            X[:3] = [[0] * n, [1] * n, [2] * n]
            e = Pipeline([("o", OrdinalEncoder()), ("c", DecisionTreeClassifier())])
            xs = [[[float(rng.choice(sorted(set(X[:, j])))) for j in range(n)] for _ in range(4)], [[float(X[0, j]) for j in range(n)]]]
        elif c == "deep":
            e = Pipeline([("s%d" % j, StandardScaler() if j % 2 else MinMaxScaler()) for j in range(6)] + [("c", SGDClassifier(loss="log", random_state=0))])
        elif c == "far-nb":      # probabilities far below the smallest number
            e = Pipeline([("s", StandardScaler()), ("c", GaussianNB())])
            if rng.random() < 0.5:
                e = Pipeline([("a", MinMaxScaler()), ("b", e)])
            xs[0] += [[1e5] * n, [-3e4] + [0.0] * (n - 1)]
        elif c == "one":
            e = Pipeline([("c", LogisticRegression())])
            sparse = True
            width = n
        elif c == "cnt-rf":      # sparse rows through trees
            e = Pipeline([("v", CountVectorizer(analyzer="char", lowercase=False)), ("c", RandomForestClassifier(n_estimators=rng.choice([1, 3]), random_state=0))])
        elif c == "tfidf-tree":
            e = Pipeline([("v", HashingVectorizer(n_features=16, norm=None, alternate_sign=rng.random() < 0.5)), ("c", DecisionTreeClassifier(max_depth=4, random_state=0))])
        elif c == "std-xgb":
            import xgboost as xg
            y = np.array([j % k for j in np.argsort(np.argsort(X[:, 0]))])
            e = Pipeline([("i", SimpleImputer()), ("s", rng.choice([StandardScaler(), MaxAbsScaler(), "passthrough"])),
                          ("c", xg.XGBClassifier(n_estimators=3, max_depth=2, booster="gbtree", n_jobs=1, verbosity=0))])
            ms = ["predict", "predict_proba"]
        elif c == "names":       # names of steps that look alike
            nm = rng.choice([["scale", "scale2", "scale22", "s"], ["1", "12", "2", "0"], ["clf", "memory_", "steps_", "verbose_"], ["a", "A", "a2", "aa"], ["x", "transform", "predict", "x2"]])
            e = Pipeline([(nm[0], StandardScaler()), (nm[1], MinMaxScaler()), (nm[2], Normalizer()), (nm[3], LogisticRegression())])
        elif c == "bag":
            from sklearn.ensemble import BaggingClassifier
            b = BaggingClassifier(DecisionTreeClassifier(max_depth=2), n_estimators=2, random_state=1)
            e = Pipeline([("s", MaxAbsScaler()), ("b", BaggingClassifier(b, n_estimators=2, max_features=0.7, random_state=2))])
        elif c == "impcat":      # text data with holes
            hole = rng.choice(["", "?", None])
            X = np.array([[rng.choice(["u", "v", "w", hole]) for _ in range(n)] for _ in range(40)], dtype=object)
            xs = [[[rng.choice(["u", "v", hole, "new", "none"]) for _ in range(n)] for _ in range(5)], [[hole] * n]]
            e = Pipeline([("i", SimpleImputer(strategy="constant", missing_values=hole, fill_value=rng.choice(["none", "v"]))), ("o", OneHotEncoder(handle_unknown="ignore", sparse=rng.random() < 0.5)),
                          ("c", LogisticRegression())])
        elif c == "union-deep":
            e = Pipeline([("u", FeatureUnion([("a", Pipeline([("s", StandardScaler()), ("m", MaxAbsScaler())])), ("b", "passthrough" if False else MinMaxScaler()), ("c", Normalizer("max"))],
                                             transformer_weights={"c": 0.0, "a": -2})), ("n", Normalizer("l1")), ("c", GradientBoostingClassifier(n_estimators=2))])
        elif c == "sgdhinge":
            e = Pipeline([("s", StandardScaler()), ("c", SGDClassifier(loss="hinge", random_state=0))])
            ms = ["predict"]
        elif c == "ftunion":
            e = Pipeline([("u", FeatureUnion([("w", TfidfVectorizer()), ("c", CountVectorizer(analyzer="char", ngram_range=(1, 2)))], transformer_weights={"c": 0.25})),
                          ("l", LogisticRegression())])
        if rng.random() < 0.4:
            rename(e, rng)
        try:
            e.fit(X, y)
        except Exception:
            continue
        if ad is None:
            ad = Adapter("text", ("utf-8", "strict"))
        yield Case("pipe/%s/k%d/n%d" % (c, k, n), e, xs, ms, ad=ad, sparse=sparse, width=width, X=X, y=y, clf="predict_proba" in ms or c in ("hash-ridge", "sgdhinge"))


def union(rng):
    from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfVectorizer
    from sklearn.pipeline import FeatureUnion, Pipeline
    from sklearn.impute import SimpleImputer
    from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, Normalizer, OneHotEncoder, StandardScaler
    conf = ["dense", "weights", "sparse", "mixed", "text", "drop", "alldrop", "nested", "single", "three", "textw", "none", "same"]
    rng.shuffle(conf)
    for i in itertools.count():
        c = conf[i % len(conf)]
        n = rng.choice([1, 2, 3, 12])
        X = train(rng, 30, n)
        xs = [mat(rng, 5, n), mat(rng, 1, n)]
        ad, sparse = DATA, False
        w = None
        if c == "dense":
            e = FeatureUnion([("a", StandardScaler()), ("b", MinMaxScaler())])
        elif c == "weights":
            e = FeatureUnion([("a", StandardScaler()), ("b", MinMaxScaler()), ("c", Normalizer())], transformer_weights=rng.choice([{"a": 2, "c": 0.25}, {"a": 5, "b": 1}, {"b": 5, "c": 1.0}, {"b": 0}, {"a": True, "c": 2.0}, {"a": 2.0 ** -12, "b": 1e-6}, {"a": 1e9, "c": -2.0 ** -20}]))
        elif c in ("sparse", "mixed", "three"):
            X = np.round(X / 4)
            xs = [[[float(round(v)) for v in r] for r in mat(rng, 5, n, lambda r: r.randint(-3, 3))]]
            e = FeatureUnion([("a", OneHotEncoder(handle_unknown="ignore")), ("b", MaxAbsScaler() if c != "sparse" else OneHotEncoder(handle_unknown="ignore"))] +
                             ([("z", StandardScaler())] if c == "three" else []),
                             transformer_weights=rng.choice([None, {"a": 3.0}, {"b": 0.5, "a": -1}, {"a": 2.0 ** -14, "b": 1e7}]))
        elif c in ("text", "textw"):
            X = [doc(rng, 6) + " cat dog" for _ in range(12)]
            xs = [[doc(rng) for _ in range(4)], [doc(rng, 4)]]
            ad = Adapter("text", ("utf-8", "strict"))
            e = FeatureUnion([("w", CountVectorizer()), ("c", TfidfVectorizer(analyzer="char", ngram_range=(1, 2))), ("h", HashingVectorizer(n_features=8))],
                             transformer_weights=rng.choice([{"h": 2.5, "w": 0.5}, {"c": 0, "w": -1.5}, {"h": 3}]) if c == "textw" else None)
        elif c == "drop":
            e = FeatureUnion([("a", "drop"), ("b", StandardScaler()), ("c", None), ("d", MaxAbsScaler())], transformer_weights={"a": 3, "d": 0.5})
        elif c == "none":
            e = FeatureUnion([("a", MaxAbsScaler()), ("b", Normalizer("l1"))])
            sparse = True
        elif c == "alldrop":
            e = FeatureUnion([("a", "drop"), ("b", "drop")])
        elif c == "nested":
            e = FeatureUnion([("u", FeatureUnion([("a", StandardScaler()), ("b", MaxAbsScaler())], transformer_weights={"a": 2})),
                              ("p", Pipeline([("s", SimpleImputer()), ("m", MinMaxScaler())]))], transformer_weights={"u": 0.5})
        elif c == "same":        # a part that hands its input on
            e = FeatureUnion(rng.choice([[("p", Pipeline([("p", "passthrough")])), ("b", StandardScaler())],
                                         [("p", Pipeline([("n", None), ("p", "passthrough")])), ("q", Pipeline([("p", None)]))],
                                         [("b", MaxAbsScaler()), ("p", Pipeline([("p", "passthrough")]))]]),
                             transformer_weights=rng.choice([None, None, {"p": 2}, {"b": 3.0}]))
        elif c == "single":
            e = FeatureUnion([("a", StandardScaler())])
        if rng.random() < 0.4:
            rename(e, rng)
        try:
            e.fit(X)
        except Exception:
            continue
        if c in ("drop", "alldrop"):
            pass
        yield Case("union/%s/n%d" % (c, n), e, xs, ["transform"], ad=ad, sparse=sparse, X=X)


# ---------------------------------------------------------------- fastText
class FakeFt:
    """A source with fasttext's public accessors."""

    class _L:
        def __init__(self, n):
            self.name = n

    def __init__(self, words, inm, labels=None, outm=None, label="__label__", loss="softmax", maxn=0, ngrams=1, quant=False):
        self.label, self.loss, self.maxn, self.wordNgrams = label, FakeFt._L(loss), maxn, ngrams
        self._w, self._i, self._l, self._o, self._q = words, np.array(inm), labels, outm, quant

    def get_words(self):
        return list(self._w)

    def get_labels(self):
        return list(self._l) if self._l is not None else list(self._w)

    def get_input_matrix(self):
        if self._q:
            raise ValueError("Can't get quantized Matrix")
        return self._i

    def get_output_matrix(self):
        if self._q:
            raise ValueError("Can't get quantized Matrix")
        return np.array(self._o)

    def get_dimension(self):
        return int(self._i.shape[1])

    def is_quantized(self):
        return self._q


FTW = ["red", "blue", "cat", "dog", "été", "a", "the", "fish.", "中", "x_y", "Cat"]
FTSEP = [" ", " ", "  ", "\t", "\r", "\x0b", "\x0c"]


def ft_text(rng, words, n=None):
    n = rng.choice([0, 1, 2, 3, 6]) if n is None else n
    s = rng.choice(["", "", " "])
    for _ in range(n):
        s += rng.choice(words + ["zzz", "unknown", "re", "\u00a0"]) + rng.choice(FTSEP)
    return s


def fasttext(rng, real=True):
    """Stub sources with arbitrary matrices; now and then a model really trained by fasttext."""
    for i in itertools.count():
        dim = rng.choice([1, 2, 5])
        words = rng.sample(FTW, rng.choice([1, 3, 6]))
        sup = i % 3 != 0
        if sup:
            if rng.random() < 0.8:
                words = words + ["</s>"]
                if rng.random() < 0.5:
                    rng.shuffle(words)
            L = rng.choice([1, 2, 3, 12])
            labels = ["__label__" + (chr(97 + j) if L < 4 else str(j)) for j in range(L)]
            inm = [[dy(rng, -64, 64) for _ in range(dim)] for _ in words]
            outm = [[dy(rng, -64, 64) * rng.choice([1, 1, 8]) for _ in range(dim)] for _ in labels]
            if i % 5 == 4:       # scores far out of the range of the exponential
                u = rng.choice([30.0, 1000.0])
                outm = [[v * u for v in r] for r in outm]
            even = i % 5 == 2
            if even:             # every label equally probable
                outm = [list(outm[0]) for _ in labels]
            src = FakeFt(words, inm, labels, outm)
            xs = []
            if even:
                xs += [{"text": ft_text(rng, words), "k": kk, "thr": 1.0 / L} for kk in (1, -1, L)] + [{"text": [ft_text(rng, words)] * 2, "k": -1, "thr": 1.0 / L}]
            for _ in range(5):
                t = ft_text(rng, words)
                x = {"text": t}
                if rng.random() < 0.8:
                    x["k"] = rng.choice([1, 2, 3, -1, L, L + 3])
                if rng.random() < 0.4:
                    x["thr"] = rng.choice([0.0, 0.1, 0.5, 0.9])
                xs.append(x)
            xs.append({"text": [ft_text(rng, words) for _ in range(3)], "k": rng.choice([1, 2, -1])})
            xs.append({"text": [ft_text(rng, words)]})
            ms = ["predict"]
        else:
            small = 2.0 ** -25 if i % 2 else 1.0
            inm = [[dy(rng, 1, 64) * rng.choice([1, -1]) * rng.choice([1, small]) for _ in range(dim)] for _ in words]
            src = FakeFt(words, inm)
            src.label = "__label__"
            ms, xs = [], []
        if sup and i % 4 == 1:       # nothing reaches the threshold
            xs += [{"text": ft_text(rng, words), "k": kk, "thr": 1.0} for kk in (1, -1)] + [{"text": [ft_text(rng, words), ""], "k": 1, "thr": 0.999}]
        long = " ".join(rng.choice(words + ["zzz"]) for _ in range(rng.choice([31, 40, 70, 130])))
        svs = [{"text": long}] + [{"text": ft_text(rng, words)} for _ in range(4)] + [{"text": ""}, {"text": "zzz qqq"}]
        wvs = [{"text": w} for w in words[:3] + ["zzz", "", " " + words[0], words[-1] + " ", words[0].upper(), words[0] + "s"]]
        yield Case("ft/%s/d%d/w%d" % ("sup" if sup else "unsup", dim, len(words)), src, xs, ms, ad=FT, art=arts.ft(src), convert=convert_ft, sentences=svs, words=wvs,
                   nwords=len(words), sup=sup)


_REAL = {}


def fasttext_real(scratch):
    """Models trained by the real fasttext (once per run)."""
    import os
    import fasttext as f
    out = []
    sup = os.path.join(scratch, "sup.txt")
    uns = os.path.join(scratch, "uns.txt")
    r = random.Random(5)
    with open(sup, "w") as fh:
        for i in range(300):
            c = r.randrange(4)
            fh.write("__label__c%d %s\n" % (c, " ".join(["w%d" % (c * 5 + r.randrange(5)) if r.random() < 0.8 else "w%d" % r.randrange(20) for _ in range(6)])))
    with open(uns, "w") as fh:
        for i in range(300):
            fh.write(" ".join("w%d" % r.randrange(30) for _ in range(8)) + "\n")
    for kind in ("sup", "skip", "cbow"):
        if kind == "sup":
            m = f.train_supervised(sup, dim=6, epoch=5, verbose=0, thread=1, maxn=0, wordNgrams=1)
        else:
            m = f.train_unsupervised(uns, model="skipgram" if kind == "skip" else "cbow", dim=5, epoch=2, minCount=1, maxn=0, verbose=0, thread=1)
        ws = ["w%d" % i for i in range(20)]
        xs = [{"text": ft_text(r, ws), "k": kk} for kk in (1, 2, -1, 10)] + [{"text": [ft_text(r, ws) for _ in range(3)], "k": 2}] if kind == "sup" else []
        out.append(Case("ft-real/" + kind, m, xs, ["predict"] if kind == "sup" else [], ad=FT, art=arts.ft(m), convert=convert_ft,
                        sentences=[{"text": ft_text(r, ws)} for _ in range(4)] + [{"text": "nope"}], words=[{"text": w} for w in ws[:3] + ["nope"]],
                        nwords=len(m.get_words()), sup=kind == "sup"))
    return out


def _steady(g):
    """The source library cannot fit everything it is given: start over, but not for ever."""
    def run(rng):
        bad = 0
        while True:
            try:
                for c in g(rng):
                    yield c
            except Exception:
                bad += 1
                if bad > 5:
                    raise
    return run


FAMILIES = dict(linear=linear, tree=tree, forest=forest, gb=gb, xgb=xgb, nb=nb, dummy=dummy, scaler=scaler, encoder=encoder, impute=impute, count=count,
                tfidf=tfidf, hashing=hashing, dictvec=dictvec, pipe=pipe, union=union, fasttext=fasttext)
FAMILIES = {f: _steady(g) for f, g in FAMILIES.items()}


def cases(family, rng, n):
    g = FAMILIES[family](rng)
    return [next(g) for _ in range(n)]


# ---------------------------------------------------------------- large cases
def big(family, rng):
    """A few cases whose size matters: long batches, many features, classes, trees, long documents."""
    f = _BIG.get(family)
    done = 0
    for i in range(4 if f else 0):
        try:
            for j, c in enumerate(f(rng)):
                if j >= done:
                    done += 1
                    yield c
            return
        except Exception:
            if i == 3:
                raise


def _big_linear(rng):
    from sklearn.linear_model import LogisticRegression, SGDClassifier
    n = 2
    X = train(rng, 60, n)
    y = target(rng, X, 2, 0)
    e = LogisticRegression().fit(X, y)
    yield Case("linear/big-batch", e, [mat(rng, 1100, n)], PROBA[:2] + ["decision_function"], sparse=True, X=X, y=y)
    n = 130
    X = train(rng, 90, n)
    y = target(rng, X, 30, 0)
    for e in (LogisticRegression(multi_class="multinomial", max_iter=3000), SGDClassifier(loss="log", random_state=0, max_iter=5)):
        e.fit(X, y)
        yield Case("linear/big-wide", e, [mat(rng, 3, n)], PROBA + ["decision_function"], sparse=True, X=X, y=y)


def _big_tree(rng):
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    n = 60
    X = train(rng, 900, n)
    y = target(rng, X, 25, 1)
    e = DecisionTreeClassifier(random_state=0).fit(X, y)
    yield Case("tree/big", e, [tree_inputs(rng, e, n, 40)], PROBA, sparse=True, X=X, y=y)
    e = DecisionTreeRegressor(max_depth=3, random_state=0).fit(X, np.arange(len(X)) / 3)
    yield Case("tree/big-batch", e, [tree_inputs(rng, e, n, 5) + mat(rng, 1100, n, lambda r: r.choice([0.0, 1.0, -2.0]))], ["predict"], X=X, y=y)


def _big_forest(rng):
    from sklearn.ensemble import BaggingClassifier, RandomForestClassifier
    from sklearn.tree import DecisionTreeClassifier
    n = 12
    X = train(rng, 60, n)
    y = target(rng, X, 14, 1)
    e = RandomForestClassifier(n_estimators=130, max_depth=3, random_state=1).fit(X, y)
    yield Case("forest/big", e, [mat(rng, 4, n)], PROBA, sparse=True, X=X, y=y)
    e = BaggingClassifier(DecisionTreeClassifier(max_depth=2), n_estimators=60, max_features=0.5, random_state=1).fit(X, y)
    yield Case("forest/big-bag", e, [mat(rng, 4, n)], PROBA, sparse=True, X=X, y=y)
    e = RandomForestClassifier(n_estimators=2, max_depth=2, random_state=1).fit(X[:, :2], y)
    yield Case("forest/big-batch", e, [mat(rng, 1030, 2)], ["predict"], sparse=False, X=X, y=y)


def _big_gb(rng):
    from sklearn.ensemble import GradientBoostingClassifier
    n = 12
    X = train(rng, 60, n)
    y = target(rng, X, 2, 1)
    e = GradientBoostingClassifier(n_estimators=130, max_depth=2, random_state=1).fit(X, y)
    yield Case("gb/big", e, [mat(rng, 4, n)], PROBA, width=n, X=X, y=y)
    e = GradientBoostingClassifier(n_estimators=3, max_depth=1, random_state=1).fit(X, target(rng, X, 14, 1))
    yield Case("gb/big-classes", e, [mat(rng, 4, n)], PROBA, width=n, X=X, y=y)
    e = GradientBoostingClassifier(n_estimators=2, max_depth=1, random_state=1).fit(X[:, :1], y)
    yield Case("gb/big-batch", e, [mat(rng, 1030, 1)], ["predict_proba"], width=1, X=X, y=y)


def _big_xgb(rng):
    import xgboost as xg
    n = 120
    X = train(rng, 200, n)
    y = np.array([rng.randrange(2) for _ in X])
    e = xg.XGBClassifier(n_estimators=110, max_depth=3, booster="gbtree", n_jobs=1, verbosity=0).fit(X, y)
    yield Case("xgb/big", e, [mat(rng, 4, n)], PROBA[:2], X=X, y=y)
    y = np.array([i % 17 for i in range(len(X))])
    e = xg.XGBClassifier(n_estimators=4, max_depth=3, booster="gbtree", n_jobs=1, verbosity=0).fit(X, y)
    yield Case("xgb/big-classes", e, [mat(rng, 4, n)], PROBA[:2], X=X, y=y)


def _big_nb(rng):
    from sklearn.naive_bayes import GaussianNB, MultinomialNB
    n = 70
    X = train(rng, 80, n)
    y = target(rng, X, 14, 1)
    yield Case("nb/big", GaussianNB().fit(X, y), [mat(rng, 3, n)], PROBA, X=X, y=y)
    yield Case("nb/bigm", MultinomialNB().fit(np.abs(X), y), [mat(rng, 3, n, lambda r: r.randrange(5))], PROBA, X=X, y=y)


def _big_scaler(rng):
    from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, Normalizer, StandardScaler
    n = 130
    X = train(rng, 20, n)
    for nm in ("max", "l1", "l2"):       # the largest entry anywhere, of either sign
        x = mat(rng, 6, n, lambda r: dy(r, -4, 4))
        for r in x:
            r[rng.choice([0, 63, 64, 65, 100, n - 1])] = rng.choice([-9.5, 9.5, -30.0])
        x.append([-1.0] * (n - 1) + [-2.0])
        yield Case("scaler/big-" + nm, Normalizer(nm).fit(X), [x, mat(rng, 2, 70)], ["transform"], sparse=True, X=X)
    for e in (StandardScaler(), MinMaxScaler(), MaxAbsScaler(), Normalizer()):
        yield Case("scaler/big", e.fit(X), [mat(rng, 3, n)], ["transform"], sparse=type(e).__name__ in ("MaxAbsScaler", "Normalizer"), X=X)
    X = train(rng, 20, 1)
    for e in (StandardScaler(), MinMaxScaler(), MaxAbsScaler(), Normalizer("max")):
        yield Case("scaler/big-batch", e.fit(X), [mat(rng, 1100, 1)], ["transform"], X=X)


def _big_encoder(rng):
    from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder
    X = np.array([["v%d" % ((r * (j + 1)) % (100 + 20 * j)) for j in range(12)] for r in range(400)], dtype=object)
    for e in (OneHotEncoder(handle_unknown="ignore"), OneHotEncoder(sparse=False), OrdinalEncoder()):
        yield Case("encoder/big", e.fit(X), [X[5:14].tolist()], ["transform"], X=X)
        yield Case("encoder/big-batch", e.fit(X[:, :1]), [X[:, :1].tolist() * 3], ["transform"], X=X)


def _big_impute(rng):
    from sklearn.impute import SimpleImputer
    n = 40
    X = train(rng, 20, n)
    for j in range(0, n, 3):
        X[j % 20, j] = np.nan
    e = SimpleImputer(add_indicator=True).fit(X)
    x = mat(rng, 4, n)
    for r in x:
        for j in range(0, n, 3):
            if rng.random() < 0.5:
                r[j] = float("nan")
    yield Case("impute/big", e, [x], ["transform"], width=n, X=X)
    e = SimpleImputer(strategy="median").fit(X[:, :1])
    yield Case("impute/big-batch", e, [[[rng.choice([1.0, float("nan"), 2.5])] for _ in range(1100)]], ["transform"], width=1, X=X)


def _big_text(cls, name, **kw):
    def f(rng):
        import sklearn.feature_extraction.text as t
        corpus = [" ".join("w%d" % rng.randrange(300) for _ in range(60)) for _ in range(30)]
        e = getattr(t, cls)(ngram_range=(1, 2), **kw).fit(corpus)
        yield Case("%s/big" % name, e, [[" ".join(rng.choice(corpus) for _ in range(5)), corpus[3]]], ["transform"], ad=text_adapter(e), X=corpus)
        e = getattr(t, cls)(analyzer="char_wb", ngram_range=(2, 4), **kw).fit(corpus)
        yield Case("%s/bigc" % name, e, [[corpus[0], "x" * 70 + " w1"]], ["transform"], ad=text_adapter(e), X=corpus)
        e = getattr(t, cls)(**kw).fit(corpus)
        yield Case("%s/big-batch" % name, e, [[rng.choice(["w1 w2", "w3", "", "w5 w5 w1"]) for _ in range(1030)]], ["transform"], ad=text_adapter(e), X=corpus)
    return f


def _big_dict(rng):
    from sklearn.feature_extraction import DictVectorizer
    X = [{"f%d" % ((i * j) % 150): rng.choice([1, 2.5, "u", "v"]) for j in range(20)} for i in range(60)]
    for s in (True, False):
        e = DictVectorizer(sparse=s).fit(X)
        yield Case("dictvec/big", e, [X[3:9]], ["transform"], ad=MAPS, X=X)
        e = DictVectorizer(sparse=s).fit([{"a": 1, "b": "x"}])
        yield Case("dictvec/big-batch", e, [[rng.choice([{"a": 2}, {"b": "x"}, {"a": 0.5, "b": "y"}, {}]) for _ in range(1030)]], ["transform"], ad=MAPS, X=X)


def _big_pipe(rng):
    from sklearn.linear_model import LogisticRegression
    from sklearn.pipeline import FeatureUnion, make_pipeline
    from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, StandardScaler
    X = train(rng, 60, 2)
    y = target(rng, X, 3, 1)
    e = make_pipeline(*[StandardScaler() if i % 2 else MaxAbsScaler() for i in range(14)], LogisticRegression()).fit(X, y)
    yield Case("pipe/big-steps", e, [mat(rng, 4, 2, dy)], PROBA, X=X, y=y)
    e = make_pipeline(MinMaxScaler(), LogisticRegression()).fit(X, y)
    yield Case("pipe/big-batch", e, [mat(rng, 1030, 2, dy)], ["predict_proba"], X=X, y=y)


def _big_union(rng):
    from sklearn.pipeline import FeatureUnion
    from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, StandardScaler
    X = train(rng, 30, 2)
    e = FeatureUnion([("p%d" % i, [StandardScaler, MinMaxScaler, MaxAbsScaler][i % 3]()) for i in range(14)],
                     transformer_weights={"p%d" % i: i - 3.5 for i in range(0, 14, 2)}).fit(X)
    yield Case("union/big-parts", e, [mat(rng, 4, 2)], ["transform"], X=X)
    e = FeatureUnion([("a", StandardScaler()), ("b", MaxAbsScaler())]).fit(X[:, :1])
    yield Case("union/big-batch", e, [mat(rng, 1030, 1)], ["transform"], X=X)


def _big_ft(rng):
    dim, words = 12, ["w%d" % i for i in range(200)] + ["</s>"]
    labels = ["__label__%d" % i for i in range(40)]
    src = FakeFt(words, [[dy(rng) for _ in range(dim)] for _ in words], labels, [[dy(rng) for _ in range(dim)] for _ in labels])
    xs = [{"text": " ".join(rng.choice(words) for _ in range(300)), "k": k} for k in (1, 11, 40, -1)]
    xs.append({"text": [ft_text(rng, words, 3) for _ in range(130)], "k": 1})
    yield Case("ft/big", src, xs, ["predict"], ad=FT, art=arts.ft(src), convert=convert_ft,
               sentences=[{"text": x["text"]} for x in xs[:1]], words=[{"text": w} for w in words[100:103]], nwords=3, sup=True)
    labels = ["__label__%d" % i for i in range(1100)]
    src = FakeFt(words[:5], [[dy(rng), 1.0] for _ in range(5)], labels, [[dy(rng), -j / 64] for j, _ in enumerate(labels)])
    xs = [{"text": "w1 w2", "k": k} for k in (1, 1001, -1, 2000)] + [{"text": ["w3", "w0 w4"], "k": 1050, "thr": 1e-9}]
    yield Case("ft/big-labels", src, xs, ["predict"], ad=FT, art=arts.ft(src), convert=convert_ft, sentences=[{"text": "w1"}], words=[], nwords=1, sup=True)
    dim = 2100
    src = FakeFt(words[:4], [[dy(rng, 1, 9) for _ in range(dim)] for _ in range(4)])
    src.label = "__label__"
    yield Case("ft/big-dim", src, [], [], ad=FT, art=arts.ft(src), convert=convert_ft, sentences=[{"text": "w0 w1 w3"}, {"text": "w2"}, {"text": "w3 w3 w2 w0 zz"}],
               words=[{"text": "w1"}], nwords=2, sup=False)


_BIG = dict(linear=_big_linear, tree=_big_tree, forest=_big_forest, gb=_big_gb, xgb=_big_xgb, nb=_big_nb, scaler=_big_scaler, encoder=_big_encoder,
            impute=_big_impute, count=_big_text("CountVectorizer", "count"), tfidf=_big_text("TfidfVectorizer", "tfidfvec"),
            hashing=_big_text("HashingVectorizer", "hashvec", n_features=2 ** 18), dictvec=_big_dict, pipe=_big_pipe, union=_big_union, fasttext=_big_ft)
