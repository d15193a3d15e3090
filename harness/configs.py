"""C25: every configuration, supported or not, and every method.

What cannot be reproduced has the artifact "unsupported" (or an artifact the specification
does not support); it must be refused by the conversion or by every later call.
"""
import warnings

import numpy as np

import arts
import zoo
from session import DATA, FT, MAPS, Session, text_adapter
from zoo import Case, FakeFt, convert_ft, mat, target, train

METHODS = ["predict", "predict_proba", "predict_log_proba", "decision_function", "transform"]
UN = arts.UNSUPPORTED


def data(rng, k=3, n=3, rows=40):
    X = train(rng, rows, n)
    return X, target(rng, X, k, rng.randrange(6))


def un(name, est, inputs=None, methods=METHODS, ad=DATA, convert=zoo.convert_sklearn, art=None):
    return Case("un/" + name, est, inputs if inputs is not None else [[[0.5, 1.0, -2.0]]], methods, ad=ad, art=art or UN, convert=convert)


def foreign(rng):
    """Fitted estimators of classes the library does not know."""
    import sklearn.calibration
    import sklearn.cluster
    import sklearn.compose
    import sklearn.decomposition
    import sklearn.discriminant_analysis as da
    import sklearn.ensemble as en
    import sklearn.experimental.enable_hist_gradient_boosting  # noqa
    import sklearn.feature_selection as fs
    import sklearn.gaussian_process as gp
    import sklearn.impute as im
    import sklearn.linear_model as lm
    import sklearn.model_selection as ms
    import sklearn.multiclass as mc
    import sklearn.naive_bayes as nb
    import sklearn.neighbors as ne
    import sklearn.neural_network as nn
    import sklearn.preprocessing as pp
    import sklearn.svm as sv
    import sklearn.dummy as du
    from sklearn.feature_extraction import FeatureHasher
    X, y = data(rng)
    yr = np.arange(len(X)) / 3.0
    clf = [lm.LogisticRegressionCV(cv=2, Cs=2), lm.RidgeClassifierCV(), ne.KNeighborsClassifier(), ne.NearestCentroid(), ne.RadiusNeighborsClassifier(radius=1e3), sv.SVC(), sv.SVC(kernel="linear", probability=True),
           sv.NuSVC(nu=0.1), nb.BernoulliNB(), nn.MLPClassifier((3,), max_iter=5), da.LinearDiscriminantAnalysis(), da.QuadraticDiscriminantAnalysis(),
           en.AdaBoostClassifier(n_estimators=2), en.HistGradientBoostingClassifier(max_iter=2), en.VotingClassifier([("a", nb.GaussianNB())]),
           en.StackingClassifier([("a", nb.GaussianNB())], cv=2), sklearn.calibration.CalibratedClassifierCV(nb.GaussianNB(), cv=2),
           ms.GridSearchCV(nb.GaussianNB(), {"var_smoothing": [1e-9]}, cv=2), mc.OneVsRestClassifier(nb.GaussianNB()), mc.OneVsOneClassifier(nb.GaussianNB()),
           gp.GaussianProcessClassifier(max_iter_predict=3)]
    reg = [lm.LinearRegression(), lm.Ridge(), lm.Lasso(), lm.SGDRegressor(), sv.SVR(), sv.LinearSVR(), en.RandomForestRegressor(2), en.ExtraTreesRegressor(2),
           en.GradientBoostingRegressor(n_estimators=2), en.BaggingRegressor(n_estimators=2), en.AdaBoostRegressor(n_estimators=2), ne.KNeighborsRegressor(),
           du.DummyRegressor()]
    tra = [pp.RobustScaler(), pp.PowerTransformer(), pp.QuantileTransformer(n_quantiles=5), pp.PolynomialFeatures(), pp.KBinsDiscretizer(3), pp.Binarizer(), pp.FunctionTransformer(),
           im.KNNImputer(), sklearn.decomposition.PCA(2), sklearn.decomposition.TruncatedSVD(2), fs.VarianceThreshold(), fs.SelectKBest(k=1),
           sklearn.cluster.KMeans(2), en.IsolationForest(n_estimators=2), en.RandomTreesEmbedding(n_estimators=2),
           sklearn.compose.ColumnTransformer([("a", pp.StandardScaler(), [0])])]
    for e, t in [(e, y) for e in clf] + [(e, yr) for e in reg] + [(e, y) for e in tra]:
        try:
            e.fit(X, t)
        except Exception:          # does not run with the installed packages
            continue
        yield un(type(e).__name__, e)
    yield un("LabelEncoder", pp.LabelEncoder().fit(["a", "b"]), [["a", "b"]], ["transform"])
    yield un("LabelBinarizer", pp.LabelBinarizer().fit(["a", "b", "c"]), [["a", "b"]], ["transform"])
    yield un("FeatureHasher", FeatureHasher(4), [[{"a": 1}]], ["transform"], MAPS)
    import xgboost as xg
    yield un("XGBRegressor", xg.XGBRegressor(n_estimators=2, booster="gbtree", verbosity=0).fit(X, yr))
    yield un("XGBRFClassifier", xg.XGBRFClassifier(n_estimators=2, booster="gbtree", verbosity=0).fit(X, np.arange(len(X)) % 3))
    for name, v in (("None", None), ("str", "LogisticRegression"), ("dict", {}), ("list", [1]), ("class", lm.LogisticRegression), ("int", 3), ("object", object())):
        yield un("value-" + name, v)


def unfitted(rng):
    from sklearn.dummy import DummyClassifier
    from sklearn.ensemble import BaggingClassifier, ExtraTreesClassifier, GradientBoostingClassifier, RandomForestClassifier
    from sklearn.feature_extraction import DictVectorizer
    from sklearn.feature_extraction.text import CountVectorizer, TfidfTransformer, TfidfVectorizer
    from sklearn.impute import MissingIndicator, SimpleImputer
    from sklearn.linear_model import LogisticRegression, PassiveAggressiveClassifier, Perceptron, RidgeClassifier, SGDClassifier
    from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB
    from sklearn.pipeline import FeatureUnion, Pipeline
    from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, OneHotEncoder, OrdinalEncoder, StandardScaler
    from sklearn.svm import LinearSVC
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier, ExtraTreeRegressor
    import xgboost as xg
    x = [[0.5, 1.0, -2.0]]
    for c in (LogisticRegression, RidgeClassifier, SGDClassifier, Perceptron, PassiveAggressiveClassifier, LinearSVC, DecisionTreeClassifier, DecisionTreeRegressor,
              ExtraTreeClassifier, ExtraTreeRegressor, RandomForestClassifier, ExtraTreesClassifier, BaggingClassifier, GradientBoostingClassifier, GaussianNB,
              MultinomialNB, ComplementNB, DummyClassifier, SimpleImputer, MissingIndicator, StandardScaler, MinMaxScaler, MaxAbsScaler, OneHotEncoder, OrdinalEncoder,
              TfidfTransformer):
        e = c(strategy="prior") if c is DummyClassifier else c()
        yield un("unfitted-" + c.__name__, e, [x])
        yield un("unfitted-pipe-" + c.__name__, Pipeline([("a", e)]), [x])
        if c in (SimpleImputer, StandardScaler, MinMaxScaler, MaxAbsScaler, OneHotEncoder, OrdinalEncoder):
            yield un("unfitted-front-" + c.__name__, Pipeline([("a", e), ("p", "passthrough")]), [x])
            yield un("unfitted-union-" + c.__name__, FeatureUnion([("a", e), ("d", "drop")]), [x])
    yield un("unfitted-xgb", xg.XGBClassifier(booster="gbtree", objective="binary:logistic"), [x])
    yield un("unfitted-xgb-pipe", Pipeline([("c", xg.XGBClassifier(booster="gbtree", objective="binary:logistic"))]), [x])
    for c in (CountVectorizer, TfidfVectorizer):
        e = c()
        yield un("unfitted-" + c.__name__, e, [["a b"]], ["transform"], text_adapter(e))
    yield un("unfitted-DictVectorizer", DictVectorizer(), [[{"a": 1}]], ["transform"], MAPS)
    yield un("unfitted-bagging-part", Pipeline([("s", StandardScaler().fit([[1., 2., 3.], [2., 3., 4.]])), ("c", LogisticRegression(solver="liblinear"))]), [x])


def options(rng):
    """Fitted estimators of known classes in configurations that are not reproduced."""
    from sklearn.dummy import DummyClassifier
    from sklearn.ensemble import BaggingClassifier, ExtraTreesClassifier, GradientBoostingClassifier, RandomForestClassifier
    from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfVectorizer
    from sklearn.linear_model import LogisticRegression, SGDClassifier
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.pipeline import FeatureUnion, Pipeline
    from sklearn.preprocessing import OneHotEncoder, PolynomialFeatures, StandardScaler
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier, ExtraTreeRegressor
    import xgboost as xg
    X, y = data(rng)
    b = np.array(["p", "q"])[(np.arange(len(X)) * 7 // 3) % 2]
    yi = np.arange(len(X)) % 3
    Y2 = np.column_stack([yi, (yi + 1) % 2])
    for k in (1, 2, 3):
        for s in ("most_frequent", "stratified", "uniform", "constant"):
            yy = y if k == 3 else b if k == 2 else np.array(["z"] * len(X))
            e = DummyClassifier(strategy=s, **({"constant": yy[0]} if s == "constant" else {})).fit(X, yy)
            yield un("dummy-" + s, e)
            yield un("dummy-pipe-" + s, Pipeline([("s", StandardScaler()), ("d", DummyClassifier(strategy=s, **({"constant": yy[0]} if s == "constant" else {})))]).fit(X, yy))
    yield un("dummy-2-outputs", DummyClassifier(strategy="prior").fit(X, Y2))
    for s in ("most_frequent", "stratified", "uniform"):      # as the first guess of a boosted model
        e = GradientBoostingClassifier(n_estimators=2, init=DummyClassifier(strategy=s)).fit(X, b)
        yield un("gb-dummy-" + s, e)
        yield un("bag-dummy-" + s, BaggingClassifier(DummyClassifier(strategy=s), n_estimators=2).fit(X, b))
    for c in (DecisionTreeClassifier, ExtraTreeClassifier, RandomForestClassifier, ExtraTreesClassifier):
        e = c(**({"n_estimators": 2} if "s" == c.__name__[-12:-11] or "Forest" in c.__name__ else {})).fit(X, Y2)
        yield un("2-outputs-" + c.__name__, e)
        yield un("2-outputs-pipe-" + c.__name__, Pipeline([("s", StandardScaler()), ("c", c())]).fit(X, Y2))
    for c in (DecisionTreeRegressor, ExtraTreeRegressor):
        yield un("2-outputs-" + c.__name__, c().fit(X, Y2 * 1.5))
    for d in ("first", "if_binary", "array"):
        O = np.array([["a", "x"], ["b", "y"], ["a", "z"]], dtype=object)
        for u in (True, False):
            e = OneHotEncoder(drop=np.array(["b", "y"], dtype=object) if d == "array" else d, sparse=u).fit(O)
            yield un("onehot-drop-" + d, e, [[["a", "x"]], [["b", "z"]]], ["transform"])
    # boosted models
    for init in (KNeighborsClassifier(), "knn-pipe"):
        i = Pipeline([("k", KNeighborsClassifier())]) if init == "knn-pipe" else init
        yield un("gb-init", GradientBoostingClassifier(n_estimators=2, init=i).fit(X, b))
    for loss in ("ls", "huber", "quantile", "lad", "squared_error", "log_loss", "zzz"):
        for init in (None, "zero"):
            e = GradientBoostingClassifier(n_estimators=2, init=init).fit(X, b)
            e.loss = loss
            yield un("gb-loss-" + loss, e)
    for v in ("0.20.4", "0.19", "0.20.0", "0.18.2", "0.9"):
        e = GradientBoostingClassifier(n_estimators=2).fit(X, b)
        old(e, v)
        yield un("gb-version-" + v, e)
        yield un("gb-version-pipe-" + v, Pipeline([("c", e)]))
    g = dict(n_estimators=2, verbosity=0, n_jobs=1, max_depth=2)
    for bo in ("dart", "gblinear"):
        h = dict(g, booster=bo, **({"rate_drop": 0.9, "one_drop": 1} if bo == "dart" else {}))
        if bo == "gblinear":
            h.pop("max_depth")
        for yy in (yi % 2, yi):
            e = xg.XGBClassifier(**h).fit(X, yy)
            yield un("xgb-" + bo, e, methods=METHODS[:2])
    for obj, yy in (("binary:hinge", yi % 2), ("binary:logitraw", yi % 2), ("multi:softmax", yi), ("reg:logistic", yi % 2), ("reg:squarederror", yi % 2), ("count:poisson", yi % 2),
                    ("rank:pairwise", yi % 2)):
        try:                       # some reject these labels
            e = xg.XGBClassifier(booster="gbtree", objective=obj, **g).fit(X, yy)
        except Exception:
            continue
        if e.objective != obj:
            continue
        yield un("xgb-" + obj, e, methods=METHODS[:2])
        yield un("xgb-pipe-" + obj, Pipeline([("c", e)]), methods=METHODS[:2])
    def custom(t, p):
        q = 1 / (1 + np.exp(-p))
        return q - t, q * (1 - q)
    yield un("xgb-callable", xg.XGBClassifier(booster="gbtree", objective=custom, **g).fit(X, yi % 2), methods=METHODS[:2])
    labels3 = np.array([[j % 2, (j // 2) % 2, (j // 4) % 2] for j in range(len(X))])
    for cut in (3, 2):           # several labels per row
        yield un("xgb-labels%d" % cut, xg.XGBClassifier(booster="gbtree", **g).fit(X, labels3[:, :cut]), methods=METHODS[:2])
    yield un("xgb-forest", xg.XGBClassifier(booster="gbtree", num_parallel_tree=3, subsample=0.7, **g).fit(X, yi), methods=METHODS[:2])
    # parts of compositions
    knn = KNeighborsClassifier()
    yield un("bag-knn", BaggingClassifier(knn, n_estimators=2).fit(X, y))
    yield un("bag-pipe-poly", BaggingClassifier(Pipeline([("p", PolynomialFeatures()), ("c", GaussianNB())]), n_estimators=2).fit(X, y))
    yield un("pipe-poly", Pipeline([("p", PolynomialFeatures(2)), ("c", LogisticRegression(solver="liblinear"))]).fit(X, y))
    yield un("pipe-knn", Pipeline([("s", StandardScaler()), ("c", knn)]).fit(X, y))
    yield un("pipe-deep", Pipeline([("a", Pipeline([("u", FeatureUnion([("s", StandardScaler()), ("p", PolynomialFeatures())]))])), ("c", GaussianNB())]).fit(X, y))
    yield un("union-poly", FeatureUnion([("s", StandardScaler()), ("p", PolynomialFeatures())]).fit(X))
    yield un("union-weight-poly", FeatureUnion([("s", StandardScaler()), ("p", PolynomialFeatures())], transformer_weights={"p": 0}).fit(X))
    # text
    corpus = ["the red cat", "a blue cat and the dog", "dog dog"]
    ask = [["the cat", "red dog"]]
    for c in (CountVectorizer, TfidfVectorizer, HashingVectorizer):
        for name, kw in (("stop-english", dict(stop_words="english")), ("tokenizer", dict(tokenizer=str.split)), ("preprocessor", dict(preprocessor=str.upper)),
                         ("analyzer", dict(analyzer=str.split)), ("analyzer-lambda", dict(analyzer=lambda d: [d])), ("accents", dict(strip_accents=str.swapcase)),
                         ("lambda-tokenizer", dict(tokenizer=lambda d: d.split("e")))):
            e = c(**kw).fit(corpus)
            yield un("text-%s-%s" % (name, c.__name__), e, ask, ["transform"], text_adapter(e))
            if c is not HashingVectorizer:
                p = Pipeline([("v", c(**kw)), ("c", LogisticRegression(solver="liblinear"))]).fit(corpus, [0, 1, 0])
                yield un("text-pipe-%s-%s" % (name, c.__name__), p, ask, METHODS[:3], text_adapter(e))
    # one method that is not reproduced in a supported model
    for loss in ("modified_huber", "squared_hinge", "perceptron", "hinge", "squared_loss"):
        for yy in (b, y):
            e = SGDClassifier(loss=loss, random_state=0, max_iter=20).fit(X, yy)
            yield Case("part/sgd-" + loss, e, [mat(rng, 2, 3)], METHODS[:4], sparse=True, clf=True)


def old(e, version):
    """The estimator as one that was fitted with an older version."""
    cls = type(e)
    get = cls.__getstate__

    class Old(cls):
        def __getstate__(self):
            return dict(get(self), _sklearn_version=version)
    Old.__name__ = Old.__qualname__ = cls.__name__
    e.__class__ = Old


def ft_options(rng):
    words, inm = ["a", "b", "</s>"], [[1.0, 0.5], [0.25, -1.0], [0.5, 0.5]]
    labels, outm = ["__label__x", "__label__y"], [[1.0, 0.0], [0.0, 1.0]]
    ms = ["predict", "get_word_vector", "get_sentence_vector"]
    xs = [{"text": "a b", "k": 2}]

    def c(name, src):
        a = arts.ft(src)
        return Case("un/ft-" + name, src, xs, ms if a["sup"] else ms[1:], ad=FT, art=a, convert=convert_ft)
    for loss in ("ns", "hs", "ova", "one-vs-all"):
        yield c("loss-" + loss, FakeFt(words, inm, labels, outm, loss=loss))
    for kw in (dict(maxn=1), dict(maxn=6), dict(ngrams=2), dict(ngrams=5), dict(maxn=3, ngrams=2), dict(quant=True), dict(maxn=2, loss="ns")):
        yield c("sup-%s" % sorted(kw), FakeFt(words, inm, labels, outm, **kw))
    for kw in (dict(maxn=1), dict(maxn=6), dict(quant=True), dict(maxn=3, ngrams=2)):
        yield c("unsup-%s" % sorted(kw), FakeFt(words, inm, None, None, **kw))


def ask_all(ctx, case, methods, offered_too=True):
    s = Session(ctx.scn, case.name, case, mode="serve", src=case.name.split("/")[0])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = s.start()
        if o is None:
            return
        for x in case.inputs:
            c = s.put(x)
            for m in methods:
                s.call(o, m, c, look=False)
    return s, o


def source_has(e, m):
    try:
        return callable(getattr(e, m))
    except Exception:
        return False


def c25(ctx):
    rng = ctx.rng
    for rep in range(ctx.n(1, 8)):
        for g in (foreign, unfitted, options, ft_options):
            for case in g(rng):
                ask_all(ctx, case, case.methods)
        if len(ctx.scn.traces) > 300:
            ctx.flush()
    per = ctx.n(14, 200)
    for f in zoo.FAMILIES:
        g = zoo.FAMILIES[f](rng)
        for _ in range(per):
            if ctx.late():
                return
            case = next(g)
            if case.ad is FT:
                ask_all(ctx, Case(case.name, case.est, case.inputs[:3], [], ad=FT, art=case.art, convert=convert_ft),
                        ["predict", "get_sentence_vector", "get_word_vector"] if case.kw["sup"] else ["predict", "get_sentence_vector"])
                continue
            # what the source itself does not offer must not be answered either
            ms = [m for m in METHODS if m in case.methods or not source_has(case.est, m)]
            case.inputs = case.inputs[:2]
            got = ask_all(ctx, case, ms)
            if got:
                s, o = got
                for m in case.methods:
                    s.has(o, m)
                if case.art["k"] == "pipe":
                    for m in METHODS[:3] + ["transform"]:
                        if not source_has(case.est, m):
                            s.has(o, m)
                if case.kw.get("clf"):
                    s.classes(o)
        if len(ctx.scn.traces) > 300:
            ctx.flush()
