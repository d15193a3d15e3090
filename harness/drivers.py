"""What each property's check does to the real library, step by step recorded."""
import enc
import mk
import zoo
from session import FT, Session

PRED = ["predict", "predict_proba", "predict_log_proba", "decision_function", "transform"]


def model_trace(ctx, case, src="fitted", look=True, mode="model", has=True):
    """Every method on every input, dense and (where taken) sparse, judged by the model's meaning."""
    s = Session(ctx.scn, case.name, case, mode=mode, src=src)
    o = s.start()
    if o is None:
        return s
    if has:
        for m in PRED if case.ad is not FT else ["predict"]:
            if m in case.methods or (case.art["k"] == "pipe" and m != "decision_function"):
                s.has(o, m)
        if case.kw.get("clf"):
            s.classes(o)
    for x in case.inputs:
        c = s.put(x)
        for m in case.methods:
            s.call(o, m, c, look)
        if case.sparse and not enc.is_sparse(x):
            c = s.put(sparse_form(x, ctx.rng))
            for m in case.methods:
                s.call(o, m, c, look)
    if case.ad is FT:
        for x in case.kw["sentences"]:
            s.ask(o, "get_sentence_vector", x)
        for x in case.kw["words"]:
            s.ask(o, "get_word_vector", x)
            s.ask(o, "get_word_id", x)
        for i in range(case.kw["nwords"]):
            s.ask(o, "get_input_vector", {"text": "", "k": i})
    if "unknown" in case.kw:
        s.ask(o, "transform", case.kw["unknown"])
    if "newmiss" in case.kw:
        s.ask(o, "transform", case.kw["newmiss"])
    return s


def sparse_form(x, rng, messy=0.5):
    """The matrix as a sparse_list; sometimes with stored zeros and entries in any order."""
    from pure_sklearn.utils import sparse_list
    sp = zoo.to_sparse(x)
    if rng.random() >= messy:
        return sp
    rows = []
    for r in x:
        it = [(j, v) for j, v in enumerate(r) if v != 0 or rng.random() < 0.3]
        rng.shuffle(it)
        rows.append(dict(it))
    return sparse_list(rows, size=len(x[0]), dtype=sp.dtype)


def fitted(*fams, quick=40, thorough=None):
    def drive(ctx):
        more = mk.enumerated(ctx, [f for f, _ in fams])
        for f, w in fams:
            n = ctx.n(int(quick * w), thorough and int(thorough * w))
            g = zoo.FAMILIES[f](ctx.rng)
            for i in range(n):
                if ctx.late():
                    break
                model_trace(ctx, next(g))
                if len(ctx.scn.traces) >= 400:
                    ctx.flush()
            for case in zoo.big(f, ctx.rng):
                if not ctx.late():
                    model_trace(ctx, case, src="large", look=False)
        for f, case in more():
            model_trace(ctx, case, src="enumerated")
            if len(ctx.scn.traces) >= 400:
                ctx.flush()
    return drive


import configs
import libs
import lifecycle
import overlap
import relations

DRIVERS = {
    "C01": fitted(("linear", 1), quick=150),
    "C02": fitted(("tree", 1), quick=100),
    "C03": fitted(("forest", 1), quick=90),
    "C04": fitted(("gb", 1), quick=90),
    "C05": fitted(("xgb", 1), quick=70),
    "C06": fitted(("nb", 1), ("dummy", 0.3), quick=80),
    "C07": fitted(("scaler", 1), quick=120),
    "C08": fitted(("encoder", 1), quick=120),
    "C09": fitted(("impute", 1), quick=120),
    "C10": fitted(("count", 1), quick=100),
    "C11": fitted(("tfidf", 1), quick=100),
    "C12": fitted(("hashing", 1), quick=100),
    "C13": fitted(("dictvec", 1), quick=100),
    "C14": fitted(("pipe", 1), quick=90),
    "C15": fitted(("union", 1), quick=80),
    "C16": fitted(("fasttext", 1), quick=100),
    "C17": fitted(("fasttext", 1), quick=100),
    "C18": libs.c18,
    "C20": libs.c20,
    "C19": relations.c19,
    "C21": lifecycle.c21,
    "C22": overlap.c22,
    "C24": lifecycle.c24,
    "C26": lifecycle.c26,
    "C23": relations.c23,
    "C25": configs.c25,
    "C27": relations.c27,
    "C28": relations.c28,
}
