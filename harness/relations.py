"""Properties that relate answers to each other: sparse and dense (C19), batch and row (C23),
probabilities, labels and logarithms (C28); and what must be refused (C25, C27)."""
import copy

import enc
import mk
import numpy as np
import zoo
from session import DATA, FT, MAPS, Session


def walk(ctx, fams, total, share=0.12):
    """Cases of the families in turn, then the large ones; stops when time is up."""
    gens = [(f, zoo.FAMILIES[f](ctx.rng), w) for f, w in fams]
    tw = sum(w for _, w in fams)
    more = mk.enumerated(ctx, [f for f, _ in fams], share, valid=True)
    for f, g, w in gens:
        for _ in range(max(1, round(total * w / tw))):
            if ctx.late():
                return
            yield f, next(g)
            if len(ctx.scn.traces) >= 400:
                ctx.flush()
    for f, case in more():
        yield f, case
        if len(ctx.scn.traces) >= 400:
            ctx.flush()


# ---------------------------------------------------------------- C19
def sparse_variants(x, rng):
    from pure_sklearn.utils import sparse_list
    n = len(x[0])
    dt = type(x[0][0])
    yield zoo.to_sparse(x)
    rows = []
    for r in x:                                # stored zeros, any order
        it = [(j, v) for j, v in enumerate(r) if v != 0 or rng.random() < 0.5]
        rng.shuffle(it)
        rows.append(dict(it))
    yield sparse_list(rows, size=n, dtype=dt)
    yield sparse_list([dict(reversed([(j, v) for j, v in enumerate(r) if v != 0])) for r in x], size=n)
    yield sparse_list([{j: v for j, v in enumerate(r)} for r in x], size=n)       # nothing left out


def c19(ctx):
    rng = ctx.rng
    fams = [("linear", 3), ("tree", 3), ("forest", 3), ("scaler", 3), ("tfidf", 2), ("pipe", 2), ("union", 2), ("gb", 1), ("xgb", .5), ("nb", 1), ("dummy", .4),
            ("encoder", .6), ("impute", .6)]
    for f, case in walk(ctx, fams, ctx.n(110, 1500)):
        if case.ad is not DATA:
            continue
        s = Session(ctx.scn, case.name, case, mode="refuse", src="fitted")
        o = s.start()
        if o is None:
            continue
        for x in case.inputs[:2]:
            if not isinstance(x[0][0], (int, float)):
                continue
            if rng.random() < 0.3:
                x = [list(r) for r in x] + [[0.0] * len(x[0])]
            cd = s.put(x)
            vs = list(sparse_variants(x, rng))
            cs = [s.put(v) for v in (vs if case.sparse else vs[:1])]
            for m in case.methods:
                rd = s.call(o, m, cd)
                for c in cs:
                    rs = s.call(o, m, c)
                    if case.sparse:
                        s.rel("alike", o, m, cd, [rd, rs])
    if not ctx.late():
        for f in ("linear", "tree", "forest", "scaler"):
            for case in zoo.big(f, rng):
                if not case.sparse:
                    continue
                s = Session(ctx.scn, case.name, case, mode="refuse", src="large")
                o = s.start()
                if o is None:
                    continue
                x = case.inputs[0]
                cd, cs = s.put(x), s.put(list(sparse_variants(x, rng))[1])
                for m in case.methods[:2]:
                    s.rel("alike", o, m, cd, [s.call(o, m, cd, False), s.call(o, m, cs, False)])
    import libs
    L = libs.Lib(ctx)
    for _ in range(ctx.n(6, 60)):
        n, r = rng.choice([1, 2, 5, 12]), rng.choice([1, 2, 4])
        A, B = zoo.mat(rng, r, n), zoo.mat(rng, rng.choice([1, 3]), n)
        libs.pairs(ctx, L, A, B)


# ---------------------------------------------------------------- C23
def as_batches(case):
    if case.ad is MAPS:
        return [x for x in case.inputs if isinstance(x, list)]
    return case.inputs


def c23(ctx):
    rng = ctx.rng
    fams = [(f, 2 if f in ("linear", "tree", "forest", "gb", "xgb", "pipe", "union", "encoder", "impute", "fasttext") else 1) for f in zoo.FAMILIES]
    for f, case in walk(ctx, fams, ctx.n(110, 1500)):
        s = Session(ctx.scn, case.name, case, mode="memo", src="fitted")
        o = s.start()
        if o is None:
            continue
        if case.ad is FT:
            ft_batches(s, o, case, rng)
            continue
        for x in as_batches(case)[:2]:
            batches(s, o, case, x, rng)
        if case.ad is DATA and case.art["k"] in ("onehot", "ordinal") and "X" in case.kw:      # what is new comes late
            X = np.asarray(case.kw["X"], dtype=object).tolist()
            known = [list(rng.choice(X)) for _ in range(rng.choice([65, 130, 300]))]
            batches(s, o, case, known + [list(r) for r in case.inputs[-1]], rng, 10)
        sp = case.sparse and isinstance(case.inputs[0], list)
        if sp and case.ad is DATA:
            batches(s, o, case, zoo.to_sparse(case.inputs[0]), rng)
        if case.ad is DATA and case.art["k"] in ("std", "minmax", "maxabs", "norm", "tfidf", "impute"):
            x = echo(o, case.inputs[0])
            if x is not None:
                batches(s, o, case, x, rng, singles=4)
    for f in zoo.FAMILIES:
        if ctx.late():
            break
        for case in zoo.big(f, rng):
            if "batch" not in case.name and "ft/" not in case.name:
                continue
            s = Session(ctx.scn, case.name, case, mode="memo", src="large")
            o = s.start()
            if o is None:
                continue
            if case.ad is FT:
                ft_batches(s, o, case, rng)
            else:
                batches(s, o, case, case.inputs[0], rng, 5, case.methods[:2])


def echo(o, x):
    """Rows followed by what the model makes of them."""
    if not isinstance(x, list):
        return None
    try:
        y = o.real.transform(copy.deepcopy(x))
        y = y.todense() if hasattr(y, "todense") else y
        out = []
        for a, b in zip(x, y):
            if len(a) != len(b) or not all(isinstance(v, (int, float)) and abs(v) < 1e15 for v in b):
                return None
            out += [list(a), list(b)]
        return out[:8]
    except Exception:
        return None


def rows_of(x, ix):
    if enc.is_sparse(x):
        from pure_sklearn.utils import sparse_list
        return sparse_list([dict(x[i]) for i in ix], size=x.size, dtype=x.dtype)
    return [x[i] for i in ix]


def batches(s, o, case, x, rng, singles=6, methods=None):
    n = len(x)
    pick = sorted(rng.sample(range(n), min(n, singles)) if n <= singles else {0, n - 1} | set(rng.sample(range(n), singles - 2)))
    alone = {i: s.put(rows_of(x, [i])) for i in pick}
    orders = [list(range(n))]
    if n > 1:
        perm = list(range(n))
        rng.shuffle(perm)
        orders.append(perm)
        if n < 50:
            orders.append([rng.choice(pick) for _ in range(rng.choice([2, n, 2 * n + 1]))])     # duplicates
    for m in methods or case.methods:
        rs = {i: s.call(o, m, c, False) for i, c in alone.items()}
        for od in orders:
            c = s.put(rows_of(x, od))
            r = s.call(o, m, c, False)
            where = [(p, i) for p, i in enumerate(od) if i in rs]
            if n > 50:
                where = [w for w in where][:singles]
            s.rel("batch", o, m, c, [r] + [rs[i] for _, i in where], [p for p, _ in where])


def ft_batches(s, o, case, rng):
    if not case.kw["sup"]:
        return
    lines = []
    for x in case.inputs:
        t = x["text"]
        lines += [t] if isinstance(t, str) else list(t)
    lines = lines[:5] + ["", "zzz"]
    for kw in ({}, {"k": 2}, {"k": -1, "thr": 0.2}):
        one = {i: s.call(o, "predict", s.put(dict(kw, text=t if rng.random() < 0.5 else [t])), False) for i, t in enumerate(lines)}
        for od in (list(range(len(lines))), rng.sample(range(len(lines)), len(lines)), [rng.randrange(len(lines)) for _ in range(9)]):
            c = s.put(dict(kw, text=[lines[i] for i in od]))
            r = s.call(o, "predict", c, False)
            s.rel("batch", o, "predict", c, [r] + [one[i] for i in od], list(range(len(od))))


# ---------------------------------------------------------------- C28
def extreme(rng, n):
    k = rng.choice([1e3, 1e6, 1e12, 1e30, 1e60])
    return [rng.choice([k, -k, 0.0, zoo.dy(rng), rng.uniform(-1, 1) * k]) for _ in range(n)]


def plain_rows(x):
    return isinstance(x, list) and x and all(isinstance(r, list) and all(isinstance(v, (int, float)) and v == v for v in r) for r in x)


def c28(ctx):
    rng = ctx.rng
    fams = [("linear", 6), ("tree", 1), ("forest", 3), ("gb", 3), ("xgb", 1.5), ("nb", 3), ("dummy", .5), ("pipe", 3)]
    def one(case, src):
        if not {"predict_proba", "predict"} <= set(case.methods):
            return
        s = Session(ctx.scn, case.name, case, mode="memo", src=src)
        o = s.start()
        if o is None:
            return
        xs = list(case.inputs)
        if case.ad is DATA and src == "fitted":
            n = len(case.inputs[0][0])
            if not case.name.startswith(("pipe/onehot", "pipe/ord")):
                big = [extreme(rng, n) for _ in range(4)]
                if case.name.startswith("nb/") and case.art["nb"] != "g":
                    big = [[abs(v) for v in r] for r in big]
                xs.append(big)
        if case.ad is DATA and plain_rows(xs[0]) and not case.name.startswith(("pipe/onehot", "pipe/ord")):      # from doubt to certainty
            r = max(xs[0], key=lambda q: sum(abs(v) for v in q if v == v))
            r = [v if abs(v) < 1e6 else 1.0 for v in r]
            xs.append([[v * u for v in r] for u in (0.125, 1, 4, 8, 16, 32, 64, 128, 256)])
        if case.sparse:
            xs.append(zoo.to_sparse(xs[-1]))
        for x in xs:
            c = s.put(x)
            ms = [m for m in ("predict_proba", "predict", "predict_log_proba") if m in case.methods]
            rs = [s.call(o, m, c, False) for m in ms]
            s.rel("proba", o, "predict_proba", c, rs)
    for f, case in walk(ctx, fams, ctx.n(300, 2500)):
        one(case, "fitted")
    g = zoo.faint(rng)
    for _ in range(ctx.n(16, 200)):
        one(next(g), "faint")
    for f, _ in fams:
        for case in zoo.big(f, rng):
            if not ctx.late():
                one(case, "large")


# ---------------------------------------------------------------- C27
def invalid(case, rng):
    """Inputs that are wrong in one way or another; the specification says which must be refused."""
    import numpy as np
    x = case.inputs[0] if case.inputs else None
    if case.ad is DATA:
        n = len(x[0])
        for w in {n + 1, n - 1, n + 7, 2 * n, 1} - {n, 0}:
            r = [[(row[j % n]) for j in range(w)] for row in x]
            yield r
            if w != 1 and isinstance(x[0][0], (int, float)):
                yield zoo.to_sparse(r)
        yield [[]]
        yield [r + [0.0] for r in x[:1]]
        yield np.array(x, dtype=object if isinstance(x[0][0], str) else None)
        yield tuple(tuple(r) for r in x)
        yield {0: x[0]}
        yield Once(x)
        yield []
        yield ()
        yield "text"
        yield None
        yield 3.5
        if isinstance(x[0][0], (int, float)):
            yield zoo.to_sparse(x)
            if all(isinstance(v, (int, float)) and v == v for r in x for v in r):
                import scipy.sparse as sp
                yield sp.csr_matrix(np.array(x, dtype=float))
            import pandas as pd
            yield pd.DataFrame(x)
    elif case.ad is FT:
        for t in ("red\nblue", "\n", "blue\n", ["red", "blue\ncat"], ["\n"]):
            yield {"text": t, "k": 1}
        yield {"text": "red", "k": 0}
        yield {"text": "red", "k": -2}
    elif case.ad.kind == "text":
        yield "a bare string"
        yield ""
        yield b"bytes"
        code, how = case.ad.opts
        if how == "strict":      # bytes that are no text
            for raw in (b"red \xff blue", b"\xc3", b"\x00\xd8", b"caf\xe9 cat", b"odd"):
                try:
                    raw.decode(code)
                except UnicodeDecodeError:
                    yield Twice([raw])
                    yield Twice([x[0] if x else "", raw])


class Odd:
    """Adapter for invalid inputs: what cannot be read as data is X."""

    def __init__(self, ad):
        self.ad = ad

    def enc(self, x):
        if isinstance(x, Bad):
            u, x = x.u, x.x
            if self.ad is FT:
                return self.ad.enc(x)
            if self.ad.kind == "text":
                return {"f": "X", "what": "str", "u": u}
            if type(x) is list and x and all(type(r) is list for r in x):
                return enc.content(x)
            if enc.is_sparse(x):
                return enc.content(x)
            return {"f": "X", "what": type(x).__name__, "u": u}
        return self.ad.enc(x)

    def call(self, o, m, x):
        if isinstance(x, Bad):
            x = iter(x.x.x) if isinstance(x.x, Once) else x.x
        return self.ad.call(o, m, x)

    def out(self, m, y):
        return self.ad.out(m, y)


class Once:
    """Stands for an iterator over x (a new one for every call)."""

    def __init__(self, x):
        self.x = x


class Twice(list):
    """An invalid input that is asked again after its refusal."""


class Bad:
    """An invalid input; no two of them are the same content."""
    made = 0

    def __init__(self, x):
        self.x = x
        Bad.made += 1
        self.u = Bad.made


def c27(ctx):
    rng = ctx.rng
    fams = [(f, 2 if f in ("linear", "gb", "impute", "encoder", "tfidf", "fasttext") else 1) for f in zoo.FAMILIES]
    for f, case in walk(ctx, fams, ctx.n(120, 1200)):
        s = Session(ctx.scn, case.name, case, mode="refuse", src="fitted")
        s.ad = Odd(case.ad)
        o = s.start()
        if o is None:
            continue
        good = case.inputs[:2] or case.kw.get("sentences", [])[:1]
        ms = case.methods or ["get_sentence_vector"]
        cs = [s.put(x) for x in good]
        for c in cs:
            for m in ms:
                s.call(o, m, c)
        bads = list(invalid(case, rng))
        for k in ("unknown", "newmiss"):
            if k in case.kw:
                bads.append(case.kw[k])
        rng.shuffle(bads)
        for b in bads:
            c = s.put(Bad(b))
            for m in ms:
                s.call(o, m, c, False)
                if isinstance(b, Twice) or rng.random() < 0.1:
                    s.call(o, m, c, False)
            if case.ad is FT and not isinstance(b["text"], list):
                s.call(o, "get_sentence_vector", c, False)
            if rng.random() < 0.4:       # a failed call changes nothing
                c = rng.choice(cs)
                s.call(o, rng.choice(ms), c)
        for c in cs:
            for m in ms:
                s.call(o, m, c)
    import libs
    L = libs.Lib(ctx)
    A = zoo.mat(rng, 3, 4)
    for m in ("linear_kernel_pure", "cosine_similarity_pure", "cosine_distances_pure"):
        L.ask(m, A, zoo.mat(rng, 2, 5))
        L.ask(m, zoo.to_sparse(A), zoo.mat(rng, 2, 3))
        L.ask(m, A, A[0])
