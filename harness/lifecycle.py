"""The life of converted models: purity (C21), overlapping calls (C22), pickles elsewhere (C24), snapshots (C26).

Histories come from spec/MCLife.tla; each is executed on real models, every step is
recorded, and Trace.tla (mode memo) decides whether the recording is a behaviour of
PurePredict.  Reference answers come first: each asked on an untouched copy of the model in a
pristine process.
"""
import copy
import hashlib
import os
import pickle
import random
import sys
import threading
import types

import arts
import enc
import gen
import server
import zoo
from session import Adapter, Answer, As, DATA, FT, Files, MAPS, Obj, Session, limit

ALL = frozenset


def ad_name(ad):
    return "FT" if ad is FT else "MAPS" if ad is MAPS else "DATA"


# ---------------------------------------------------------------- contents
def variants(case, rng, n):
    """n different valid inputs; only plain data."""
    xs = [x for x in case.inputs if plain(x) and type(x) is not As]
    if not xs:
        return []
    out = []
    for i in range(4 * n):
        x = native(copy.deepcopy(rng.choice(xs)))
        if isinstance(x, list) and i % 2 and len(x) > 1 and case.ad is not FT:
            if out and rng.random() < 0.6:                 # as many rows as the first one
                x = native(copy.deepcopy(max(xs, key=lambda v: len(v) if isinstance(v, list) else 0)))
                q = len(out[0]) if isinstance(out[0], list) else 1
                rows = [copy.deepcopy(rng.choice(x)) for _ in range(q)]
            else:
                k = rng.randrange(1, len(x))
                rows = list(x[k:]) + list(x[:k]) if rng.random() < 0.6 else list(x[:k])
            x = _like(x, rows)
        if out and i % 3 == 1 and rng.random() < 0.7:
            x = twin(out[0], case, rng)
        if case.sparse and i % 3 == 0 and case.ad is DATA and not enc.is_sparse(x):
            x = zoo.to_sparse(x)
        if not any(_same(x, y) for y in out):
            out.append(x)
        if len(out) == n:
            break
    while out and len(out) < n:
        out.append(copy.deepcopy(out[0]))
    return out


def twin(x, case, rng):
    """Nearly the same input: what is kept of a call under a coarse key is found by the next one."""
    x = copy.deepcopy(x)
    if case.ad is FT and isinstance(x, dict) and case.art.get("sup", True):
        if rng.random() < 0.6:
            if x.pop("thr", None) is None:
                x["thr"] = rng.choice([0.3, 0.5, 0.9, 1.0])
        elif x.pop("k", None) is None:
            x["k"] = rng.choice([-1, 2])
        if rng.random() < 0.5:       # one text, or a list of one
            x["text"] = x["text"][0] if isinstance(x["text"], list) and x["text"] else [x["text"]] if isinstance(x["text"], str) else x["text"]
        return x
    if case.art["k"] in ("onehot", "ordinal") or not isinstance(x, list) or not x:
        return x
    cells = [(r, j) for r in (x if case.ad is not FT else []) for j, v in (r.items() if isinstance(r, dict) else enumerate(r) if isinstance(r, list) else ())
             if isinstance(v, float) and v == v and abs(v) < 1e50]
    for r, j in cells if rng.random() < 0.5 else cells[:1]:
        r[j] = r[j] + rng.choice([0.03, 1e-3, 1e-5]) * max(1.0, abs(r[j]))
    if not cells and all(isinstance(v, str) for v in x):
        x[-1] = x[-1] + rng.choice([" ", " cat", " a"])
    return x


def _like(x, rows):
    if enc.is_sparse(x):
        from pure_sklearn.utils import sparse_list
        return sparse_list([dict(r) for r in rows], size=x.size, dtype=x.dtype)
    return rows


def _same(x, y):
    return type(x) is type(y) and repr(x) == repr(y) and getattr(x, "size", 0) == getattr(y, "size", 0)


def plain(x):
    if isinstance(x, (list, tuple, dict)):
        it = x.values() if isinstance(x, dict) else x
        return all(plain(v) for v in it)
    return x is None or isinstance(x, (int, float, str, bytes, bool))


def shape(x):
    """The types of everything in a container, in order."""
    if isinstance(x, dict):
        return "%s{%s}" % (type(x).__name__, ",".join("%s:%s" % (shape(k), shape(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return "%s[%s]" % (type(x).__name__, ",".join(map(shape, x)))
    return type(x).__name__


def native(x):
    if enc.is_sparse(x):
        for r in x:
            for k in list(r):
                r[k] = native(r[k])
        if getattr(x.dtype, "__module__", "") == "numpy":
            x.dtype = float
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(native(v) for v in x)
    if isinstance(x, dict):
        return {k: native(v) for k, v in x.items()}
    return x.item() if hasattr(x, "item") else x


def overwrite(x, y):
    """x becomes equal to y without becoming another object, inner lists included."""
    if enc.is_sparse(x) and enc.is_sparse(y):
        rows = [dict(r) for r in y]
        for i, r in enumerate(rows[:len(x)]):
            x[i].clear()
            x[i].update(r)
        del x[len(rows):]
        x.extend(rows[len(x):])
        x.size, x.dtype = y.size, y.dtype
        return x
    if enc.is_sparse(x) or enc.is_sparse(y):
        return copy.deepcopy(y)
    if isinstance(x, list) and isinstance(y, list):
        for i in range(min(len(x), len(y))):
            x[i] = overwrite(x[i], y[i])
        del x[len(y):]
        x.extend(copy.deepcopy(y[len(x):]))
        return x
    if isinstance(x, dict) and isinstance(y, dict):
        old = dict(x)
        x.clear()
        for k, v in y.items():
            x[k] = overwrite(old[k], v) if k in old else copy.deepcopy(v)
        return x
    return copy.deepcopy(y)


def scribble(y, depth=0):
    """The caller writes over everything it was given."""
    if isinstance(y, tuple):
        for v in y:
            scribble(v, depth + 1)
    elif isinstance(y, list):
        for i, v in enumerate(y):
            if isinstance(v, (list, dict, tuple)):
                scribble(v, depth + 1)
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                y[i] = -1.5 if v != -1.5 else -2.5
            else:
                y[i] = "scribbled"
        if depth == 0 and len(y) and not isinstance(y[0], str):
            y.append(copy.deepcopy(y[0]))
        elif depth:
            y.append(-1.5)
    elif isinstance(y, dict):
        for k in list(y):
            if isinstance(y[k], (list, dict, tuple)):
                scribble(y[k], depth + 1)
            else:
                y[k] = -1.5 if y[k] != -1.5 else -2.5
        y[0] = -7.5


# ---------------------------------------------------------------- sources
def fingerprint(x, seen=None, depth=0):
    """Everything about a source that could be noticed, as text."""
    import numpy as np
    seen = seen if seen is not None else {}
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return "A%s%s" % (x.shape, [fingerprint(v, seen, depth + 1) for v in x.ravel().tolist()])
        return "A%s%s%s" % (x.dtype, x.shape, hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest())
    if x is None or isinstance(x, (str, bytes, int, float, bool, complex, np.generic)):
        return "%s:%r" % (type(x).__name__, x)
    if id(x) in seen or depth > 40:
        return "^"
    seen[id(x)] = x
    if isinstance(x, (list, tuple)):
        return "%s[%s]" % (type(x).__name__, ",".join(fingerprint(v, seen, depth + 1) for v in x))
    if isinstance(x, dict):
        return "{%s}" % ",".join("%s=%s" % (fingerprint(k, seen, depth + 1), fingerprint(v, seen, depth + 1)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return "S{%s}" % ",".join(sorted(fingerprint(v, seen, depth + 1) for v in x))
    if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType)):
        return "F"
    mod = type(x).__module__ or ""
    if hasattr(x, "tocsr") and hasattr(x, "data") and hasattr(x, "indices"):
        return "C" + fingerprint([x.data, x.indices, x.indptr, x.shape], seen, depth + 1)
    if hasattr(x, "node_count") and hasattr(x, "children_left"):
        return "T" + fingerprint(x.__getstate__(), seen, depth + 1)
    if type(x).__name__ == "Booster":
        return "B" + hashlib.sha1(bytes(x.save_raw())).hexdigest() + repr((x.feature_names, x.feature_types, sorted(x.attributes().items()), getattr(x, "best_iteration", None)))
    d = getattr(x, "__dict__", None)
    if d is None:
        return "O" + type(x).__name__
    keep = {k: v for k, v in d.items() if not k.startswith("_") or k in ("_tfidf", "_w", "_i", "_l", "_o", "_q", "_Booster", "_features")}
    return "%s.%s%s" % (mod, type(x).__name__, fingerprint(keep, seen, depth + 1))


def source_says(est, case, xs):
    """What the source itself answers (by its own library)."""
    import numpy as np
    out = []
    if case.ad is FT:
        return out
    for x in xs:
        for m in case.methods:
            try:
                if enc.is_sparse(x):
                    q = np.array(x.todense(), dtype=float)
                elif case.ad is DATA:
                    # (sklearn's encoders write out of bounds when categories given as objects meet plain numbers)
                    q = np.array(x, dtype=object if getattr(case.kw.get("X"), "dtype", None) == object or any(isinstance(v, str) or v is None for r in x for v in r) else float)
                else:
                    q = x
                y = getattr(est, m)(q)
                out.append(fingerprint(y))
            except Exception as e:
                out.append(type(e).__name__)
    return out


def wreck_source(x, rng, seen=None, depth=0):
    """Overwrites, in place, all that a source is made of."""
    import numpy as np
    seen = seen if seen is not None else {}
    if id(x) in seen or depth > 40 or x is None or isinstance(x, (str, bytes, int, float, bool, type, np.generic)):
        return
    seen[id(x)] = x
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType)):
        return
    if isinstance(x, np.ndarray):
        for v in (x.ravel().tolist() if x.dtype == object else ()):
            wreck_source(v, rng, seen, depth + 1)
        try:
            if x.dtype.kind in "fiub":
                x[...] = 0 if depth % 2 else 1
            elif x.dtype.kind in "US":
                x[...] = "?"
            elif x.dtype == object and x.size:
                x[...] = None
            elif x.dtype.names:
                for nm in x.dtype.names:
                    x[nm] = 0
        except (ValueError, TypeError):
            pass
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            wreck_source(v, rng, seen, depth + 1)
        x.clear()
        x["?"] = 0
        return
    if isinstance(x, (list, tuple)):
        for v in list(x):
            wreck_source(v, rng, seen, depth + 1)
        if isinstance(x, list):
            del x[:]
        return
    if isinstance(x, set):
        x.clear()
        return
    mod = (type(x).__module__ or "").partition(".")[0]
    if hasattr(x, "data") and hasattr(x, "indices") and mod == "scipy":
        for v in (x.data, x.indices, x.indptr):
            wreck_source(v, rng, seen, depth + 1)
        return
    if hasattr(x, "node_count") and hasattr(x, "children_left"):
        for a in ("threshold", "value", "feature", "children_left", "children_right", "impurity"):
            wreck_source(getattr(x, a), rng, seen, depth + 1)
        return
    if type(x).__name__ == "Booster":
        return
    if mod not in ("sklearn", "zoo", "xgboost", "__main__"):
        return
    d = getattr(x, "__dict__", None)
    if d is None:
        return
    for v in list(d.values()):
        wreck_source(v, rng, seen, depth + 1)
    for k in list(d):
        try:
            setattr(x, k, "wrecked")
        except Exception:
            pass


def wreck_object(x, seen=None):
    """Overwrites, in place, all mutable parts of a converted object."""
    seen = seen if seen is not None else {}
    if id(x) in seen or x is None or isinstance(x, (str, bytes, int, float, bool, type)):
        return
    seen[id(x)] = x
    if isinstance(x, dict):
        for v in list(x.values()):
            wreck_object(v, seen)
        x.clear()
        return
    if isinstance(x, (list, tuple)):
        for v in list(x):
            wreck_object(v, seen)
        if isinstance(x, list):
            del x[:]
        return
    if isinstance(x, set):
        x.clear()
        return
    if type(x).__module__.partition(".")[0] in ("pure_sklearn", "pure_fasttext"):
        d = vars(x)
        for v in list(d.values()):
            wreck_object(v, seen)
        for k in list(d):
            try:
                setattr(x, k, "wrecked")
            except Exception:
                pass


# ---------------------------------------------------------------- players
class Player(Session):
    """Executes abstract histories of MCLife on real cases (source s of the history is cases[s-1])."""

    def __init__(self, ctx, cases, h, pristine, src, refs=True, elsewhere=None):
        rng = ctx.rng
        self.cases, self.rng, self.pristine, self.elsewhere = cases, rng, pristine, elsewhere
        Session.__init__(self, ctx.scn, "+".join(c.name for c in cases), cases[0], mode="memo", src=src,
                         history=[_short(e) for e in h])
        self.ads = {}                   # container -> adapter
        self.ests, self.states = {}, {}
        self.methods, self.xs = {}, {}
        nm = max([e["m"] for e in h if "m" in e] or [1])
        nx = max([e["x"] for e in h if e["e"] == "put"] + [e["c"][2] for e in h if "c" in e])
        self.refit_ok = True
        self.ok = True
        for s, case in enumerate(cases, 1):
            ms = asks(case, rng)
            if not ms:
                self.ok = False
                return
            self.methods[s] = [ms[i % len(ms)] for i in range(nm)]
            self.xs[s] = {}
            by = {}
            for i in range(nm):
                m, pool = self.methods[s][i]
                if id(pool) not in by:
                    by[id(pool)] = variants(case, rng, nx) if pool is case.inputs else [copy.deepcopy(rng.choice(pool)) for _ in range(nx)]
                self.xs[s][i] = by[id(pool)]
            if len({id(p) for _, p in self.methods[s]}) > 1 or not self.xs[s][0]:
                self.methods[s] = [self.methods[s][0]] * nm
                self.xs[s] = {i: self.xs[s][0] for i in range(nm)}
            if not self.xs[s][0]:
                self.ok = False
                return
        self.h = h
        self.refs = refs
        self.objs, self.pkls, self.opens, self.of = {}, {}, {}, {}

    # containers know their adapter
    def put_(self, c, x, ad):
        self.ads[c] = ad
        self.heap[c] = x
        self.tr.add("put", c=c, v=self.scn.val(self.enc_(ad, x)))

    def enc_(self, ad, x):
        if isinstance(x, Answer):
            return self.out_(ad, x.m, x.y)
        if ad is SRC:
            return x()
        v = ad.enc(x)
        if isinstance(x, (list, dict)) and isinstance(v, dict):
            v = dict(v, ty=hashlib.sha1(shape(x).encode()).hexdigest()[:12])       # 0 is not False to whoever owns it
        return v

    def out_(self, ad, m, y):
        try:
            return ad.out(m, y)
        except Exception as e:
            return {"f": "other", "what": repr(e)[:100]}

    def look_(self, c):
        self.tr.add("look", c=c, v=self.scn.val(self.enc_(self.ads[c], self.heap[c])))

    def look_all(self):
        for c in list(self.heap):
            self.look_(c)

    def content(self, s, x):
        return self.xs[s][0][(x - 1) % len(self.xs[s][0])]

    def play(self, sources=False):
        used = {e["s"] for e in self.h if e["e"] in ("convert", "fit")}
        for s in sorted(used):
            case = self.cases[s - 1]
            self.ests[s] = case.est
            self.tr.add("fit", s="s%d" % s, a=self.scn.art(case.art))
            if sources:
                try:
                    self.ests[s] = copy.deepcopy(case.est)
                except Exception:
                    self.ests[s] = case.est
                self.watch(s)
        if self.refs:
            for s in sorted(used):
                self.references(s, self.ests[s])
        for s in sorted(used):
            for j in sorted({e["c"][2] for e in self.h if "c" in e and e["c"][1] == s}):
                self.put_("c%d_%d" % (s, j), copy.deepcopy(self.content(s, j)), self.cases[s - 1].ad)
        for e in self.h:
            if not getattr(self, "do_" + e["e"])(e):
                return
            self.look_all()

    def watch(self, s):
        case, est = self.cases[s - 1], self.ests[s]
        xs = [copy.deepcopy(x) for x in self.xs[s][0][:2]]
        see = lambda: {"f": "X", "what": hashlib.sha1(repr([fingerprint(est), source_says(est, case, xs)]).encode()).hexdigest()}
        self.put_("src%d" % s, see, SRC)

    # ---- reference answers, each in a process that has seen nothing else
    def references(self, s, est):
        case = self.cases[s - 1]
        try:
            data = pickle.dumps(case.convert(est))
        except Exception:
            return                 # conversion and pickling are judged elsewhere
        o, p = self.tr.fresh("o"), self.tr.fresh("p")
        self.tr.add("convert", s="s%d" % s, o=o, ok=True)
        self.tr.add("dump", o=o, p=p, ok=True)
        n = 0
        for m in {m: None for m, _ in self.methods[s]}:
            for x in self.xs[s][0]:
                n += 1
                if self.refs == "near":      # an unused copy in this process
                    c = self.tr.fresh("c")
                    self.put_(c, copy.deepcopy(x), case.ad)
                    self.ad = case.ad
                    w = self.load(p, data)
                    if w is None:
                        return
                    k = self.begin(w, m, c)
                    err, y = self.run(w, m, c)
                    self.heap.pop(c)
                    v = self.scn.raise_ix if err is not None else self.scn.val(self.out_(case.ad, m, y))
                    self.tr.add("end", k=k, r=self.tr.fresh("r"), y=v, note=None if err is None else repr(err)[:300])
                    continue
                if self.pristine.new()[0] != "ok":
                    return
                if self.pristine.ask("load", "o", data)[0] != "ok":
                    self.pristine.bye()
                    return
                st, r = self.pristine.ask("call", "o", ad_name(case.ad), m, pickle.dumps(x))
                self.pristine.bye()
                if st == "dead":
                    return
                o2, c, k, rr = self.tr.fresh("o"), self.tr.fresh("c"), self.tr.fresh("k"), self.tr.fresh("r")
                self.tr.add("load", p=p, o=o2, ok=True)
                self.tr.add("put", c=c, v=self.scn.val(self.enc_(case.ad, x)))
                self.tr.add("begin", k=k, o=o2, m=m, c=c)
                v = self.scn.raise_ix if st != "ok" else self.scn.val(self.out_(case.ad, m, pickle.loads(r[0])))
                self.tr.add("end", k=k, r=rr, y=v, note=None if st == "ok" else r)

    # ---- the steps
    def do_fit(self, e):
        s = e["s"]
        case, est = self.cases[s - 1], self.ests[s]
        if est is None:
            return False
        if "refit" in case.kw and (e["v"] == 1 or self.rng.random() < 0.6):
            X, y = case.kw["refit"] if e["v"] == 2 or "X" not in case.kw else (case.kw["X"], case.kw.get("y"))
            try:
                est.fit(X, y) if y is not None else est.fit(X)
                art = arts.art(est)
            except Exception:
                return False
            self.tr.add("fit", s="s%d" % s, a=self.scn.art(art))
            self.watch(s)
            if self.refs:
                self.references(s, est)
            return True
        if e["v"] == 1:
            return False
        wreck_source(est, self.rng)          # the source is of no use any more
        self.tr.add("fit", s="s%d" % s, a=self.scn.art({"k": "gone"}))
        self.heap.pop("src%d" % s, None)
        self.ests[s] = None
        return True

    def do_convert(self, e):
        s = e["s"]
        if self.ests.get(s) is None:
            return False
        o = self.convert("s%d" % s, self.ests[s], self.cases[s - 1].convert)
        if o is None:
            return False
        o.src, o.far = s, False
        self.objs[e["o"]] = o
        return True

    def do_ask(self, e):
        o = self.objs[e["o"]]
        m = self.methods[o.src][e["m"] - 1][0]
        c = "c%d_%d" % (e["c"][1], e["c"][2])
        k = self.tr.fresh("k")
        self.tr.add("begin", k=k, o=o.id, m=m, c=c)
        ad = self.ads[c]
        if o.far:
            st, r = self.elsewhere.ask("call", o.id, ad_name(ad), m, pickle.dumps(self.heap[c]))
            err = None if st == "ok" else Exception(r)
            y = pickle.loads(r[0]) if st == "ok" else None
        else:
            self.ad = ad
            err, y = self.run(o, m, c)
        self.end_(e["r"], k, m, err, y, ad)
        return True

    def end_(self, r, k, m, err, y, ad):
        r = "a%s" % r
        if err is not None:
            self.tr.add("end", k=k, r=r, y=self.scn.raise_ix, note=repr(err)[:300])
            return
        if hasattr(y, "__next__") or isinstance(y, (map, filter, zip, range)):
            y = list(y)
        self.tr.add("end", k=k, r=r, y=self.scn.val(self.out_(ad, m, y)))
        self.heap[r] = Answer(m, y)
        self.ads[r] = ad

    def do_put(self, e):
        s = e["c"][1]
        c = "c%d_%d" % (s, e["c"][2])
        if c not in self.heap:
            return True
        self.put_(c, overwrite(self.heap[c], self.content(s, e["x"])), self.cases[s - 1].ad)
        return True

    def do_scribble(self, e):
        r = "a%s" % e["r"]
        if r not in self.heap:
            return True
        try:
            scribble(self.heap[r].y)
        except Exception:
            pass
        self.put_(r, self.heap[r], self.ads[r])
        return True

    def do_wreck(self, e):
        o = self.objs[e["o"]]
        wreck_object(o.real)
        self.tr.add("wreck", o=o.id)
        return True

    def do_dump(self, e):
        o = self.objs[e["o"]]
        proto = self.rng.choice([None, 0, 1, 2, 3, 4, 5])
        if o.far:
            p = self.tr.fresh("p")
            st, data = self.elsewhere.ask("dump", o.id, proto if proto is not None else 4)
            self.tr.add("dump", o=o.id, p=p, ok=st == "ok", note=None if st == "ok" else data)
            if st != "ok":
                return False
        else:
            p, data = self.dump(o, proto)
            if data is None:
                return False
        self.pkls[e["p"]] = (p, data, o.src)
        scan(self, data)
        return True

    def do_load(self, e):
        p, data, s = self.pkls[e["p"]]
        if self.rng.random() < (0.8 if self.elsewhere is not None else 0):
            oid = self.tr.fresh("o")
            st, r = self.elsewhere.ask("load", oid, data)
            self.tr.add("load", p=p, o=oid, ok=st == "ok", note=None if st == "ok" else r)
            if st != "ok":
                return False
            o = Obj(oid, None)
            o.far = True
        else:
            o = self.load(p, data)
            if o is None:
                return False
            o.far = False
        o.src = s
        self.objs[e["o"]] = o
        return True


class _Src:
    def enc(self, x):
        return x()


SRC = _Src()


def _short(e):
    return " ".join(str(v) for k, v in e.items())


def asks(case, rng):
    """(method, pool of inputs) questions for a case."""
    ms = [(m, case.inputs) for m in case.methods]
    if case.ad is FT and case.kw.get("sentences") and (not ms or rng.random() < 0.3):
        ms = [("get_sentence_vector", case.kw["sentences"]), ("get_word_vector", case.kw["words"])]
        return [ms[0]] if rng.random() < 0.5 else [ms[1]]
    rng.shuffle(ms)
    if rng.random() < 0.4:       # numbers show more than labels
        ms.sort(key=lambda q: q[0] == "predict")
    return ms


def scan(s, data):
    """The types a pickle names, by the package they come from."""
    import pickletools
    names, strs = set(), []
    try:
        for op, arg, _ in pickletools.genops(data):
            if op.name in ("SHORT_BINUNICODE", "BINUNICODE", "UNICODE", "BINUNICODE8"):
                strs.append(arg)
            elif op.name in ("GLOBAL", "INST"):
                names.add(arg.partition(" ")[0].partition(".")[0])
    except Exception:
        return
    for mod, _ in Globals(data):
        names.add(mod.partition(".")[0])
    s.tr.add("types", t=sorted(names))


def Globals(data):
    import io
    found = []

    class U(pickle.Unpickler):
        def find_class(self, mod, name):
            found.append((mod, name))
            return super().find_class(mod, name)

    try:
        U(io.BytesIO(data)).load()
    except Exception:
        pass
    return found


# ---------------------------------------------------------------- which models
def all_cases(ctx, n, fams=None):
    fams = fams or list(zoo.FAMILIES)
    gens = {f: zoo.FAMILIES[f](ctx.rng) for f in fams}
    w = {"linear": 2, "pipe": 3, "union": 2, "fasttext": 3, "forest": 2, "impute": 2, "encoder": 2, "gb": 2, "scaler": 2, "tfidf": 2}
    tot = sum(w.get(f, 1) for f in fams)
    for f in fams:
        k = max(2, round(n * w.get(f, 1) / tot))
        last = None
        for _ in range(k):
            if ctx.late():
                return
            case = next(gens[f])
            yield f, case, last
            if not isinstance(case.ad, Files) and (last is None or ctx.rng.random() < 0.5):      # (only Session itself knows files)
                last = case
            if len(ctx.scn.traces) >= 300:
                ctx.flush()


def passes_through(art):
    """A pipeline or union that may hand back the very object it was given."""
    if art["k"] == "pipe":
        return all(passes_through(a) for a in art["steps"])
    return art["k"] in ("pass", "passthrough", "drop")


def plays(ctx, n, hs_one, hs_two, per, sources=False, elsewhere=None, pristine=None, src="fitted", near=False):
    rng = ctx.rng
    i = 0
    for f, case, other in all_cases(ctx, n):
        if passes_through(case.art) or isinstance(case.ad, Files):
            continue
        for _ in range(per):
            two = hs_two and other is not None and not passes_through(other.art) and rng.random() < 0.5
            h = rng.choice(hs_two if two else hs_one)
            i += 1
            if elsewhere is not None and elsewhere.new()[0] != "ok":
                raise RuntimeError("the other interpreter does not start")
            pl = Player(ctx, [case, other] if two else [case], h, pristine, src, refs="near" if near else pristine is not None, elsewhere=elsewhere)
            if not pl.ok:
                ctx.scn.traces.remove(pl.tr)
                if elsewhere is not None:
                    elsewhere.bye()
                continue
            pl.play(sources)
            ctx.count("kind:" + case.art["k"])
            if elsewhere is not None:
                st, r = elsewhere.ask("imports")
                if st == "ok":
                    pl.tr.add("imports", t=r)
                elsewhere.bye()


def client(bare=False):
    return server.Client(os.environ.get("VERIF_REPO", "/repo"), bare)


# ---------------------------------------------------------------- C21
def after_ask(h, what):
    """Does the caller write over something once an answer has been given?"""
    i = next((i for i, e in enumerate(h) if e["e"] == "ask"), len(h))
    return any(e["e"] == what for e in h[i:])


def c21(ctx):
    acts = ALL(["convert", "ask", "put", "scribble"])
    gen.life_check(ctx, "C21", NS=2, NJ=1, NX=2, NM=2, NO=2, Depth=5 if ctx.quick else 7, Acts=acts)
    q = ctx.quick
    one = gen.life(ctx, "C21one", num=300 if q else 3000, NS=1, NJ=2, NX=3, NM=2, NO=2, Depth=11 if q else 18, Asks=4, Acts=acts)
    two = gen.life(ctx, "C21two", num=300 if q else 3000, NS=2, NJ=1, NX=3, NM=2, NO=3, Depth=13 if q else 20, Asks=5, Acts=acts)
    small = gen.life(ctx, "C21all", NS=1, NJ=1, NX=2, NM=1, NO=1, Depth=6, Asks=2, Acts=acts)
    # one object asked again and again about different contents
    again = gen.life(ctx, "C21again", num=200 if q else 1000, NS=1, NJ=3, NX=3, NM=1, NO=1, Depth=7, Asks=6, Acts=ALL(["convert", "ask"]))
    # an answer or a question written over by its owner, and what is left of the other
    scrib = gen.life(ctx, "C21scrib", NS=1, NJ=2, NX=2, NM=1, NO=1, Depth=5, Asks=2, Acts=acts)
    scrib = [h for h in scrib if after_ask(h, "scribble") and after_ask(h, "put")] + [h for h in scrib if after_ask(h, "scribble")]
    pr = client()
    try:
        plays(ctx, ctx.n(110, 1500), one + small, two, 2, pristine=pr)
        plays(ctx, ctx.n(400, 4000), again, [], 1, near=True)
        plays(ctx, ctx.n(400, 4000), scrib, [], 1, near=True)
    finally:
        pr.stop()


# ---------------------------------------------------------------- C26
def c26(ctx):
    acts = ALL(["convert", "ask", "fit", "wreck"])
    q = ctx.quick
    gen.life_check(ctx, "C26", NS=2, NV=2, NJ=1, NX=2, NM=1, NO=3, Depth=5 if q else 7, Acts=acts)
    one = gen.life(ctx, "C26one", num=300 if q else 3000, NS=1, NV=2, NJ=2, NX=2, NM=2, NO=4, Depth=9 if q else 14, Asks=3, Acts=acts)
    two = gen.life(ctx, "C26two", num=300 if q else 3000, NS=2, NV=2, NJ=1, NX=2, NM=2, NO=4, Depth=10 if q else 16, Asks=3, Acts=acts)
    one = [h for h in one if any(e["e"] in ("fit", "wreck") for e in h)]
    # the first moments of a snapshot, for as many models as possible
    short = gen.life(ctx, "C26short", NS=1, NV=2, NJ=1, NX=2, NM=1, NO=3, Depth=4, Asks=2, Acts=acts)
    short = [h for h in short if sum(e["e"] == "convert" for e in h) > 1 or any(e["e"] in ("fit", "wreck") for e in h)]
    pr = client()
    try:
        plays(ctx, ctx.n(100, 1200), one, two, 2, sources=True, pristine=pr)
        plays(ctx, ctx.n(400, 4000), short, [], 1, sources=True, near=True)
    finally:
        pr.stop()


# ---------------------------------------------------------------- C24
def beyond(case, rng):
    """Inputs of the right form that arithmetic cannot take as usual: far, below zero, missing, empty."""
    xs = [x for x in case.inputs if plain(x) and type(x) is not As]
    out = []
    for x in rng.sample(xs, min(4, len(xs))):
        x = native(copy.deepcopy(x))
        if enc.is_sparse(x) or (case.ad is DATA and isinstance(x, list) and x and all(isinstance(r, list) for r in x)):
            for how in rng.sample((1e3, -1e3, 1e6, -1e6, 1e80, -1.0, float("nan"), float("inf"), 0.0), 3):
                y = copy.deepcopy(x)
                for r in y:
                    for j, v in list(r.items() if isinstance(r, dict) else enumerate(r)):
                        if isinstance(v, float) and rng.random() < 0.7:
                            r[j] = how if how != how or how in (0.0, float("inf")) else v * how
                out.append(y)
        elif case.ad is MAPS and isinstance(x, list):
            out.append([{k: (v * -1e3 if isinstance(v, float) else v) for k, v in r.items()} if isinstance(r, dict) else r for r in x])
            out.append([{}])
        elif case.ad is FT and isinstance(x, dict):
            for t in ("", "\u4e2d \U0001f600", " \t ", ["", ""]):
                y = dict(x)
                y["text"] = t
                out.append(y)
        elif isinstance(x, list) and all(isinstance(v, str) for v in x):
            out += [[""], [], x + [""], ["\u4e2d \U0001f600 \u00e9\u0301"]]
    return out


def tour(ctx, case, far):
    """One model where nothing but the library is installed: every method, on everything; and here again."""
    rng = ctx.rng
    if isinstance(case.ad, Files) or passes_through(case.art):
        return
    s = Session(ctx.scn, case.name, case, mode="memo", src="tour")
    s.fit()
    o = s.convert("s1", case.est, case.convert)
    if o is None:
        return
    p, data = s.dump(o, rng.choice([None, 0, 1, 2, 3, 4, 5]))
    if data is None:
        return
    scan(s, data)
    if far.new()[0] != "ok":
        raise RuntimeError("the other interpreter does not start")
    f = Obj(s.tr.fresh("o"), None)
    st, r = far.ask("load", f.id, data)
    s.tr.add("load", p=p, o=f.id, ok=st == "ok", note=None if st == "ok" else r)
    if st == "ok":
        xs = [native(copy.deepcopy(x)) for x in case.inputs if plain(x) and type(x) is not As]
        xs = rng.sample(xs, min(6, len(xs))) + beyond(case, rng)[:8]
        for x in xs:
            c = s.put(x)
            for m in case.methods:
                for who in (f, o):
                    k = s.tr.fresh("k")
                    s.tr.add("begin", k=k, o=who.id, m=m, c=c)
                    if who is f:
                        st, r = far.ask("call", f.id, ad_name(case.ad), m, pickle.dumps(x))
                        y = pickle.loads(r[0]) if st == "ok" else None
                        note = None if st == "ok" else r
                    else:
                        err, y = s.run(o, m, c)
                        st, note = ("ok", None) if err is None else ("raise", repr(err)[:300])
                    if hasattr(y, "__next__"):
                        y = list(y)
                    try:
                        v = s.scn.raise_ix if st != "ok" else s.scn.val(case.ad.out(m, y))
                    except Exception as e:
                        v = s.scn.val({"f": "other", "what": repr(e)[:100]})
                    s.tr.add("end", k=k, r=s.tr.fresh("r"), y=v, note=note)
        st, r = far.ask("imports")
        if st == "ok":
            s.tr.add("imports", t=r)
    far.bye()
    ctx.count("models asked where only the library is installed")


# ---------------------------------------------------------------- C24
def c24(ctx):
    # what a pickle may name: plain values, containers of the standard library, the library's own classes
    ctx.plain = ["builtins", "__builtin__", "copyreg", "copy_reg", "collections", "_codecs", "pure_sklearn", "pure_fasttext"]
    ctx.imports = sorted(sys.stdlib_module_names) + ["pure_sklearn", "pure_fasttext"]
    acts = ALL(["convert", "ask", "dump", "load"])
    q = ctx.quick
    gen.life_check(ctx, "C24", NS=1, NJ=1, NX=2, NM=2, NO=3, NP=2, Depth=6 if q else 8, Acts=acts)
    one = gen.life(ctx, "C24one", num=400 if q else 3000, NS=1, NJ=2, NX=2, NM=2, NO=4, NP=3, Depth=10 if q else 14, Asks=3, Acts=acts)
    one = [h for h in one if sum(e["e"] == "load" for e in h) >= 1 and any(e["e"] == "ask" for e in h)]
    far = client(bare=True)
    try:
        plays(ctx, ctx.n(110, 1500), one, [], 2, elsewhere=far)
        for f, case, _ in all_cases(ctx, ctx.n(420, 4000)):
            tour(ctx, case, far)
        # every module of the library, on its own
        import pkgutil
        for pkg in ("pure_sklearn", "pure_fasttext"):
            base = __import__(pkg)
            mods = [pkg] + [m.name for m in pkgutil.walk_packages(base.__path__, pkg + ".") if ".tests" not in m.name and "test" not in m.name.rsplit(".", 1)[-1]]
            for m in mods:
                case = LIBCASE
                s = Session(ctx.scn, "import " + m, case, mode="memo", src="modules")
                far.new()
                st, r = far.ask("import", [m])
                st2, names = far.ask("imports")
                far.bye()
                s.tr.add("imports", t=names if st == "ok" and st2 == "ok" else ["not importable: %s %s" % (m, r)])
    finally:
        far.stop()


class _Lib:
    ad, name, kw = DATA, "lib", {}


LIBCASE = _Lib()
