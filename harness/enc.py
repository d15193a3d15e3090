"""Contents and scenarios: how data of the real library is written down for the specification.

Numbers are exact: "n" or "n/d".  A scenario collects artifacts, interned contents and
traces; see spec/Trace.tla for how it is read.
"""
import json
import math
import threading
import unicodedata


class Other(Exception):
    pass


def num(x):
    if x is True:
        return "1"
    if x is False:
        return "0"
    if isinstance(x, int):
        return str(x)
    if hasattr(x, "item") and not isinstance(x, float):
        x = x.item()
        if isinstance(x, (bool, int)):
            return str(int(x))
    if isinstance(x, float):
        if x != x:
            return "nan"
        if x == math.inf:
            return "inf"
        if x == -math.inf:
            return "-inf"
        n, d = float(x).as_integer_ratio()
        return str(n) if d == 1 else "%d/%d" % (n, d)
    raise Other("not a number: %r" % (type(x),))


def nums(xs):
    return [num(x) for x in xs]


def label(x):
    """Class labels and category cells: numbers or strings."""
    if isinstance(x, str):
        return "s:" + x
    if isinstance(x, bytes):
        return "b:" + repr(x)
    if x is None:
        return "o:None"
    try:
        return num(x)
    except Other:
        return "o:" + repr(type(x))


labels = lambda xs: [label(x) for x in xs]


def is_sparse(x):
    return type(x).__name__ == "sparse_list"


def codes(s):
    return [ord(c) for c in s]


def content(x, kind=None, opts=None):
    """Encode an input or an answer. kind: None (data), "text", "map", "ft", "lib"."""
    if kind == "text":
        if isinstance(x, (list, tuple)):
            try:
                return {"f": "T", "docs": [codes(_dec(d, opts)) for d in x]}
            except Other:
                pass
        return bad(x)
    if kind == "map":
        from collections.abc import Mapping
        if isinstance(x, Mapping):
            x = [x]
        if isinstance(x, (list, tuple)) and all(isinstance(r, Mapping) for r in x):
            rows = []
            for r in x:
                ks, vs, st = [], [], []
                for k, v in r.items():
                    ks.append(str(k))
                    st.append(isinstance(v, str))
                    vs.append(v if isinstance(v, str) else num(v))
                rows.append({"keys": ks, "vals": vs, "str": st})
            return {"f": "M", "rows": rows}
        return bad(x)
    if is_sparse(x):
        rows = []
        for r in x:
            if not isinstance(r, dict):
                return {"f": "other", "what": "sparse row " + type(r).__name__}
            rows.append({"c": [int(c) for c in r], "v": [label(v) for v in r.values()]})
        n = x.size if isinstance(x.size, int) and not isinstance(x.size, bool) else -1
        return {"f": "S", "n": n, "rows": rows}
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return {"f": "X", "what": "empty"}
        if all(isinstance(r, (list, tuple)) for r in x):
            return {"f": "D", "n": len(x[0]), "rows": [labels(r) for r in x]}
        if any(isinstance(r, (list, tuple, dict)) for r in x):
            return {"f": "other", "what": "mixed"}
        return {"f": "V", "v": labels(x)}
    if hasattr(x, "__next__") or isinstance(x, (range, map, filter, zip)):
        return {"f": "V", "v": labels(list(x))}
    if isinstance(x, (int, float)) and opts == "scalar":
        return {"f": "V", "v": [label(x)]}
    return bad(x)


def _dec(d, opts):
    if isinstance(d, bytes):
        enc, err = opts or ("utf-8", "strict")
        return d.decode(enc, err)
    if isinstance(d, str):
        return d
    raise Other("document %r" % type(d))


def bad(x):
    if isinstance(x, (str, bytes)):
        return {"f": "X", "what": "str"}
    if isinstance(x, (list, tuple)) and not len(x):
        return {"f": "X", "what": "empty"}
    if isinstance(x, dict):
        return {"f": "X", "what": "dict"}
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return {"f": "V", "v": [label(x.item())]}
    except ImportError:
        pass
    return {"f": "X", "what": "notlist"}


RAISED = {"f": "raise"}


def _word(c):
    return c.isalnum() or c == "_"


def char_info(cps):
    out = {}
    todo = set(cps) | {32}
    while todo:
        cp = todo.pop()
        if str(cp) in out:
            continue
        c = chr(cp)
        lo, nf = c.lower(), unicodedata.normalize("NFKD", c)
        try:
            u8 = list(c.encode("utf-8"))
        except UnicodeEncodeError:
            u8 = []
        out[str(cp)] = {
            "w": int(_word(c)), "s": int(c.isspace()), "co": int(unicodedata.combining(c) != 0),
            "asc": int(cp < 128), "lo": codes(lo), "nf": codes(nf), "u8": u8,
        }
        todo |= set(codes(lo)) | set(codes(nf))
    return out


class Scenario:
    """Artifacts, interned contents, traces."""

    def __init__(self):
        self.arts, self.vals, self.traces = [], [], []
        self._a, self._v = {}, {}
        self.meta = []          # per trace: name, and a callable-free description
        self.lock = threading.RLock()
        self.raise_ix = self.val(RAISED)
        self.art({"k": "lib"})
        self.nend = 0

    def art(self, a):
        key = json.dumps(a, sort_keys=True)
        if key not in self._a:
            self.arts.append(a)
            self._a[key] = len(self.arts)
        return self._a[key]

    def val(self, v):
        key = json.dumps(v, sort_keys=True)
        with self.lock:
            if key not in self._v:
                self.vals.append(v)
                self._v[key] = len(self.vals)
            return self._v[key]

    def trace(self, name, mode="model", **info):
        tr = Trace(self, name, info)
        tr.mode = mode
        self.traces.append(tr)
        return tr

    def chars(self):
        cps = set()

        def walk(v):
            if isinstance(v, dict):
                for k, w in v.items():
                    if k in ("docs", "texts", "terms", "words", "stop"):
                        for d in w:
                            cps.update(d)
                    else:
                        walk(w)
            elif isinstance(v, list):
                for w in v:
                    if isinstance(w, (dict, list)):
                        walk(w)

        for v in self.vals:
            if v["f"] in ("T", "F"):
                walk(v)
        walk(self.arts)
        return char_info(cps)

    def dump(self, path, traces, plain, imports):
        """Write a scenario with only the given traces and what they use."""
        arts, vals, ai, vi = [], [], {}, {}

        def A(i):
            if i not in ai:
                arts.append(self.arts[i - 1])
                ai[i] = len(arts)
            return ai[i]

        def V(i):
            if i not in vi:
                vals.append(self.vals[i - 1])
                vi[i] = len(vals)
            return vi[i]

        V(self.raise_ix)
        out = []
        for tr in traces:
            evs = []
            for e in tr.events:
                e = dict(e)
                e.pop("note", None)
                if "a" in e:
                    e["a"] = A(e["a"])
                if e["e"] in ("put", "look", "classes"):
                    e["v"] = V(e["v"])
                if e["e"] == "end":
                    e["y"] = V(e["y"])
                evs.append(e)
            out.append({"mode": tr.mode, "ev": evs})
        sub = Scenario.__new__(Scenario)
        sub.arts, sub.vals = arts, vals
        with open(path, "w") as fh:
            json.dump({"arts": arts, "vals": vals, "traces": out, "chars": sub.chars(),
                       "raise": vi[self.raise_ix], "plain": plain or ["int"], "imports": imports or ["builtins"]}, fh)


class Trace:
    def __init__(self, scn, name, info):
        self.scn, self.name, self.info = scn, name, info
        self.events = []
        self.n = 0

    def add(self, e, note=None, **kw):
        ev = {"e": e}
        ev.update(kw)
        if note is not None:
            ev["note"] = note
        with self.scn.lock:
            self.events.append(ev)
            if e == "end":
                self.scn.nend += 1

    def fresh(self, p):
        with self.scn.lock:
            self.n += 1
            return "%s%d" % (p, self.n)
