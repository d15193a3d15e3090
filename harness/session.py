"""Driving the real library and writing down every step."""
import collections
import contextlib
import copy
import pickle
import signal
import sys
import threading

import enc


CALL_LIMIT = 20.0


class TooLong(Exception):
    pass


@contextlib.contextmanager
def limit(seconds=None):
    """A call that does not come back is recorded as one that failed (main thread only)."""
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    sec = seconds or CALL_LIMIT

    def ring(*_):
        global CALL_LIMIT
        CALL_LIMIT = max(CALL_LIMIT / 2, 0.5)      # a library that hangs is not waited for again and again
        raise TooLong("no answer after %g s" % sec)

    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Adapter:
    """How inputs of one kind are encoded and passed."""

    def __init__(self, kind=None, opts=None):
        self.kind, self.opts = kind, opts

    def enc(self, x):
        return enc.content(x, self.kind, self.opts)

    def call(self, o, m, x):
        return getattr(o, m)(x.give() if isinstance(x, As) else x)

    def out(self, m, y):
        return enc.content(y)


class As(list):
    """Rows that the library is given in another shape than a list, made anew for every call."""
    SHAPES = {"tuple": tuple, "iterator": iter, "generator": lambda x: (v for v in x), "deque": collections.deque,
              "view": lambda x: dict(enumerate(x)).values(), "userlist": collections.UserList, "map": lambda x: map(lambda v: v, x)}

    def __init__(self, x, shape):
        list.__init__(self, x)
        self.shape = shape

    def give(self):
        return self.SHAPES[self.shape](list(self))

    def __deepcopy__(self, memo):
        return As(copy.deepcopy(list(self), memo), self.shape)


class Files(Adapter):
    """Documents that are read from files (input="filename") or file objects (input="file")."""

    def __init__(self, opts, how):
        Adapter.__init__(self, "text", opts)
        self.how = how

    def call(self, o, m, x):
        import io
        import os
        import tempfile
        if not isinstance(x, list) or not all(isinstance(d, (str, bytes)) for d in x):
            return getattr(o, m)(x)
        raw = [d if isinstance(d, bytes) else d.encode(self.opts[0], "surrogatepass") for d in x]
        if self.how == "file":
            return getattr(o, m)([io.StringIO(s, newline="") if i % 2 and isinstance(s, str) else io.BytesIO(d) for i, (d, s) in enumerate(zip(raw, x))])
        with tempfile.TemporaryDirectory(prefix="vp-docs-") as d:
            names = []
            for i, b in enumerate(raw):
                names.append(os.path.join(d, "doc %d.txt" % i))
                with open(names[-1], "wb") as fh:
                    fh.write(b)
            return getattr(o, m)(names)


DATA = Adapter()
MAPS = Adapter("map")


def text_adapter(e):
    opts = (getattr(e, "encoding", "utf-8"), getattr(e, "decode_error", "strict"))
    how = getattr(e, "input", "content")
    return Adapter("text", opts) if how == "content" else Files(opts, how)


class FtAdapter(Adapter):
    """x is a dict(text=..., k=..., thr=...) held by the caller."""

    def enc(self, x):
        t = x["text"]
        if isinstance(t, str):
            texts, lst = [enc.codes(t)], False
        else:
            texts, lst = [enc.codes(s) for s in t], True
        return {"f": "F", "texts": texts, "list": lst, "kk": x.get("k", 1), "thr": enc.num(x.get("thr", 0.0))}

    def call(self, o, m, x):
        if m == "predict":
            kw = {}
            if "k" in x:
                kw["k"] = x["k"]
            if "thr" in x:
                kw["threshold"] = x["thr"]
            return o.predict(x["text"], **kw)
        if m == "get_input_vector":
            return o.get_input_vector(x["k"])
        return getattr(o, m)(x["text"])

    def out(self, m, y):
        if m == "predict":
            if not (isinstance(y, tuple) and len(y) == 2):
                return {"f": "other", "what": "not a pair"}
            ls, ps = y
            if isinstance(ls, list) and (not ls or isinstance(ls[0], (tuple, list))):
                rows = [{"labels": [str(v) for v in l], "probs": enc.nums(p)} for l, p in zip(ls, ps)]
                if len(ls) != len(ps):
                    return {"f": "other", "what": "lengths"}
                return {"f": "P", "list": True, "rows": rows}
            return {"f": "P", "list": False, "rows": [{"labels": [str(v) for v in ls], "probs": enc.nums(ps)}]}
        if m == "get_word_id":
            return {"f": "V", "v": [enc.num(y)]}
        return {"f": "V", "v": enc.labels(y)}


FT = FtAdapter()


class LibAdapter(Adapter):
    """x is a list of positional arguments; strings and functions are options."""
    FN = {"abs": abs, "neg": lambda v: -v, "double": lambda v: 2 * v, "square": lambda v: v * v,
          "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
          "max2": max, "sum": sum, "max": max, "min": min}

    def enc1(self, a):
        if isinstance(a, Opt):
            return a.enc
        if isinstance(a, (int, float)) and not isinstance(a, bool):
            return {"f": "V", "v": [enc.num(a)], "i": int(a) if a == a and abs(a) < 1e9 else 0}
        return enc.content(a)

    def enc(self, x):
        return {"f": "A", "a": [self.enc1(a) for a in x]}

    def call(self, o, m, x):
        return o[m](*[a.value if isinstance(a, Opt) else a for a in x])

    def out(self, m, y):
        if isinstance(y, bool):
            return {"f": "V", "v": ["1" if y else "0"]}
        if isinstance(y, dict):
            return {"f": "S", "n": -1, "rows": [{"c": [int(k) for k in y], "v": enc.nums(y.values())}]}
        return enc.content(y, None, "scalar")


class Opt:
    """An option argument: how it is written, and what the library is given."""

    def __init__(self, value, encv):
        self.value, self.enc = value, encv


LIB = LibAdapter()


class Obj:
    def __init__(self, oid, real):
        self.id, self.real = oid, real


class Session:
    """One trace on one model."""

    def __init__(self, scn, name, case, mode="model", **info):
        self.scn, self.case = scn, case
        self.ad = case.ad
        self.tr = scn.trace(name, mode, case=case.name, **info)
        self.heap = {}

    # ---- sources and conversion
    def fit(self, s="s1", art=None):
        self.tr.add("fit", s=s, a=self.scn.art(art if art is not None else self.case.art))

    def convert(self, s="s1", src=None, conv=None):
        """Convert the real source; returns Obj or None when refused."""
        conv = conv or self.case.convert
        src = src if src is not None else self.case.est
        oid = self.tr.fresh("o")
        try:
            real = conv(src)
        except Exception as e:
            self.tr.add("convert", s=s, o=oid, ok=False, note=repr(e)[:300])
            return None
        self.tr.add("convert", s=s, o=oid, ok=True)
        return Obj(oid, real)

    def start(self):
        self.fit()
        return self.convert()

    def lib(self, table):
        """The library's functions as an object of kind lib."""
        self.tr.add("fit", s="lib", a=1)
        self.tr.add("convert", s="lib", o="lib", ok=True)
        return Obj("lib", table)

    # ---- persistence
    def dump(self, o, protocol=None):
        p = self.tr.fresh("p")
        try:
            data = pickle.dumps(o.real, protocol=protocol) if protocol is not None else pickle.dumps(o.real)
        except Exception as e:
            self.tr.add("dump", o=o.id, p=p, ok=False, note=repr(e)[:300])
            return None, None
        self.tr.add("dump", o=o.id, p=p, ok=True)
        return p, data

    def load(self, p, data):
        oid = self.tr.fresh("o")
        try:
            real = pickle.loads(data)
        except Exception as e:
            self.tr.add("load", p=p, o=oid, ok=False, note=repr(e)[:300])
            return None
        self.tr.add("load", p=p, o=oid, ok=True)
        return Obj(oid, real)

    # ---- containers
    def put(self, x, c=None):
        c = c or self.tr.fresh("c")
        self.heap[c] = x
        self.tr.add("put", c=c, v=self.scn.val(self.ad.enc(x)))
        return c

    def look(self, c):
        x = self.heap[c]
        v = self.ad.enc(x) if not isinstance(x, Answer) else self.out(x.m, x.y)
        self.tr.add("look", c=c, v=self.scn.val(v))

    # ---- calls
    def begin(self, o, m, c):
        k = self.tr.fresh("k")
        self.tr.add("begin", k=k, o=o.id, m=m, c=c)
        return k

    def run(self, o, m, c):
        """The call itself; returns (raised, answer)."""
        try:
            with limit():
                return None, self.ad.call(o.real, m, self.heap[c])
        except (Exception, RecursionError) as e:
            return e, None

    def end(self, k, m, err, y):
        r = self.tr.fresh("r")
        if err is not None:
            self.tr.add("end", k=k, r=r, y=self.scn.raise_ix, note=repr(err)[:300])
            return None
        v = self.out(m, y)
        self.tr.add("end", k=k, r=r, y=self.scn.val(v))
        self.heap[r] = Answer(m, y)
        return r

    def out(self, m, y):
        try:
            return self.ad.out(m, y)
        except Exception as e:
            return {"f": "other", "what": repr(e)[:100]}

    def rel(self, r, o, m, c, rs, ix=()):
        """A relation between answers; a missing answer (None) is named so."""
        self.tr.add("rel", r=r, o=o.id, m=m, c=c, rs=[x or "-" for x in rs], ix=[int(i) + 1 for i in ix])

    def call(self, o, m, c, look=True):
        k = self.begin(o, m, c)
        err, y = self.run(o, m, c)
        r = self.end(k, m, err, y)
        if look:
            self.look(c)
        return r

    def ask(self, o, m, x, look=True):
        return self.call(o, m, self.put(x), look)

    def has(self, o, m):
        try:
            b = callable(getattr(o.real, m))
        except AttributeError:
            b = False
        self.tr.add("has", o=o.id, m=m, b=b)

    def classes(self, o):
        try:
            v = {"f": "V", "v": enc.labels(o.real.classes_)}
        except Exception as e:
            v = {"f": "raise"}
        self.tr.add("classes", o=o.id, v=self.scn.val(v))


class Answer:
    def __init__(self, m, y):
        self.m, self.y = m, y
