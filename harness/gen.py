"""Histories and small instances drawn from the specification by TLC."""
import json
import os

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(tla(x) for x in v))
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(tla(x) for x in v)
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def lines(out, tag):
    res = []
    for line in out.splitlines():
        if line.startswith('"{') and tag in line:
            d = json.loads(json.loads(line))
            if d.get("tag") == tag:
                res.append(d)
    return res


def cfg(ctx, name, spec, consts, inv=(), props=(), view=None):
    path = os.path.join(ctx.scratch, name + ".cfg")
    with open(path, "w") as fh:
        fh.write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec)
        for k, v in consts.items():
            fh.write("CONSTANT %s = %s\n" % (k, tla(v)))
        for i in inv:
            fh.write("INVARIANT %s\n" % i)
        for p in props:
            fh.write("PROPERTY %s\n" % p)
        if view:
            fh.write("VIEW %s\n" % view)
    return path


LIFE = dict(NS=1, NV=1, NJ=1, NX=2, NM=1, NO=1, NP=1, Open=1, Depth=5, Asks=1, Acts=frozenset(["ask"]))
PROPS = ["Snapshot", "SourceAlone", "OnlyTheCaller", "InFlight"]
INV = ["Function", "Persistent", "StatesAreOf"]


def life_check(ctx, name, **kw):
    """TLC: the machine's own properties on every history of the given depth."""
    c = dict(LIFE, **kw)
    out, st, di = ctx.tlc.run(os.path.join(SPEC, "MCLife.tla"), cfg(ctx, name, "Spec", c, INV, PROPS), workers=6)
    ctx.gen_states += di
    ctx.count("machine states " + name, di)
    return di


def life(ctx, name, num=None, **kw):
    """Histories: all of the given depth (num=None), or num random ones."""
    c = dict(LIFE, **kw)
    args = () if num is None else ("-simulate", "num=%d" % num, "-depth", str(c["Depth"] + 1), "-seed", str(ctx.seed * 7919 + len(name)))
    out, st, di = ctx.tlc.run(os.path.join(SPEC, "MCLife.tla"), cfg(ctx, name, "Spec", c, INV + ["Show"], PROPS), workers=1, args=args)
    hs = [d["h"] for d in lines(out, "HIST")]
    seen, res = set(), []
    for h in hs:
        k = json.dumps(h)
        if k not in seen:
            seen.add(k)
            res.append(h)
    ctx.gen_states += di
    ctx.count("histories from TLC", len(res))
    return res


MODEL_INV = ["Accepts", "Rejects", "RowWise", "SparseToo", "Proba", "OneHot", "Composition", "Concatenation", "Hashing", "FtAccepts", "Matrices", "Show"]
ALPHABET = [ord(c) for c in "ab Aé.\nz</s>\t"] + [769, 304, 105, 775]


def models(ctx, family, num=None, shapes=0, inv=MODEL_INV, depth=400, seed=0):
    """Small models with inputs: all of the first shapes of a family (num=None), or num drawn ones.

    TLC checks on every one of them what the specification itself has to satisfy."""
    import enc
    name = "MCModel_%s_%d_%d_%d" % (family, num or 0, shapes, seed)
    chars = os.path.join(ctx.scratch, name + ".json")
    with open(chars, "w") as fh:
        json.dump(enc.char_info(ALPHABET), fh)
    path = os.path.join(ctx.scratch, name + ".cfg")
    with open(path, "w") as fh:
        fh.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Family = %s\nCONSTANT Shapes0 = %d\n" % (tla(family), shapes))
        for i in inv:
            fh.write("INVARIANT %s\n" % i)
    args = () if num is None else ("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(ctx.seed * 7919 + len(family) + 1000003 * seed))
    out, st, di = ctx.tlc.run(os.path.join(SPEC, "MCModel.tla"), path, env={"CHARS": chars}, workers=1, args=args,
                              timeout=700 if ctx.quick else 5000)
    seen, res = set(), []
    for d in lines(out, "INST"):
        k = json.dumps(d, sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(d)
    ctx.gen_states += di
    ctx.count("models from TLC", len(res))
    return res
