"""Self-test of the specification as a judge: answers of the real code are recorded as usual, one answer of
every trace is then corrupted (a number, a label, the width, the order of rows, a row lost, the form), and the
specification must reject the trace.

    /opt/venv/bin/python tools/corrupt.py C01 [C02 ...]
"""
import os
import random
import shutil
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [os.path.join(VERIF, "harness"), REPO]
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")


def bump(v, rng):
    if v.startswith(("s:", "b:", "o:")):
        return v + "'"
    if v in ("nan", "inf", "-inf"):
        return "1/2"
    a, _, b = v.partition("/")
    return rng.choice(["nan", "%d/%d" % (int(a) * 1003 + 7 * int(b or 1), int(b or 1) * 1000)])


def apart(a, b):
    from fractions import Fraction
    try:
        a, b = Fraction(a), Fraction(b)
    except ValueError:
        return a != b
    return abs(a - b) > abs(a) / 100 + Fraction(1, 100)


def corrupt(v, rng):
    """A different answer of the same kind, or None."""
    v = {k: [dict(r) if isinstance(r, dict) else list(r) if isinstance(r, list) else r for r in x] if isinstance(x, list) else x for k, x in v.items()}
    f = v.get("f")
    if f == "V" and v["v"]:
        how = rng.choice(["value", "drop", "swap"])
        i = rng.randrange(len(v["v"]))
        far = [j for j in range(len(v["v"])) if apart(v["v"][j], v["v"][i])]
        if how == "swap" and far:
            j = rng.choice(far)
            v["v"][i], v["v"][j] = v["v"][j], v["v"][i]
        elif how == "drop":
            del v["v"][i]
        else:
            v["v"][i] = bump(v["v"][i], rng)
        return how, v
    if f == "D" and v["rows"] and v["rows"][0]:
        how = rng.choice(["value", "drop", "width", "swap"])
        i = rng.randrange(len(v["rows"]))
        far = [j for j, r in enumerate(v["rows"]) if len(r) == len(v["rows"][i]) and any(map(apart, r, v["rows"][i]))]
        if how == "width":
            v["rows"] = [r + ["0"] for r in v["rows"]]
            v["n"] += 1
        elif how == "drop":
            del v["rows"][i]
        elif how == "swap" and far:
            j = rng.choice(far)
            v["rows"][i], v["rows"][j] = v["rows"][j], v["rows"][i]
        else:
            j = rng.randrange(len(v["rows"][i]))
            v["rows"][i][j] = bump(v["rows"][i][j], rng)
        return how, v
    if f == "S" and v["rows"]:
        how = rng.choice(["value", "drop", "width"])
        full = [i for i, r in enumerate(v["rows"]) if r["c"]]
        if how == "value" and full:
            r = v["rows"][rng.choice(full)]
            i = rng.randrange(len(r["v"]))
            r["v"] = list(r["v"])
            r["v"][i] = bump(r["v"][i], rng)
        elif how == "drop":
            del v["rows"][rng.randrange(len(v["rows"]))]
        else:
            how = "width"
            v["n"] += 1
        return how, v
    return None


def main():
    import check
    import drivers
    worst = 0
    for pid in sys.argv[1:]:
        scratch = tempfile.mkdtemp(prefix="vp-corrupt-")
        try:
            ctx = check.Ctx(pid, "quick", 1, scratch)
            rng = random.Random(pid)
            state = dict(n=0, caught=0, missed=[])

            def flush(ctx=ctx, rng=rng, state=state):
                import enc
                put = {}
                for tr in ctx.scn.traces:
                    if tr.mode != "model":
                        continue
                    ends = [e for e in tr.events if e["e"] == "end" and e["y"] != ctx.scn.raise_ix]
                    rng.shuffle(ends)
                    for e in ends:
                        c = corrupt(ctx.scn.vals[e["y"] - 1], rng)
                        if c is not None:
                            put[id(tr)] = (c[0], e)
                            e["y"] = ctx.scn.val(c[1])
                            break
                bad, done = ctx.tlc.check_traces(ctx.scn, ctx.plain, ctx.imports, timeout=600)
                ctx.done += done
                seen = {id(t) for t, _ in bad}
                for tr in ctx.scn.traces:
                    if id(tr) in put:
                        state["n"] += 1
                        state["caught"] += id(tr) in seen
                        if id(tr) not in seen:
                            state["missed"].append((tr.name, put[id(tr)][0], str(ctx.scn.vals[put[id(tr)][1]["y"] - 1])[:300]))
                ctx.scn = enc.Scenario()
            ctx.flush = flush
            drivers.DRIVERS[pid](ctx)
            flush()
            print("%s: %d corrupted answers, %d rejected" % (pid, state["n"], state["caught"]), flush=True)
            for m in state["missed"][:5]:
                print("   ", *m)
                worst = 1
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return worst


if __name__ == "__main__":
    sys.exit(main())
