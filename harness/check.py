"""check.py <PROPERTY>: decide one property on /repo's current tree.

exit 0  every recorded behaviour of the real code is a behaviour of the specification
exit 1  a VIOLATION line was printed
exit 2  the check itself failed
"""
import argparse
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


class Ctx:
    def __init__(self, pid, tier, seed, scratch):
        import enc
        import tlc
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.scn = enc.Scenario()
        self.tlc = tlc.Tlc(scratch)
        self.t0 = time.time()
        self.budget = 300 if self.quick else 6000      # seconds of driving the real code
        self.plain, self.imports = ["int"], ["builtins"]
        self.cover = {}
        self.samples = []
        self.assume = []
        self.bad = []
        self.done = 0
        self.gen_states = 0

    def n(self, quick, thorough=None):
        return quick if self.quick else (thorough if thorough is not None else 12 * quick)

    def late(self):
        return time.time() - self.t0 > self.budget

    def count(self, key, k=1):
        self.cover[key] = self.cover.get(key, 0) + k

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def flush(self):
        """Validate what has been recorded so far (bounds memory in long runs)."""
        import enc
        bad, done = self.tlc.check_traces(self.scn, self.plain, self.imports, timeout=240 if self.quick else 2500)
        for t, b in bad:
            self.bad.append((t, b))
        self.done += done
        for tr in self.scn.traces:
            for e in tr.events:
                self.count("event:" + e["e"])
                if e["e"] == "end":
                    self.count("answers:raised" if e["y"] == self.scn.raise_ix else "answers:given")
            if tr.info.get("src"):
                self.count("traces:" + tr.info["src"])
        self.count("artifacts", len(self.scn.arts) - 1)
        self.count("contents", len(self.scn.vals))
        if self.scn.traces:
            for tr in self.rng.sample(self.scn.traces, min(2, len(self.scn.traces))):
                if len(self.samples) < 4:
                    self.samples.append(describe(tr, None, short=True))
        self.scn = enc.Scenario()


def cut(v, n=400):
    s = json.dumps(v)
    return v if len(s) <= max(n, 400) else s[:n] + "..."


def describe(tr, bad, short=False):
    scn = tr.scn
    out = {"trace": tr.name, "mode": tr.mode, "info": {k: cut(v, 3000) for k, v in tr.info.items()}}
    lim = 300 if short else 20000
    evs = []
    lines = {l for l, _ in bad} if bad else set()
    for i, e in enumerate(tr.events[:8] if short else tr.events, 1):
        d = dict(e)
        if e["e"] in ("put", "look", "classes"):
            d["v"] = cut(scn.vals[e["v"] - 1], lim if not lines or i in lines else 600)
        if e["e"] == "end":
            d["y"] = cut(scn.vals[e["y"] - 1], lim if not lines or i in lines else 600)
        if "a" in e:
            d["a"] = cut(scn.arts[e["a"] - 1], lim)
        evs.append(d)
    out["events"] = evs
    if bad:
        out["broken"] = [{"event": l, "clause": c} for l, c in bad]
    return out


def load_known(pid):
    """Findings that were recorded rather than repaired: 'finding: property=<id> trace=<name> clause=<clause> ...'."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % pid):
                f = dict(p.split("=", 1) for p in line.split() if "=" in p)
                out.append((f.get("trace"), f.get("clause"), line.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % a.property)
    ctx = None
    try:
        sys.pycache_prefix = os.path.join(scratch, "pyc")
        os.environ["PYTHONPYCACHEPREFIX"] = sys.pycache_prefix
        os.environ.setdefault("OMP_NUM_THREADS", "2")
        os.environ.setdefault("OPENBLAS_NUM_THREADS", "2")
        warnings.filterwarnings("ignore")
        sys.path.insert(0, REPO)
        sys.path.insert(0, HERE)
        ctx = Ctx(a.property, tier, a.seed, scratch)
        import drivers
        try:
            drivers.DRIVERS[a.property](ctx)
        except Exception as e:
            if not stray(ctx, e):
                raise
        t1 = time.time()
        if any(t.events for t in ctx.scn.traces):
            ctx.flush()
        t2 = time.time()
        rc = report(ctx, t0)
        print("%s %s seed=%d: %d traces, %d states, drive %.1f s, judge %.1f s, total %.1f s" % (
            a.property, tier, a.seed, ctx.done, ctx.tlc.states + ctx.gen_states, t1 - t0, t2 - t1, time.time() - t0))
        return rc
    except BaseException:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def stray(ctx, e):
    """An exception that the library raised where no call is judged (a container being built, a module
    being looked up): recorded as a call that had to be answered and was not."""
    from session import LIB, Opt, Session
    where = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    if not any(os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep) for f in where):
        return False
    import libs

    def again(*_):
        raise e
    s = Session(ctx.scn, "stray", libs.LibCase, src="stray")
    o = s.lib({"sparse_list": again})
    s.tr.info["traceback"] = traceback.format_exc()[-1500:]
    s.ask(o, "sparse_list", [[[1.0, 0.0]]])
    return True


def report(ctx, t0):
    pid = ctx.pid
    known = load_known(pid)
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    new, old = [], []
    for tr, b in ctx.bad:
        k = next((l for t, c, l in known if t == tr.name and any(c == x[1] for x in b)), None)
        (old if k else new).append((tr, b, k))
    for tr, b, k in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for i in range(100):
        try:
            os.unlink(os.path.join(evd, "%s.violation%d.json" % (pid, i)))
        except FileNotFoundError:
            break
    for i, (tr, b, _) in enumerate(new[:10]):
        path = os.path.join("evidence", "%s.violation%d.json" % (pid, i))
        d = describe(tr, b)
        d.update(property=pid, seed=ctx.seed, tier=ctx.tier,
                 rerun="VERIF_SEED=%d VERIF_TIER=%s %s harness/check.py %s" % (ctx.seed, ctx.tier, PY, pid))
        with open(os.path.join(VERIF, path), "w") as fh:
            json.dump(d, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        l, c = b[0]
        note = tr.events[l - 1].get("note", "") if 0 < l <= len(tr.events) else ""
        print("  trace %s event %d: %s %s" % (tr.name, l, c, note[:200]))
    ev = {
        "property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
        "coverage": {
            "states": ctx.tlc.states + ctx.gen_states, "transitions": ctx.tlc.transitions,
            "traces_validated_against_impl": ctx.done, "samples": ctx.samples or [{"note": "no trace"}],
            **{k.replace(":", "_"): v for k, v in sorted(ctx.cover.items())},
        },
        "assumptions": ctx.assume + [
            "TLC and the number module (java/vp/NumOverrides.java) evaluate the specification correctly",
            "scikit-learn / xgboost / fasttext fitted attributes are what harness/arts.py reads"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(evd, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    return 1 if new else 0


def guarded():
    """The check in a child of its own: CPython 3.12 can crash when generators are closed that were
    suspended under a tracer.  When that happens the check is made again without tracing."""
    for again in (False, True):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            rc = 2
            try:
                if again:
                    os.environ["VERIF_UNTRACED"] = "1"
                rc = main()
                sys.stdout.flush()
                sys.stderr.flush()
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 2
            finally:
                os._exit(rc)
        st = os.waitpid(pid, 0)[1]
        if os.WIFEXITED(st):
            return os.WEXITSTATUS(st)
        print("the check ended with signal %d" % os.WTERMSIG(st))
    return 2


if __name__ == "__main__":
    sys.exit(guarded())
