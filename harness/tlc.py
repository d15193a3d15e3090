"""Running TLC: trace validation and behaviour generation."""
import itertools
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Tlc:
    """A scratch directory with the compiled number module, removed by close()."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.cls = os.path.join(scratch, "classes")
        os.makedirs(self.cls)
        r = subprocess.run(
            ["javac", "-cp", JAR, "-d", self.cls, os.path.join(VERIF, "java/vp/NumOverrides.java")],
            capture_output=True, text=True)
        if r.returncode:
            raise TlcError("javac failed: " + r.stderr[-2000:])
        self.n = itertools.count()
        self.states = 0
        self.transitions = 0
        self.unjudged = 0

    def run(self, module, cfg, env=None, args=(), heap="3g", workers=1, timeout=800):
        """Run TLC; returns (stdout, states, distinct)."""
        meta = os.path.join(self.scratch, "meta%d" % next(self.n))
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vp.NumOverrides",
               "-DTLA-Library=" + SPEC, "-cp", "%s:%s:%s" % (JAR, DEPS, self.cls), "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=self.scratch, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC %s: no answer in %d s" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        st, di = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        ok = "Model checking completed. No error has been found." in out or "Finished in" in out
        if p.returncode != 0 or not ok:
            raise TlcError("TLC %s failed (%s):\n%s\n%s" % (module, p.returncode, clip(out), p.stderr[-1500:]))
        return out, st, di

    def check_traces(self, scn, plain, imports, jvms=6, timeout=240):
        """Validate all traces of a scenario; returns [(trace, [(line, clause)])] for bad traces."""
        traces = [t for t in scn.traces if t.events]
        if not traces:
            return [], 0
        w = [cost(scn, t) for t in traces]
        groups = [[] for _ in range(max(1, min(jvms, len(traces))))]
        load = [0] * len(groups)
        for i in sorted(range(len(traces)), key=lambda i: -w[i]):
            g = load.index(min(load))
            groups[g].append(i)
            load[g] += w[i]

        def one(g):
            idx = groups[g]
            if not idx:
                return {}
            return judge(g, idx, timeout)

        def judge(g, idx, timeout):
            path = os.path.join(self.scratch, "scn%d_%d.json" % (id(scn) % 100000, g))
            scn.dump(path, [traces[i] for i in idx], plain, imports)
            try:
                out, st, di = self.run(os.path.join(SPEC, "Trace.tla"), os.path.join(SPEC, "Trace.cfg"),
                                       env={"SCENARIO": path}, timeout=timeout)
            except TlcError as e:
                # an answer so malformed that the specification cannot be evaluated on it
                self.unjudged += 1
                if self.unjudged > 40 and len(idx) > 1:
                    return {i: (len(traces[i].events), []) for i in idx}, 0
                if len(idx) == 1:
                    traces[idx[0]].info["tlc"] = str(e)[:2000]
                    return {idx[0]: (len(traces[idx[0]].events), [[1, "cannot-be-judged"]])}, 0
                h = len(idx) // 2
                a, da = judge(g, idx[:h], max(60, timeout // 4))
                b, db = judge(g, idx[h:], max(60, timeout // 4))
                a.update(b)
                return a, da + db
            os.unlink(path)
            res = {}
            for line in out.splitlines():
                if line.startswith('"{') and "TRACE" in line:
                    d = json.loads(json.loads(line))
                    if d.get("tag") == "TRACE":
                        res[idx[d["t"] - 1]] = (d["n"], d["bad"])
            return res, di

        bad, done = [], 0
        with ThreadPoolExecutor(len(groups)) as ex:
            for r in ex.map(one, range(len(groups))):
                res, di = r if r else ({}, 0)
                self.states += di
                for i, (n, b) in res.items():
                    done += 1
                    if n != len(traces[i].events):
                        raise TlcError("trace %s: only %d of %d events consumed" % (traces[i].name, n, len(traces[i].events)))
                    self.transitions += n
                    if b:
                        bad.append((traces[i], [(int(x[0]), x[1]) for x in b]))
        if done != len(traces):
            raise TlcError("only %d of %d traces were reported" % (done, len(traces)))
        return bad, done


def cost(scn, tr):
    c = 50
    for e in tr.events:
        if e["e"] == "end":
            c += 20 + _size(scn, e["y"])
        elif e["e"] == "put":
            c += _size(scn, e["v"])
    return c


def _size(scn, ix):
    v = scn.vals[ix - 1]
    if "rows" in v:
        r = v["rows"]
        return len(r) * (3 + (len(r[0]) if r and isinstance(r[0], list) else 5))
    if "docs" in v:
        return 4 * sum(len(d) for d in v["docs"])
    return len(v.get("v", ())) + 1


def clip(s, n=9000):
    i = s.find("Error:")
    return s[i:i + n] if i >= 0 else s[-n:]
