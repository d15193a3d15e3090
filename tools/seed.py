"""seed.py make [ID...]   write seeded/<id>/ from tools/seed_defs*.py and confirm each in a scratch copy of /repo
   seed.py run [ID...]    run each property's check against the change; prints caught / MISSED
   seed.py trial [ID...]  the same straight from the definitions, for changes that need not count

A change counts when it compiles, passes the existing tests, fails its demonstration, and the demonstration
passes on the unchanged tree."""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
PY = "/opt/venv/bin/python"
BASE = "2a414fd"
HEAD = """import os, sys, warnings
warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
"""
DEMO_SH = """#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def defs():
    sys.path.insert(0, HERE)
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seed_defs*.py"))):
        m = __import__(os.path.basename(f)[:-3])
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2", **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    shutil.copytree(REPO, d + "/r", symlinks=True)
    return d, d + "/r"


def make(s):
    d, r = copy()
    try:
        orig = set()
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit does not match once (%d): %s %r" % (t.count(old), f, old[:60])
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff", "--", "."], r).stdout
        base = set()
        for f in {e[0] for e in s["edits"]}:
            base |= {l.strip() for l in sh(["git", "show", "%s:%s" % (BASE, f)], r).stdout.splitlines()}
        rem = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        blame_ok = [l for l in rem if l and l in base]
        if not blame_ok:
            return "no removed line is original: %r" % rem
        mine = [l for l in rem if l and l not in base]
        out = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(HEAD + s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        a = sh(["bash", out + "/demo.sh"], REPO)
        if a.returncode:
            return "demo fails on the unchanged tree: " + a.stderr[-600:]
        b = sh(["bash", out + "/demo.sh"], r)
        if not b.returncode:
            return "demo passes with the change"
        t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], r)
        if t.returncode:
            return "tests fail: " + t.stdout[-500:]
        return "ok" + (" (also touches fixed lines %r)" % mine if mine else "")
    finally:
        shutil.rmtree(d)


def run(s):
    d, r = copy()
    try:
        a = sh(["git", "apply", os.path.join(VERIF, "seeded", s["id"], "patch.diff")], r)
        if a.returncode:
            return "patch does not apply"
        c = sh([PY, "harness/check.py", s["property"]], VERIF, {"VERIF_REPO": r, "VERIF_SEED": os.environ.get("SEED", "1"), "VERIF_NOEV": "1"})
        if c.returncode == 1 and "VIOLATION property=" + s["property"] in c.stdout:
            return "caught   " + " / ".join(l.strip() for l in c.stdout.splitlines() if l.startswith("  trace"))[:160]
        return "MISSED rc=%d %s" % (c.returncode, (c.stdout + c.stderr)[-300:])
    finally:
        shutil.rmtree(d)


def trial(s):
    """The change on its own, whether or not it counts: what does the check say?"""
    d, r = copy()
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit does not match once: " + f
            open(p, "w").write(t.replace(old, new))
        c = sh([PY, "harness/check.py", s["property"]], VERIF, {"VERIF_REPO": r, "VERIF_SEED": os.environ.get("SEED", "1"), "VERIF_NOEV": "1"})
        if c.returncode == 1 and "VIOLATION property=" + s["property"] in c.stdout:
            return "caught   " + " / ".join(l.strip() for l in c.stdout.splitlines() if l.startswith("  trace"))[:160]
        return "MISSED rc=%d %s" % (c.returncode, (c.stdout + c.stderr)[-300:])
    finally:
        shutil.rmtree(d)


def main():
    what, ids = sys.argv[1], sys.argv[2:]
    D = defs()
    ids = ids or list(D)
    ids = [i for x in ids for i in D if i == x or D[i]["property"] == x]
    f = {"make": make, "run": run, "trial": trial}[what]
    bad = 0
    with cf.ThreadPoolExecutor(4 if what == "make" else 3) as ex:
        for i, res in zip(ids, ex.map(lambda i: f(D[i]), ids)):
            print("%-28s %s %s" % (i, D[i]["property"], res), flush=True)
            bad += not res.startswith(("ok", "caught"))
    if what == "make":
        print("%d of %d are not good" % (bad, len(ids)))


if __name__ == "__main__":
    main()
