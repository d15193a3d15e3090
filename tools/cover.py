"""cover.py IDS...: which lines of the library the quick checks of these properties execute (in this process).
Prints the lines that no check executes."""
import ast
import glob
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
RUN = r"""
import sys, json, atexit, runpy
out = sys.argv[1]; sys.argv = sys.argv[2:]
seen = set()
mon = sys.monitoring
mon.use_tool_id(mon.COVERAGE_ID, "cover")
def line(code, n):
    if %r in code.co_filename and "/tests/" not in code.co_filename:
        seen.add((code.co_filename, n))
    return mon.DISABLE
mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
atexit.register(lambda: json.dump(sorted(seen), open(out, "w")))
runpy.run_path(sys.argv[0], run_name="__main__")
""" % (REPO + "/pure_")


def main():
    hit = set()
    procs = []
    for i in sys.argv[1:]:
        o = "/tmp/cover.%s.json" % i
        procs.append((o, subprocess.Popen(["/opt/venv/bin/python", "-c", RUN, o, os.path.join(VERIF, "harness", "check.py"), i],
                                          env=dict(os.environ, VERIF_NOEV="1", VERIF_TIER="quick", PYTHONPATH=os.path.join(VERIF, "harness")), stdout=subprocess.DEVNULL)))
        if len(procs) % 4 == 0:
            [p.wait() for _, p in procs]
    for o, p in procs:
        p.wait()
        if os.path.exists(o):
            hit |= {tuple(x) for x in json.load(open(o))}
            os.unlink(o)
    for f in sorted(glob.glob(REPO + "/pure_*/**/*.py", recursive=True)):
        if "/tests/" in f:
            continue
        src = open(f).read()
        want = set()

        def codes(c):
            for _, _, n in c.co_lines():
                if n:
                    want.add(n)
            for k in c.co_consts:
                if hasattr(k, "co_code"):
                    codes(k)
        codes(compile(src, f, "exec"))
        doc = {n.value.lineno for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
        miss = sorted(n for n in want - doc if (f, n) not in hit)
        ls = src.splitlines()
        print("%s: %d of %d lines not executed" % (f[len(REPO) + 1:], len(miss), len(want)))
        for n in miss:
            print("   %4d %s" % (n, ls[n - 1]))


main()
