#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the drivers that exist."""
import json
import os
import re

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
src = open(os.path.join(V, "harness/drivers.py")).read()
built = set(re.findall(r'^\s+"(C\d\d)":', src, re.M))

MODEL = ("TLA+ specification (Model.tla over exact numbers) checked with TLC; traces recorded from the real code, driven by "
         "models fitted by the source library and by artifacts enumerated by TLC, are validated event by event against it")
REL = "TLA+ specification checked with TLC; traces of the real code are validated against its relations between answers"
LIFE = ("TLA+ life-cycle specification (PurePredict.tla) model-checked with TLC; histories enumerated by TLC are performed on the "
        "real code and the recorded traces validated against the specification")
TECH = {**{p: MODEL for p in props}, "C19": REL, "C23": REL, "C28": REL, "C21": LIFE, "C22": LIFE, "C24": LIFE, "C26": LIFE}
NOTE = ("Every recorded answer is compared with the specification's exact answer (tolerance 1e-7 relative, 1e-9 absolute). Bounded: "
        "the artifacts, inputs and histories of one run (see evidence). Trusted: TLC, the number module in Java, the reading of "
        "fitted attributes in harness/arts.py.")
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python harness/setup.py",
    "hooks": {"guard": "VERIF_UNUSED", "enable": "no hooks: the checks drive the public interface of the unmodified code", "source_commits": []},
    "checks": [{
        "property": p,
        "quick_cmd": "/opt/venv/bin/python harness/check.py " + p,
        "thorough_cmd": "/opt/venv/bin/python harness/check.py %s --tier thorough" % p,
        "technique": TECH[p],
        "level": "model_checking",
        "level_note": NOTE,
    } for p in props if p in built],
    "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in built],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
