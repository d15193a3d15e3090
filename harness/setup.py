"""setup_cmd: the specifications parse and the modules they stand on give known values."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import tlc

d = tempfile.mkdtemp(prefix="vp-setup-")
try:
    t = tlc.Tlc(d)
    out, states, _ = t.run(os.path.join(tlc.SPEC, "SelfTest.tla"), os.path.join(tlc.SPEC, "SelfTest.cfg"))
    for f in sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla"))):
        r = subprocess.run(["java", "-DTLA-Library=" + tlc.SPEC, "-cp", tlc.JAR + ":" + tlc.DEPS, "tla2sany.SANY", os.path.basename(f)],
                           cwd=tlc.SPEC, capture_output=True, text=True)
        if r.returncode:
            sys.exit("does not parse: %s\n%s" % (f, r.stdout[-3000:]))
    print("specifications parse; known values hold")
finally:
    shutil.rmtree(d, ignore_errors=True)
