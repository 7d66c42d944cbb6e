#!/usr/bin/env python3
"""setup_cmd: verifies the toolchain, parses every specification."""
import glob, os, subprocess, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import SPEC, JARS, build, MachineError


def parse(f):
    r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=SPEC)
    bad = r.returncode != 0 or "*** Errors" in r.stdout or "Could not parse" in r.stdout
    return f, bad, r.stdout


with cf.ThreadPoolExecutor(8) as ex:
    res = list(ex.map(parse, sorted(glob.glob(os.path.join(SPEC, "*.tla")))))
for f, bad, out in res:
    if bad:
        print(f, out[-2000:])
        sys.exit(1)
print("parsed %d specification modules" % len(res))
try:
    build(["ops"])
    build(["thr"], "mutex")
except MachineError as e:
    print(e)
    sys.exit(1)
print("build ok")
