#!/usr/bin/env python3
"""Sanity of a fresh checkout: the tools are there and every specification parses."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
mods = sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla")))
def parse(m):
    p = subprocess.run(["java", "-cp", J, "tla2sany.SANY", m], cwd=os.path.join(ROOT, "spec"), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return m, p.returncode == 0 and "*** Errors" not in p.stdout, p.stdout
with ThreadPoolExecutor(4) as ex:
    bad = [(m, o) for m, ok, o in ex.map(parse, mods) if not ok]
for m, o in bad:
    print(m, o[-1500:])
subprocess.run(["cargo", "--version"], check=True)
print("%d specification modules parse" % (len(mods) - len(bad)))
sys.exit(1 if bad else 0)
