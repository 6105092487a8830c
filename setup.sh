#!/bin/bash
# Builds every instrumented binary once (the checks reuse the object cache and rebuild what changed).
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
exec /opt/veriftools/pyvenv/bin/python3 - <<'P'
import glob, importlib, os, sys, time
sys.path.insert(0, ".")
for f in sorted(glob.glob("checks/C??.py")):
    t = time.time()
    importlib.import_module("checks." + os.path.basename(f)[:-3]).check.bins()
    print(os.path.basename(f), "%.1fs" % (time.time() - t))
P
