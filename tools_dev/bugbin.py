#!/usr/bin/env python3
"""bugbin.py ID..: builds the patched slugs at -O1 into /tmp/bugbin/ID (whole scratch tree removed)"""
import sys, os, shutil; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import sh, fastbuild
os.makedirs("/tmp/bugbin", exist_ok=True)
for b in sys.argv[1:]:
    w = "/tmp/bb-%d" % os.getpid()
    sh("cp -a /repo %s && git -C %s checkout -q -- . && git -C %s apply /verif/seeded/%s/patch.diff" % (w, w, w, b))
    e = fastbuild(w, sh("git diff --name-only", w)[1].split())
    if e: print(b, e[-1500:])
    else: shutil.copy(w + "/src/slugs", "/tmp/bugbin/" + b)
    shutil.rmtree(w)
