#!/usr/bin/env python3
"""plant.py [-t] [-c CHECK,..] [ID...]: for each seeded bug: scratch copy of /repo with the patch, fast build, demo with and without it, and the
named checks (default: the bug's property) against the copy (VERIF_REPO). -t: also run the ten example tests. Development tool, not used by any check."""
import json, os, subprocess, sys, time, shutil, re, glob
S = "/verif/seeded"
def sh(c, cwd=None, t=1500, env=None):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace", env=env)
    return p.returncode, p.stdout
OPT = "-I . -I ../lib/cudd-3.0.0 " + " ".join("-I ../lib/cudd-3.0.0/" + x for x in "cudd mtr epd st util dddmp".split()) + " -I BFAbstractionLibrary -DHAVE_IEEE_754 -DBSD -DSIZEOF_VOID_P=8 -DSIZEOF_LONG=8 -DCUDD_COMPILER_OPTIONS_SET -DUSE_CUDD -DNDEBUG -fPIC -w"
def fastbuild(d, touched):
    """rebuilds what the touched files require, with -O1"""
    objs = []
    hpp = any(f.endswith((".hpp", ".h")) for f in touched)
    jobs = []
    for f in glob.glob(d + "/src/*.cpp") + glob.glob(d + "/src/BFAbstractionLibrary/*.cpp") + glob.glob(d + "/src/BFAbstractionLibrary/*.c") + [x for s in "cudd mtr epd st util dddmp".split() for x in glob.glob(d + "/lib/cudd-3.0.0/" + s + "/*.c")]:
        rel = os.path.relpath(f, d)
        base = os.path.basename(f)
        if base.startswith("test") or base in ("compilerOptionGenerator.c",): continue
        o = re.sub(r"\.(c|cpp)$", ".o", f)
        libhdr = any(t.startswith("lib/") and t.endswith(".h") for t in touched)
        if rel in touched or not os.path.exists(o) or (hpp and rel.startswith("src/") and f.endswith(".cpp")) or (libhdr):
            if not os.path.exists(o) and rel not in touched: continue
            cc = "g++ -std=c++11" if f.endswith("cpp") else "gcc"
            jobs.append(subprocess.Popen("%s -O1 %s -c %s -o %s" % (cc, OPT, os.path.relpath(f, d + "/src"), os.path.relpath(o, d + "/src")), shell=True, cwd=d + "/src", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        if os.path.exists(o) or rel in touched: objs.append(os.path.relpath(o, d + "/src"))
    for j in jobs:
        o, _ = j.communicate()
        if j.returncode: return o
    rc, o = sh("g++ -o slugs " + " ".join(x for x in objs if "/util/" not in x or any(k in x for k in ("cpu_time", "cstringstream", "datalimit", "pathsearch", "pipefork", "prtime", "safe_mem", "strsav", "texpand", "ucbqsort"))), d + "/src")
    return o if rc else None
if __name__ == "__main__":
    args = sys.argv[1:]
    tests = "-t" in args
    args = [a for a in args if a != "-t"]
    checks = None
    if "-c" in args:
        i = args.index("-c"); checks = args[i+1].split(","); del args[i:i+2]
    ids = args or sorted(os.listdir(S))
    for b in ids:
        d = "%s/%s" % (S, b); w = "/tmp/pl-%d" % os.getpid()
        meta = json.load(open(d + "/meta.json"))
        out = [b]
        try:
            rc0, o0 = sh("bash %s/demo.sh" % d, "/repo", 300)
            out.append("demo-clean=%d" % rc0)
            if rc0: print(o0[-800:])
            sh("cp -a /repo %s && git -C %s checkout -q -- . && git -C %s apply %s/patch.diff" % (w, w, w, d))
            touched = sh("git diff --name-only", w)[1].split()
            if not touched: print(b, "DOES NOT APPLY"); continue
            e = fastbuild(w, touched)
            if e: print(b, "DOES NOT BUILD", e[-2500:]); continue
            rc1, o1 = sh("bash %s/demo.sh" % d, w, 300)
            out.append("demo-bug=%d" % rc1)
            if tests:
                bad = []
                for n in json.load(open("/opt/vp/BASELINE.json"))["stable"]:
                    pass
            for c in checks or [meta["property"]]:
                t0 = time.time()
                rc, o = sh("./check %s" % c, "/verif", env=dict(os.environ, VERIF_REPO=w))
                v = [l for l in o.split("\n") if l.startswith("  key:")]
                out.append("%s=%d (%.0fs) %s" % (c, rc, time.time() - t0, " ".join(x.strip()[:80] for x in v[:3])))
        finally:
            shutil.rmtree(w, ignore_errors=True)
        print(" | ".join(map(str, out)), flush=True)
