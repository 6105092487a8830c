"""Out-of-tree builds of /repo's current sources with sanitizers, with a content-hashed object cache."""
import re, hashlib, os, subprocess, sys, glob, time, fcntl
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CACHE = os.path.join(BUILD, "obj")
CUDD = REPO + "/lib/cudd-3.0.0"
SRC = REPO + "/src"
CONFDIR = os.path.join(ROOT, "harness", "cuddconf")   # a fixed config.h as produced by CUDD's configure here


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_hdrcache = {}


def _headers_hash(dirs):
    key = tuple(dirs)
    if key not in _hdrcache:
        parts = []
        for d in dirs:
            for f in sorted(glob.glob(d + "/*.h") + glob.glob(d + "/*.hpp") + glob.glob(d + "/*.hh")):
                if os.path.basename(f) == "config.h" and d == CUDD:
                    continue
                parts += [os.path.basename(f), _read(f)]
        _hdrcache[key] = _sha(*parts)
    return _hdrcache[key]


CUDD_INC = [CUDD + "/cudd", CUDD + "/mtr", CUDD + "/epd", CUDD + "/st", CUDD + "/util", CUDD + "/dddmp", CUDD + "/cplusplus"]
OPTS = "-DHAVE_IEEE_754 -DBSD -DSIZEOF_VOID_P=8 -DSIZEOF_LONG=8 -DCUDD_COMPILER_OPTIONS_SET".split()
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}


def inc():
    return ["-I" + CONFDIR, "-I" + SRC] + ["-I" + d for d in CUDD_INC] + ["-I" + CUDD, "-I" + SRC + "/BFAbstractionLibrary"]


def _included(src, seen=None):
    """Contents of sources (not headers, these are hashed all) that a source includes by name."""
    seen = seen if seen is not None else set()
    res = b""
    for m in re.finditer(rb'^\s*#\s*include\s*[<"]([^">]+\.(?:c|cc|cpp|cxx))[">]', _read(src), re.M):
        f = os.path.normpath(os.path.join(os.path.dirname(src), m.group(1).decode()))
        if os.path.exists(f) and f not in seen:
            seen.add(f)
            res += _read(f) + _included(f, seen)
    return res


def _compile(src, cmd, hdrs, extra=b""):
    """Returns the object path, compiling unless an object with the same inputs is there."""
    key = _sha(" ".join(cmd), src, _read(src), hdrs, extra, _included(src))
    out = os.path.join(CACHE, os.path.basename(src).replace(".", "_") + "-" + key + ".o")
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
        os.rename(tmp, out)
    return out


def cudd_sources(cplusplus=False):
    res = []
    for d in ("cudd", "mtr", "epd", "st", "util", "dddmp"):
        for f in sorted(glob.glob(CUDD + "/" + d + "/*.c")):
            b = os.path.basename(f)
            if b.startswith("test") or b == "cpu_stats.c" or b.startswith("dddmpTest"):
                continue
            res.append(f)
    if cplusplus:
        res += [f for f in sorted(glob.glob(CUDD + "/cplusplus/*.cc")) if not os.path.basename(f).startswith("test")]
    return res


def _jobs(san, what, extra_sources, cudd_opt, defs):
    flags = ["-g1", "-fno-omit-frame-pointer", "-w"] + SAN[san] + OPTS
    hc = _headers_hash([CONFDIR] + CUDD_INC)
    hs = None
    jobs = []
    if what in ("slugs", "slugslib"):
        hs = _headers_hash([CONFDIR] + CUDD_INC + [SRC, SRC + "/BFAbstractionLibrary"])
        srcs = sorted(glob.glob(SRC + "/*.cpp")) + sorted(glob.glob(SRC + "/BFAbstractionLibrary/*.cpp"))
        srcs.sort(key=lambda s: not s.endswith("/main.cpp"))
        for s in srcs:
            if what == "slugslib" and s == SRC + "/main.cpp":
                continue
            jobs.append((s, ["clang++", "-O0", "-std=c++11", "-DUSE_CUDD", "-DNDEBUG"] + flags + inc(), hs))
    for s in extra_sources:
        cpp = not s.endswith(".c")
        h = _headers_hash([CONFDIR] + CUDD_INC + [SRC, SRC + "/BFAbstractionLibrary", os.path.dirname(s)])
        jobs.append((s, (["clang++", "-std=c++14"] if cpp else ["clang"]) + ["-O1", "-DUSE_CUDD"] + defs + flags + inc() + ["-I" + os.path.dirname(s)], h))
    for s in cudd_sources(cplusplus=(what == "cudd")):
        comp = ["clang++", "-std=c++14"] if s.endswith(".cc") else ["clang"]
        jobs.append((s, comp + [cudd_opt, "-DUSE_CUDD"] + flags + inc(), hc))
    return jobs


def build(name, san="asan", what="slugs", extra_sources=(), link=(), cudd_opt="-O1", defs=()):
    """Builds binary `name`; returns its path."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _hdrcache.clear()
        jobs = _jobs(san, what, list(extra_sources), cudd_opt, list(defs))
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            objs = list(ex.map(lambda j: _compile(*j), jobs))
        key = _sha(" ".join(objs), " ".join(link), san)
        out = os.path.join(BUILD, "%s-%s" % (name, key[:16]))
        if not os.path.exists(out):
            tmp = out + ".tmp"
            r = subprocess.run(["clang++"] + SAN[san] + objs + list(link) + ["-lm", "-lpthread", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError("linking %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
            os.rename(tmp, out)
        # keep the cache small: drop objects and binaries not used for this and not touched for a day
        now = time.time()
        for f in objs + [out]:
            os.utime(f)
        for f in glob.glob(CACHE + "/*.o") + glob.glob(BUILD + "/*-????????????????"):
            if now - os.path.getmtime(f) > 36 * 3600:
                os.unlink(f)
        return out


def slugs():
    return build("slugs")


if __name__ == "__main__":
    t = time.time()
    print(slugs(), "%.1fs" % (time.time() - t))
