"""Runs the Python 2 tools of the repository (from a copy, so that no byte code is written beside them)."""
import json, os, shutil, subprocess, tempfile
from . import build as B
from .harness import SAN_ENV, Inconclusive


def interpreter():
    for p in ("python2", "python2.7", "jython"):
        q = shutil.which(p)
        if q:
            return q
    return None


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err, self.files = rc, out, err, {}


def batch(ctx, jobs, timeout=240, slugs=None, outputs=()):
    """jobs: list of (script name, [args], {file name: content}); args name files of the job by '@name'. Returns a list of Results (None: did not end)."""
    d = tempfile.mkdtemp(prefix="p2-", dir=os.environ.get("VERIF_SCRATCH_BASE"))
    try:
        shutil.copytree(B.REPO + "/tools", d + "/tools", ignore=shutil.ignore_patterns("*.pyc", "*.class", "__pycache__", "SpecializedSimulators"))
        for f in os.listdir(d + "/tools"):
            # scripts that work in /tmp work in the scratch directory instead
            if f.endswith(".py"):
                with open(d + "/tools/" + f) as g:
                    t = g.read()
                if "/tmp/" in t:
                    with open(d + "/tools/" + f, "w") as g:
                        g.write(t.replace("/tmp/", d + "/"))
        if slugs:
            os.mkdir(d + "/src")
            os.symlink(slugs, d + "/src/slugs")
        js = []
        for i, (script, args, files) in enumerate(jobs):
            w = "%s/%d" % (d, i)
            os.mkdir(w)
            for n, c in files.items():
                with open(w + "/" + n, "w") as f:
                    f.write(c)
                if c.startswith("#!"):
                    os.chmod(w + "/" + n, 0o755)
            js.append({"script": d + "/tools/" + script, "args": [w + "/" + a[1:] if a.startswith("@") else a for a in args], "out": w + "/result"})
        with open(d + "/jobs.json", "w") as f:
            json.dump(js, f)
        ctx.evals += len(jobs)
        ctx.log.append((["py2"] + [j[0] for j in jobs[:6]], {}))
        try:
            subprocess.run([interpreter(), B.ROOT + "/harness/py2driver.py", d + "/jobs.json"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=dict(SAN_ENV, HOME=d, JAVA_TOOL_OPTIONS="-XX:+UseSerialGC -XX:TieredStopAtLevel=1 -Xshare:auto"))
        except subprocess.TimeoutExpired:
            pass
        res = []
        for i in range(len(jobs)):
            q = "%s/%d/result" % (d, i)
            if not os.path.exists(q + ".rc"):
                res.append(None)
                continue
            rd = lambda e: open(q + e, errors="replace").read()
            x = Result(int(rd(".rc") or 1), rd(".out"), rd(".err"))
            for n in outputs:
                if os.path.exists("%s/%d/%s" % (d, i, n)):
                    with open("%s/%d/%s" % (d, i, n), errors="replace") as f:
                        x.files[n] = f.read()
            res.append(x)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
