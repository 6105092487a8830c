#!/opt/veriftools/pyvenv/bin/python3
"""find.py ID MODE N OPTIONS..: random specs on which the buggy binary /tmp/bugbin/ID misbehaves (judge.py MODE, or verdict / output difference) and the clean one does not; keeps the smallest in /tmp/found/ID.slugsin"""
import sys, os, random, subprocess, tempfile
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools_dev")
from vlib import gen
import judge
bid, mode, n = sys.argv[1], sys.argv[2], int(sys.argv[3]); opts = sys.argv[4:]
os.makedirs("/tmp/found", exist_ok=True)
best = None
d = tempfile.mkdtemp()
def run(b, txt):
    open(d + "/s.slugsin", "w").write(txt)
    try:
        p = subprocess.run([b] + opts + ["s.slugsin"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=5, text=True)
    except subprocess.TimeoutExpired:
        return None, "", ""
    return p.returncode, p.stdout, "\n".join(l for l in p.stderr.split("\n") if l.startswith("RESULT"))
import contextlib, io
for k in range(n):
    r = random.Random("find%d" % k)
    s = gen.spec_for(r)
    txt = s.slugsin()
    if best is not None and len(txt) >= len(best): continue
    a, b = run("/repo/src/slugs", txt), run("/tmp/bugbin/" + bid, txt)
    if mode == "verdict": hit = a[2] != b[2]
    elif mode == "output": hit = a[1] != b[1]
    else:
        if "unrealizable" in a[2] and mode != "counter" or not a[1].strip(): continue
        if a[1] == b[1]: continue
        def j(t):
            open(d + "/st", "w").write(t)
            with contextlib.redirect_stdout(io.StringIO()): return judge.main(mode, d + "/s.slugsin", d + "/st")
        ja, jb = j(a[1]), j(b[1])
        if ja: print("JUDGE REJECTS CLEAN", txt); judge.main(mode, d + "/s.slugsin", d + "/st"); break
        hit = jb
    if hit:
        best = txt
        open("/tmp/found/%s.slugsin" % bid, "w").write(txt)
        print("hit at", k, len(txt), flush=True)
print(best)
