#!/usr/bin/env python3
"""mk.py ID PROPERTY FILE <<< JSON {"edits":[[old,new],...] or {"file":[[old,new]]}, "needs":..., "breaks":...}: makes /verif/seeded/ID/patch.diff and meta.json"""
import json, os, subprocess, sys
def mk(i, prop, edits, needs, breaks):
    d = "/verif/seeded/" + i; os.makedirs(d, exist_ok=True)
    for f, l in edits.items():
        p = "/repo/" + f; s = open(p, encoding="latin-1").read()
        for a, b in l:
            assert s.count(a) == 1, (f, a, s.count(a))
            s = s.replace(a, b)
        open(p, "w", encoding="latin-1").write(s)
    df = subprocess.run("git diff", shell=True, cwd="/repo", stdout=subprocess.PIPE).stdout
    subprocess.run("git checkout -- .", shell=True, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    open(d + "/patch.diff", "wb").write(df)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
