#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from the checks that exist; properties without a check go to not_applicable with a reason."""
import glob, importlib, json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ".")
NA = {}
checks = []
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
for pid in props:
    if not os.path.exists("checks/%s.py" % pid):
        continue
    c = importlib.import_module("checks." + pid).check
    checks.append({"property": pid, "quick_cmd": "./check %s" % pid, "thorough_cmd": "./check %s --thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": c.technique, "level": c.level, "level_note": c.level_note})
have = {c["property"] for c in checks}
na = [{"property": p, "reason": NA.get(p, "no monitor has been built for it yet")} for p in props if p not in have]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks run the program built with AddressSanitizer and UBSan (or TSan where threads matter) from /repo's current sources, out of tree. No hooks are compiled into /repo: the monitors observe outputs, files, exit codes and the public C/C++ interfaces."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print("claimed", len(checks), "not claimed", [x["property"] for x in na])
