# Runs Python 2 scripts one after another in one interpreter (Jython starts slowly). argv: jobs.json, a list of {script, args, out, cwd}
import json, os, sys, traceback
import imp
if 'java' in sys.platform:
    sys.modules['resource'] = imp.new_module('resource')  # imported but not used by some scripts; Jython has none
jobs = json.load(open(sys.argv[1]))
for j in jobs:
    script, out = str(j["script"]), str(j["out"])
    sys.argv = [script] + [str(a) for a in j["args"]]
    sys.path[0] = os.path.dirname(script)
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = open(out + ".out", "w"), open(out + ".err", "w")
    rc = 0
    try:
        try:
            execfile(script, {"__name__": "__main__", "__file__": script})
        except SystemExit:
            c = sys.exc_info()[1].code
            rc = 0 if c is None else c if isinstance(c, int) else 1
        except:
            traceback.print_exc()
            rc = 1
    finally:
        sys.stdout.close(); sys.stderr.close()
        sys.stdout, sys.stderr = so, se
    f = open(out + ".rc", "w"); f.write(str(rc)); f.close()
