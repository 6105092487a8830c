import importlib, sys
if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid)
    try:
        rc = mod.check.main(sys.argv[2:])
    except KeyboardInterrupt:
        rc = 130
    sys.stdout.flush()
    sys.exit(rc)
