"""run.py PID [--tier quick|thorough] [--seed N] [--only CLAUSE] [--replay FILE] [--scale X] [--jobs N]"""
import argparse
import importlib
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]


def main():
    a = argparse.ArgumentParser()
    a.add_argument("pid")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--only", action="append")
    a.add_argument("--replay")
    a.add_argument("--scale", type=float, default=1.0)
    a.add_argument("--jobs", type=int)
    o = a.parse_args()
    import warnings
    warnings.simplefilter("ignore")
    import pbt
    pbt.known(o.pid)
    try:
        check = importlib.import_module(o.pid.lower()).CHECK
    except pbt.Violation as v:
        # the library could not even be imported
        path = os.path.join(VERIF, "replay", "%s-import.json" % o.pid)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w").write('{"property": "%s", "clause": "import", "case": null, "message": %r}\n' % (o.pid, str(v)))
        print("  %s" % v)
        print("VIOLATION property=%s replay=%s" % (o.pid, path))
        return 1
    if o.replay:
        return pbt.replay(check, o.replay)
    return pbt.run(check, o.tier, o.seed, jobs=o.jobs, only=o.only, scale=o.scale)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
