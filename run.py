#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]
   run.py setup            builds the extension for the current tree
Exit 0: held on everything explored; 1: violated; 2: the check itself failed."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))


def main():
    import argparse
    import json

    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import bootstrap

    bootstrap.setup()
    if a.id == "setup":
        print("ready")
        return 0
    import importlib

    import core

    name = a.id.lower()
    if a.replay:
        prop = importlib.import_module("props." + name)
        case = json.load(open(a.replay))["case"]
        r, msg = core.run_case(prop, case)
        if msg is not None:
            print("violated: " + " ".join(msg.split()))
            print("VIOLATION property=%s replay=%s" % (prop.ID, os.path.abspath(a.replay)))
            return 1
        print("held on %s" % a.replay)
        return 0
    return core.run_property(name, a.tier, a.seed)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        import traceback

        traceback.print_exc()
        print("the check could not be carried out: %s" % type(e).__name__)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
