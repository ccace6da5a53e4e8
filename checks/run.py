#!/usr/bin/env python3
"""Run the check of one property: python3 checks/run.py C01 [--replay FILE]
Exit 0: held on everything explored; 1: violated; 2: the check itself failed."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def replay(path):
    """Execute and judge a recorded violation again."""
    with open(path) as f:
        r = json.load(f)
    c = core.Check(r["property"])
    c.add(r["module"], r["judge"], [r["script"]])
    c.run()
    for f in c.failures:
        print("rejected: %s" % f["reason"])
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
    if not c.failures:
        print("not reproduced")
    return 1 if c.failures else 0


def main():
    pid = sys.argv[1]
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(sys.argv[3])
        return importlib.import_module("props." + pid.lower()).main(core.Check(pid))
    except core.ToolError as e:
        print("error of the check: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
