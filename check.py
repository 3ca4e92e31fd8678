#!/usr/bin/env python
"""check.py C01 [--replay FILE]: decide one property (VERIF_TIER=quick|thorough)."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    # One fixed hash seed: the order of sets is not left to chance.
    if os.environ.get("PYTHONHASHSEED") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        exe = PY if os.path.exists(PY) else sys.executable
        os.execv(exe, [exe, "-B", os.path.abspath(__file__), *sys.argv[1:]])
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    pid = sys.argv[1]
    from vlib import boot, mc

    boot.boot(coop_locks=pid in ('C17', 'C18'))
    mod = importlib.import_module("checks." + pid.lower())
    if "--replay" in sys.argv:
        v = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        if "fn" not in v:
            print(v["what"])
            return 1
        mod_setup = getattr(mod, "setup", None)
        if mod_setup:
            mod_setup()
        viols, _ = mod.FUNCTIONS[v["fn"]](tuplify(v["item"]))
        for x in viols:
            print(f"{x['key']}: {x['what']}")
        print("REPRODUCED" if viols else "NOT REPRODUCED")
        return 1 if viols else 0
    run = mc.Run(pid, mod.FUNCTIONS)
    return mod.main(run)


def tuplify(x):
    return tuple(tuplify(i) for i in x) if isinstance(x, list) else x


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
