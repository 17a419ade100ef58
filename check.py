#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--count N] [--only I] [--replay FILE] [--workers N]"""
import importlib, os, sys, traceback
from pathlib import Path

sys.dont_write_bytecode = True
HERE = Path(__file__).resolve().parent
sys.path[:0] = [str(HERE / "lib"), str(HERE / "sim"), str(HERE / "checks")]


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    opts = {}
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"):
            tier = x
        else:
            opts[x.lstrip("-")] = a.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import pbt
    mod = importlib.import_module(pid.lower())
    check = mod.CHECK()
    check.ID = pid
    if "replay" in opts:
        return pbt.replay(check, opts["replay"])
    return pbt.main(check, tier, seed, count=int(opts["count"]) if "count" in opts else None,
                    only=int(opts["only"]) if "only" in opts else None,
                    workers=int(opts["workers"]) if "workers" in opts else None)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
