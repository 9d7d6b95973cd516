#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough]: decide one property by static analysis of /repo/src."""
import argparse
import importlib
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from sa.ctx import Ctx, AnchorGone
    mod = importlib.import_module("checks." + a.property.lower())
    ctx = Ctx(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        mod.run(ctx)
    except AnchorGone as exc:
        print("NO-ANSWER property=%s %s" % (a.property, exc))
        ctx.undecided("anchor", exc)
        ctx.finish(mod.LEVEL)
        return 2
    return ctx.finish(mod.LEVEL)


if __name__ == "__main__":
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.exit(res[0] if res else 3)
