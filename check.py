#!/usr/bin/env python3
"""check.py PROPERTY  — decide one property of nlcglib (environment: VERIF_TIER, VERIF_SEED)"""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import engine, plan
from vlib import ToolError, BuildError, Hang


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = engine.Ctx(prop, tier, seed)
    try:
        for mod in plan.PLAN[prop]:
            mod(ctx)
            if ctx.viols or ctx.quick and time.time() - ctx.t0 > 600:
                break
        rc = engine.finish(ctx, "model_checking", plan.ASSUME)
    except Hang as h:
        rc = engine.hang(ctx, h)
    except ToolError as ex:
        print("ERROR (the check could not do its work): %s" % ex)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.scr.close()
    sys.exit(rc)


main()
