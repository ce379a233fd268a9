#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property (see MANIFEST.json)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib


def main():
    prop = sys.argv[1]
    if "--thorough" in sys.argv:
        lib.TIER = "thorough"
    try:
        mod = importlib.import_module("checks." + prop.lower())
        ctx = lib.Ctx(prop, getattr(mod, "LEVEL", "model_checking"))
        mod.run(ctx)
        return ctx.finish()
    except lib.ToolError as e:
        print("check error: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
