#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree (see DESIGN.md)."""
import importlib
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402
from vf.registry import CHECKS  # noqa: E402


def main():
    prop = sys.argv[1]
    if "--tier" in sys.argv:
        os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
    if "--seed" in sys.argv:
        os.environ["VERIF_SEED"] = sys.argv[sys.argv.index("--seed") + 1]
    mod, fn = CHECKS[prop]
    ctx = core.Ctx(prop)
    try:
        getattr(importlib.import_module("vf." + mod), fn)(ctx)
        return ctx.finish()
    except core.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())
