#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source. Exit 0 / 1."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checker"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checker", "rules"))
sys.dont_write_bytecode = True
import lib  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    ctx = lib.Ctx(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(ctx)
    except lib.Undecided as e:
        ctx.undecided(str(e))
    except lib.Budget as e:
        ctx.undecided("analysis budget exceeded in %s" % e)
    except (RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError) as e:
        traceback.print_exc()
        ctx.undecided("internal: %s %s" % (type(e).__name__, e))
    return lib.finish(ctx, mod.RULE, getattr(mod, "LEVEL", "other"))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(3)
