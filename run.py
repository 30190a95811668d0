#!/usr/bin/env python3
"""run.py PROPERTY [--thorough] [--replay FILE]   decides one property on /repo's tree
   run.py setup                                   builds what the checks build, once"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kf import core, registry   # noqa


def main(argv):
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    if prop == "setup":
        ctx = core.Ctx("setup", tier, seed)
        ctx.build()
        core.shutil.rmtree(ctx.work)
        return 0
    ctx = core.Ctx(prop, tier, seed, replay)
    try:
        if replay:
            with open(replay) as f:
                registry.REPLAYS[prop](ctx, json.load(f))
        else:
            registry.CHECKS[prop](ctx)
    except core.CheckError as e:
        print("ERROR in check %s: %s" % (prop, e))
        core.shutil.rmtree(ctx.work, ignore_errors=True)
        return 3
    except Exception:
        traceback.print_exc()
        if ctx.violations:      # what was found before stands
            return ctx.finish()
        core.shutil.rmtree(ctx.work, ignore_errors=True)
        return 3
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
