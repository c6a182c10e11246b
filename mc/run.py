import importlib
import json
import os
import sys

from . import core


def registry():
    d = os.path.join(core.VERIF, "mc", "checks")
    return sorted(f[:-3].upper() for f in os.listdir(d) if f.endswith(".py") and not f.startswith("_"))


def run_check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("MC_BUDGET", "600" if tier != "thorough" else "3000"))
    try:
        mod = importlib.import_module("mc.checks." + prop.lower())
    except Exception as e:
        ctx = core.Ctx(prop, tier, seed, "model_checking", [], budget)
        ctx.add_violation(0, "import", "the code under test can not be loaded: " + core.describe(e), {"space": "import"})
        import traceback
        traceback.print_exc()
        return ctx.finish()
    ctx = core.Ctx(prop, tier, seed, getattr(mod, "LEVEL", "model_checking"), getattr(mod, "ASSUMPTIONS", []), budget)
    mod.explore(ctx)
    return ctx.finish()


def main(argv):
    if argv and argv[0] == "replay":
        rec = json.load(open(argv[1]))
        mod = importlib.import_module("mc.checks." + rec["property"].lower())
        case = rec["case"]
        res, err = core.guarded(mod.replay, case)
        if err is None and res:
            err = "; ".join(str(r) for r in res)
        print("case:", json.dumps(case)[:2000])
        if err:
            print("REPRODUCED:", err)
            return 1
        print("not reproduced: the property holds on this case")
        return 0
    if argv and argv[0] == "all":
        rc = 0
        for p in registry():
            rc |= run_check(p)
        return rc
    if not argv or argv[0].upper() not in registry():
        print("known checks:", " ".join(registry()))
        return 2
    return run_check(argv[0].upper())


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
