"""Entry point: python -m harness.main <property> [quick|thorough]."""

import importlib
import json
import os
import sys
import time
import traceback

from harness import lib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = lib.Ctx(prop, tier, seed)
    mod = importlib.import_module("harness." + prop.lower())
    status = 0
    try:
        try:
            mod.check(ctx)
        except lib.TlcFailure as ex:
            print(ex)
            status = 2
        ev = dict(
            property=prop, tier=tier, seed=seed, level="model_checking",
            coverage=dict(
                states=ctx.states, transitions=ctx.transitions,
                traces_validated_against_impl=ctx.traces,
                implementation_steps_compared=ctx.steps,
                tlc_runs=ctx.runs, samples=ctx.samples or ["none"], **ctx.extra),
            assumptions=ctx.assumptions + getattr(mod, "ASSUMPTIONS", []),
            wall_s=round(time.time() - ctx.t0, 1),
            violations=len(ctx.violations),
        )
        os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(lib.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        if status:
            return status
        for k in lib.known(prop):
            if k["key"] in ctx.known_seen:
                print(f"KNOWN-FINDING: property={prop} {k['key']}: {k['text']}")
            else:
                print(f"note: listed finding {k['key']} did not show in this run")
        if ctx.violations:
            d = os.path.join(lib.VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}.json")
            with open(path, "w") as f:
                json.dump(ctx.violations[:200], f, indent=1, default=repr)
            for v in ctx.violations[:5]:
                print("  problem:", v.get("key"), "-", str(v.get("what"))[:600])
                if v.get("log"):
                    print("   ", str(v["log"])[-800:].replace("\n", "\n    "))
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print(f"OK property={prop} tier={tier}: {ctx.states} states, "
              f"{ctx.transitions} transitions, {ctx.traces} behaviours, "
              f"{ctx.steps} steps compared, {time.time()-ctx.t0:.0f}s")
        return 0
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
