#!/usr/bin/env python3-vt
"""check.py ID            run the check of one property (VERIF_SEED, VERIF_TIER)
check.py --replay FILE  repeat the observation recorded in a replay file
check.py --list         the properties that have a check

Exit 0: the property held on everything observed. Exit 1: violated; every shown
violation comes with a line "VIOLATION property=<id> replay=<path>". Exit 2: the
check itself failed."""
import importlib, json, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "mon"))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

MODULES = ["numeric", "moments", "sampling", "relations", "system", "coherence"]


def find(prop):
    for name in MODULES:
        if not os.path.exists(os.path.join(HERE, "mon", name + ".py")):
            continue
        f = getattr(importlib.import_module(name), prop.lower(), None)
        if f:
            return f
    raise SystemExit("no check for %s" % prop)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        import replay
        return replay.main(sys.argv[2])
    import ctx
    from vlib import HarnessError
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    f = find(prop)
    c = ctx.Ctx(prop, "thorough" if tier == "thorough" else "quick", seed)
    try:
        r = f(c)
        rc = c.finish(r.get("level", "exploration"), r["rule"], r["assumptions"], r.get("extra"))
    except HarnessError as e:
        if c.nviol:  # what has been observed stands
            c.inconclusive.append(str(e)[:500])
            return c.finish("exploration", "interrupted by a failure of the harness", [str(e)[:500]])
        print("CHECK ERROR: %s" % e)
        return 2
    except Exception as e:
        traceback.print_exc()
        if c.nviol:
            c.inconclusive.append(repr(e)[:500])
            return c.finish("exploration", "interrupted by a failure of the harness", [repr(e)[:500]])
        return 2
    if os.environ.get("VMON_MARGINS"):
        print({k: float("%.2g" % v) for k, v in sorted(c.margins.items())}, c.counters)
    return rc


if __name__ == "__main__":
    sys.exit(main())
