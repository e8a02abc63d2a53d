"""check.py <property> [--tier quick|thorough] : exit 0 held, 1 VIOLATION, anything else is a failure of the check."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("JAX_PLATFORMS", "cpu")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    import core
    import importlib
    ctx = core.Ctx(a.prop, a.tier, a.seed)
    fn = None
    for m in ("props_wave", "props_tools"):
        c = importlib.import_module(m).CHECKS
        fn = c.get(a.prop, fn)
    if fn is None:
        print("no check for", a.prop)
        return 2
    if ctx.thorough:
        import specself
        specself.check(ctx)
    fn(ctx)
    return core.finish(ctx)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
