"""python -m xv.run <property id>: decide one property on /repo's current tree."""
import importlib, os, sys, traceback


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    from .report import Check
    ck = Check(pid, tier, int(os.environ.get("VERIF_SEED", "1")))
    part = sys.argv[3] if len(sys.argv) > 3 else None
    try:
        from . import trace     # noqa: F401  (front end; imports the repository)
        m = importlib.import_module("xv.checks." + pid.lower())
        if part is not None:
            m.part(ck, part)
            ck.dump(os.environ["XV_PARTOUT"])
            return 0
        m.run(ck)
    except Exception as e:
        # the rest of this part (or of the whole check) could not be analysed; what was decided before still stands
        traceback.print_exc()
        ck.undecided(part or "the rest of the check", e)
        if part is not None:
            ck.dump(os.environ["XV_PARTOUT"])
            return 0
        return ck.finish()
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
