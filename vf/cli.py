"""python -m vf.cli <property> [quick|thorough]"""
import os
import sys
import traceback

sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from . import registry, report

    if prop not in registry.CHECKS:
        print(f"unknown property {prop}", file=sys.stderr)
        sys.exit(2)
    try:
        rep = registry.run(prop, tier)
    except report.Enough:
        rep = report.Report.last
    except Exception as e:  # noqa: BLE001  (what was found before still counts; the rest is undecided)
        traceback.print_exc()
        rep = report.Report.last or report.Report(prop, tier)
        rep.undecided(f"the check stopped: {type(e).__name__}: {e}")
    sys.exit(rep.finish())


if __name__ == "__main__":
    main()
