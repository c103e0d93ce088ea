#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current source."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "rules")]
sys.setrecursionlimit(20000)
import facts as F, report  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    R = report.Report(pid, tier, seed)
    try:
        P = F.Program()
        mod = importlib.import_module("r_" + pid.lower())
        mod.check(P, R)
        return report.finish(R, getattr(mod, "EVIDENCE_LEVEL", "other"), mod.EXPLANATION, mod.ASSUMPTIONS, P)
    except Exception as e:
        if not isinstance(e, F.AnalysisBroken):
            import traceback
            traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid}: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
