import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks
from lib import Check, MachineryError


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = Check(prop, tier, seed)
    try:
        checks.CHECKS[prop](ck)
    except MachineryError as x:
        print(f"ERROR of the check {prop}: {x}", file=sys.stderr)
        if ck.violations:
            sys.exit(ck.finish())
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    sys.exit(ck.finish())


main()
