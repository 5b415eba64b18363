"""usage: check.py PROPERTY [quick|thorough]   (VERIF_SEED, VERIF_TIER)"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness as H


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    import checks
    try:
        H.build()
        rep = H.Report(pid, tier, seed)
        checks.CHECKS[pid](rep, tier, seed, H.workdir(pid))
        rc = rep.finish()
    except H.ToolError as e:
        print('TOOL ERROR:', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
