"""Entry point: run_check.sh <ID> [quick|thorough | --replay FILE | --sub NAME]."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = os.environ.get("HFTOOLS_ROOT", "/repo")
sys.path[:0] = [ROOT, VERIF, os.path.join(VERIF, "vendor")]


def main(argv):
    pid = argv[0]
    rest = [a for a in argv[1:] if a not in ("quick", "thorough")]
    from vlib import core
    import hftools
    got = os.path.realpath(os.path.dirname(os.path.dirname(hftools.__file__)))
    if got != os.path.realpath(ROOT):
        print("harness error: hftools imported from %s, not %s" % (got, ROOT))
        return 2
    mod = importlib.import_module("checks.%s" % pid.lower())
    if rest and rest[0] == "--replay":
        return core.replay(pid, mod, rest[1])
    only = rest[1] if rest and rest[0] == "--sub" else None
    return core.run(pid, mod, only)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("harness error (no verdict)")
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
