import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

from registry import CHECKS


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(CHECKS[pid][0])
    chk = core.Check(pid)
    try:
        getattr(mod, pid)(chk)
        return chk.finish()
    except core.SpecError as e:
        print("machinery error:", e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc) if False else sys.exit(rc)
