"""Re-runs one recorded counterexample, twice, without the explorer."""
import json
import sys


def main(argv):
    from . import core
    from .main import load
    rec = json.load(open(argv[0]))
    check = load(rec["property"])
    core._init_worker()
    check.scopes("quick")
    msgs = []
    for _ in range(2):
        _, msg = core.one_case(check, rec["scope"], rec["case"])
        msgs.append(msg)
    print("case: %r" % (rec["case"],))
    print("first run : %s" % msgs[0])
    print("second run: %s" % ("same" if (msgs[0] is None) == (msgs[1] is None) else msgs[1]))
    if msgs[0] is not None:
        print("VIOLATION property=%s replay=%s" % (rec["property"], argv[0]))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
