import importlib
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import mir
import par
from terms import LIMIT_AT
from report import Report


def main():
    pid = sys.argv[1]
    tree = build.dump()
    prog = mir.Prog(tree)
    rep = Report(pid)
    m = importlib.import_module("rules." + pid.lower())
    signal.signal(signal.SIGALRM, par._over)
    signal.alarm(max(1, int(LIMIT_AT + 30 - time.time())))
    try:
        m.run(prog, rep)
    except Exception as e:
        # the code has a shape the analysis does not know: no verdict on the rest (what was found so far stands)
        traceback.print_exc()
        print("UNDECIDED %s: the analysis could not be completed: %s" % (pid, e))
        rep.incomplete = str(e)[:300]
        if os.environ.get("VERIF_STRICT"):
            rep.bad("analysis", type(e).__name__, "(checker)", "the analysis could not be completed on this tree: %s" % e)
    signal.alarm(0)
    return rep.finish(prog, tree)


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
