import importlib, os, sys, traceback
sys.setrecursionlimit(40000)
import threading
threading.stack_size(512 << 20)
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.path.dirname(here), "checks"))


def go():
    import mirdb, report
    from interp import Stuck
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    R = report.Report(pid, getattr(mod, "LEVEL", "other"), mod.TECHNIQUE)
    try:
        mod.run(R, os.environ.get("VERIF_TIER", "quick"))
    except mirdb.MissingAnchor as e:
        R.violation("anchor: " + str(e), "", "a construct this property is anchored in is gone: the property cannot be shown to hold")
    except Stuck as e:
        R.violation("analysis: " + str(e), "", "the analysis could not establish the property")
    return R.finish()


rc = [2]


def main():
    try:
        rc[0] = go()
    except BaseException:
        traceback.print_exc()
        rc[0] = 2


t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
