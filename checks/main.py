import ctypes
import importlib
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(400000)
threading.stack_size(512 * 1024 * 1024)

RULE_S, TOTAL_S = 200, 600  # time for one rule, for all of them


class OutOfTime(BaseException):
    pass


def limited(f, ck, seconds):
    """f(ck), interrupted when it takes longer than that."""
    me = threading.get_ident()
    done = threading.Event()

    def watch():
        if not done.wait(seconds):
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(OutOfTime))
    w = threading.Thread(target=watch, daemon=True)
    size = threading.stack_size(256 * 1024)
    w.start()
    threading.stack_size(size)
    try:
        f(ck)
    finally:
        done.set()


def main(pid):
    import kit
    from facts import FactsError
    m = importlib.import_module(pid.lower())
    ck = kit.Check(pid)
    try:
        ck.load()
    except FactsError as e:
        print("ERROR: could not extract facts: %s" % e)
        return 2
    t0 = time.time()
    for name, f in m.RULES:
        try:
            limited(f, ck, max(5, min(RULE_S, TOTAL_S - (time.time() - t0))))
        except OutOfTime:
            ck.undecided(name, "time", "the analysis takes too long")
        except kit.Anchor as e:
            ck.undecided(name, "anchor", str(e))
        except kit.Undecidable as e:
            ck.undecided(name, "shape", str(e))
        except Exception as e:  # the analysis, not the code, failed: undecided, never an alarm
            ck.undecided(name, "analysis", "internal: %s" % traceback.format_exc()[-600:])
    return ck.finish(m.TECHNIQUE, m.RULE_TEXT, getattr(m, "ASSUMPTIONS", ()), getattr(m, "LEVEL", "other"))


if __name__ == "__main__":
    rc = [3]

    def go():
        rc[0] = main(sys.argv[1])
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
