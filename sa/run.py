import json, signal, sys, time, traceback
from .interp import Interp, St, Unmodelled, Budget, Split
from . import models


class TimeUp(BaseException):
    pass


def time_up(*_):
    raise TimeUp()


def make(prog, mode, unroll=2, contracts=None):
    I = Interp(prog, mode, unroll, contracts, models.MODELS)
    I.match_model = models.match
    I.hooks = dict(models.HOOKS)
    I.claims = {}
    I.reached = set()
    return I


def analyse(prog, root, mode, unroll=2, contracts=None, max_blocks=None, steps=6000, until=None, found=None, apart=64, width=200):
    I = make(prog, mode, unroll, contracts)
    if found:
        I.found = found
    I.steps = steps
    I.apart = apart
    I.breadth = width
    if max_blocks:
        I.max_blocks = max_blocks
    fid = dict((n.split("::")[-1], i) for n, i in prog["roots"])[root]
    signal.signal(signal.SIGALRM, time_up)
    signal.setitimer(signal.ITIMER_REAL, max(1, min(240, until - time.time())) if until else 240)
    try:
        I.call_body(fid, [], St())
    except TimeUp:
        I.notes[("budget: time", root)] = None
    except Budget as e:
        I.notes[("budget: %s" % e, root)] = None
    except Exception as e:
        # a gap of the analyser: the root stays undecided
        tb = traceback.extract_tb(e.__traceback__)[-1]
        I.notes[("internal: %s %s (%s:%d)" % (type(e).__name__, e, tb.name, tb.lineno), root)] = None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return I


if __name__ == "__main__":
    prog = json.load(open(sys.argv[1]))
    for r in sys.argv[3:] or [n.split("::")[-1] for n, _ in prog["roots"]]:
        I = analyse(prog, r, sys.argv[2])
        print("==", r, "blocks", I.blocks, "obl", len(I.obl), "ok", sum(o[0] == "ok" for o in I.obl.values()))
        for k, a in I.alarms.items():
            print("  ALARM", "DEFINITE" if a["definite"] else "possible", k, a["span"], a["cond"][:200], a["model"])
        for k, sp in I.notes.items():
            print("  NOTE", k, sp)
        if I.cuts:
            print("  CUTS", I.cuts)
