"""Worker process: runs scenarios of one driver with a per-scenario time limit.
usage: worker.py DRIVER SCENARIOS.json OUT.ndjson
Emits one line per finished scenario: {"tid":..., "ev":[...]}."""
import importlib
import json
import os
import signal
import sys
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("REPO", "/repo"))


class Hang(BaseException):
    pass


def plain(x):
    """Numbers of other libraries' types are numbers; anything else unknown is shown as text."""
    if hasattr(x, "item") and getattr(x, "shape", None) == ():
        return x.item()
    if isinstance(x, (set, frozenset)):
        return sorted(x, key=str)
    if hasattr(x, "tolist"):
        return x.tolist()
    return str(x)


def on_alarm(*_):
    raise Hang()


def main():
    drv = importlib.import_module(sys.argv[1])
    import pybbn
    assert os.path.realpath(pybbn.__file__).startswith(os.path.realpath(os.environ.get("REPO", "/repo")) + os.sep), pybbn.__file__
    scs = json.load(open(sys.argv[2]))
    limit = int(os.environ.get("SCENARIO_TIMEOUT", "60"))
    hangs = 0
    # processor time, not wall time: a slow or busy machine must not look like a hang
    signal.signal(signal.SIGPROF, on_alarm)
    with open(sys.argv[3], "w") as f:
        for sc in scs:
            ev, err = [], ""
            try:
                signal.setitimer(signal.ITIMER_PROF, sc.get("timeout", limit))
                for e in drv.run(sc):
                    ev.append(e)
            except Hang:
                err = "hang"
                hangs += 1
            except RecursionError as x:
                err = "RecursionError"
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            f.write(json.dumps(dict(tid=sc["tid"], ev=ev, err=err), default=plain) + "\n")
            f.flush()
            if hangs == 2:
                break                       # the verdict is in; the rest is not run


main()
