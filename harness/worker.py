"""Runs inside the repository's own interpreter (PyPy venv).  Reads JSON cases on stdin, evaluates one
property on each against the code in /repo, writes one JSON verdict per case.  It knows nothing about
Hypothesis: a saved case can be replayed with

    /opt/venv/bin/python /verif/harness/worker.py --replay FILE
"""
import importlib
import json
import os
import random
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ORANSSI_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")


class _Null(object):
    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def _load(prop):
    import numpy  # noqa: F401
    import oranssi
    got = os.path.realpath(oranssi.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("oranssi imported from %s, not from %s" % (got, REPO))
    return importlib.import_module("oracle." + prop.lower())


def evaluate(mod, case):
    import numpy as np
    from oracle.base import Ctx, Violation
    ctx = Ctx()
    rng = int(case.get("rng", 0))
    random.seed(rng)
    np.random.seed(rng % (2 ** 32))
    out = {"status": "ok", "msg": ""}
    old = np.geterr()
    try:
        np.seterr(all="ignore")
        mod.check(case, ctx)
    except Violation as e:
        out = {"status": "viol", "msg": str(e)}
    except (MemoryError, KeyboardInterrupt, OSError) as e:
        out = {"status": "error", "msg": "%s: %s" % (type(e).__name__, e)}
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inner = tb[-1].filename if tb else ""
        txt = traceback.format_exc()[-1500:]
        # An exception in the harness's own frames about a missing name is an error of the harness;
        # anything else comes from results the code under test produced.
        if isinstance(e, (AttributeError, NameError, ImportError, SyntaxError)) and inner.startswith(HERE):
            out = {"status": "error", "msg": txt}
        else:
            out = {"status": "viol", "msg": "unusable result: " + txt}
    finally:
        np.seterr(**old)
    out["labels"] = sorted(ctx.labels)
    out["nontrivial"] = bool(ctx.nontrivial)
    return out


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        real, sys.stdout = sys.stdout, _Null()
        mod = _load(rec["property"])
        for c in rec.get("history", []):
            evaluate(mod, c)
        res = evaluate(mod, rec["case"])
        sys.stdout = real
        print(json.dumps(res, indent=1))
        sys.exit({"ok": 0, "viol": 1}.get(res["status"], 2))
    # keep the protocol channel private: whatever the code under test prints goes nowhere
    chan = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = _Null()
    try:
        mod = _load(sys.argv[1])
        chan.write(json.dumps({"status": "ready"}) + "\n")
    except BaseException:
        chan.write(json.dumps({"status": "fatal", "msg": traceback.format_exc()[-3000:]}) + "\n")
        chan.flush()
        sys.exit(2)
    chan.flush()
    for line in sys.stdin:
        res = evaluate(mod, json.loads(line))
        chan.write(json.dumps(res) + "\n")
        chan.flush()


if __name__ == "__main__":
    main()
