"""Replay one or more counterexamples on the real code.

usage: /opt/venv/bin/python replay_main.py FILE.json [--trace]
FILE.json: {"property", "case", "label", "env", "benv"} or a list of them.
Prints one JSON object per entry: {"failures": [[label, info]...], "assume_failed": bool, "error": str|null}
"""
import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")


def replay(e, trace=False):
    from engine.realworld import RealWorld
    from engine.wbase import AssumeFailed, Hang, StopPath, watch
    mod = importlib.import_module("harness." + e["property"])
    params = None
    for tier in ("quick", "thorough"):
        for cid, p in mod.cases(tier):
            if cid == e["case"]:
                params = p
    if params is None:
        return {"failures": [], "assume_failed": False, "error": "unknown case " + e["case"]}
    w = RealWorld(e.get("env"), e.get("benv"))
    out = {"failures": [], "assume_failed": False, "error": None}
    try:
        if e.get("label") == "does-not-end":
            watch(os.path.join(w.root, "yuca"), 100)
        mod.run(w, **params)
        watch(None, 0)
    except Hang as x:
        w.failures.append(("does-not-end", str(x)))
    except AssumeFailed:
        out["assume_failed"] = True
    except StopPath:
        pass
    except (Exception, SystemExit) as x:
        tb = traceback.extract_tb(x.__traceback__)
        where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-4:])
        w.failures.append(("exception:" + type(x).__name__, f"{type(x).__name__}: {str(x)[:300]} at {where}"))
        out["tb"] = traceback.format_exc()[-2500:]
    finally:
        w.cleanup()
    out["failures"] = w.failures
    out["checks"] = w.n_checks
    if trace:
        out["trace"] = w.trace
    return out


def main():
    data = json.load(open(sys.argv[1]))
    trace = "--trace" in sys.argv
    if isinstance(data, dict):
        data = [data]
    out = sys.__stdout__
    res = []
    import numpy, torch  # noqa: F401  (warm up before forking)
    torch.set_num_threads(1)
    for e in data:
        # one process per entry: the real modules keep state
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                s = json.dumps(replay(e, trace), default=str)
            except BaseException as x:
                s = json.dumps({"failures": [], "assume_failed": False, "error": "replay crashed: " + repr(x) +
                                traceback.format_exc()[-1500:]})
            with os.fdopen(wfd, "w") as f:
                f.write(s)
            os.kill(os.getpid(), 9)
        os.close(wfd)
        with os.fdopen(r) as f:
            s = f.read()
        os.waitpid(pid, 0)
        res.append(json.loads(s) if s else {"failures": [], "assume_failed": False, "error": "replay process died"})
    out.write(json.dumps(res) + "\n")
    out.flush()
    bad = any(x["failures"] for x in res)
    if "--human" in sys.argv:
        for x in res:
            for f in x["failures"]:
                out.write(f"FAILS {f[0]}: {f[1]}\n")
    sys.stdout.flush()
    os._exit(1 if bad else 0)


if __name__ == "__main__":
    main()
