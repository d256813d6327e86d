"""Run one property's check.

usage: python3-vt check.py ID [--tier quick|thorough] [--case SUBSTR] [-v] [--jobs N]

exit 0: held on everything explored (known findings are printed and do not count)
exit 1: VIOLATION line(s), each reproduced on the real code
exit 2: inconclusive (solver gave up, code outside the encoding, counterexample that does not reproduce)
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
os.environ.setdefault("OMP_NUM_THREADS", "1")
REAL_PY = "/opt/venv/bin/python"
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAYS = os.path.join(EVID, "replays")


def run_case(pid, cid, params, seed, wall, qtimeout):
    from engine.explore import Explorer
    mod = importlib.import_module("harness." + pid)
    opts = getattr(mod, "OPTS", {})
    ex = Explorer(mod.run, params, seed=seed, wall=wall, qtimeout=qtimeout, max_paths=opts.get("max_paths", 4000),
                  chunk=opts.get("chunk", 8))
    return ex.explore()


def worker(q, pid, cid, params, seed, wall, qtimeout):
    try:
        import resource
        lim = int(os.environ.get("VERIF_CASE_MEM_GB", "6")) << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        sys.stderr = open(os.devnull, "w") if not os.environ.get("VERIF_DEBUG") else sys.stderr
        r = run_case(pid, cid, params, seed, wall, qtimeout)
    except BaseException:
        r = {"error": "harness/engine error: " + traceback.format_exc()[-3000:]}
    q.send(r)
    q.close()


def run_all(pid, cases, seed, wall, qtimeout, jobs, deadline, on_result=None):
    """cases in parallel, one fresh process each; on_result may return True to wind down early"""
    stop_at = None
    ctx = mp.get_context("fork")
    todo = list(cases)
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < jobs:
            cid, params = todo.pop(0)
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(tx, pid, cid, params, seed, wall, qtimeout))
            p.start()
            tx.close()
            live[cid] = (p, rx, time.time())
        done = []
        mp.connection.wait([rx for _, rx, _ in live.values()], timeout=1.0)
        for cid, (p, rx, t0) in live.items():
            if rx.poll():
                try:
                    res[cid] = rx.recv()
                except EOFError:
                    res[cid] = {"error": "case process died (memory limit?)"}
                p.join()
                done.append(cid)
            elif time.time() - t0 > wall + 60 or time.time() > deadline:
                p.kill()
                p.join()
                res[cid] = {"error": "timeout"}
                done.append(cid)
        for c in done:
            del live[c]
            if on_result and stop_at is None and on_result(c, res[c]):
                stop_at = time.time() + 25
        if stop_at is not None:
            todo = []
            if time.time() > stop_at:
                for p, rx, _ in live.values():
                    p.kill()
                    p.join()
                break
    return res


def replay(entries, trace=False, timeout=300):
    if not entries:
        return []
    os.makedirs(REPLAYS, exist_ok=True)
    f = os.path.join(REPLAYS, f".tmp_{os.getpid()}_{int(time.time() * 1e6)}.json")
    with open(f, "w") as h:
        json.dump(entries, h)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0", OMP_NUM_THREADS="2")
    try:
        p = subprocess.run([REAL_PY, "-W", "ignore", os.path.join(HERE, "replay_main.py"), f] + (["--trace"] if trace else []),
                           capture_output=True, text=True, timeout=timeout, env=env)
        return json.loads(p.stdout.strip().splitlines()[-1])
    except (subprocess.TimeoutExpired, IndexError, ValueError):
        return [{"failures": [], "assume_failed": False, "error": "replay failed or timed out"} for _ in entries]
    finally:
        os.remove(f)


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[8:].split(" what=")[0].split() if "=" in x)
                d["what"] = line.split(" what=", 1)[1] if " what=" in line else line
                out.append(d)
    return out


def is_known(kf, pid, case, label):
    for d in kf:
        if d.get("property") == pid and d.get("case") == case and d.get("label") == label:
            return d
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-validate", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.id, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("harness." + pid)
    opts = getattr(mod, "OPTS", {})
    cases = list(mod.cases(tier))
    if a.case:
        cases = [c for c in cases if a.case in c[0]]
    assert len({c[0] for c in cases}) == len(cases), "duplicate case ids"
    wall = opts.get("wall_" + tier, 300 if tier == "quick" else 1500)
    qt = opts.get("qtimeout_" + tier, 40 if tier == "quick" else 120)
    deadline = t0 + (700 if tier == "quick" else 3 * 3600)
    # code objects and fakes are shared with the forked case processes
    import engine.explore  # noqa: F401
    from engine.loader import Loader
    from engine.world import SymWorld
    kf = known_findings()
    entries, rep = [], []

    def on_result(cid, r):
        """replay a case's counterexamples; a confirmed one that is not listed is enough to wind down"""
        per, mine = {}, []
        for (label, env, benv, info) in r.get("cands", []):
            per.setdefault(label, []).append((env, benv, info))
        for label, xs in per.items():
            for env, benv, info in xs[:6]:
                mine.append({"property": pid, "case": cid, "label": label, "env": env, "benv": benv, "info": info})
        mine = mine[:24]
        out = replay(mine)
        entries.extend(mine)
        rep.extend(out)
        return any(f[0] for x in out for f in x.get("failures") or [] if not is_known(kf, pid, cid, f[0]))

    res = run_all(pid, cases, seed, wall, qt, a.jobs, deadline, on_result)
    confirmed, spurious = {}, []
    for e, r in zip(entries, rep):
        if r.get("failures"):
            labels = [f[0] for f in r["failures"]]
            lab = e["label"] if e["label"] in labels else labels[0]
            if all(is_known(kf, pid, e["case"], l) for l in labels):
                key = (e["case"], lab)
            else:
                lab = next(l for l in ([e["label"]] if e["label"] in labels else []) + labels
                           if not is_known(kf, pid, e["case"], l))
                key = (e["case"], lab)
            if key not in confirmed:
                confirmed[key] = (e, r)
        else:
            spurious.append((e, r))
    reproduced_labels = {(e["case"], e["label"]) for e, r in zip(entries, rep) if r.get("failures")}
    spurious = [(e, r) for e, r in spurious if (e["case"], e["label"]) not in reproduced_labels]

    # the encoding against the implementation: witnesses of this run, executed on the real code
    validated, mismatch = 0, []
    if not a.no_validate and not any(not is_known(kf, pid, *k) for k in confirmed):
        n = 4 if tier == "quick" else 12
        v = validate(pid, cases, res, n)
        validated, mismatch, vfail = v
        for e, r in vfail:
            labels = [f[0] for f in r["failures"]]
            new = [l for l in labels if not is_known(kf, pid, e["case"], l)]
            if new and (e["case"], new[0]) not in confirmed:
                confirmed[(e["case"], new[0])] = (e, r)

    violations = 0
    os.makedirs(REPLAYS, exist_ok=True)
    for old in os.listdir(REPLAYS):
        if old.startswith(pid + "-"):
            os.remove(os.path.join(REPLAYS, old))
    for i, ((case, label), (e, r)) in enumerate(sorted(confirmed.items(), key=lambda x: x[0])):
        k = is_known(kf, pid, case, label)
        if k:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
            continue
        violations += 1
        path = os.path.join(REPLAYS, f"{pid}-{violations}.json")
        with open(path, "w") as h:
            json.dump(dict(e, failures=r["failures"][:10],
                           how=f"{REAL_PY} {HERE}/replay_main.py {path} --human"), h, indent=1)
        if violations <= 10:
            print(f"VIOLATION property={pid} replay={path}")
            f = next((f for f in r["failures"] if f[0] == label), r["failures"][0])
            print(f"  case {case}: {label}: {f[1][:300]}")
    problems = []
    for cid, r in res.items():
        if r.get("error"):
            problems.append(f"case {cid}: {r['error']}")
            continue
        for lab, info in r["inconclusive"]:
            problems.append(f"case {cid}: undecided {lab}: {info}")
        if r["seen"] == 0 and not r["cands"]:
            problems.append(f"case {cid}: vacuous (no check reached)")
        elif not r["witness"] and not r["cands"]:
            problems.append(f"case {cid}: no reachability witness for the end of any path")
    for e, r in spurious:
        problems.append(f"case {e['case']}: counterexample for {e['label']} does not reproduce on the real code "
                        f"({e['info']}; {r.get('error')}; assume_failed={r.get('assume_failed')})")
    if tier == "thorough":
        problems += [f"encoding mismatch: {m}" for m in mismatch]

    wall_s = time.time() - t0
    tot = lambda k: sum(r.get(k, 0) or 0 for r in res.values())
    fns = sorted({f for r in res.values() for f in r.get("functions", [])})
    fns = [f for f in fns if f.startswith(("yuca/", "gecco"))]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(wall_s, 2),
        "violations": violations,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + GENERAL,
        "coverage": {
            "explanation": "Symbolic execution of the functions listed under functions_encoded (from /repo's current "
                           "source, executed on symbolic tensors/scalars) and z3 verdicts over all values of the "
                           "symbolic inputs within the bounds: " + getattr(mod, "BOUNDS", ""),
            "cases": len(res), "cases_decided": sum(1 for r in res.values() if not r.get("error") and not r["inconclusive"]),
            "paths": tot("paths"), "infeasible_paths": tot("aborted"),
            "assertions_reached": tot("seen"), "assertions_sent_to_solver": tot("checks"),
            "assertions_constant_after_execution": tot("trivial"),
            "solver_queries": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"),
            "branch_feasibility_queries": tot("feas"), "solver_seconds": round(tot("solver_s"), 3),
            "witnesses_executed_on_real_code": validated, "encoding_mismatches": mismatch[:5],
            "functions_encoded": fns, "outside": getattr(mod, "OUTSIDE", ""),
            "samples": [{"case": c, "witness": s} for c, r in list(res.items())[:6] for s in r.get("samples", [])[:1]],
        },
    }
    os.makedirs(EVID, exist_ok=True)
    if not a.case:
        with open(os.path.join(EVID, pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1, default=str)
    if a.v:
        for cid, r in res.items():
            print(cid, {k: (round(v, 2) if isinstance(v, float) else v) for k, v in r.items()
                        if k in ("paths", "aborted", "checks", "trivial", "seen", "queries", "unknown", "solver_s", "wall", "error")},
                  [c[0] for c in r.get("cands", [])])
        print(mismatch)
    print(f"{pid} {tier}: {len(res)} cases, {tot('paths')} paths, {tot('seen')} assertions, {tot('queries')} queries, "
          f"{tot('solver_s'):.1f}s solver, {wall_s:.1f}s wall, {validated} witnesses replayed")
    for p in problems[:15]:
        print("INCONCLUSIVE:", p[:1500])
    if violations:
        return 1
    return 2 if problems else 0


GENERAL = [
    "Real arithmetic stands in for IEEE floats; assertions carry tolerances (about 1e-3) that absorb rounding.",
    "torch and numpy are replaced by element-wise models of the operations the code uses; witnesses of each run are "
    "executed on the real libraries and compared.",
    "Random draws are arbitrary values of their documented range, the same stream for the same seed.",
]


def validate(pid, cases, res, n):
    """run path witnesses on the fakes (concretely) and on the real code; compare everything the harness observes"""
    mod = importlib.import_module("harness." + pid)
    picks = []
    byid = dict(cases)
    n = int(os.environ.get("VERIF_WITNESSES", n))
    for cid, r in sorted(res.items(), key=lambda kv: list(byid).index(kv[0])):
        if r.get("wenv") is not None:
            picks.append({"property": pid, "case": cid, "label": "witness", "env": r["wenv"][0], "benv": r["wenv"][1],
                          "info": ""})
    if len(picks) > n:
        step = len(picks) / n
        picks = [picks[int(i * step)] for i in range(n)]
    if not picks:
        return 0, [], []
    real = replay(picks, trace=True)
    ok, mism, fails = 0, [], []
    for e, r in zip(picks, real):
        if r.get("error"):
            mism.append(f"{e['case']}: {r['error'][:300]}")
            continue
        if r["failures"]:
            fails.append((e, r))
            continue
        if r.get("assume_failed"):
            continue
        tr = fake_trace(mod, byid[e["case"]], e)
        d = diff_trace(tr, r.get("trace"))
        if d:
            mism.append(f"{e['case']}: {d}")
        else:
            ok += 1
    return ok, mism, fails


def fake_trace(mod, params, e):
    from engine import sym
    from engine.loader import Loader
    from engine.wbase import AssumeFailed, StopPath
    from engine.world import SymWorld
    sym.reset_state()
    w = SymWorld(None, e["env"], e["benv"])
    Loader(w)
    try:
        mod.run(w, **params)
    except (AssumeFailed, StopPath):
        pass
    except (Exception, SystemExit) as x:
        w.trace.append(("exception", repr(x)))
    return json.loads(json.dumps(w.trace))


def diff_trace(a, b):
    if b is None:
        return "no trace"
    if len(a) != len(b):
        return f"{len(a)} observations on the encoding, {len(b)} on the real code; last {a[-1:]} {b[-1:]}"
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return f"{x[0]} vs {y[0]}"
        if len(x) == 2:
            if x[1] != y[1]:
                return f"{x[0]}: {x[1]} vs {y[1]}"
        else:
            for u, v in zip(x[1], y[1]):
                if u is None or v is None:
                    continue
                if abs(u - v) > 2e-3 * max(1, abs(v)):
                    return f"{x[0]}: {u} (encoding) vs {v} (real)"
    return None


if __name__ == "__main__":
    sys.exit(main())
