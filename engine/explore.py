"""Path exploration by re-execution over decision prefixes."""
import os
import sys
import time
import traceback

from . import sym, smt
from .loader import Loader, SEEN, monitor
from .sym import Budget, PathAbort, SBool, SVal, Unsupported
from .wbase import Hang, StopPath, watch
from .world import SymWorld

sys.setrecursionlimit(20000)


class Candidate:
    def __init__(self, label, env, benv, info):
        self.label, self.env, self.benv, self.info = label, env, benv, info


class PathCtl:
    def __init__(self, prefix, ex):
        self.prefix = prefix
        self.ex = ex
        self.dec = []            # decisions taken
        self.d = smt.Decider(sym.ST, ex.stats, timeout=ex.qtimeout, seed=ex.seed)
        self.n_seen = 0
        self.folded = 0
        self.chunk = ex.chunk
        sym.ST.brancher = self.branch
        sym.ST.concretizer = self.concretize
        sym.ST.entails = lambda c: c is True or isinstance(c, SBool) and not self.d.feasible(sym.bnot(c))

    # -- decisions
    def branch(self, b):
        if not isinstance(b, SBool):
            return bool(b)
        i = len(self.dec)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            self.ex.tick()
            t = self.d.feasible(b)
            f = self.d.feasible(sym.bnot(b))
            if t and f:
                v = True
                self.ex.push(self.dec + [False])
            elif t:
                v = True
            elif f:
                v = False
            else:
                raise PathAbort()
        self.dec.append(v)
        self.d.add(b if v else sym.bnot(b))
        return v

    def concretize(self, p):
        lo, hi = sym.interval(p)
        import math
        if math.isfinite(lo) and math.isfinite(hi) and hi - lo <= 64:
            k = math.ceil(lo - 1e-9)
            while k <= hi + 1e-9:
                if self.branch(sym.cmp_("eq", p, float(k))):
                    return int(k)
                k += 1
            raise PathAbort()
        for _ in range(64):
            v = self.d.model_int(p)
            if v is None:
                raise PathAbort()
            if self.branch(sym.cmp_("eq", p, float(v))):
                return v
        raise Budget("concretisation budget")

    def assume(self, c):
        if isinstance(c, (bool,)) or not isinstance(c, SBool):
            if not c:
                raise PathAbort()
            return
        self.d.add(c)
        if len(self.dec) >= len(self.prefix):
            if not self.d.feasible(True):
                raise PathAbort()

    # -- checks
    def identity(self, pairs, tol):
        if len(self.dec) < len(self.prefix):
            return True
        self.ex.tick()
        self.ex.nchecks += 1
        return self.d.identity(pairs, tol)

    def check(self, c, label, info="", counted=False):
        if not counted:
            self.n_seen += 1
        if len(self.dec) < len(self.prefix):
            return               # decided on the path this one forked from
        self.ex.tick()
        if isinstance(c, SVal):
            c = sym.cmp_("ne", c, 0.0)
        if not isinstance(c, SBool):
            c = bool(c)
            if c:
                self.ex.trivial += 1
                return
        if self.ex.enough(label):
            return
        self.ex.nchecks += 1
        v = self.d.decide(sym.bnot(c) if isinstance(c, SBool) else True)
        if v.status == "unsat":
            return
        if v.status == "sat":
            for e, b in [(v.env, v.benv)] + v.more:
                self.ex.candidate(label, e, b, info)
            self.ex.found[label] = self.ex.found.get(label, 0) + 1
            if sum(self.ex.found.values()) >= 8:
                raise StopPath()
        else:
            self.ex.inconclusive.append((label, v.info + " " + info))


def full_env(env, benv):
    return (dict(env), {k: bool(v) for k, v in benv.items()})


class Explorer:
    def __init__(self, run, params, seed=1, max_paths=4000, wall=200.0, qtimeout=20.0, chunk=8):
        self.run_fn, self.params, self.seed = run, params, seed
        self.stats = smt.Stats()
        self.max_paths, self.wall, self.qtimeout, self.chunk = max_paths, wall, qtimeout, chunk
        self.stack = [[]]
        self.paths = 0
        self.aborted = 0
        self.nchecks = 0
        self.trivial = 0
        self.seen = 0
        self.cands = []
        self.found = {}
        self.inconclusive = []
        self.witness = False
        self.wenv = None
        self.samples = []

    def enough(self, label):
        """two violations of one assertion of a case are enough"""
        return self.found.get(label, 0) >= 2

    def tick(self):
        if time.time() - self.t0 > self.wall:
            raise Budget("case wall-clock budget")

    def push(self, p):
        self.stack.append(p)

    def candidate(self, label, env, benv, info):
        n = sum(1 for c in self.cands if c.label == label)
        if n < 6 and len(self.cands) < 24:
            self.cands.append(Candidate(label, dict(env or {}), dict(benv or {}), info))

    def explore(self):
        monitor()
        self.t0 = time.time()
        err = None
        try:
            while self.stack:
                if self.paths + self.aborted >= self.max_paths:
                    raise Budget("path budget")
                prefix = self.stack.pop()
                self.one(prefix)
                if sum(self.found.values()) >= 6 or len(self.cands) >= 24:
                    break
        except Budget as e:
            self.inconclusive.append(("budget", str(e)))
        except Unsupported as e:
            err = "unsupported: " + "".join(traceback.format_exception(e))[-1500:]
        return self.result(err)

    def one(self, prefix):
        sym.reset_state()
        ctl = PathCtl(prefix, self)
        w = SymWorld(ctl)
        Loader(w)
        try:
            watch(os.path.join(w.root, "yuca"), self.wall / 2)
            self.run_fn(w, **self.params)
            watch(None, 0)
        except Hang as e:
            watch(None, 0)
            self.stack = []
            v = ctl.d.decide(True)
            if v.status == "sat":
                self.candidate("does-not-end", v.env, v.benv, str(e))
            else:
                self.inconclusive.append(("does-not-end", str(e)))
            return
        except PathAbort:
            self.aborted += 1
            return
        except StopPath:
            pass
        except Unsupported:
            # code may only reach unmodelled operations on infeasible paths
            v = ctl.d.decide(True)
            if v.status == "unsat":
                self.aborted += 1
                return
            raise
        except (Exception, SystemExit) as e:
            self.paths += 1
            v = ctl.d.decide(True)
            if v.status == "unsat":
                self.paths -= 1
                self.aborted += 1
                return
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-4:])
            info = f"{type(e).__name__}: {str(e)[:200]} at {where}"
            if v.status == "sat":
                self.candidate("exception:" + type(e).__name__, v.env, v.benv, info)
            else:
                self.inconclusive.append(("exception:" + type(e).__name__, info))
            return
        self.paths += 1
        self.seen += ctl.n_seen
        if not self.witness:
            v = ctl.d.decide(True)
            if v.status == "sat":
                self.witness = True
                self.wenv = (full_env(v.env or {}, v.benv or {}))
                self.samples.append({k: round(float(x), 5) for k, x in list((v.env or {}).items())[:6]})

    def result(self, err):
        return {"paths": self.paths, "aborted": self.aborted, "checks": self.nchecks, "trivial": self.trivial,
                "seen": self.seen, "witness": self.witness, "queries": self.stats.queries, "unsat": self.stats.unsat,
                "sat": self.stats.sat, "unknown": self.stats.unknown, "feas": self.stats.feas,
                "solver_s": self.stats.time, "wall": time.time() - self.t0,
                "refinements": self.stats.refinements,
                "wenv": self.wenv, "cands": [(c.label, c.env, c.benv, str(c.info)) for c in self.cands],
                "inconclusive": self.inconclusive[:10], "error": err, "samples": self.samples,
                "functions": sorted(f"{a}:{b}" for a, b in SEEN)}
