"""SMT encoding of symbolic scalars and the decision procedure.

Two encodings of the same formulas:
  lin   : every non-linear monomial / non-polynomial atom is an opaque real with
          sound linear lemmas (intervals, McCormick envelopes, tangents).
          unsat here => unsat.
  exact : monomials are products; inv/sqrt are defined by their polynomial
          equations; exp/log/sin/cos/tanh stay opaque with sound lemmas that
          are refined at model points (CEGAR).
A `sat` answer only counts as a counterexample when the numeric evaluation
(IEEE double, real exp/sin/...) of path condition and negated check confirms
it; otherwise lemmas are added and the query is repeated.
"""
import math
import random
import time
from fractions import Fraction

import z3

from . import sym
from .sym import SVal, SBool, INF, Eval


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.refinements = 0
        self.feas = 0


def rv(x):
    x = float(x)
    if x == int(x) and abs(x) < 1e15:
        return z3.RealVal(int(x))
    f = Fraction(repr(x))
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


class Enc:
    def __init__(self, st, exact, sink, depth=None):
        self.st = st
        self.exact = exact
        self.sink = sink          # callable(z3 expr): adds a background constraint
        self.depth = depth        # abstraction: atoms nested deeper than this are opaque
        self.at = {}
        self.mo = {}
        self.im = {}
        self.bc = {}
        self.pc = {}
        self.fn_atoms = []
        self.keep = []
        self.nested = 0

    # -- atoms
    def atom(self, aid):
        if aid in self.at:
            return self.at[aid]
        a = self.st.atoms[aid]
        if a.kind == "ind" and self.depth is not None and self.depth <= 0:
            v = z3.Real(f"a{aid}")
            self.at[aid] = v
            self.sink(v >= 0)
            self.sink(v <= 1)
            return v
        if a.kind == "ind":
            v = z3.If(self.boolean(a.args[0]), z3.RealVal(1), z3.RealVal(0))
            self.at[aid] = v
            return v
        if a.isint:
            iv = z3.Int(f"a{aid}")
            v = z3.ToReal(iv)
        else:
            v = z3.Real(f"a{aid}")
        self.at[aid] = v
        add = self.sink
        if self.depth is not None:
            if self.depth <= 0:
                if a.lo > -INF:
                    add(v >= rv(a.lo))
                if a.hi < INF:
                    add(v <= rv(a.hi))
                return v
            self.depth -= 1
            self.nested += 1
            try:
                return self._define(aid, a, v)
            finally:
                self.depth += 1
                self.nested -= 1
        return self._define(aid, a, v)

    def _define(self, aid, a, v):
        add = self.sink
        if a.kind != "max" and a.lo > -INF:
            add(v >= rv(a.lo))
        if a.kind != "max" and a.hi < INF:
            add(v <= rv(a.hi))
        k = a.kind
        if k == "var":
            pass
        elif k == "max":
            p, q = self.poly(a.args[0]), self.poly(a.args[1])
            add(v == z3.If(p >= q, p, q))
            if a.lo > -INF:
                add(v >= rv(a.lo))
            if a.hi < INF:
                add(v <= rv(a.hi))
        elif k in ("ite", "iten"):
            add(v == z3.If(self.boolean(a.args[0]), self.poly(a.args[1]), self.poly(a.args[2])))
        elif k == "def":
            add(v == self.poly(a.args[0]))
        elif k == "floor":
            p = self.poly(a.args[0])
            add(v <= p)
            add(p < v + 1)
        elif k == "inv":
            q = self.poly(a.args[0])
            if self.exact:
                add(z3.Or(q == 0, v * q == 1))
            lo, hi = sym.interval(a.args[0])
            if not self.exact and self.depth is None and len(a.args[0].t) <= 300:
                # the defining equation over expanded monomials: linear in them
                pr = a.args[0] * sym.poly_atom(a)
                e = self.poly(pr) == 1
                add(e if lo > 0 or hi < 0 else z3.Or(q == 0, e))
            add(z3.Implies(q > 0, v > 0))
            add(z3.Implies(q < 0, v < 0))
            if lo > 0 or hi < 0:
                # tangents of the convex branch at the ends and the chord
                s = 1.0 if lo > 0 else -1.0
                pts = [x for x in (lo, hi) if math.isfinite(x)]
                for x in pts:
                    if abs(x) > 1e-12:
                        t = rv(2.0 / x) - rv(1.0 / (x * x)) * q
                        add(v >= t - rv(abs(1e-9 / x)) if s > 0 else v <= t + rv(abs(1e-9 / x)))
                if len(pts) == 2 and hi > lo and abs(lo) > 1e-12 and abs(hi) > 1e-12:
                    m = (1.0 / hi - 1.0 / lo) / (hi - lo)
                    ch = rv(1.0 / lo) + rv(m) * (q - rv(lo))
                    e = rv(1e-9 * abs(1.0 / lo))
                    add(v <= ch + e if s > 0 else v >= ch - e)
            self.fn_atoms.append(aid)
        elif k == "sqrt":
            q = self.poly(a.args[0])
            add(v >= 0)
            if self.exact:
                add(z3.Or(q < 0, v * v == q))
            add(z3.Implies(q > 0, v > 0))
            add(z3.Implies(q == 0, v == 0))
            add(z3.Implies(q >= 0, v <= (q + 1) / 2))
            add(z3.Implies(z3.And(q >= 0, q <= 1), v >= q))
            self.fn_atoms.append(aid)
        elif k == "exp":
            t = self.poly(a.args[0])
            add(v >= 0)
            add(v >= 1 + t)
            add(z3.Implies(t <= 0, v <= 1))
            add(z3.Implies(t >= 0, v >= 1))
            add(z3.Implies(t <= -1, v <= rv(0.36788)))
            add(z3.Implies(t <= -3, v <= rv(0.049788)))
            add(z3.Implies(t <= -10, v <= rv(4.54e-5)))
            add(z3.Implies(t <= -20, v <= rv(2.0612e-9)))
            add(z3.Implies(t >= 3, v >= rv(20.085)))
            add(z3.Implies(t >= 10, v >= rv(22026)))
            add(z3.Implies(t >= 20, v >= rv(4.8e8)))
            self.fn_atoms.append(aid)
        elif k == "log":
            t = self.poly(a.args[0])
            add(z3.Implies(t > 0, v <= t - 1))
            add(z3.Implies(t >= 1, v >= 0))
            add(z3.Implies(z3.And(t > 0, t <= 1), v <= 0))
            self.fn_atoms.append(aid)
        elif k == "tanh":
            t = self.poly(a.args[0])
            add(z3.Implies(t >= 0, z3.And(v >= 0, v <= t)))
            add(z3.Implies(t <= 0, z3.And(v <= 0, v >= t)))
            add(v < 1)
            add(v > -1)
            self.fn_atoms.append(aid)
        elif k in ("sin", "cos", "atan"):
            self.poly(a.args[0])
            self.fn_atoms.append(aid)
        else:
            raise sym.Unsupported("encode atom " + k)
        return v

    def mono(self, m):
        if m in self.mo:
            return self.mo[m]
        if m in self.im:
            return self.im[m]
        ind = [a for a, _ in m if self.st.atoms[a].kind == "ind"]
        if ind and not (self.depth is not None and self.depth <= 0):
            cs = [self.boolean(self.st.atoms[a].args[0]) for a in ind]
            c = cs[0] if len(cs) == 1 else z3.And(cs)
            rest = tuple(x for x in m if x[0] not in ind)
            v = z3.If(c, self.mono(rest) if rest else z3.RealVal(1), z3.RealVal(0))
            self.im[m] = v
            return v
        if len(m) == 1 and m[0][1] == 1:
            v = self.atom(m[0][0])
        elif self.exact:
            v = None
            for aid, e in m:
                x = self.atom(aid)
                for _ in range(e):
                    v = x if v is None else v * x
        else:
            v = z3.Real("m" + "_".join(f"{a}^{e}" for a, e in m))
            self.mo[m] = v
            lo, hi = sym.mono_interval(m)
            lo, hi = sym.slack(lo, hi)
            if lo > -INF:
                self.sink(v >= rv(lo))
            if hi < INF:
                self.sink(v <= rv(hi))
            # McCormick on a split m = x * rest
            fl = [a for a, e in m for _ in range(e)]
            if len(fl) <= 5 and self.depth is None:
                x = self.atom(fl[0])
                rest = tuple(fl[1:])
                d = {}
                for a in rest:
                    d[a] = d.get(a, 0) + 1
                rm = tuple(sorted(d.items()))
                y = self.mono(rm)
                xa = self.st.atoms[fl[0]]
                yl, yh = sym.mono_interval(rm)
                xl, xh = xa.lo, xa.hi
                if math.isfinite(xl) and math.isfinite(yl) and math.isfinite(xl * yl):
                    self.sink(v >= rv(xl) * y + rv(yl) * x - rv(xl * yl))
                if math.isfinite(xh) and math.isfinite(yh) and math.isfinite(xh * yh):
                    self.sink(v >= rv(xh) * y + rv(yh) * x - rv(xh * yh))
                if math.isfinite(xh) and math.isfinite(yl) and math.isfinite(xh * yl):
                    self.sink(v <= rv(xh) * y + rv(yl) * x - rv(xh * yl))
                if math.isfinite(xl) and math.isfinite(yh) and math.isfinite(xl * yh):
                    self.sink(v <= rv(xl) * y + rv(yh) * x - rv(xl * yh))
                if len(m) == 1 and m[0][1] % 2 == 0:
                    self.sink(v >= 0)
                if len(m) == 2 and all(e == 1 for _, e in m):
                    # x * inv(x-ish) relations
                    A, B = self.st.atoms[m[0][0]], self.st.atoms[m[1][0]]
                    for P, Q in ((A, B), (B, A)):
                        if Q.kind == "inv" and len(Q.args[0].t) <= 6:
                            pass
        self.mo[m] = v
        return v

    def poly(self, p):
        if isinstance(p, SBool):
            return z3.If(self.boolean(p), z3.RealVal(1), z3.RealVal(0))
        if not isinstance(p, SVal):
            return rv(p)
        k = id(p)
        if k in self.pc:
            return self.pc[k]
        if self.depth is not None and self.nested and len(p.t) > 24:
            r = z3.Real(f"p{len(self.pc)}")
            lo, hi = sym.slack(*sym.interval(p))
            if lo > -INF:
                self.sink(r >= rv(lo))
            if hi < INF:
                self.sink(r <= rv(hi))
            self.pc[k] = r
            self.keep.append(p)
            return r
        ts = []
        for m, c in p.t.items():
            if not m:
                ts.append(rv(c))
            elif c == 1.0:
                ts.append(self.mono(m))
            else:
                ts.append(rv(c) * self.mono(m))
        r = ts[0] if len(ts) == 1 else z3.Sum(ts)
        self.pc[k] = r
        self.keep.append(p)
        return r

    def boolean(self, b):
        if not isinstance(b, SBool):
            return z3.BoolVal(bool(b))
        k = id(b)
        if k in self.bc:
            return self.bc[k]
        o = b.op
        if o == "lt0":
            r = self.poly(b.args[0]) < 0
        elif o == "le0":
            r = self.poly(b.args[0]) <= 0
        elif o == "eq0":
            r = self.poly(b.args[0]) == 0
        elif o == "and":
            r = z3.And([self.boolean(x) for x in b.args])
        elif o == "or":
            r = z3.Or([self.boolean(x) for x in b.args])
        elif o == "not":
            r = z3.Not(self.boolean(b.args[0]))
        elif o == "iff":
            r = self.boolean(b.args[0]) == self.boolean(b.args[1])
        elif o == "bvar":
            r = z3.Bool(b.args[0])
        else:
            raise sym.Unsupported(o)
        self.bc[k] = r
        self.keep.append(b)
        return r


def val2float(v):
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        w = v.approx(20)
        return float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
    return 0.0


class Verdict:
    def __init__(self, status, env=None, benv=None, info="", more=()):
        self.status = status     # 'unsat' | 'sat' | 'unknown'
        self.env = env
        self.benv = benv
        self.info = info
        self.more = list(more)   # further confirmed models


class Decider:
    """one symbolic path: assertions in, verdicts out"""

    def __init__(self, st, stats, timeout=20.0, seed=1):
        self.st = st
        self.stats = stats
        self.timeout = timeout
        self.lin = z3.Solver()
        self.lin.set("random_seed", 1)
        self.encl = Enc(st, False, self.lin.add)
        self.conds = []
        self.exact = None
        self.ence = None
        self.rng = random.Random(seed)
        self.lemmas = set()
        self.lp = None

    def add(self, b):
        self.conds.append(b)
        self.lin.add(self.encl.boolean(b))
        if self.exact is not None:
            self.exact.add(self.ence.boolean(b))

    def _check(self, solver, timeout):
        solver.set("timeout", int(max(timeout, 0.2) * 1000))
        t = time.time()
        r = solver.check()
        self.stats.time += time.time() - t
        return str(r)

    def feasible(self, extra):
        """False only if path+extra is certainly infeasible"""
        self.stats.feas += 1
        e = self.encl.boolean(extra)
        self.lin.push()
        self.lin.add(e)
        r = self._check(self.lin, 5.0)
        self.lin.pop()
        return r != "unsat"

    def model_int(self, p):
        e = self.encl.poly(p)
        r = self._check(self.lin, 5.0)
        if r != "sat":
            return None
        return int(round(val2float(self.lin.model().eval(e, model_completion=True))))

    def _exact(self):
        if self.exact is None:
            self.exact = z3.Solver()
            self.exact.set("random_seed", 1)
            self.ence = Enc(self.st, True, self.exact.add)
            for c in self.conds:
                self.exact.add(self.ence.boolean(c))
        return self.exact

    # -- lemma at a model point
    def _refine(self, enc, solver, model):
        n = 0
        for aid in list(enc.fn_atoms):
            a = self.st.atoms[aid]
            v = enc.at[aid]
            targ = enc.poly(a.args[0])
            try:
                x = val2float(model.eval(targ, model_completion=True))
                y = val2float(model.eval(v, model_completion=True))
            except Exception:
                continue
            f = {"exp": sym._mexp, "log": lambda x: math.log(x) if x > 0 else None,
                 "sqrt": lambda x: math.sqrt(x) if x >= 0 else None,
                 "sin": math.sin, "cos": math.cos, "tanh": math.tanh, "atan": math.atan,
                 "inv": lambda x: 1.0 / x if x else None}[a.kind]
            fx = f(x)
            if fx is None or not math.isfinite(fx):
                if a.kind == "exp" and x > 500:
                    solver.add(z3.Implies(targ >= rv(500.0), v >= rv(1e200)))
                    n += 1
                continue
            if abs(fx - y) <= 1e-9 * (1 + abs(fx)):
                continue
            w = max(0.01, 0.02 * abs(x))
            key = (aid, enc.exact, round(x, 4))
            if key in self.lemmas:
                w = w / 16
            self.lemmas.add(key)
            for l in self._lemma(a.kind, targ, v, x, fx, y, w, a):
                solver.add(l)
                n += 1
        return n

    def _reach(self, solver, t, x, up, end):
        """a value the term provably does not pass under the current constraints (or None), close to the largest reachable"""
        d, s = 0.01 + 0.02 * abs(x), 1.0 if up else -1.0

        def passes(u):
            self.stats.queries += 1
            solver.push()
            try:
                solver.add(t > rv(u) if up else t < rv(u))
                r = self._check(solver, 0.4)
                if r == "sat":
                    self.stats.sat += 1
                    return val2float(solver.model().eval(t, model_completion=True))
            finally:
                solver.pop()
            if r == "unsat":
                self.stats.unsat += 1
                return None
            self.stats.unknown += 1
            return u if time.time() < end else math.nan
        good = None
        for _ in range(14):
            if time.time() > end:
                return good
            u = x + s * d
            got = passes(u)
            if got is None:
                good = u
                break
            if got != got:
                return None
            x, d = got, d * 2
        if good is not None and d > 0.05 * (1 + abs(x)):
            for _ in range(4):
                if time.time() > end:
                    break
                u = (x + good) / 2
                got = passes(u)
                if got is None:
                    good = u
                elif got != got:
                    break
                else:
                    x = got
        return good

    def _tighten(self, enc, solver, env, budget):
        """bounds of opaque function values from the range of their arguments under the path condition (all other atoms opaque)"""
        end, n = time.time() + budget, 0
        if len(enc.fn_atoms) > 24:
            return 0
        if self.lp is None or self.lp[2] != len(self.conds):
            lp = z3.Solver()
            le = Enc(self.st, False, lp.add, depth=0)
            for c in self.conds:
                lp.add(le.boolean(c))
            self.lp = (lp, le, len(self.conds), {})
        lp, le, _, known = self.lp
        ev = Eval(env[0], env[1], self.st)
        for aid in sorted(enc.fn_atoms):
            a = self.st.atoms[aid]
            if a.kind not in ("exp", "tanh", "log", "sqrt", "atan", "inv"):
                continue
            if aid not in known:
                if time.time() > end:
                    continue
                known[aid] = b = []
                t, lv = le.poly(a.args[0]), le.atom(aid)
                try:
                    x = ev.p(a.args[0])
                    lo, hi = self._reach(lp, t, x, False, end), self._reach(lp, t, x, True, end)
                    f = {"exp": sym._mexp, "log": math.log, "sqrt": math.sqrt, "tanh": math.tanh, "atan": math.atan,
                         "inv": lambda z: 1.0 / z}[a.kind]
                    pos = lambda z: z is not None and (a.kind not in ("log", "sqrt", "inv") or z > 0)
                    if a.kind == "inv":
                        if pos(lo):
                            b.append((-1, f(lo)))
                            if hi is not None:
                                b.append((1, f(hi)))
                        elif hi is not None and hi < 0:
                            b.append((1, f(hi)))
                            if lo is not None:
                                b.append((-1, f(lo)))
                    else:
                        if pos(lo):
                            b.append((1, f(lo)))
                        if pos(hi):
                            b.append((-1, f(hi)))
                except (OverflowError, ValueError, ZeroDivisionError):
                    pass
                b[:] = [(s, y - s * (1e-9 * abs(y) + 1e-300)) for s, y in b if math.isfinite(y)]
                for s, y in b:
                    lp.add(lv >= rv(y) if s > 0 else lv <= rv(y))
            v = enc.at[aid]
            for s, y in known[aid]:
                solver.add(v >= rv(y) if s > 0 else v <= rv(y))
                n += 1
        return n

    def _lemma(self, kind, t, v, x, fx, y, w, a):
        T = rv(x)
        out = []
        eps = 1e-11 * (1 + abs(fx))
        if kind in ("exp", "tanh", "atan", "log", "sqrt"):
            # monotone increasing
            out.append(z3.Implies(t <= T, v <= rv(fx + eps)))
            out.append(z3.Implies(t >= T, v >= rv(fx - eps)))
        f = {"exp": sym._mexp, "log": lambda z: math.log(z), "sqrt": lambda z: math.sqrt(max(z, 0)),
             "sin": math.sin, "cos": math.cos, "tanh": math.tanh, "atan": math.atan,
             "inv": lambda z: 1.0 / z}[kind]
        if kind == "exp":
            if -600 < x < 500:
                out.append(v >= rv(fx - eps) + rv(fx) * (t - T))
        if kind in ("log",) and x > 0:
            out.append(z3.Implies(t > 0, v <= rv(fx + eps) + rv(1 / x) * (t - T)))
        if kind == "sqrt" and x > 0:
            out.append(z3.Implies(t >= 0, v <= rv(fx + eps) + rv(0.5 / fx) * (t - T)))
        # chord band on [x-w, x+w] with second-derivative bound
        l, h = x - w, x + w
        if kind in ("log", "sqrt") and l <= 0:
            l = x / 2
        if kind == "inv":
            if x > 0 and l <= 0:
                l = x / 2
            if x < 0 and h >= 0:
                h = x / 2
        if l < h:
            try:
                m = (f(h) - f(l)) / (h - l)
                abs(f(h)) * (h - l) ** 2, min(abs(l), abs(h)) ** 3
            except OverflowError:
                return out
            if kind == "inv" and not min(abs(l), abs(h)) ** 3:
                return out
            d2 = {"exp": lambda: f(h), "log": lambda: 1 / (l * l), "sqrt": lambda: 0.25 * l ** -1.5 if l > 0 else 1e9,
                  "sin": lambda: 1.0, "cos": lambda: 1.0, "tanh": lambda: 0.77, "atan": lambda: 0.65,
                  "inv": lambda: 2.0 / min(abs(l), abs(h)) ** 3}[kind]()
            band = d2 * (h - l) ** 2 / 8 + eps
            ch = rv(f(l)) + rv(m) * (t - rv(l))
            inside = z3.And(t >= rv(l), t <= rv(h))
            if kind in ("exp",) or (kind == "inv" and x > 0):
                out.append(z3.Implies(inside, z3.And(v <= ch + rv(eps), v >= ch - rv(band))))
            elif kind in ("log", "sqrt") or (kind == "inv" and x < 0):
                out.append(z3.Implies(inside, z3.And(v >= ch - rv(eps), v <= ch + rv(band))))
            else:
                out.append(z3.Implies(inside, z3.And(v <= ch + rv(band), v >= ch - rv(band))))
        return out

    # -- extraction / numeric confirmation
    def _envs(self, enc, model):
        env, benv = {}, {}
        for name, a in self.st.vars.items():
            if a.id in enc.at:
                x = val2float(model.eval(enc.at[a.id], model_completion=True))
            else:
                lo = a.lo if a.lo != -INF else (a.hi - 1 if a.hi != INF else 0.0)
                hi = a.hi if a.hi != INF else lo + 1
                x = min(max(0.0, lo), hi)
            env[name] = x
        for name, b in self.st.boolvars.items():
            benv[name] = z3.is_true(model.eval(z3.Bool(name), model_completion=True))
        return env, benv

    def _confirm(self, env, benv, neg):
        ev = Eval(env, benv, self.st)
        try:
            return all(ev.b(c) for c in self.conds) and ev.b(neg)
        except (OverflowError, ValueError, ZeroDivisionError):
            return False

    def _perturb(self, env, benv, neg, n=60):
        """look for a numerically confirmed violation near / away from a model"""
        names = [a for a in self.st.vars.values()]
        for i in range(n):
            e2 = dict(env)
            frac = self.rng.choice([0.05, 0.3, 1.0])
            for a in names:
                if self.rng.random() < frac:
                    lo = a.lo if a.lo > -INF else env[a.name] - 2
                    hi = a.hi if a.hi < INF else env[a.name] + 2
                    mode = self.rng.random()
                    if a.isint:
                        e2[a.name] = float(self.rng.randint(int(math.ceil(lo)), int(math.floor(hi))))
                    elif mode < 0.5:
                        e2[a.name] = lo + (hi - lo) * self.rng.random()
                    elif mode < 0.8:
                        x = env[a.name] + (hi - lo) * 0.05 * self.rng.gauss(0, 1)
                        e2[a.name] = min(max(x, lo), hi)
                    else:
                        e2[a.name] = self.rng.choice([lo, hi])
            b2 = {k: (v if self.rng.random() > 0.3 else self.rng.random() < 0.5) for k, v in benv.items()}
            if self._confirm(e2, b2, neg):
                return e2, b2
        return None

    def _models(self, env, benv, neg, info="", budget=1.5):
        """a confirmed model and, within a small budget, confirmed variants of it that survive float rounding better:
        rounded values, and models found away from the boundary the solver likes to sit on"""
        t0 = time.time()
        more = []
        vs = list(self.st.vars.values())
        fix = lambda a, x: min(max(x, a.lo), a.hi)
        for q in (1.0, 4.0, 64.0, 4096.0):
            e2 = {a.name: fix(a, round(env[a.name] * q) / q) if not a.isint else env[a.name] for a in vs}
            if e2 != env and self._confirm(e2, benv, neg):
                more.append((e2, benv))
                break
        best = []
        for scale in (0.3, 0.1, 0.03, 0.01, 1e-3):
            for _ in range(12):
                if time.time() - t0 > budget:
                    break
                e2 = {}
                for a in vs:
                    x = env[a.name]
                    if not a.isint:
                        w = (a.hi - a.lo) if a.lo > -INF and a.hi < INF else 2.0
                        x = fix(a, x + scale * w * self.rng.uniform(-1, 1))
                    e2[a.name] = x
                if self._confirm(e2, benv, neg):
                    best.append((e2, benv))
                    break
            if len(best) >= 2:
                break
        return Verdict("sat", env, benv, info, (more + best)[:4])

    def identity(self, pairs, tol):
        """pairs whose difference the term normaliser already cancelled: the solver
        confirms |a-b| <= tol for all values of the atoms' monomials"""
        s = z3.Solver()
        vs = {}
        st = self.st

        def mono(m):
            if m not in vs:
                v = z3.Real("q%d" % len(vs))
                vs[m] = v
                lo, hi = sym.slack(*sym.mono_interval(m))
                if lo > -INF:
                    s.add(v >= rv(lo))
                if hi < INF:
                    s.add(v <= rv(hi))
            return vs[m]

        def enc(p, like):
            if not isinstance(p, SVal):
                return rv(p)
            ts = []
            for m, c in p.t.items():
                d = like.t.get(m) if isinstance(like, SVal) else None
                if d is not None and d != c and abs(c - d) <= 1e-12 * max(abs(c), abs(d)):
                    c = d
                ts.append(rv(c) if not m else rv(c) * mono(m))
            return ts[0] if len(ts) == 1 else z3.Sum(ts)
        t = rv(tol)
        ds = []
        for a, b in pairs:
            d = enc(a, b) - enc(b, None)
            ds.append(z3.Or(d > t, d < -t))
        s.add(z3.Or(ds))
        self.stats.queries += 1
        r = self._check(s, self.timeout)
        if r == "unsat":
            self.stats.unsat += 1
            return True
        self.stats.unknown += 1
        return False

    def _disjuncts(self, b):
        out, todo = [], [b]
        while todo:
            x = todo.pop()
            if isinstance(x, SBool) and x.op == "or":
                todo.extend(x.args)
            elif isinstance(x, SBool) and x.op == "not" and isinstance(x.args[0], SBool) and x.args[0].op == "and":
                todo.extend(sym.bnot(y) for y in x.args[0].args)
            else:
                out.append(x)
        return out

    def _parts(self, parts):
        """the disjuncts one at a time, everything below the top opaque; gives up at the first that stays satisfiable"""
        for x in parts:
            if x is False:
                continue
            if x is True:
                return False
            s = z3.Solver()
            e = Enc(self.st, False, s.add, depth=0)
            try:
                s.add(e.boolean(x))
            except sym.Unsupported:
                return False
            self.stats.queries += 1
            r = self._check(s, min(5.0, self.timeout))
            if r != "unsat":
                if r == "sat":
                    self.stats.sat += 1
                else:
                    self.stats.unknown += 1
                return False
            self.stats.unsat += 1
        return True

    def _abstract(self, neg):
        """unsat of a coarse abstraction (terms below depth d opaque but for their derived ranges, path condition dropped)"""
        if not isinstance(neg, SBool):
            return False
        parts = self._disjuncts(neg)
        if len(parts) > 4 and self._parts(parts):
            return True
        for d in (0, 1, 2):
            s = z3.Solver()
            e = Enc(self.st, False, s.add, depth=d)
            try:
                s.add(e.boolean(neg))
            except sym.Unsupported:
                return False
            self.stats.queries += 1
            r = self._check(s, min(2.0, self.timeout))
            if r == "unsat":
                self.stats.unsat += 1
                return True
            if r == "sat":
                self.stats.sat += 1
            else:
                self.stats.unknown += 1
        return False

    def _guess(self, neg, n=24):
        """cheap numeric search for a model"""
        env = {}
        for a in self.st.vars.values():
            lo = a.lo if a.lo > -INF else (a.hi - 1 if a.hi < INF else -1.0)
            hi = a.hi if a.hi < INF else lo + 2.0
            m = 0.37 * hi + 0.63 * lo
            env[a.name] = float(round(m)) if a.isint else m
        benv = {k: False for k in self.st.boolvars}
        if self._confirm(env, benv, neg):
            return env, benv
        return self._perturb(env, benv, neg, n)

    def decide(self, neg, rounds=12):
        """is path /\\ neg satisfiable?"""
        if neg is False:
            self.stats.queries += 1
            # still discharged by the solver, on the folded formula
            s = z3.Solver()
            s.add(z3.BoolVal(False))
            self._check(s, 1.0)
            self.stats.unsat += 1
            return Verdict("unsat")
        if neg is True:
            got = self._guess(True)
            if got:
                return Verdict("sat", got[0], got[1], "numeric witness")
        if self._abstract(neg):
            return Verdict("unsat")
        if neg is not True:
            got = self._guess(neg, 12)
            if got:
                return self._models(got[0], got[1], neg, "numeric model")
        deadline = time.time() + self.timeout
        negz = self.encl.boolean(neg)
        last = ""
        for enc_kind in ("lin", "exact"):
            if enc_kind == "lin":
                solver, enc = self.lin, self.encl
                z = negz
            else:
                if not self._needs_exact():
                    continue
                solver = self._exact()
                enc = self.ence
                z = enc.boolean(neg)
            solver.push()
            solver.add(z)
            try:
                for r_i in range(3 * rounds if enc_kind == "exact" else rounds if not self._needs_exact() else 4):
                    left = deadline - time.time()
                    if left <= 0:
                        break
                    self.stats.queries += 1
                    r = self._check(solver, min(left, self.timeout * (0.4 if enc_kind == "lin" else 1)))
                    if r == "unsat":
                        self.stats.unsat += 1
                        return Verdict("unsat")
                    if r == "unknown":
                        self.stats.unknown += 1
                        last = f"{enc_kind}: unknown ({solver.reason_unknown()})"
                        break
                    self.stats.sat += 1
                    model = solver.model()
                    env, benv = self._envs(enc, model)
                    if self._confirm(env, benv, neg):
                        return self._models(env, benv, neg)
                    got = self._perturb(env, benv, neg)
                    if got:
                        return self._models(got[0], got[1], neg, "perturbed model")
                    n = self._refine(enc, solver, model)
                    if r_i == 1:
                        n += self._tighten(enc, solver, (env, benv), min(5.0, 0.3 * left))
                    self.stats.refinements += n
                    last = f"{enc_kind}: spurious model"
                    if n == 0:
                        break
            finally:
                solver.pop()
        return Verdict("unknown", info=last)

    def _needs_exact(self):
        return any(not (len(m) == 1 and m[0][1] == 1) for m in self.encl.mo) or \
            any(self.st.atoms[a].kind in ("inv", "sqrt") for a in self.encl.fn_atoms)
