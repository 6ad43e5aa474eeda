"""Translation of symbolic terms to z3 and the decision queries."""
from __future__ import annotations

import os
import subprocess
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import sym as S  # noqa: E402
from .sym import Sym, SymBool  # noqa: E402

z3.set_param("memory_max_size", 6000)

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "crosschecked": 0}

UF = ("inv", "pow", "exp", "log", "atan", "floor", "sqrt", "tanh")

PI_LO = Fraction(3141592653589793, 10**15)
PI_HI = Fraction(3141592653589794, 10**15)


def rv(f: Fraction):
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def _is_zero(e):
    s = z3.simplify(e, som=True, mul2concat=False) if False else z3.simplify(e, som=True)
    return z3.is_rational_value(s) and s.numerator_as_long() == 0


class Translator:
    """Sym DAG -> z3, function applications replaced by fresh reals plus lemmas."""

    def __init__(self, snap=None):
        self.memo = {}
        self.apps = {}  # op -> list of (zargs, zvar, node)
        self.lemmas = []
        self.vars = {}
        self.snap = snap
        self.intvars = set()

    def const(self, f):
        if self.snap and f.denominator != 1:
            f = Fraction(("%." + str(self.snap) + "g") % float(f))
        return rv(f)

    def term(self, root):
        for n in S.postorder([root]):
            if n.id not in self.memo:
                self.memo[n.id] = self._node(n)
        return self.memo[root.id]

    def _node(self, n):
        a = [self.memo[x.id] if isinstance(x, (Sym, SymBool)) else x for x in n.args]
        o = n.op
        if o == "const":
            return self.const(a[0])
        if o == "var":
            v = self.vars.get(a[0])
            if v is None:
                v = self.vars[a[0]] = z3.Real(a[0])
            return v
        if o == "add":
            return a[0] + a[1]
        if o == "mul":
            return a[0] * a[1]
        if o == "ite":
            return z3.If(a[0], a[1], a[2])
        if o == "le":
            return a[0] <= a[1]
        if o == "lt":
            return a[0] < a[1]
        if o == "eq":
            return a[0] == a[1]
        if o == "and":
            return z3.And(*a)
        if o == "or":
            return z3.Or(*a)
        if o == "not":
            return z3.Not(a[0])
        if o == "bconst":
            return z3.BoolVal(a[0])
        if o in UF:
            return self._app(o, a, n)
        raise KeyError(o)

    def _app(self, o, a, n):
        lst = self.apps.setdefault(o, [])
        for za, zv, _ in lst:
            if all(_is_zero(x - y) for x, y in zip(za, a)):
                return zv
        if o == "floor":
            iv = z3.Int(f"floor!{n.id}")
            v = z3.ToReal(iv)
        else:
            v = z3.Real(f"{o}!{n.id}")
        new = (a, v, n)
        self._lemma(o, a, v, n)
        for old in lst:
            self._pair(o, old, new)
        lst.append(new)
        return v

    def _lemma(self, o, a, v, n):
        L = self.lemmas
        x = a[0]
        if o == "inv":
            L.append(x * v == 1)
        elif o == "exp":
            L += [v > 0, v >= 1 + x]
        elif o == "log":
            L += [z3.Implies(x > 0, v <= x - 1), z3.Implies(x > 1, v > 0), z3.Implies(z3.And(x > 0, x < 1), v < 0),
                  z3.Implies(x == 1, v == 0)]
            if n.args[0].op == "const":
                import math

                f = Fraction(math.log(float(n.args[0].args[0])))
                e = abs(f) * Fraction(1, 10**14)
                L += [v >= rv(f - e), v <= rv(f + e)]
        elif o == "atan":
            pi2lo, pi2hi = rv(PI_LO / 2), rv(PI_HI / 2)
            L += [v < pi2hi, v > -pi2hi,
                  z3.Implies(x > 0, z3.And(v > 0, v < x)), z3.Implies(x < 0, z3.And(v < 0, v > x)), z3.Implies(x == 0, v == 0)]
        elif o == "floor":
            L += [v <= x, x < v + 1]
        elif o == "sqrt":
            L += [z3.Implies(x >= 0, z3.And(v >= 0, v * v == x))]
        elif o == "tanh":
            L += [v < 1, v > -1, z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
        elif o == "pow":
            y = a[1]
            L += [z3.Implies(x > 0, v > 0), z3.Implies(z3.And(x == 0, y > 0), v == 0), z3.Implies(x == 1, v == 1),
                  z3.Implies(z3.And(y == 0, x != 0), v == 1), z3.Implies(y == 1, v == x)]
            if n.args[0].op == "const" and n.args[1].op == "const":
                f = Fraction(float(n.args[0].args[0]) ** float(n.args[1].args[0]))
                e = abs(f) * Fraction(1, 10**13)
                L += [v >= rv(f - e), v <= rv(f + e)]

    def _pair(self, o, old, new):
        L = self.lemmas
        (a, v, _), (b, w, _) = old, new
        if o == "inv":
            # x*v=1, y*w=1 already fix both
            return
        if o == "pow":
            L.append(z3.Implies(z3.And(a[0] == b[0], a[1] == b[1]), v == w))
            if _is_zero(a[0] - b[0]):
                d = z3.simplify(a[1] - b[1], som=True)
                if z3.is_rational_value(d) and d.denominator_as_long() == 1 and abs(d.numerator_as_long()) <= 8:
                    k = d.numerator_as_long()
                    lo, hi = (w, v) if k > 0 else (v, w)
                    p = z3.RealVal(1)
                    for _i in range(abs(k)):
                        p = p * a[0]
                    L.append(z3.Implies(a[0] > 0, hi == lo * p))
                s = z3.simplify(a[1] + b[1], som=True)
                if z3.is_rational_value(s) and s.numerator_as_long() == 0:
                    L.append(z3.Implies(a[0] > 0, v * w == 1))
            elif _is_zero(a[1] - b[1]):
                # strictly monotone in the base for positive exponents
                L.append(z3.Implies(z3.And(a[0] > 0, b[0] > 0, a[1] > 0), z3.And((a[0] < b[0]) == (v < w), (a[0] == b[0]) == (v == w))))
            return
        L.append(z3.Implies(a[0] == b[0], v == w))
        if o in ("exp", "atan", "tanh"):
            L += [(a[0] < b[0]) == (v < w), (b[0] < a[0]) == (w < v)]
        if o == "log":
            L.append(z3.Implies(z3.And(a[0] > 0, b[0] > 0), z3.And((a[0] < b[0]) == (v < w), (b[0] < a[0]) == (w < v))))
        if o == "exp":
            s = z3.simplify(a[0] + b[0], som=True)
            if z3.is_rational_value(s) and s.numerator_as_long() == 0:
                L.append(v * w == 1)
        if o in ("atan", "tanh"):
            s = z3.simplify(a[0] + b[0], som=True)
            if z3.is_rational_value(s) and s.numerator_as_long() == 0:
                L.append(v == -w)
        if o == "floor":
            L.append(z3.Implies(a[0] <= b[0], v <= w))


class Result:
    __slots__ = ("status", "model", "fnvals", "time", "reason")

    def __init__(self, status, model=None, time_=0.0, reason=""):
        self.status, self.model, self.time, self.reason = status, model, time_, reason

    def __bool__(self):
        raise TypeError("use .status")


def _val(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_algebraic_value(x):
        x = x.approx(30)
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    raise ValueError(str(x))


_pre = None


def _presimplify(fmls):
    global _pre
    if _pre is None:
        _pre = z3.Then(z3.With("simplify", som=True, arith_lhs=True), "propagate-values",
                       z3.With("solve-eqs"), z3.With("simplify", som=True, arith_lhs=True))
    g = z3.Goal()
    g.add(*fmls)
    r = _pre(g)
    return r


_fold_memo = {}


def fold(root):
    """Functions of constants replaced by their (double precision) value."""
    import math

    for n in S.postorder([root]):
        if n.id in _fold_memo:
            continue
        if n.op in ("var", "const", "bconst"):
            r = n
        else:
            args = [_fold_memo[a.id] if isinstance(a, (Sym, SymBool)) else a for a in n.args]
            r = None
            if n.op in UF and all(isinstance(a, Sym) and a.op == "const" for a in args):
                v = [float(a.args[0]) for a in args]
                try:
                    f = v[0] ** v[1] if n.op == "pow" else 1 / v[0] if n.op == "inv" else getattr(math, n.op)(v[0])
                    if isinstance(f, float) and math.isfinite(f):
                        r = S.const(f)
                except (ValueError, ZeroDivisionError, OverflowError):
                    pass
            if r is None:
                r = S.rebuild(n.op, args)
        _fold_memo[n.id] = r
    return _fold_memo[root.id]


def check(formulas, timeout=5000, snap=None, want_model=True, dump=None):
    """Satisfiability of a conjunction of SymBools. Returns Result."""
    t0 = time.time()
    tr = Translator(snap=snap)
    zs = [tr.term(fold(S._lb(f)) if snap else S._lb(f)) for f in formulas]
    zs = zs + tr.lemmas
    STATS["queries"] += 1
    status, model, reason = "unknown", None, ""
    # 1. equality elimination + ring normalisation by z3's own tactics
    try:
        r = _presimplify(zs)
        if len(r) == 1 and r[0].inconsistent():
            status = "unsat"
    except z3.Z3Exception as e:
        reason = str(e)
    # 2. full solver
    if status == "unknown":
        for kind, tmo in (("default", timeout), ("nlsat", timeout)):
            if kind == "default":
                s = z3.Solver()
            else:
                try:
                    s = z3.Then(z3.With("simplify", som=True), "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "solve-eqs",
                                "simplify", "tseitin-cnf", "simplify", "nlsat").solver()
                except z3.Z3Exception:
                    break
            s.set("timeout", int(tmo))
            s.add(*zs)
            try:
                rr = s.check()
            except z3.Z3Exception as e:
                reason = str(e)
                continue
            if rr == z3.unsat:
                status = "unsat"
                break
            if rr == z3.sat:
                status = "sat"
                if want_model:
                    m = s.model()
                    try:
                        model = {name: _val(m, v) for name, v in tr.vars.items()}
                    except (ValueError, z3.Z3Exception) as e:
                        reason = f"model: {e}"
                        model = None
                break
            reason = s.reason_unknown()
    if dump:
        s = z3.Solver()
        s.add(*zs)
        with open(dump, "w") as fh:
            fh.write(s.to_smt2())
    dt = time.time() - t0
    STATS[status] += 1
    STATS["solver_s"] += dt
    return Result(status, model, dt, reason)


def satisfiable(formulas, timeout=3000):
    fs = []
    for f in formulas:
        f = S._lb(f)
        if f.op == "bconst":
            if not f.args[0]:
                return "unsat"
            continue
        fs.append(f)
    if not fs:
        return "sat"
    return check(relevant(fs), timeout=timeout, want_model=False).status


def relevant(fs):
    """Only the conjuncts connected (through shared variables) to the last one; the others are
    assumed satisfiable on their own (they are the already-feasible path condition)."""
    need = set(S.variables(fs[-1]))
    rest = [(f, S.variables(f)) for f in fs[:-1]]
    out = [fs[-1]]
    changed = True
    while changed:
        changed = False
        nxt = []
        for f, v in rest:
            if v & need:
                need |= v
                out.append(f)
                changed = True
            else:
                nxt.append((f, v))
        rest = nxt
    return out


def all_int_values(formulas, x, limit):
    fs = [S._lb(f) for f in formulas]
    tr = Translator()
    zs = [tr.term(f) for f in fs]
    zx = tr.term(x)
    s = z3.Solver()
    s.set("timeout", 10000)
    s.add(*zs, *tr.lemmas)
    vals = []
    while True:
        STATS["queries"] += 1
        t = time.time()
        r = s.check()
        STATS["solver_s"] += time.time() - t
        if r == z3.unsat:
            STATS["unsat"] += 1
            return sorted(vals)
        if r != z3.sat:
            STATS["unknown"] += 1
            raise RuntimeError("concretisation: solver unknown")
        STATS["sat"] += 1
        v = _val(s.model(), zx)
        if v.denominator != 1:
            raise RuntimeError(f"non-integer value {v} for integer term")
        vals.append(int(v))
        if len(vals) > limit:
            raise S.TooManyPaths("too many integer values")
        s.add(zx != int(v))


def prove(assumptions, goal, timeout=5000, snap=None, dump=None):
    """unsat = goal holds under assumptions. sat = counterexample in .model"""
    goal = S._lb(goal)
    if goal.op == "bconst" and goal.args[0]:
        STATS["queries"] += 1
        STATS["unsat"] += 1
        return Result("unsat")
    ng = S.not_(goal)
    fs = [S._lb(a) for a in assumptions]
    fs = [f for f in fs if not (f.op == "bconst" and f.args[0])]
    key = (frozenset(f.id for f in fs), ng.id)
    if snap is None and dump is None:
        if key in _PROVED:  # the same query (formulas are hash-consed)
            STATS["again"] = STATS.get("again", 0) + 1
            return Result("unsat")
        r = _prove(fs, ng, timeout, snap, dump)
        if r.status == "unsat":
            _PROVED.add(key)
        return r
    return _prove(fs, ng, timeout, snap, dump)


_PROVED = set()


def _prove(fs, ng, timeout, snap, dump):
    if len(fs) > 20 and not any(f.op == "bconst" for f in fs):
        few = relevant(fs + [ng])  # fewer assumptions: what follows from them follows from all
        if len(few) <= len(fs):
            r = check(few[1:] + [ng], timeout=timeout, snap=snap, dump=dump)
            if r.status == "unsat":
                return r
    return check(fs + [ng], timeout=timeout, snap=snap, dump=dump)


def poly(e):
    """z3 arithmetic term -> {monomial: coefficient} after sum-of-monomials normalisation."""
    e = z3.simplify(e, som=True)
    out = {}

    def mono(t):
        c, ms = Fraction(1), []
        stack = [t]
        while stack:
            x = stack.pop()
            if z3.is_rational_value(x):
                c *= Fraction(x.numerator_as_long(), x.denominator_as_long())
            elif z3.is_mul(x):
                stack.extend(x.children())
            else:
                ms.append(x.sexpr())
        return tuple(sorted(ms)), c

    for t in e.children() if z3.is_add(e) else [e]:
        k, c = mono(t)
        out[k] = out.get(k, Fraction(0)) + c
    return {k: c for k, c in out.items() if c != 0}


def approx_same(f, g, rel=Fraction(1, 10**9)):
    """Are the relations f and g (both == or both <=) the same up to `rel` relative rounding of
    the coefficients?  Decided over all values of the monomials by a linear-arithmetic query."""
    f, g = fold(S._lb(f)), fold(S._lb(g))
    if f.op != g.op or f.op not in ("eq", "le"):
        return False
    tr = Translator(snap=10)
    tf, tg = [tr.term(a) for a in f.args], [tr.term(a) for a in g.args]
    tr2 = Translator()  # exact constants, same atoms
    tr2.apps, tr2.vars = tr.apps, tr.vars
    for n in S.postorder([f, g]):
        if n.op in UF and n.id in tr.memo:
            tr2.memo[n.id] = tr.memo[n.id]
    pf = poly(tr2.term(f.args[0]) - tr2.term(f.args[1]))
    pg = poly(tr2.term(g.args[0]) - tr2.term(g.args[1]))
    if not pf or set(pf) != set(pg):
        return False
    k0 = max(pg, key=lambda k: abs(pg[k]))
    lam = pf[k0] / pg[k0]
    if f.op == "le" and lam < 0:
        return False
    t0 = time.time()
    s = z3.Solver()
    ms = {k: z3.Real(f"m{i}") for i, k in enumerate(pg)}
    As = {k: z3.Real(f"a{i}") for i, k in enumerate(pg)}
    for k in pg:
        s.add(As[k] >= ms[k], As[k] >= -ms[k])
    D = z3.Sum([rv(pf[k] / lam - pg[k]) * ms[k] for k in pg])
    B = z3.Sum([rv(abs(pg[k]) * rel) * As[k] for k in pg])
    s.add(z3.Or(D > B, -D > B))
    STATS["queries"] += 1
    r = s.check()
    STATS["solver_s"] += time.time() - t0
    STATS["unsat" if r == z3.unsat else "sat" if r == z3.sat else "unknown"] += 1
    return r == z3.unsat


def cvc5_check(formulas, timeout=10):
    """Cross-check a query with cvc5 (returns sat/unsat/unknown/error)."""
    tr = Translator()
    zs = [tr.term(S._lb(f)) for f in formulas] + tr.lemmas
    s = z3.Solver()
    s.add(*zs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(["cvc5", f"--tlimit={int(timeout*1000)}", "-"], input=txt, capture_output=True, text=True, timeout=timeout + 5)
    except subprocess.TimeoutExpired:
        return "unknown"
    out = p.stdout.strip().splitlines()
    if any("(error" in line for line in out) or not out:
        return "error"
    STATS["crosschecked"] += 1
    return out[0]


def texts_equal(pairs, timeout=10000):
    """pairs: [(parts, parts)], a part is ("lit", text) or ("var", name); all pairs equal for all texts?
    Returns ("unsat", None, None), ("sat", index of a differing pair, {name: text}) or ("unknown", None, None)."""
    def cat(parts):
        zs = [z3.StringVal(p[1]) if p[0] == "lit" else z3.String(p[1]) for p in parts] or [z3.StringVal("")]
        return zs[0] if len(zs) == 1 else z3.Concat(*zs)

    s = z3.Solver()
    s.set("timeout", timeout)
    cond = [cat(a) == cat(b) for a, b in pairs]
    s.add(z3.Or([z3.Not(c) for c in cond]))
    t = time.time()
    r = str(s.check())
    STATS["solver_s"] += time.time() - t
    STATS["queries"] += 1
    STATS[r] = STATS.get(r, 0) + 1
    if r != "sat":
        return r, None, None
    m = s.model()
    env = {str(d): m[d].as_string() for d in m.decls()}
    for i, c in enumerate(cond):
        if not z3.is_true(m.eval(c, model_completion=True)):
            return r, i, env
    return r, 0, env
