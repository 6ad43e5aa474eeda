"""C12: error bounds of the smooth helper functions and of soft equalities, from their real code."""
from fractions import Fraction

import numpy as np
import pandas as pd
import pyomo.environ as pe

from . import harness, smt
from . import model as M  # noqa: F401  (registers the symbolic number type with Pyomo)
from . import sym as S
from .sym import const, eq, implies, le, lt

PI = Fraction(3141592653589793, 10**15)
EXC = Fraction(1) / (25 * PI)  # documented excess: scale/(25 pi)
TOL = const(Fraction(1, 10**9))


def atan_facts(*terms):
    out, seen = [], set()
    for n in S.postorder([S._lb(t) if isinstance(t, bool) else t for t in terms]):
        if n.op == "atan" and n.id not in seen:
            seen.add(n.id)
            u = n.args[0]
            out += [implies(lt(const(0), u), lt((const(smt.PI_LO / 2) - n) * u, const(1))),
                    implies(lt(u, const(0)), lt((const(smt.PI_LO / 2) + n) * -u, const(1)))]
    return out


def as_sym(x):
    return S.lift(x) if not isinstance(x, np.ndarray) else S.lift(x.item())


def kinds(f, x):
    """f applied to x through every kind of argument the code accepts: number, array, series, Pyomo variable."""
    box = np.empty(2, dtype=object)
    box[0] = box[1] = x
    m = pe.ConcreteModel()
    m.v = pe.Var(initialize=0)
    m.v.set_value(x, skip_validation=True)
    yield "number", as_sym(f(x))
    yield "array", as_sym(f(box)[0])
    yield "series", as_sym(f(pd.Series(box))[0])
    yield "model variable", as_sym(pe.value(f(m.v)))


def check(prop, tier):
    h = harness.Harness(prop, tier, "soft_switch, soft_min, soft_max and the soft-equality constraint classes are executed on symbolic arguments (plain, numpy, pandas and Pyomo); "
                        "each documented bound is one query over all reals.")
    from mimosa.common import pyomo_utils as pu
    from mimosa.common import soft_max, soft_min, soft_switch

    x, y, s, c = (S.var(n) for n in ("x", "y", "scale", "maxval"))
    pos = lt(const(0), s)

    def num(fn, **vals):
        return {k: float(v) for k, v in vals.items()}

    def F(env, n):
        return float(env[n])

    def rep_switch(what):
        def r(env):
            xs, ys, sc = F(env, "x"), float(env.get("y", 0)), float(env.get("scale", 1))
            v, w = soft_switch(xs, sc), soft_switch(ys, sc)
            if what == "range" and not -1e-9 <= v <= 1 + 1e-9:
                return f"soft_switch({xs},{sc})={v}"
            if what == "mono" and xs < ys and not v <= w - 0 and v > w + 1e-12:
                return f"soft_switch({xs})={v} > soft_switch({ys})={w}"
            if what == "half" and abs(soft_switch(0.0, sc) - 0.5) > 1e-9:
                return f"soft_switch(0,{sc})={soft_switch(0.0, sc)}"
            if what == "side" and ((xs > 0 and v < 0.5 - 1e-9) or (xs < 0 and v > 0.5 + 1e-9)):
                return f"soft_switch({xs},{sc})={v}"
            return None
        return r

    def rep_min(what):
        def r(env):
            xs, sc = F(env, "x"), float(env.get("scale", 1))
            v, true, tol = soft_min(xs, sc), max(xs, 0.0), 1e-9 * (abs(xs) + sc)
            if what == "pos" and v <= -tol or what == "below" and v < true - tol or what == "above" and v > true + sc * float(EXC) + tol:
                return f"soft_min({xs},{sc})={v}, true value {true}, scale/(25 pi)={sc * float(EXC)}"
            return None
        return r

    def rep_max(env):
        xs, sc, cc = F(env, "x"), float(env.get("scale", 1)), F(env, "maxval")
        v, true, tol = soft_max(xs, cc, sc), min(xs, cc), 1e-9 * (abs(xs) + abs(cc) + sc)
        if v > true + tol or v < true - sc * float(EXC) - tol:
            return f"soft_max({xs},{cc},{sc})={v}, true value {true}"
        return None

    pts = [{"x": Fraction(a), "y": Fraction(b), "scale": Fraction(sc), "maxval": Fraction(c0)}
           for a in (-100, -1, "-0.01", 0, "0.01", 1, 100) for b in (2,) for sc in ("0.01", 1, 100) for c0 in (-1, 3)]
    for withscale in (True, False):
        sc = s if withscale else const(1)
        A = [pos] if withscale else []
        arg = (lambda f: (lambda v: f(v, s))) if withscale else (lambda f: f)
        tag = "any scale" if withscale else "default scale"
        def paths(label, fn):
            """fn() on every path of the code; a path that ends with an error is a counterexample of its own."""
            for res, exc, pcond, _ in h.explore(fn, A, label=label):
                if exc is not None:
                    def real(env, fn=fn):
                        try:
                            for f in (soft_switch, soft_min):
                                f(F(env, "x"), *([F(env, "scale")] if withscale else []))
                            soft_max(F(env, "x"), F(env, "maxval"), *([F(env, "scale")] if withscale else []))
                            m = pe.ConcreteModel()
                            m.v = pe.Var(initialize=float(env["x"]))
                            for f in (soft_switch, soft_min):
                                pe.value(f(m.v, *([F(env, "scale")] if withscale else [])))
                        except Exception as e:  # noqa: BLE001
                            return harness.exc_text(e)
                        return None
                    h.prove("total", f"{label}: {harness.exc_text(exc)}", A + list(pcond) + [le(x, x), le(c, c), le(s, s)], S.bconst(False), real, points=pts)
                else:
                    yield res, A + list(pcond)

        for pair, pc in paths(f"switch ({tag})", lambda: (list(kinds(arg(soft_switch), x)), as_sym(arg(soft_switch)(y)), as_sym(arg(soft_switch)(S.lift(0))))):
            sw, sw_y, sw_0 = pair
            for kind, t in sw:
                facts = pc + atan_facts(t)
                h.prove("switch range", f"switch between 0 and 1 ({kind}, {tag})", facts, S.and_(lt(-TOL, t), lt(t, const(1) + TOL)), rep_switch("range"), points=pts)
                h.prove("switch side", f"switch at or above 1/2 for positive, below for negative arguments ({kind}, {tag})", facts,
                        S.and_(implies(lt(const(0), x), lt(const(Fraction(1, 2)) - TOL, t)), implies(lt(x, const(0)), lt(t, const(Fraction(1, 2)) + TOL))), rep_switch("side"), points=pts)
            h.prove("switch increasing", f"switch strictly increasing ({tag})", pc + atan_facts(sw[0][1], sw_y) + [lt(x, y)], lt(sw[0][1], sw_y), rep_switch("mono"), points=pts)
            h.prove("switch half", f"switch of 0 is 1/2 ({tag})", pc, eq(sw_0, const(Fraction(1, 2))), rep_switch("half"), points=pts)
        ab = abs(x)
        for mn, pc in paths(f"minimum ({tag})", lambda: list(kinds(arg(soft_min), x))):
            for kind, t in mn:
                facts = pc + atan_facts(t)
                tol = TOL * (ab + sc)
                h.prove("min positive", f"soft minimum positive ({kind}, {tag})", facts, lt(-tol, t), rep_min("pos"), points=pts)
                h.prove("min below", f"soft minimum never below max(x,0) ({kind}, {tag})", facts, S.and_(le(x - tol, t), le(-tol, t)), rep_min("below"), points=pts)
                bound = sc * const(EXC) + tol
                h.prove("min excess", f"soft minimum exceeds max(x,0) by at most scale/(25 pi) ({kind}, {tag})", facts,
                        S.and_(implies(le(const(0), x), le(t, x + bound)), implies(le(x, const(0)), le(t, bound))), rep_min("above"), points=pts)
        for mx, pc in paths(f"maximum ({tag})", lambda: list(kinds((lambda v: soft_max(v, c, s)) if withscale else (lambda v: soft_max(v, c)), x))):
            for kind, t in mx:
                facts = pc + atan_facts(t)
                tol = TOL * (ab + abs(c) + sc)
                bound = sc * const(EXC) + tol
                h.prove("max", f"soft maximum at most min(x, ceiling) ({kind}, {tag})", facts, S.and_(le(t, x + tol), le(t, c + tol)), rep_max, points=pts)
                h.prove("max", f"soft maximum at most scale/(25 pi) below min(x, ceiling) ({kind}, {tag})", facts,
                        S.and_(implies(le(x, c), le(x - bound, t)), implies(le(c, x), le(c - bound, t))), rep_max, points=pts)
    h.witness([pos, lt(x, y)], "scales and arguments")

    # ---- soft equalities
    T, R = [0, 1, 2], ["A", "B"]
    eps, aeps = S.var("epsilon"), S.var("absolute_epsilon")
    edom = [lt(const(0), eps), lt(eps, const(1)), lt(const(0), aeps)]

    def soft_model(cls, mode, values=None, ignore=None):
        """The constraint class on a tiny model; lhs and rhs are variables holding symbols (or numbers)."""
        regional = cls is pu.RegionalSoftEqualityConstraint
        val = (lambda n: S.var(n)) if values is None else (lambda n: float(values.get(n, 1)))
        m = pe.ConcreteModel()
        m.t = pe.Set(initialize=T, ordered=True)
        m.regions = pe.Set(initialize=R, ordered=True)
        idx = (m.t, m.regions) if regional else (m.t,)
        m.L, m.H = pe.Var(*idx), pe.Var(*idx)
        for nm, v in (("L", m.L), ("H", m.H)):
            for i in v:
                v[i].set_value(val(f"{nm}[{i}]"), skip_validation=True)
        kw = {}
        e = eps if values is None else float(values.get("epsilon", 0.005))
        a = aeps if values is None else float(values.get("absolute_epsilon", 0.001))
        if mode == "epsilon":
            kw["epsilon"] = e
        elif mode == "absolute":
            kw.update(epsilon=None, absolute_epsilon=a)
        if ignore is not None:
            kw["ignore_if"] = lambda m, *i: (i if regional else i[0]) in ignore
        con = cls(lambda m, *i: m.L[i], lambda m, *i: m.H[i], name="soft", **kw)
        pu.add_constraint(m, con.to_pyomo_constraint(m), con.name)
        return m

    def relations(m):
        """{index: [(holds?)...]} of the active constraints with the variables' values substituted."""
        out = {}
        for con in m.component_data_objects(pe.Constraint, active=True):
            body, lo, up = pe.value(con.body), con.lower, con.upper
            lo, up = (None if b is None else pe.value(b) for b in (lo, up))
            i = con.index()
            rel = []
            if lo is not None:
                rel.append(le(S.lift(lo), S.lift(body)))
            if up is not None:
                rel.append(le(S.lift(body), S.lift(up)))
            out.setdefault(i, []).extend(rel)
        return out

    ign = {"none": None, "some": {True: {(0, "A"), (1, "B"), (2, "A"), (2, "B")}, False: {0, 2}}}
    for cls in (pu.GlobalSoftEqualityConstraint, pu.RegionalSoftEqualityConstraint):
        regional = cls is pu.RegionalSoftEqualityConstraint
        for mode in ("default", "epsilon", "absolute"):
            for which in ("none", "some"):
                ig = None if which == "none" else ign["some"][regional]
                for rels, exc, pcond, _ in h.explore(lambda: relations(soft_model(cls, mode, ignore=ig)), edom, label=f"{cls.__name__}({mode})"):
                    if exc is not None:
                        h.fail("soft equality", f"{cls.__name__}({mode}) cannot be built: {harness.exc_text(exc)}")
                        continue
                    edom_p = edom + list(pcond)
                    for i in [(t, r) for t in T for r in R] if regional else T:
                        L, H = S.var(f"L[{i}]"), S.var(f"H[{i}]")
                        d = aeps if mode == "absolute" else (eps if mode == "epsilon" else const(Fraction(5, 1000))) * H
                        want = S.and_(le(L, H + d), le(H - d, L))
                        if ig is not None and i in ig:
                            want = S.bconst(True)
                        got = S.and_(*rels.get(i, []))
                        tol = Fraction(1, 10**9)
                        # the two relations agree up to rounding of the constants (1 +- 0.005)
                        slack = const(tol) * (abs(L) + abs(H))
                        d2 = lambda k: (aeps if mode == "absolute" else (eps if mode == "epsilon" else const(Fraction(5, 1000))) * H)  # noqa: E731,B023
                        wide = S.and_(le(L, H + d2(0) + slack), le(H - d2(0) - slack, L)) if want.op != "bconst" else want
                        narrow = S.and_(le(L + slack, H + d2(0)), le(H - d2(0), L - slack)) if want.op != "bconst" else want

                        def replay(env, cls=cls, mode=mode, ig=ig, i=i, regional=regional):
                            vals = {k: float(v) for k, v in env.items()}
                            m = soft_model(cls, mode, values=vals, ignore=ig)
                            ok = all(((pe.value(cn.lower) if cn.lower is not None else -1e300) <= pe.value(cn.body) + 1e-12)
                                     and (pe.value(cn.body) <= (pe.value(cn.upper) if cn.upper is not None else 1e300) + 1e-12)
                                     for cn in m.component_data_objects(pe.Constraint, active=True) if cn.index() == i)
                            lv, hv = vals.get(f"L[{i}]", 1.0), vals.get(f"H[{i}]", 1.0)
                            dd = vals.get("absolute_epsilon", 0.001) if mode == "absolute" else (vals.get("epsilon", 0.005) if mode == "epsilon" else 0.005) * hv
                            truth = True if ig is not None and i in ig else (hv - dd <= lv + 1e-12 and lv <= hv + dd + 1e-12)
                            return f"{cls.__name__}({mode}) at {i}: lhs={lv}, rhs={hv}: constraint {'holds' if ok else 'fails'}, documented {'holds' if truth else 'fails'}" if ok != truth else None

                        h.prove("soft equality", f"{cls.__name__} {mode} {which} {i}: within tolerance is feasible", edom_p + [narrow], got, replay)
                        h.prove("soft equality", f"{cls.__name__} {mode} {which} {i}: feasible is within tolerance", edom_p + [got], wide, replay)
    h.witness(edom, "tolerances")
    return h.done(
        bounds=["helpers: all real arguments, all positive scales; loop free", "soft equalities: 3 periods x 2 regions, all real sides and tolerances in (0,1)"],
        outside=["floating-point rounding (bounds are checked up to 1e-9 relative)"],
        assumptions=["arctan is an uninterpreted function with: |atan|<pi/2, atan(u)<u, sign, strict monotonicity, pi/2-atan(u)<1/u for u>0"])
