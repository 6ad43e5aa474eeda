"""C29: every equation handed to the solver can be evaluated."""
import math
from fractions import Fraction

import numpy as np
import pyomo.environ as pe

import mimosa.mimosa as mm

from . import check_c24, configs, entail, harness, smt
from . import model as M
from . import sym as S
from .sym import const, le, lt

MILLION = 10**6
RISKY = ("inv", "pow", "log", "sqrt", "exp")
EXTRA = [
    configs.cfg("2010", "budget", "trade", g=configs.grid(2010, 2030, 10)),
    configs.cfg("simulation", "dmgpool", g=configs.BASE),
    configs.cfg("simulation-price", "trade", "ineq", g=configs.BASE),
]
EXTRA[1]["overrides"] = {**EXTRA[1]["overrides"], "simulation.simulationmode": True, "simulation.deactivated_constraints": ["global_emissions"],
                         "simulation.constraint_variables": {"relative_abatement": {y: {r: 0.0 for r in configs.R3} for y in (2020, 2025, 2030, 2035, 2040)}}}
EXTRA[2]["overrides"] = {**EXTRA[2]["overrides"], "simulation.simulationmode": True,
                         "simulation.constraint_variables": {"carbonprice": {y: {r: 0.1 for r in configs.R3} for y in (2020, 2025, 2030, 2035, 2040)}}}


def check(prop, tier):
    h = harness.Harness(prop, tier, "The public constructor is executed with symbolic numbers; every division, power, root and logarithm in the resulting equations and objective becomes an obligation: its operand is in the operation's "
                        "domain wherever all variables lie strictly within their bounds, and at the starting point.")
    _, ranges = check_c24.factors()
    limits = []
    for name, (lo, hi) in ranges.items():
        if lo is not None:
            limits.append(le(const(lo), S.var(name)))
        if hi is not None:
            limits.append(le(S.var(name), const(hi)))

    def params(c):
        g = c["grid"]
        p = M.small_params(c["overrides"], c["regions"], g["start"], g["end"], g["dt"])
        for r, cols in c["forms"].items():
            p["regions"][r] = {"COACCH": dict(cols)}
        return p

    def bounds(sm, vd):
        lo = [sm.expr(b) for b in (vd._lb, vd.domain.bounds()[0]) if b is not None and not (isinstance(b, float) and math.isinf(b))]
        hi = [sm.expr(b) for b in (vd._ub, vd.domain.bounds()[1]) if b is not None and not (isinstance(b, float) and math.isinf(b))]
        return lo, hi

    def start_value(lo, hi, v):
        """Value of a variable the solver starts with (Pyomo's midpoint rule for those without one)."""
        if v is not None:
            return S.lift(v)
        top = hi[0] if hi else None
        for x in hi[1:]:
            top = S.ite(S.le(x, top), x, top)
        low = lo[0] if lo else None
        for x in lo[1:]:
            low = S.ite(S.le(low, x), x, low)
        if low is None:
            return top if top is not None else const(0)
        return low if top is None else (low + top) / 2

    def condition(node, args):
        """The operation is defined."""
        a = args[0]
        if node.op == "inv":
            return S.not_(S.eq(a, const(0)))
        if node.op == "pow":
            e = args[1]
            return S.or_(S.lt(const(0), a), S.and_(S.le(const(0), a), S.le(const(0), e)))
        if node.op == "exp":
            return S.le(a, const(710))  # beyond: overflow
        return S.lt(const(0), a) if node.op == "log" else S.le(const(0), a)

    def smooth(node, args):
        """The condition for the node with the argument of a smooth function (an arctangent's) replaced by
        an arbitrary number, and what is known of the arctangent: [(facts, goal)]."""
        for n in S.postorder([node]):
            if n.op != "atan":
                continue
            c, rest = factors_of(n.args[0])
            z = S.var("argument of the smooth function")
            cache = {n.args[0].id: const(c) * z}
            for x in S.postorder([node]):
                if isinstance(x, S.Sym) and x.op in ("mul", "var", "add", "inv"):
                    d, other = factors_of(x)
                    if other == rest:
                        cache[x.id] = const(d) * z
            new = replaced(node.args, cache)
            if any(S.variables(a) - {"argument of the smooth function"} - ranges.keys() for a in new):
                continue
            facts = []
            for k in S.postorder(new):
                if k.op == "atan":
                    w = k.args[0]
                    facts += [le(const(-MILLION), w), le(w, const(MILLION)), S.implies(S.lt(w, const(0)), S.le(k * (105 + 90 * w * w + 9 * w * w * w * w), w * (105 + 55 * w * w))),
                              S.implies(S.lt(w, const(-1)), S.le((const(smt.PI_LO / 2) + k) * (-15 * w * w * w * w * w), 15 * w * w * w * w - 5 * w * w + 3))]
            yield facts, condition(node, new)

    def factors_of(t):
        """(constant factor, the other factors) of a product."""
        c, rest, todo = Fraction(1), [], [t]
        while todo:
            x = todo.pop()
            if x.op == "mul":
                todo += x.args
            elif x.op == "const":
                c *= x.args[0]
            else:
                rest.append(x.id)
        return c, sorted(rest)

    def replaced(roots, cache):
        for n in S.postorder(roots):
            if n.id in cache:
                continue
            cache[n.id] = n if n.op in ("const", "bconst", "var") else S.rebuild(n.op, [cache[a.id] if isinstance(a, (S.Sym, S.SymBool)) else a for a in n.args])
        return [cache[r.id] for r in roots]

    lemmas = {}

    def by_lemma(node):
        """Decided for every argument of the smooth function at once (same shape: one query)."""
        for facts, goal in smooth(node, node.args):
            k = (goal.id, tuple(f.id for f in facts))
            if k not in lemmas:
                r = smt.prove(limits + facts, goal, timeout=20000)
                lemmas[k] = r.status == "unsat"
            if lemmas[k]:
                return True
        return False

    def undefined(m):
        """An equation of the numeric model that cannot be evaluated at its present point."""
        with M.quiet(), np.errstate(all="ignore"):
            return undefined_(m)

    def undefined_(m):
        for c in list(m.component_data_objects(pe.Constraint, active=True)) + list(m.component_data_objects(pe.Objective, active=True)):
            try:
                v = pe.value(c.body if hasattr(c, "body") else c.expr)
            except (ZeroDivisionError, ValueError, OverflowError) as e:
                if isinstance(e, OverflowError) and not any(k in str(e) for k in ("math range error", "exp")):
                    continue
                return f"{c.name} cannot be evaluated: {type(e).__name__}: {e}"
            todo = [c.body if hasattr(c, "body") else c.expr]
            while todo:
                e = todo.pop()
                if hasattr(e, "is_expression_type") and e.is_expression_type():
                    if e.nargs() == 1 and getattr(e, "getname", str)() == "exp" and pe.value(e.args[0]) > 709.8:
                        return f"{c.name} contains the exponential of {pe.value(e.args[0]):g}, which overflows"
                    todo += e.args
            if isinstance(v, complex) or (isinstance(v, float) and math.isnan(v)) or v is None:
                return f"{c.name} evaluates to {v}"
        return None

    def clean(c, env):
        """The counterexample's values of the inputs, settings within their ranges."""
        out = {}
        for k, v in env.items():
            v = float(v)
            if k in ranges:
                lo, hi = ranges[k]
                v = max(v, lo) if lo is not None else v
                v = min(v, hi) if hi is not None else v
            out[k] = v
        return out

    def at_point(c, kind):
        def real(env):
            # the counterexample's values; and, should they not show it, its variables with the usual inputs
            usual = {k: v for k, v in env.items() if k.split("[")[0] in VARS}
            some = {k: v for k, v in env.items() if k.split("[")[0] in VARS or k.startswith("COACCH.")}
            for point in (env, some, usual):
                what = evaluate_at(point)
                if what:
                    return f"{c['name']}: {what} {'at the starting point' if kind == 'start' else 'at a point within the bounds'}"
            return None

        def evaluate_at(env):
            vals = clean(c, env)
            p = params(c)
            try:
                if kind == "start":
                    sm = M.build(p, symbolic=False, values=vals, patches={(mm, "TransformationFactory"): pe.TransformationFactory})
                else:
                    sm = M.build(p, symbolic=False, values=vals)
            except Exception:  # noqa: BLE001  (C24)
                return None
            if kind != "start":
                for vd in sm.m.component_data_objects(pe.Var):
                    x = env.get(sm.var_sym(vd).args[0])
                    lo, hi = vd.lb, vd.ub
                    if vd.fixed:
                        continue
                    if x is None:
                        x = vd.value if vd.value is not None else 0.5 * (lo + hi) if lo is not None and hi is not None else lo + 1 if lo is not None else hi - 1 if hi is not None else 1.0
                    x = float(x)
                    if (lo is not None and x < lo) or (hi is not None and x > hi):
                        return None
                    vd.set_value(x, skip_validation=True)
            return undefined(sm.m)
        return real

    def one(c):
        p = params(c)
        for sm, exc, pc, _ in h.explore(lambda: M.build(p, keep=set()), limits, max_paths=200, label=c["name"]):
            if exc is not None:
                if isinstance(exc, S.NeedFloat):
                    h.no_answer("build", c["name"], exc, at_point(c, "start"), [{}])
                continue  # whether it can be built is C24
            values, inside, start, names = {}, {}, {}, []
            for vd in sm.m.component_data_objects(pe.Var):
                n = sm.var_sym(vd).args[0]
                if vd.fixed:
                    continue
                x = S.var(n)
                lo, hi = bounds(sm, vd)
                names.append(n)
                inside[n] = [S.lt(b, x) for b in lo] + [S.lt(x, b) for b in hi]
                if vd.parent_component().name == "GDP_gross":
                    inside[n].append(S.lt(const(0), x))  # (stated in the property)
                values[n] = start_value(lo, hi, vd.value)
            known = set(names)
            relations = [(n, i, f) for n, i, f in sm.constraints() if not n.rsplit(".", 1)[-1] in ("lower", "upper", "fixed", "discrete")]
            # variables an equation determines alone are fixed before solving
            fixed = {}
            for _, _, f in relations:
                vs = [v for v in S.variables(f) if v in known]
                if f.op == "eq" and len(vs) == 1:
                    fixed.setdefault(vs[0], f)
            start = {n: v for n, v in values.items() if n not in fixed}
            roots = [(f"{n}[{i}]" if i is not None else n, f) for n, i, f in relations] + [("objective", e) for _, e in sm.objective()]
            done = set()
            for label, f in roots:
                for node in S.postorder([f]):
                    if node.op not in RISKY or node.id in done:
                        continue
                    done.add(node.id)
                    used = S.variables(node) & known
                    if not used:
                        continue  # made of inputs only: evaluated when the model is built (C24)
                    if by_lemma(node):
                        h.holds(f"defined: {label.split('[')[0]}", f"{c['name']}: {label}: a smooth function's value, whatever its argument", True)
                        continue
                    inputs = base(node)
                    here = [x for n in sorted(used) for x in ([fixed[n], *base(fixed[n])] if n in fixed else inside[n])]
                    h.prove(f"defined: {label.split('[')[0]}", f"{c['name']}: {label}: {S.show(node, 4)[:80]} within the bounds", limits + list(pc) + inputs + here, condition(node, node.args), at_point(c, "inside"), nominal=sm.nominal)
                    try:
                        args = [S.substitute(a, start) for a in node.args]
                    except ZeroDivisionError:
                        h.prove(f"start: {label.split('[')[0]}", f"{c['name']}: {label}: division by zero at the starting point", limits + list(pc), S.bconst(False), at_point(c, "start"))
                        continue
                    more = [x for n in sorted(used) if n in fixed for x in [fixed[n], *base(fixed[n])]]
                    h.prove(f"start: {label.split('[')[0]}", f"{c['name']}: {label}: {S.show(node, 4)[:80]} at the starting point", limits + list(pc) + inputs + base(*args) + more, condition(node, args), at_point(c, "start"), nominal=sm.nominal)
            h.witness(limits + list(pc), c["name"])

    def base(*nodes):
        """What is assumed of the inputs in these terms: their domain, and that divisors made of inputs are not zero."""
        out = []
        for n in S.postorder(list(nodes)):
            if n.op == "var":
                out += entail.domain(n.args[0])
                if n.args[0].startswith("COACCH.") and "_b2" in n.args[0]:
                    out.append(le(const(0), n))
            elif n.op == "inv" and not any("[" in v and v.split("[")[0] in VARS for v in S.variables(n)):
                out.append(S.not_(S.eq(n.args[0], const(0))))
        return out

    VARS = set()
    for s in ("", ):
        with M.quiet():
            for ov in ({}, configs.F["trade"], configs.F["pool"], configs.F["dmgpool"], configs.F["nodmg"], configs.F["eqmit"]):
                p = M.small_params(ov)
                VARS |= {v.name for v in M.build(p, symbolic=False, values={}).m.component_objects(pe.Var)}
    jobs = [c for c in configs.for_property(prop, tier) + EXTRA if not c.get("symgrid") and c["conv"] != "sym"]
    h.parallel(jobs, one)
    return h.done(
        bounds=[f"{len(jobs)} configurations (those of C01 to C11 with numeric time grids, and simulation runs); every value of the settings in their documented ranges, of parameters and data, every value of the variables strictly within their bounds"],
        outside=["arguments of the smooth functions beyond a million times their scale", "overflow of powers", "derivatives", "divisions between inputs only (C24)"],
        assumptions=["population, GDP, capital factors and calibration factors are positive; the coefficient b2 of logistic damage functions is not negative (as in the shipped table)",
                     "variables that one equation determines alone have its value (they are fixed before solving)"])
