"""Turn a satisfiable query into numbers and confirm them on the concretely built model."""
from __future__ import annotations

import math
from fractions import Fraction

import pyomo.environ as pe

from . import model as M
from . import smt
from . import sym as S
from .sym import Sym, SymBool, const, le, lt


def neg_margin(f, m):
    """not f, by a margin m (so that rounding cannot explain it)."""
    f = S._lb(f)
    o, a = f.op, f.args
    if o == "eq":
        return S.or_(le(a[0] + m, a[1]), le(a[1] + m, a[0]))
    if o in ("le", "lt"):
        return le(a[1] + m, a[0])
    if o == "not":
        return pos_margin(a[0], m)
    if o == "and":
        return S.or_(*[neg_margin(x, m) for x in a])
    if o == "or":
        return S.and_(*[neg_margin(x, m) for x in a])
    return S.not_(f)


def pos_margin(f, m):
    o, a = f.op, f.args
    if o in ("le", "lt"):
        return le(a[0] + m, a[1])
    if o == "and":
        return S.and_(*[pos_margin(x, m) for x in a])
    if o == "or":
        return S.or_(*[pos_margin(x, m) for x in a])
    if o == "not":
        return neg_margin(a[0], m)
    return f


def violation(f, env):
    """0 if f holds at env, otherwise by how much (relative to the size of the sides)."""
    f = S._lb(f)
    o, a = f.op, f.args
    if o in ("eq", "le", "lt"):
        x, y = S.evaluate(a[0], env), S.evaluate(a[1], env)
        if isinstance(x, complex) or isinstance(y, complex) or math.isnan(x) or math.isnan(y):
            raise ValueError("undefined at this point")
        scale = max(1e-3, min(1.0, max(abs(x), abs(y)))) if max(abs(x), abs(y)) <= 1 else max(abs(x), abs(y))
        d = abs(x - y) if o == "eq" else max(0.0, x - y)
        return d / scale
    if o == "and":
        return max((violation(x, env) for x in a), default=0.0)
    if o == "or":
        return min((violation(x, env) for x in a), default=1.0)
    if o == "not":
        return 1.0 if S.evaluate(a[0], env) else 0.0
    if o == "bconst":
        return 0.0 if a[0] else 1.0
    raise KeyError(o)


def fn_arg_vars(fs):
    out = set()
    for n in S.postorder([S._lb(f) for f in fs]):
        if n.op in ("pow", "exp", "log", "atan", "sqrt", "tanh"):
            for a in n.args:
                if isinstance(a, Sym):
                    out |= S.variables(a)
    return out


def rnd(x, digits=6):
    return Fraction(("%%.%dg" % digits) % float(x))


def candidates(ent, goal, cur):
    """Concrete points (name -> Fraction) refuting goal under cur, most natural first."""
    nominal = {n: rnd(v) for n, v in ent.sm.nominal.items() if not math.isnan(v)}
    base_as = ent.assume(cur + [goal])
    allf = [S._lb(x) for x in base_as + cur + getattr(ent, "integral", [])]
    names = set(S.variables(goal))
    for f in allf:
        names |= S.variables(f)
    params = [n for n in names if n not in ent.modelvars]

    def solve(subst, margin, box):
        sub = lambda f: smt.fold(S.substitute(f, subst)) if subst else f
        fs = [sub(f) for f in allf] + [sub(neg_margin(goal, margin))]
        if any(f.op == "bconst" and not f.args[0] for f in fs):
            return None
        fs = [f for f in fs if f.op != "bconst"]
        vs = set()
        for f in fs:
            vs |= S.variables(f)
        bx = []
        if box is not None:
            for v in vs:
                bx += [le(const(-box), S.var(v)), le(S.var(v), const(box))]
        r = smt.check(fs + bx, timeout=4000)
        if r.status != "sat" or r.model is None:
            return None
        env = dict(r.model)
        return env

    full_sub = {n: const(nominal[n]) for n in params if n in nominal}
    some = {n: const(nominal[n]) for n in params if n in nominal and n in fn_arg_vars(allf + [S._lb(goal)])}
    for subst in (full_sub, some, {}):
        for margin, box in ((const(Fraction(1, 10)), 100), (const(Fraction(1, 1000)), 100), (const(Fraction(1, 1000)), None), (const(Fraction(1, 10**6)), None)):
            env = solve(subst, margin, box)
            if env is None:
                continue
            # function arguments: pin them and solve again, so that their values are the real ones
            pins = dict(subst)
            pinned = {}
            ok = True
            for _ in range(3):
                need = fn_arg_vars([S.substitute(f, pins) for f in allf + [S._lb(goal)]])
                need = [v for v in need if v in env]
                if not need:
                    break
                for v in need:
                    val = rnd(env[v], 5)
                    pinned[v] = val
                    pins[v] = const(val)
                env2 = solve(pins, margin, None)
                if env2 is None:
                    ok = False
                    break
                env = env2
            e = {n: s.args[0] for n, s in subst.items()}
            e.update(env)
            e.update(pinned)
            for n in names:
                e.setdefault(n, nominal.get(n, Fraction(1)))
            if ok or not pinned:
                yield {n: float(v) for n, v in e.items()}
            else:
                yield {n: float(v) for n, v in e.items()}


def concrete_model(ent, env):
    params = ent.concrete_params(env) if hasattr(ent, "concrete_params") else ent.params
    kw = {k: v for k, v in ent.build_kw.items() if k != "patches"}
    vals = dict(ent.sm.nominal)
    vals.update({k: v for k, v in env.items() if k not in ent.modelvars})
    sm = M.build(params, symbolic=False, values=vals, **kw)
    for v in sm.m.component_objects(pe.Var, descend_into=True):
        for ix in v:
            name = v.name + M.idx_str(ix if v.is_indexed() else None)
            if name in env and not v[ix].fixed:
                v[ix].set_value(env[name], skip_validation=True)
    return sm


def real_violation(sm, name, idx):
    """Violation of a constraint / bound of the real concrete model at its current values."""
    if name.endswith((".lower", ".upper")):
        v = getattr(sm.m, name.rsplit(".", 1)[0])[idx]
        x = pe.value(v)
        lo, hi = v.bounds
        b = lo if name.endswith(".lower") else hi
        if b is None:
            return 0.0
        d = (b - x) if name.endswith(".lower") else (x - b)
        return max(0.0, d) / max(1e-3, abs(b), min(1.0, abs(x)))
    c = sm.m.find_component(name)[idx]
    body = pe.value(c.body)
    d = 0.0
    size = abs(body)
    for bnd, sign in ((c.lower, 1), (c.upper, -1)):
        if bnd is not None:
            b = pe.value(bnd)
            size = max(size, abs(b))
            d = max(d, sign * (b - body))
    # size of the terms, so that a sum of large cancelling terms is not judged at its remainder
    try:
        terms = [abs(pe.value(a)) for a in c.expr.args]
        size = max([size] + terms)
    except Exception:  # noqa: BLE001
        pass
    return max(0.0, d) / max(1e-3, size)


def concrete_goal(ent, sm, label, env):
    """The documented relation `label` written over the concretely built model's own
    calibrated parameters."""
    from .entail import damage_forms
    from .spec import Spec

    start, dt, n = ent.spec_args
    num = lambda x: const(Fraction(repr(float(S.evaluate(x, env))))) if isinstance(x, Sym) else x
    sp = Spec(sm, num(start), num(dt), n, ent.regions, damage_forms(sm, sm.params))
    sp.conv_year = num(ent.conv_year) if ent.conv_year is not False else False
    for q in sp.all():
        if q.label == label:
            return q.f
    return None


def confirm(ent, kind, goal, cur, goal_ref=None, label=None):
    """Find a point and confirm it on the real model.  kind 'a': goal documented, cur model
    constraints; kind 'b': goal a model constraint (goal_ref=(name, idx)), cur documented.
    Returns (env, text) or None."""
    refs = {f.id: (n, i) for n, i, f in ent.cons}
    tried = 0
    for env in candidates(ent, goal, cur):
        tried += 1
        if tried > 6:
            break
        try:
            sm = concrete_model(ent, env)
        except Exception as e:  # noqa: BLE001
            if kind == "build":
                return env, repr(e)
            continue
        try:
            full = dict(ent.sm.nominal)
            full.update(env)
            if kind == "a":
                worst = 0.0
                for f in cur:
                    if f.id in refs:
                        worst = max(worst, real_violation(sm, *refs[f.id]))
                if worst > 1e-6:
                    # solve the real defining constraints for their variables
                    worst = repair(ent, sm, cur, refs, full)
                if worst > 1e-6:
                    continue
                g = concrete_goal(ent, sm, label, full) if label is not None else None
                v = violation(goal if g is None else g, full)
                if v > 1e-5:
                    return env, f"the model's own constraints hold (residual {worst:.2g}) but the documented relation is off by {v:.3g} (relative)"
            else:
                if max([violation(f, full) for f in cur] + [0.0]) > 1e-6:
                    continue
                v = real_violation(sm, *goal_ref)
                if v > 1e-5:
                    return env, f"the documented equations hold but constraint {goal_ref[0]}[{goal_ref[1]}] of the model excludes the point (off by {v:.3g} relative)"
        except (ValueError, ZeroDivisionError, OverflowError, KeyError):
            continue
    return None


def repair(ent, sm, cur, refs, full):
    """Recompute one head variable per equality from the real constraint."""
    from pyomo.util.calc_var_value import calculate_variable_from_constraint

    worst = 0.0
    for f in cur:
        if f.id not in refs or f.op != "eq":
            continue
        n, i = refs[f.id]
        if real_violation(sm, n, i) <= 1e-7:
            continue
        a = f.args[0]
        if a.op != "var" or a.args[0] not in ent.modelvars:
            a = f.args[1]
        if a.op != "var" or a.args[0] not in ent.modelvars:
            continue
        vd = find_var(sm, a.args[0])
        try:
            calculate_variable_from_constraint(vd, sm.m.find_component(n)[i])
        except Exception:  # noqa: BLE001
            return 1.0
        full[a.args[0]] = pe.value(vd)
    for f in cur:
        if f.id in refs:
            worst = max(worst, real_violation(sm, *refs[f.id]))
    return worst


def find_var(sm, name):
    base, _, ix = name.partition("[")
    v = getattr(sm.m, base)
    if not ix:
        return v
    for k in v:
        if M.idx_str(k) == "[" + ix:
            return v[k]
    raise KeyError(name)
