"""C31: what is handed to the solver is the model that was built."""
import math
from fractions import Fraction

import numpy as np
import pyomo.environ as pe

import mimosa.mimosa as mm

from . import check_c29, configs, harness, smt
from . import model as M
from . import replay as R
from . import sym as S
from .sym import const, le


TWO = [configs.cfg("two regions", "trade", "percap", regions=("CAN", "USA")), configs.cfg("two regions, pool", "pool", "dmgpool", regions=("INDIA", "CAN")), configs.cfg("one region", regions=("USA",))]


def linked(abstract, data):
    """Variables that an added component equates with others, in chains, across periods and with a number."""
    t, r = abstract.t, abstract.regions
    abstract.vf_a, abstract.vf_b, abstract.vf_g = pe.Var(t, r), pe.Var(t, r, bounds=(-50, 75)), pe.Var(t, initialize=3.0)
    abstract.vf_n = pe.Var(t, bounds=(0.4, 0.4001))
    abstract.vf_h = pe.Var(t, r, initialize=2.0)
    abstract.vf_c1 = pe.Constraint(t, r, rule=lambda m, t, r: m.vf_a[t, r] == m.consumption[t, r])
    abstract.vf_c2 = pe.Constraint(t, r, rule=lambda m, t, r: m.vf_b[t, r] == m.vf_a[t, r])
    abstract.vf_c3 = pe.Constraint(t, rule=lambda m, t: m.vf_g[t] == m.global_emissions[t])
    abstract.vf_c4 = pe.Constraint(t, r, rule=lambda m, t, r: m.vf_h[t, r] - m.vf_n[t] >= 0.125)
    abstract.vf_c5 = pe.Constraint(t, r, rule=lambda m, t, r: m.vf_h[t, r] == 0.75 if t > 0 else pe.Constraint.Skip)


def check(prop, tier):
    h = harness.Harness(prop, tier, "The constructor is run with and without its preprocessing; both results are translated and compared, equation by equation, over all values of all variables. What becomes of a variable that is merged is read off "
                        "the real postprocessing; a variable that is fixed must have that value in every point of the model as built.")

    def params(c):
        g = c["grid"]
        p = M.small_params(c["overrides"], c["regions"], g["start"], g["end"], g["dt"])
        for r, cols in c["forms"].items():
            p["regions"][r] = {"COACCH": dict(cols)}
        return p

    def table(sm):
        out = {}
        for n, i, f in sm.constraints():
            out.setdefault((n, i), []).append(f)
        return {k: S.and_(*v) if len(v) > 1 else v[0] for k, v in out.items()}

    def by_bounds(f, after_index):
        vs = S.variables(f)
        return [g for g, gv in {g.id: (g, gv) for v in vs for g, gv in after_index.get(v, ())}.values() if gv <= vs]

    def close(f, values):
        """A relation in which every variable was fixed, up to the rounding of the values."""
        try:
            return R.violation(f, values) <= 1e-6
        except (ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError):
            return True  # has no value in either model (C29)

    def numbers(f):
        """Terms without variables (powers, exponentials) replaced by their values."""
        sub = {}
        for n in S.postorder([S._lb(f)]):
            if n.op in ("pow", "exp", "log", "atan", "sqrt", "tanh", "fn") and not S.variables(n):
                try:
                    x = S.evaluate(n, {})
                    if not isinstance(x, complex) and math.isfinite(x):
                        sub[n.id] = const(Fraction(float(x)))
                except (ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError):
                    pass
        if not sub:
            return f
        out = {}
        for n in S.postorder([S._lb(f)]):
            out[n.id] = sub[n.id] if n.id in sub else S.rebuild(n.op, tuple(out[x.id] if isinstance(x, (S.Sym, S.SymBool)) else x for x in n.args)) if any(isinstance(x, (S.Sym, S.SymBool)) for x in n.args) else n
        return out[S._lb(f).id]

    def entails(premises, f):
        return any(f.id == g.id or smt.approx_same(g, f) for g in premises) or smt.prove(premises, f, timeout=4000).status == "unsat" or smt.prove(premises, f, timeout=4000, snap=10).status == "unsat"

    def follows(f, direct, index):
        """From the equation of the same name, from those over the same variables, or from everything that shares one."""
        if direct is not None and entails([direct], f) or entails(by_bounds(f, index), f):
            return True
        near = list({g.id: g for v in S.variables(f) for g, _ in index.get(v, ())}.values())
        return entails(near, f)

    def one(c):
        hook = c.get("hook")
        try:
            with M.quiet():
                one_ = M.build(params(c), symbolic=False, instance_hook=hook, patches={(mm.MIMOSA, "preprocessing"): lambda self: None} if hasattr(mm.MIMOSA, "preprocessing") else None)
                two = M.build(params(c), symbolic=False, instance_hook=hook, patches={(mm, "TransformationFactory"): pe.TransformationFactory})
        except Exception:  # noqa: BLE001  (C24)
            return
        before, after = table(one_), table(two)
        names = {one_.var_sym(v).args[0]: (v.parent_component().name, v.index()) for v in one_.m.component_data_objects(pe.Var)}
        # where every variable gets its value from after the solve
        probe, k = {}, 1000
        from pyomo.core.staleflag import StaleFlagManager
        StaleFlagManager.mark_all_as_stale(delayed=True)
        for v in two.m.component_data_objects(pe.Var):
            if not v.fixed:
                k += 1
                v.set_value(float(k), skip_validation=True)
                probe[float(k)] = two.var_sym(v)
        with M.quiet():
            orig, mm.TransformationFactory = mm.TransformationFactory, pe.TransformationFactory
            try:
                two.mimosa.postprocessing()
            finally:
                mm.TransformationFactory = orig
        fixed, rep = {}, {}
        for n, (comp, idx) in names.items():
            v = getattr(two.m, comp)[idx]
            if v.fixed:
                fixed[n] = Fraction(repr(float(v.value)))
                rep[n] = const(fixed[n])
            else:
                rep[n] = probe.get(v.value)
                h.holds(f"value: {comp}", f"{c['name']}: {n} has a value of the solver after the solve", rep[n] is not None)
                if rep[n] is None:
                    rep[n] = S.var(n)
        mapping = {n: x for n, x in rep.items() if not (x.op == "var" and x.args[0] == n)}
        sub = {}

        def moved(f):
            """A formula of the model as built in terms of the solver's variables; None where it has no value."""
            if f.id not in sub:
                try:
                    sub[f.id] = smt.fold(S.substitute(f, mapping))
                except ZeroDivisionError:
                    sub[f.id] = None
            return sub[f.id]

        # 1. fixed variables: the model as built leaves no other value
        known, open_ = {}, dict(fixed)
        eqs = [(f, S.variables(f) & names.keys()) for f in before.values()]
        progress = True
        while open_ and progress:
            progress = False
            for n in sorted(open_):
                near = [numbers(S.substitute(f, known)) for f, vs in eqs if n in vs and not (vs - {n} - known.keys())]
                if not near:
                    continue
                v, x = open_[n], S.var(n)
                tol = const(Fraction(1, 10**7) * max(1, abs(v)))
                goal = S.and_(le(x, const(v) + tol), le(const(v) - tol, x))
                if smt.prove(near, goal, timeout=4000).status == "unsat":
                    h.holds(f"fixed: {names[n][0]}", f"{c['name']}: {n} is fixed at the only value the equations leave it", True)
                    known[n] = const(v)
                    del open_[n]
                    progress = True
        for n in sorted(open_):
            premises = [f for f, vs in eqs if n in vs]
            v, x = open_[n], S.var(n)
            goal = S.and_(le(x, const(v) + const(Fraction(1, 10**6))), le(const(v) - const(Fraction(1, 10**6)), x))

            def real(env, n=n):
                comp, idx = names[n]
                vd = getattr(one_.m, comp)[idx]
                val = float(env[n])
                if vd.lb is not None and val < vd.lb - 1e-9 or vd.ub is not None and val > vd.ub + 1e-9:
                    return None
                for m_, val_ in env.items():
                    if m_ in names:
                        getattr(one_.m, names[m_][0])[names[m_][1]].set_value(float(val_), skip_validation=True)
                for (cn, ci), f in before.items():
                    if n in S.variables(f) and not cn.endswith((".lower", ".upper", ".discrete", ".fixed")) and R.real_violation(one_, cn, ci) > 1e-6:
                        return None
                return f"{n} is fixed at {float(fixed[n])} before the solve, but the model as built also admits {val}"
            h.prove(f"fixed: {names[n][0]}", f"{c['name']}: {n} is fixed at {float(v)}", premises, goal, real)
        # 2. equations, in both directions
        after_index = {}
        for f in after.values():
            gv = frozenset(S.variables(f))
            for v in gv:
                after_index.setdefault(v, []).append((f, gv))
        shown = {}
        for key, f in before.items():
            text = f"{c['name']}: {key[0]}{M.idx_str(key[1])}"
            vs = S.variables(f)
            if vs <= fixed.keys():
                values = {n: fixed[n] for n in vs}
                h.holds(f"kept: {key[0]}", f"{text} does not hold for the values that were fixed", close(f, values) or key in after and not close(after[key], values))
                continue
            g = moved(f)
            if g is None:
                continue
            shown[key] = g
            f1 = after.get(key)
            h.holds(f"kept: {key[0]}", f"{text} is not implied by what the solver gets", follows(g, f1, after_index))
        before_index = {}
        for g in shown.values():
            gv = frozenset(S.variables(g))
            for v in gv:
                before_index.setdefault(v, []).append((g, gv))
        for key, f1 in after.items():
            if key[0].endswith((".lower", ".upper")) and S.variables(f1) <= mapping.keys():
                continue  # of a variable that the solver does not see
            if key[0].endswith(".fixed") or not S.variables(f1) - {n for n in fixed}:
                continue
            try:
                f1 = smt.fold(S.substitute(f1, {n: const(v) for n, v in fixed.items()}))
            except ZeroDivisionError:
                continue
            if not S.variables(f1):
                continue
            g = shown.get(key)
            h.holds(f"nothing added: {key[0]}", f"{c['name']}: {key[0]}{M.idx_str(key[1])} as the solver gets it is not implied by the model as built",
                    follows(f1, g, before_index))
        for (s0, o0), (s1, o1) in zip(one_.objective(), two.objective()):
            o = S.eq(moved_term(o0, mapping), S.substitute(o1, {n: const(v) for n, v in fixed.items()}))
            h.holds("objective", f"{c['name']}: the objective is not the one that was built", s0 == s1 and (o.op == "bconst" and o.args[0] or entails([], o)))
        h.holds("objective", f"{c['name']}: number of objectives", len(one_.objective()) == len(two.objective()))
        h.rep.cov["vacuity_witnesses"] += 1

    def moved_term(t, mapping):
        return S.substitute(t, mapping)

    jobs = [c for c in configs.QUICK + check_c29.EXTRA + TWO + (configs.cover(2, 1) if tier == "thorough" else []) if not c.get("symgrid") and c["conv"] != "sym"]
    jobs = [dict(c, name=c["name"] + ", linked variables", hook=linked) for c in jobs if tier == "thorough" or c in jobs[::3] or c in TWO] + jobs
    h.parallel(jobs, one)
    return h.done(
        bounds=[f"{len(jobs)} configurations with the shipped data, some with a component whose variables are equated with others; all values of all variables"],
        outside=["other values of the data (Pyomo's preprocessing needs numbers)", "differences below 1e-7 from fixing a variable at a rounded value"],
        assumptions=["Pyomo's transformations are run, not encoded"])
