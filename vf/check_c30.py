"""C30: all regions are treated alike, and the order in which they are listed does not matter."""
import math

import pyomo.environ as pe

from . import configs, harness, smt
from . import model as M
from . import sym as S

R4 = ("CAN", "INDIA", "SEAS", "WEU")
SHAPES = ("Robust-Quadratic", "Robust-Logistic", "Robust-Linear")


def forms(regions, shape):
    cols = {f"{k}_{b}": v for k in ("NoSLR", "SLR-Ad", "SLR-NoAd") for b, v in (("b1", 1.5), ("b2", 2.0), ("b3", 0.75))}
    return {r: {**{f"{k}_form": shape for k in ("NoSLR", "SLR-Ad", "SLR-NoAd")}, **cols} for r in regions}


def cfg(name, *flags, g=configs.LATE4, regions=R4, shape=SHAPES[0]):
    return configs.cfg(name, *flags, g=g, regions=regions, forms=forms(regions, shape))


ALL = configs.ALL26
QUICK = [
    cfg("all regions", "budget", "target", regions=ALL),
    cfg("all regions, trade, convergence", "trade", "percap", regions=ALL, shape=SHAPES[1]),
    cfg("all regions, pools, equal costs", "pool", "dmgpool", "eqtot", "ineq", regions=ALL, shape=SHAPES[2]),
    cfg("long", "trade", "percap", "ginertia", g=configs.grid(2020, 2110, 10)),
    cfg("pools", "pool", "dmgpool", "cost", g=configs.BASE, shape=SHAPES[1]),
    cfg("trade, transfers", "trade", "dmgpool", "eqmit", "combined", g=configs.BASE),
    cfg("no damage", "nodmg", "globalcosts", "kappa", "nolimits", g=configs.BASE),
    cfg("inequality", "ineq", "noadapt", "q95", "conv2030", "percap", g=configs.BASE),
    cfg("no intensity", "nointensity", "notrapz", "globalcosts", "eqtot", g=configs.ODD),
    cfg("grandfathering", "percap", "gf", "trade", "combined", "noadapt", g=configs.BASE),
    cfg("ignored damages", "ignoredmg", "dmgpool", "trade", "cost", g=configs.BASE),
    cfg("half years", "budget", "target", "trade", g=configs.HALF),
]
THOROUGH = [dict(c, name=c["name"] + " 3", regions=R4, forms=forms(R4, SHAPES[i % 3])) for i, c in enumerate(configs.cover(2, 3))] + [
    cfg("all regions, long", "trade", "dmgpool", "percap", g=configs.grid(2020, 2100, 20), regions=ALL)]


def check(prop, tier):
    h = harness.Harness(prop, tier, "The model is built with a symbol for every number; exchanging the regions' data and settings must exchange the regions' variables in the equations. Compared equation by equation under "
                        "two permutations that generate all (a rotation of all regions, the exchange of two), and with the regions listed in another order.")

    def params(c, regions=None):
        g = c["grid"]
        p = M.small_params(c["overrides"], regions or c["regions"], g["start"], g["end"], g["dt"])
        for r, cols in c["forms"].items():
            p["regions"][r] = {"COACCH": dict(cols)}
        return p

    def permuted(name, perm):
        if not name.endswith("]"):
            return name
        head, _, ix = name[:-1].partition("[")
        return head + "[" + ",".join(perm.get(i, i) for i in ix.split(",")) + "]"

    def index(i, perm):
        return tuple(perm.get(x, x) for x in i) if isinstance(i, tuple) else perm.get(i, i)

    def table(sm):
        out = {}
        for n, i, f in sm.constraints():
            out.setdefault((n, i), []).append(f)
        return {k: S.and_(*v) if len(v) > 1 else v[0] for k, v in out.items()}

    def same(f, g):
        """f and g hold at the same points."""
        if f.id == g.id:
            return True
        return S.and_(S.implies(f, g), S.implies(g, f))

    def value_at(sm, kind, idx, env):
        for vd in sm.m.component_data_objects(pe.Var):
            vd.set_value(env.get(sm.var_sym(vd).args[0], 0.5), skip_validation=True)
        if kind == "objective":
            return [pe.value(o.expr) * o.sense for o in sm.m.component_data_objects(pe.Objective, active=True)]
        if kind.rsplit(".", 1)[-1] in ("lower", "upper", "fixed"):
            v = getattr(sm.m, kind.rsplit(".", 1)[0])[idx]
            return [v.lb, v.ub, v.fixed]
        comp = sm.m.find_component(kind)
        if comp is None or idx not in comp:
            return None
        cd = comp[idx]
        body = pe.value(cd.body)
        return [None if b is None else pe.value(b) - body for b in (cd.lower, cd.upper)]

    def differ(a, b):
        if (a is None) != (b is None):
            return True
        if a is None or len(a) != len(b):
            return a is not None
        for x, y in zip(a, b):
            if (x is None) != (y is None):
                return True
            if x is not None and abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)) and not (math.isnan(x) and math.isnan(y)):
                return True
        return False

    def replay(c, perm, regions, kind, idx, nominal):
        def real(env):
            env = {k: float(v) for k, v in env.items()}
            vals = {**nominal, **env}
            one = M.build(params(c), symbolic=False, values=vals, keep=set())
            two = M.build(params(c, regions), symbolic=False, values={permuted(k, perm): v for k, v in vals.items()}, keep=set())
            a = value_at(one, kind, idx, env)
            b = value_at(two, kind, index(idx, perm), {permuted(k, perm): v for k, v in env.items()})
            if differ(a, b):
                who = ", ".join(f"{x}→{y}" for x, y in list(perm.items())[:3])
                return f"{c['name']}: {kind}{M.idx_str(idx)}: slack {a}; with {'the regions exchanged (' + who + ')' if perm else 'the regions listed in another order'} {b}"
            return None
        return real

    def one(c):
        regions = list(c["regions"])
        rotation = dict(zip(regions, regions[1:] + regions[:1]))
        swap = {regions[0]: regions[1], regions[1]: regions[0]}
        other = regions[::-1]
        other = other[1:] + other[:1]

        def build():
            return M.build(params(c), keep=set()), M.build(params(c, other), keep=set())
        for res, exc, pc, _ in h.explore(build, [], max_paths=200, label=c["name"]):
            if exc is not None:
                if isinstance(exc, S.NeedFloat):
                    h.no_answer("build", c["name"], exc)
                continue  # whether it can be built is C24
            sm, sm2 = res
            pc = list(pc)
            base, listed = table(sm), table(sm2)
            for n in sorted({*sm.nominal, *sm2.nominal}):
                a, b = sm.nominal.get(n), sm2.nominal.get(n)
                if a is None or b is None or not (a == b or math.isnan(a) and math.isnan(b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))):
                    h.fail("listed in another order: data", f"{c['name']}: {n} is {a}, with the regions listed in another order {b}")
            objs = [S.mul(S.const(int(s)), e) for s, e in sm.objective()]
            objs2 = [S.mul(S.const(int(s)), e) for s, e in sm2.objective()]
            for title, perm, target, tobjs, order in (("rotated", rotation, base, objs, regions), ("exchanged", swap, base, objs, regions), ("listed in another order", {}, listed, objs2, other)):
                names = set()
                for f in base.values():
                    names |= S.variables(f)
                for f in objs:
                    names |= S.variables(f)
                mapping = {n: S.var(permuted(n, perm)) for n in names if permuted(n, perm) != n}
                for (n, i), f in base.items():
                    want = S.substitute(f, mapping)
                    got = target.get((n, index(i, perm)))
                    key, text = f"{title}: {n}", f"{c['name']}: {n}{M.idx_str(i)} with the regions {title}"
                    rp = replay(c, perm, order, n, i, sm.nominal)
                    if got is None:
                        if rp({}):
                            h.fail(key, f"{text}: {rp({})}")
                        else:
                            h.rep.undecided(f"{text}: no such equation")
                        continue
                    goal = same(want, got)
                    if goal is True or smt.approx_same(want, got):
                        h.holds(key, text, True)
                    else:
                        h.prove(key, text, pc, goal, rp, nominal=sm.nominal)
                extra = {k for k in target} - {(n, index(i, perm)) for n, i in base}
                for n, i in sorted(extra, key=str):
                    h.fail(f"{title}: {n}", f"{c['name']}: {n}{M.idx_str(i)} exists only with the regions {title}")
                for o, o2 in zip(objs, tobjs):
                    h.prove(f"{title}: objective", f"{c['name']}: objective with the regions {title}", pc, S.eq(S.substitute(o, mapping), o2), replay(c, perm, order, "objective", None, sm.nominal), nominal=sm.nominal)
            h.witness(pc, c["name"])

    jobs = QUICK + (THOROUGH if tier == "thorough" else [])
    h.parallel(jobs, one)
    return h.done(
        bounds=[f"{len(jobs)} configurations, three of them with all 26 regions; all values of settings, parameters, data and variables; two permutations that generate all, one other order of listing"],
        outside=["regions with different functional forms of damages (the form is part of what is exchanged; one form for all here)", "the shipped data themselves (compared for two orders of listing only)"],
        assumptions=["real arithmetic; coefficients compared to nine digits"])
