"""C25: a model is determined by its settings alone."""
import copy
import itertools
import multiprocessing as mp
import os
import re
import shutil
import tempfile

import mimosa
import pandas as pd
import pyomo.environ as pe

from . import harness
from . import model as M
from . import sym as S

R = ("CAN", "USA", "INDIA")
SIM = {"simulation.simulationmode": True, "simulation.deactivated_constraints": ["global_emissions"],
       "simulation.constraint_variables": {"relative_abatement": {y: {r: 0.01 * (y - 2010) for r in R} for y in (2020, 2025, 2030, 2035, 2040)}}}
# label -> (settings, time grid, regions)
RUNS = {
    "default": ({}, (2020, 2035, 5), R),
    "trade": ({"model.emissiontrade module": "emissiontrade", "effort sharing.regime": "per_cap_convergence", "SSP": "SSP3", "emissions.carbonbudget": "700 GtCO2"}, (2020, 2040, 10), R),
    "pool": ({"model.emissiontrade module": "globalcostpool", "model.welfare module": "cost_minimising", "economics.damages.quantile": 0.95}, (2085, 2115, 10), R),
    "nodamage": ({"model.damage module": "nodamage", "model.objective module": "globalcosts", "SSP": "SSP1"}, (2020, 2035, 5), R),
    "combined": ({"economics.damages.coacch_combined_slr_nonslr_damages": True, "model.welfare module": "inequal_aversion_general", "model.financialtransfer module": "globaldamagepool"}, (2020, 2035, 5), R),
    "no limits": ({"emissions.inertia.regional": False, "emissions.global min level": False, "emissions.baseline carbon intensity": False, "temperature.target": "2 delta_degC"}, (2090, 2110, 5), R),
    "manual": ({"regions": {"CAN": {"MAC": {"kappa_rel_abatement_0.75_2050": 1.5}, "COACCH": {"NoSLR_form": "Robust-Linear"}}, "USA": {"economics": {"init_capital_factor": 2.0}}, "INDIA": {}}}, (2020, 2035, 5), None),
    "simulation": (SIM, (2020, 2035, 5), R),
    "quantities": ({"economics.MAC.gamma": "3000 USD2010/tCO2", "temperature.TCRE": "0.5 delta_degC/TtCO2", "emissions.global min level": "-30 GtCO2/yr", "economics.PRTP": 0.03}, (2020, 2035, 5), R),
    "other regions": ({}, (2020, 2035, 5), ("WEU", "SEAS")),
}

# settings with which the construction stops half-way, at different points
FAILS = {
    "(fails: unknown setting)": {"emissions.unknown": 1},
    "(fails: value)": {"economics.PRTP": "abc"},
    "(fails: regional parameter)": {"economics.damages.quantile": 0.5, "economics.MAC.regional calibration factor": "none"},
    "(fails: regions)": {"regions": {"NOWHERE": {}}},
    "(fails: no mapping)": {"regionsmappings": []},
    "(fails: equations)": {"emissions.carbonbudget": "700 GtCO2", "economics.damages.percentage reversible": 0.5},
    "(fails: simulation)": {"simulation.simulationmode": True, "simulation.deactivated_constraints": ["nothing"]},
}


def snapshot(sm):
    """Everything a built model consists of: {what: term or value}."""
    sm._cons = None
    out = {}
    for n, i, f in sm.constraints():
        k, j = ("constraint", n, str(i)), 0
        while k in out:
            j += 1
            k = ("constraint", n, f"{i} ({j})")
        out[k] = f
    for c in sm.m.component_objects(pe.Constraint):
        for i in c:
            if not c[i].active:
                out["inactive", c.name, str(i)] = "inactive"
    for k, (sense, e) in enumerate(sm.objective()):
        out["objective", k] = e
        out["sense", k] = str(sense)
    for p in sm.m.component_objects(pe.Param):
        for i in p:
            v = p[i]
            v = pe.value(v) if not isinstance(v, (S.Sym, str, bool)) and v is not None else v
            t = S.lift(v) if not isinstance(v, (str, bool)) and v is not None else None
            out["parameter", p.name, str(i)] = t if t is not None else repr(v)
    for t in sm.m.t:
        out["year", t] = S.lift(sm.m.year(t))
    out["regions",] = sorted(sm.m.regions)
    for k, v in sm.nominal.items():
        out["number", k] = repr(v)
    return out


def scratch_tables(where):
    """Copies of the shipped tables with other numbers; settings that name them."""
    src = os.path.dirname(os.path.abspath(mimosa.__file__))

    def scaled(name, f, columns=slice(None)):
        d = pd.read_csv(os.path.join(src, name))
        for c in d.columns:
            if pd.api.types.is_float_dtype(d[c]):
                d[c] = d[c] * f
        os.makedirs(os.path.join(where, str(f)), exist_ok=True)  # (the same name in another folder)
        out = os.path.join(where, str(f), os.path.basename(name))
        d.to_csv(out, index=False)
        return out

    tables = {c: {"filename": f"inputdata/regionalparams/{f}.csv", "regionstype": t} for c, f, t in
              (("economics", "economics", "IMAGE26"), ("MAC", "mac", "IMAGE26"), ("COACCH", "COACCH", "COACCH"), ("mortality", "mortality", "IMAGE26"))}
    other = copy.deepcopy(tables)
    for c, n in (("economics", 1.5), ("MAC", 1.25), ("COACCH", 0.5), ("mortality", 2.0)):
        other[c]["filename"] = scaled(other[c]["filename"], n)
    # conversion table with the regions' counterparts exchanged
    mapping = pd.read_csv(os.path.join(src, "inputdata/regions/IMAGE26_COACCH.csv"))
    mapping["COACCH"] = list(mapping["COACCH"][1:]) + list(mapping["COACCH"][:1])
    mapping.to_csv(os.path.join(where, "shifted.csv"), index=False)
    # the damage table already in the model's regions (the same file as a user may have converted it)
    coacch = pd.read_csv(os.path.join(src, "inputdata/regionalparams/COACCH.csv"))
    plain = pd.DataFrame([{**coacch.iloc[k].to_dict(), "region": r} for k, r in enumerate(R)])
    plain.to_csv(os.path.join(where, "COACCH.csv"), index=False)
    data = scaled("inputdata/data/data_IMAGE_SSP.csv", 1.5)
    ref = "{SSP}-Ref-SPA0-V17"
    g = (2020, 2035, 5)
    return {
        "other tables": ({"regional_parameter_files": other}, g, R),
        "other mapping": ({"regionsmappings": [{"regionstype1": "IMAGE26", "regionstype2": "COACCH", "conversiontable": os.path.join(where, "shifted.csv")}]}, g, R),
        "other data": ({"input": {"variables": {v: {"variable": n, "unit": u, "scenario": ref, "model": "IMAGE", "file": data} for v, n, u in
                                                (("GDP", "GDP|PPP", "currency_unit"), ("emissions", "Emissions|CO2", "emissionsrate_unit"), ("population", "Population", "population_unit"))}}}, g, R),
        "plain tables": ({"regional_parameter_files": {**tables, "COACCH": {"filename": os.path.join(where, "COACCH.csv"), "regionstype": "IMAGE26"}}}, g, R),
    }


def in_fresh_process(jobs, fn):
    """[fn(job)], each computed in its own process forked from this one (which has built no model)."""
    ctx = mp.get_context("fork")

    def work(job, w):
        try:
            w.send((True, fn(job)))
        except BaseException as e:  # noqa: BLE001
            w.send((False, harness.exc_text(e)))

    out, left, running = {}, list(enumerate(jobs)), []
    while left or running:
        while left and len(running) < 8:
            k, job = left.pop(0)
            r, w = ctx.Pipe(duplex=False)
            pr = ctx.Process(target=work, args=(job, w))
            pr.start()
            w.close()
            running.append((k, pr, r))
        k, pr, r = running.pop(0)
        try:
            out[k] = r.recv()
        except EOFError:
            out[k] = (False, "process ended early")
        pr.join()
    return [out[k] for k in range(len(jobs))]


def check(prop, tier):
    where = tempfile.mkdtemp(prefix="vf_c25_")
    try:
        return check_in(prop, tier, {**RUNS, **scratch_tables(where)})
    finally:
        shutil.rmtree(where, ignore_errors=True)


def check_in(prop, tier, runs):
    h = harness.Harness(prop, tier, "Sequences of models are built through the public constructor with every numeric setting, regional parameter and data value symbolic; every constraint, bound, objective, parameter and year of every "
                        "model is compared, by equivalence queries, with the one its settings give as the only model of a fresh process, with itself after other models were built, and with the one built from reordered regions and settings.")

    def params(label):
        ov, g, regions = runs.get(label) or (FAILS[label], (2090, 2110, 5), R)
        p = M.small_params(regions=regions or R, start=g[0], end=g[1], dt=g[2])
        for k, v in copy.deepcopy(ov).items():
            M.deep_update(p, k.split("."), v)
        return p

    def build(p):
        return M.build(p)

    def compare(key, label, a, b, real, pcond=()):
        """The two snapshots describe the same model."""
        if set(a) != set(b):
            diff = sorted(map(str, set(a) ^ set(b)))[:3]
            return confirm(key, f"{label}: {diff} in one of them only", real)
        for k, x in a.items():
            y = b[k]
            if x is y or (not isinstance(x, (S.Sym, S.SymBool)) and x == y):
                h.holds(key, f"{label}: {k}", True)
            elif isinstance(x, S.SymBool) and isinstance(y, S.SymBool):
                h.prove(key, f"{label}: {k} is the same", list(pcond), S.and_(S.implies(x, y), S.implies(y, x)), real)
            elif isinstance(x, S.Sym) and isinstance(y, S.Sym):
                h.prove(key, f"{label}: {k} is the same", list(pcond), S.eq(x, y), real)
            else:
                return confirm(key, f"{label}: {k} is {x!r} in one and {y!r} in the other", real)

    def confirm(key, text, real):
        what = real({})
        if what:
            h.fail(key, f"{text}: {what}", {"what": what})
        else:
            h.rep.undecided(f"{text}: not reproduced on numbers")

    def numbers(sm):
        """The numeric model at a fixed point of its variables."""
        out = {}
        for n, v in enumerate(sm.m.component_data_objects(pe.Var)):
            if not v.fixed:
                v.set_value(0.3 + 0.01 * (sum(map(ord, v.name)) % 53), skip_validation=True)
        for c in sm.m.component_data_objects(pe.Constraint):
            try:
                out[c.name] = (c.active, pe.value(c.body), pe.value(c.lower) if c.lower is not None else None, pe.value(c.upper) if c.upper is not None else None)
            except (ValueError, ZeroDivisionError, OverflowError):
                out[c.name] = (c.active,)
        for c in sm.m.component_data_objects(pe.Var):
            out["bounds " + c.name] = (True, 0, c.lb, c.ub)
        for o in sm.m.component_data_objects(pe.Objective):
            out[o.name] = (True, pe.value(o.expr), str(o.sense), None)
        for t in sm.m.t:
            out[f"year {t}"] = (True, float(sm.m.year(t)), None, None)
        return out

    def same(a, b):
        for k in sorted(set(a) | set(b)):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                return f"{k} exists in one of them only"
            for u, v in zip(x, y):
                if u != v and not (isinstance(u, float) and isinstance(v, float) and abs(u - v) <= 1e-9 * max(1.0, abs(u), abs(v))) and not (u != u and v != v):
                    return f"{k} is {x} in one and {y} in the other"
        return None

    def paths(label, go, real):
        for res, exc, pcond, _ in h.explore(go, max_paths=200, label=label):
            if exc is None:
                yield res, pcond
            elif isinstance(exc, S.NeedFloat):
                h.no_answer("build", label, exc, real, [{}])
            else:
                confirm("build", f"{label}: {harness.exc_text(exc)}", real)

    def refusal(exc):
        return f"{type(exc).__name__}: {re.sub('0x[0-9a-f]+', '', str(exc))[:200]}"

    def baseline(label):
        """The model of these settings as the only one of its process: formulas of every path, and numbers."""
        p, out = params(label), []
        for res, exc, pcond, _ in h.explore(lambda: snapshot(build(copy.deepcopy(p))), max_paths=200, label=label):
            if exc is not None and label in runs:
                raise exc
            d = {} if exc is not None else res
            terms = {k: v for k, v in d.items() if isinstance(v, (S.Sym, S.SymBool))}
            dumped = S.dump(list(terms.values()) + list(pcond))
            out.append((None if exc is None else refusal(exc), {k: v for k, v in d.items() if k not in terms}, list(terms), dumped))
        try:
            with M.quiet():
                n = numbers(M.build(params(label), symbolic=False, values={}))
        except Exception as e:  # noqa: BLE001
            if label in runs:
                raise
            n = refusal(e)
        return out, n

    loaded = {}

    def fresh(label):
        """Paths of `label` in a fresh process: [(refusal, snapshot, path condition)]."""
        if label not in loaded:
            loaded[label] = []
            for err, plain, keys, dumped in bases[label][0]:
                nodes = S.undump(dumped)
                loaded[label].append((err, {**plain, **dict(zip(keys, nodes))}, nodes[len(keys):]))
        return loaded[label]

    def numeric(label):
        """The numeric model, or how it was refused."""
        try:
            with M.quiet():
                sm = M.build(params(label), symbolic=False, values={})
            return sm, numbers(sm)
        except Exception as e:  # noqa: BLE001
            return None, refusal(e)

    def differs(a, b):
        if isinstance(a, str) or isinstance(b, str):
            return None if a == b else f"{a if isinstance(a, str) else 'built'} instead of {b if isinstance(b, str) else 'built'}"
        return same(b, a)

    def history(first, others):
        """first, others..., first again: every one of them is the model its settings give in a fresh
        process, and none of them changes afterwards."""
        label = f"{first}, {', '.join(others)}, {first}"
        seq = [first, *others, first]

        def real(env):
            models = []
            for k, o in enumerate(seq):
                sm, n = numeric(o)
                d = differs(n, bases[o][1])
                if d:
                    return f"{o} built after {seq[:k]} differs from the one built first: {d}"
                models.append((o, k, sm, n, sm and copy.deepcopy(sm.mimosa.params)))
            for o, k, sm, n, pa in models:
                d = sm and (same(n, numbers(sm)) or (None if pa == sm.mimosa.params else "its settings"))
                if d:
                    return f"after building {seq[k + 1:]}, the {o} model has changed: {d}"
            return None

        def go():
            made = []
            for o in seq:
                try:
                    with M.quiet():
                        sm = build(params(o))
                except Exception as e:  # noqa: BLE001  (whether a model can be built is C13, C14 and C24)
                    if o in runs:
                        raise
                    made.append((o, refusal(e), None, None, None))
                    continue
                made.append((o, None, sm, snapshot(sm), copy.deepcopy(sm.mimosa.params)))
            watched = made if len(made) <= 4 or h.thorough else made[:1]
            later = [(o, snapshot(sm), pa == sm.mimosa.params) for o, err, sm, sn, pa in watched if sm is not None]
            return [(o, err, sn) for o, err, sm, sn, pa in made], later, [sn for o, err, sm, sn, pa in watched if sm is not None]

        for (made, later, before), pcond in paths(label, go, real):
            for n, (o, err, sn) in enumerate(made):
                for berr, bsn, bcond in fresh(o):
                    if any(S.not_(c) in pcond for c in bcond):
                        continue  # another path of the construction
                    if err != berr:
                        confirm("independent of earlier models", f"{label}: model {n + 1} ({o}): {err or 'built'} instead of {berr or 'built'}", real)
                    elif err is not None:
                        h.holds("independent of earlier models", f"{label}: model {n + 1} is refused in the same way", True)
                    else:
                        compare("independent of earlier models", f"{label}: model {n + 1} ({o})", bsn, sn, real, [*pcond, *bcond])
            for sn, (o, now, kept) in zip(before, later):
                compare("unchanged by later models", f"{label}: {o} afterwards", sn, now, real, pcond)
                if kept:
                    h.holds("unchanged by later models", f"{label}: settings of {o}", True)
                else:
                    confirm("unchanged by later models", f"{label}: settings of {o}", real)

    def order(label, perm):
        """The same settings, listed in another order."""
        p = params(label)

        def shuffled(d):
            if not isinstance(d, dict):
                return d
            return {k: shuffled(d[k]) for k in reversed(list(d))}

        q = shuffled(params(label))
        q["simulation"]["constraint_variables"] = params(label)["simulation"]["constraint_variables"]  # (years are given in order)
        q["regions"] = {r: q["regions"][r] for r in perm(list(p["regions"]))}

        def real(env):
            d = same(numbers(M.build(copy.deepcopy(p), symbolic=False, values={})), numbers(M.build(copy.deepcopy(q), symbolic=False, values={})))
            return f"{label} with its regions listed as {list(q['regions'])} and its settings in reverse order differs from {list(p['regions'])}: {d}" if d else None
        for (a, b), pcond in paths(label, lambda: (snapshot(build(copy.deepcopy(p))), snapshot(build(copy.deepcopy(q)))), real):
            compare("order", f"{label}: order of regions and settings", a, b, real, pcond)

    def detached(label):
        """Changing the given dictionary afterwards changes nothing in the model."""
        p = params(label)

        def wreck(d):
            for k in list(d):
                if isinstance(d[k], dict):
                    wreck(d[k])
                elif isinstance(d[k], list):
                    d[k].append("changed")
                else:
                    d[k] = "changed"
            d["changed"] = 1

        def real(env):
            q = params(label)
            a = M.build(q, symbolic=False, values={})
            na, pa = numbers(a), copy.deepcopy(a.mimosa.params)
            wreck(q)
            d = same(na, numbers(a))
            return d or (None if pa == a.mimosa.params else "the model's settings changed with the dictionary they were given in")
        def go():
            given = copy.deepcopy(p)
            a = build(given)
            sa, pa = snapshot(a), copy.deepcopy(a.mimosa.params)
            wreck(given)
            return sa, snapshot(a), pa == a.mimosa.params
        for (sa, later, kept), pcond in paths(label, go, real):
            compare("detached", f"{label}: given dictionary changed afterwards", sa, later, real, pcond)
            if not kept:
                confirm("detached", f"{label}: settings of the run", real)
            else:
                h.holds("detached", f"{label}: settings of the run", True)

    def confirm_build(o, what):
        try:
            with M.quiet():
                numbers(M.build(params(o), symbolic=False, values={}))
            h.rep.undecided(f"{o}: cannot be encoded: {what}")
        except Exception as e:  # noqa: BLE001
            h.fail("build", f"{o}: a valid configuration cannot be built: {refusal(e)}", {"what": refusal(e)})

    names = list(runs)
    labels = names + list(FAILS)
    bases = {}
    for o, (ok, b) in zip(labels, in_fresh_process(labels, baseline)):
        if not ok:
            confirm_build(o, b)
            return h.done(bounds=["construction of " + o], outside=[], assumptions=[])
        bases[o] = b
    for o in names:
        if o != "default" and not differs(bases[o][1], bases["default"][1]):
            h.rep.undecided(f"{o}: the same model as the default one (nothing could be mixed up)")
    jobs = []
    for n, a in enumerate(names):
        others = [b for b in names if b != a]
        if h.thorough:
            jobs += [(history, a, [b]) for b in others]
        jobs.append((history, a, [others[n % len(others)], others[(2 * n + 3) % len(others)]]))
        jobs.append((history, a, others))
        jobs.append((history, a, list(FAILS)))
        jobs.append((order, a, lambda rs: rs[::-1]))
        jobs.append((detached, a))
        if h.thorough:
            for k in range(6):
                jobs.append((order, a, lambda rs, k=k: list(list(itertools.permutations(rs))[k % (6 if len(rs) == 3 else 2)])))
    h.parallel(jobs, lambda j: j[0](*j[1:]))
    return h.done(
        bounds=[f"{len(names)} configurations; sequences of 3 and {len(names) + 1} models, and of models that fail half-way ({len(FAILS)} ways)" + (" and every ordered pair" if h.thorough else ""), "all values of all numeric settings (except the convergence year and the share of reversible damages), regional parameters and data",
                "regions and settings listed in " + ("all orders / reverse order" if h.thorough else "reverse order")],
        outside=["models built in several threads at once", "data files whose content changes between two models (the data are read once per session)", "solving or saving a model in between"],
        assumptions=["the numbers read from the data files are compared as such (they are symbols in the queries)"])

