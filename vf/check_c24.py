"""C24: every accepted configuration builds a model."""
import itertools
import random

from . import documented, harness, smt
from . import model as M
from . import sym as S
from .sym import const, le

R1, R2, R3 = ("WEU",), ("CAN", "SEAS"), ("USA", "INDIA", "ME")
GRIDS = [(2020, 2035, 5), (2090, 2110, 5), (2085, 2115, 10), (2020, 2037, 7), (2010, 2012, 0.5), (2100, 2140, 20), (2098, 2101, 1.5), (2015, 2300, 20)]
SKIP = {"time", "regions", "regionstype", "regionsmappings", "regional_parameter_files", "input", "simulation"}
NUMBER = {"emissions.carbonbudget": "700 GtCO2", "emissions.global min level": "-20 GtCO2/yr", "emissions.regional min level": "-10 GtCO2/yr", "temperature.target": "2 delta_degC",
          "emissions.inertia.global": -0.04, "emissions.inertia.regional": -0.05, "effort sharing.percapconv_year": 2050,
          "economics.emission trade.min rel payment level": 0.5, "economics.emission trade.max rel payment level": 1.5}
MAIN = ["model.damage module", "model.emissiontrade module", "model.financialtransfer module", "model.welfare module", "model.objective module", "effort sharing.regime"]


def factors():
    """Structural settings -> values, and the ranges of the numeric ones."""
    from mimosa.common import utils

    out, ranges = {}, {}
    for path, d in documented.settings(utils.load_yaml("config_default.yaml")):
        name = ".".join(path)
        if path[0] in SKIP:
            continue
        t = d["type"]
        if t == "bool":
            out[name] = [True, False]
        elif t == "enum":
            out[name] = list(d["values"])
        elif t in ("int", "float", "quantity"):
            if d.get("can_be_false"):
                out[name] = [False, NUMBER.get(name, d["default"] if d["default"] is not False else d.get("min", 1))]
            if t != "quantity":
                ranges[name] = (d.get("min"), d.get("max"))
    return out, ranges


def cover(fs, seed, thorough):
    """Rows: every combination of the modules and regimes (quick: of any four of them), and every pair
    (thorough: triple) of values of the settings with at most five values."""
    rnd = random.Random(seed)
    main = [f for f in MAIN if f in fs]
    small = [f for f in fs if len(fs[f]) <= 5]
    names = list(itertools.combinations(small, 3 if thorough else 2))
    if not thorough:
        names += list(itertools.combinations(main, 4))
    todo = {}
    for ns in names:
        for vals in itertools.product(*[fs[f] for f in ns]):
            todo[tuple(zip(ns, map(str, vals)))] = dict(zip(ns, vals))
    total = len(todo)
    rows = []

    def add(row):
        rows.append(row)
        for ns in names:
            todo.pop(tuple((f, str(row[f])) for f in ns), None)
    if thorough:
        for n, combo in enumerate(itertools.product(*[fs[f] for f in main])):
            row = {f: fs[f][n % len(fs[f])] if len(fs[f]) > 5 else rnd.choice(fs[f]) for f in fs}
            row.update(zip(main, combo))
            add(row)
    while todo:
        # of some random completions of an uncovered combination, the one covering most
        want = todo[next(iter(todo))]
        best = None
        for _ in range(30):
            row = {f: want.get(f, rnd.choice(fs[f])) for f in fs}
            gain = sum(tuple((f, str(row[f])) for f in ns) in todo for ns in names)
            if best is None or gain > best[0]:
                best = (gain, row)
        add(best[1])
    return rows, total


def check(prop, tier):
    h = harness.Harness(prop, tier, "The public constructor is executed with every numeric setting, regional parameter and data value symbolic, for every combination of modules and regimes and every pair (triple) of flags; "
                        "each path that ends in an exception must be infeasible within the documented ranges (decided by the solver).")
    fs, ranges = factors()
    ranges_assume = []
    for name, (lo, hi) in ranges.items():
        x = S.var(name)
        if lo is not None:
            ranges_assume.append(le(const(lo), x))
        if hi is not None:
            ranges_assume.append(le(x, const(hi)))

    settings = set(ranges) | {"time.start", "time.end", "time.dt"}

    def divisor(d):
        """A divisor made of settings only: the code raises ZeroDivisionError where it is 0."""
        v = S.variables(d)
        if v and v <= settings:
            if d == 0:
                raise ZeroDivisionError(f"division by {S.show(d)}")
        elif d.op == "const" and d.args[0] == 0:
            raise ZeroDivisionError("division by 0")

    def params(row, grid, regions):
        p = M.small_params(regions=regions, start=grid[0], end=grid[1], dt=grid[2])
        for k, v in row.items():
            M.deep_update(p, k.split("."), v)
        return p

    def settings_of(env, row):
        """The counterexample's settings, inside their documented ranges."""
        out = {}
        for name in ranges:
            v = env.get(name)
            if v is not None and row.get(name) is not False:
                lo, hi = ranges[name]
                v = float(v)
                v = max(v, lo) if lo is not None else v
                out[name] = min(v, hi) if hi is not None else v
        return out

    def replay_for(row, grid, regions, symgrid):
        def real(env):
            g = grid
            if symgrid:
                g = tuple(float(env.get(n, d)) for n, d in zip(("time.start", "time.end", "time.dt"), grid))
                g = (round(g[0]), round(g[1]), g[2])
            p = params({**row, **settings_of(env, row)}, g, regions)
            try:
                M.build(p, symbolic=False, values={})
            except Exception as e:  # noqa: BLE001
                return f"MIMOSA({brief({**row, **settings_of(env, row)})}, time {g}, regions {list(regions)}) raises {harness.exc_text(e)}"
            return None
        return real


    def brief(row):
        """The settings that differ from the defaults."""
        from mimosa.common.config.parseconfig import load_params
        base = load_params()
        out = {}
        for k, v in row.items():
            d = base
            for x in k.split("."):
                d = d[x]
            if d != v:
                out[k] = v
        return out

    def known_key(exc, row, pc):
        """Known findings are identified by what fails."""
        t = str(exc)
        if isinstance(exc, ZeroDivisionError):
            forced = []
            used = S.variables(S._lb(pc[-1])) if pc else set()  # the divisor's literal is the last decision
            for name in sorted(used & set(ranges)):
                q = smt.check(list(ranges_assume) + list(pc))
                v = q.model.get(name) if q.status == "sat" and q.model else None
                if v is not None and smt.prove(list(ranges_assume) + list(pc), S.eq(S.var(name), const(v))).status == "unsat":
                    forced.append(f"{name} = {float(v):g}")
            return f"division by zero at {', '.join(forced)}"
        if isinstance(exc, AttributeError) and "overshoot" in t and row.get("emissions.carbonbudget"):
            return "irreversible damages with a carbon budget"
        return "build"

    def one(label, row, grid, regions, symgrid=None):
        asm = list(ranges_assume)
        kw = {"keep": set()}
        if symgrid:
            patches, ga, _ = M.symbolic_grid_patches(symgrid)
            kw["patches"] = patches
            asm += ga
        real = replay_for(row, grid, regions, symgrid)
        p = params(row, grid, regions)
        ok = False
        for sm, exc, pc, _ in h.explore(lambda: M.build(p, **kw), asm, label=label, max_paths=400):
            if isinstance(exc, S.NeedFloat):
                h.no_answer("build", f"{label}: {brief(row)}", exc, real, [{}])
            elif exc is not None:
                key = known_key(exc, row, pc)
                h.prove(key, f"{label}: {brief(row)}: {harness.exc_text(exc)}", asm + list(pc), S.bconst(False), real)
            else:
                ok = True
                n = len(list(sm.m.t))
                h.holds("build", f"{label}: {brief(row)}: {n} periods, {list(sm.m.regions)}", n >= 2 and list(sm.m.regions) == list(regions))
        return ok

    def early(y):
        p = params({}, (y, 2035, 15), R1)
        for sm, exc, pc, _ in h.explore(lambda: M.build(p, keep=set()), ranges_assume, label=f"start {y}"):
            if exc is not None:
                key = "start before 2010" if isinstance(exc, ValueError) and "interpolation range" in str(exc) else "build"
                h.prove(key, f"start {y}: {harness.exc_text(exc)}", ranges_assume + list(pc), S.bconst(False), replay_for({}, (y, 2035, 15), R1, None))

    def mapping(kind):
        p = params({"regionstype": kind}, GRIDS[0], R2)
        for sm, exc, pc, _ in h.explore(lambda: M.build(p, keep=set()), ranges_assume, label=f"regionstype {kind}"):
            if exc is not None:
                h.prove(f"regionstype {kind}", f"regionstype {kind}: {harness.exc_text(exc)}", ranges_assume + list(pc), S.bconst(False), replay_for({"regionstype": kind}, GRIDS[0], R2, None))

    rows, covered = cover(fs, 1, h.thorough)
    jobs = []
    for n, row in enumerate(rows):
        if n % 6 == 5:
            jobs.append((one, f"row {n}", row, (2020, 2030, 5), R2, 3))
        else:
            jobs.append((one, f"row {n}", row, GRIDS[n % len(GRIDS)], (R2, R1, R2, R3)[n % 4]))
    # every value of the long enumerations, every setting's two sides alone
    for f in fs:
        for v in fs[f]:
            jobs.append((one, f"{f} = {v}", {f: v}, GRIDS[0], R2))
    # all regions together; every start year
    from mimosa.common.config.parseconfig import load_params
    every = tuple(load_params()["regions"])
    jobs.insert(0, (one, "all regions", {}, (2020, 2040, 10), every))
    jobs.insert(0, (one, "all regions, trade", {"model.emissiontrade module": "emissiontrade", "effort sharing.regime": "equal_total_costs", "model.financialtransfer module": "globaldamagepool"}, (2020, 2030, 10), every))
    for y in range(2010, 2101, 1 if h.thorough else 9):
        jobs.append((one, f"start {y}", {}, (y, y + 30, 15), R1))
    jobs += [(early, y) for y in (1900, 1990, 2009)] + [(mapping, k) for k in ("SSP5", "World")]
    S.DIV_GUARD = divisor
    try:
        h.parallel(jobs, lambda j: j[0](*j[1:]))
    finally:
        S.DIV_GUARD = None
    return h.done(
        bounds=[f"{len(rows)} combinations with {'every combination' if h.thorough else 'every four'} of the damage, emission trade, transfer, welfare, objective modules and regimes, and every {'three' if h.thorough else 'two'} of the other structural settings ({covered} in all); every value of every enumeration",
                "in each: all values of all numeric settings in their documented ranges, of all regional parameters and data; 8 time grids and symbolic start, end and time step with 3 periods; 1, 2, 3 and all 26 regions"],
        outside=["data files other than the ones shipped, user-defined regions", "whether the model has a feasible point", "end years not after the start year", "quantity settings without a documented range are arbitrary numbers"],
        assumptions=["Pyomo constructs a component without error when its rules return expressions (its real code is executed)", "the pre-processing transformations are executed in C23"])
