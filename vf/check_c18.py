"""C18: the periods cover the requested horizon exactly, for every start, end and step."""
from fractions import Fraction as F

from . import harness
from . import model as M
from . import sym as S
from . import values as VL
from .sym import const, eq, le, lt

ULP = F(1, 2**53)


def rounded(term):
    """The same computation with a relative error of at most half an ulp in every operation."""
    memo, errs = {}, []

    def err(x):
        e = S.var(f"rounding{len(errs)}")
        errs.append(e)
        return S.mul(x, S.add(const(1), e))

    for n in S.postorder([term]):
        if not isinstance(n, S.Sym):
            raise TypeError("comparison inside an arithmetic term")
        a = [memo[x.id] if isinstance(x, S.Sym) else x for x in n.args]
        if n.op in ("const", "var"):
            memo[n.id] = n
        elif n.op == "add":
            r = a[0]
            for x in a[1:]:
                r = err(S.add(r, x))
            memo[n.id] = r
        elif n.op == "mul":
            r = a[0]
            for x in a[1:]:
                # multiplying by a power of two or -1 is exact
                exact = any(y.op == "const" and abs(y.args[0]) == 1 for y in (r, x))
                r = S.mul(r, x) if exact else err(S.mul(r, x))
            memo[n.id] = r
        elif n.op == "inv":
            memo[n.id] = err(S.fn("inv", a[0]) if hasattr(S, "fn") else None)
        elif n.op in ("floor", "neg"):
            memo[n.id] = S.fn(n.op, *a) if n.op == "floor" else S.neg(a[0])
        else:
            raise TypeError(f"operation {n.op} in the number of periods")
    return memo[term.id], [S.and_(le(const(-ULP), e), le(e, const(ULP))) for e in errs]


def check(prop, tier):
    h = harness.Harness(prop, tier, "InstantiatedModel computes the periods with symbolic start, end and step; for every number of periods n the path condition and the documented grid are compared "
                        "by queries over all reals, and once more with a rounding error in every floating-point operation.")
    import mimosa.concrete_model.instantiate_params as ip
    import mimosa.mimosa as mm
    import pyomo.environ as pe
    from mimosa.abstract_model import create_abstract_model
    from mimosa.common.config import parseconfig as pc

    params, tree = pc.check_params({}, True)
    params["regions"] = {"CAN": {}}

    class Store:  # stands in for the regional table
        def __init__(self, p):
            self.params, self.param_parser_tree, self.regions = p, tree, p["regions"]

        def get(self, cat, name):
            return {"CAN": 1.0}

    class Data:
        def __init__(self):
            self.asked = []

        def interp_data(self, year, region, variable):
            self.asked.append((year, region, variable))
            return 1.0

    start, end, dt = S.var("time.start"), S.var("time.end"), S.var("time.dt")
    dom = [le(const(1900), start), le(start, const(2100)), le(const(1901), end), le(end, const(2300)), le(const(F(1, 2)), dt), le(dt, const(20)), lt(start, end)]

    def instance(vals=None, module="nodamage"):
        import copy

        p = copy.deepcopy(params)
        p["time"] = dict(zip(("start", "end", "dt"), vals or (start, end, dt)))
        p["model"]["damage module"] = module
        am = create_abstract_model(module, "notrade", "notransfer", "welfare_loss_minimising", "utility")
        data = Data()
        im = ip.InstantiatedModel(am, Store(p), data, create_concrete_model=False)
        t = im.instance_data[None]["t"][None]
        ks = list(t) + [S.var("last"), S.var("previous")] if vals is None else list(t)
        years = {k: am.year(k) for k in ks}  # may split into further paths
        return im.instance_data[None], years.__getitem__, data.asked

    def real_grid(env):
        """Plain numbers through the same code; None if the documented grid results."""
        s, e, d = (float(env.get(k, v)) for k, v in (("time.start", 2020), ("time.end", 2100), ("time.dt", 5)))
        if not (1900 <= s <= 2100 and 1901 <= e <= 2300 and 0.5 <= d <= 20 and s < e):
            return None
        i, year, asked = instance((s, e, d))
        n = len(list(i["t"][None]))
        ys = [year(t) for t in i["t"][None]]
        q = F(e - s) / F(d)
        want = int(-((-q) // 1)) + 1
        near = abs(q - round(q)) < F(1, 10**8)
        if n != want and not near:
            return f"start {s}, end {e}, step {d}: {n} periods instead of {want}"
        if i["tf"][None] != n - 1 or any(abs(y - (s + k * d)) > 1e-6 for k, y in enumerate(ys)) or list(i["t"][None]) != list(range(n)):
            return f"start {s}, end {e}, step {d}: years {ys[:3]}...{ys[-1:]}, last index {i['tf'][None]}"
        if i["beginyear"][None] != s or i["dt"][None] != d:
            return f"start {s}, end {e}, step {d}: beginyear {i['beginyear']}, dt {i['dt']}"
        return None

    captured = []

    class Int(metaclass=M._IntMeta):
        pass

    def recording(x=0, *a):
        if isinstance(x, S.Sym) and len(captured) < 50:
            captured.append(x)
        return M.symbolic_int(x, *a)

    # ------------------------------------------------ every number of periods
    eps = const(F(1, 10**6))
    ns = list(range(2, 802)) if h.thorough else list(range(2, 42)) + [66, 67, 80, 100, 101, 131, 161, 181, 200, 281, 300, 400, 401, 561, 600, 761, 800, 801]
    concrete = []
    for n in ns:
        if h.rep.violations and n > 6:
            break  # already answered
        lo = S.add(start, S.mul(dt, S.add(const(n - 2), eps)))
        box = dom + [le(lo, end), le(end, S.add(start, S.mul(dt, const(n - 1))))]
        h.witness(box, f"{n} periods")
        captured.clear()
        with harness.patched([(ip, "int", recording)]):
            paths = h.explore(instance, box, label=f"{n} periods")
        if not paths:
            h.rep.undecided(f"{n} periods: no path")
        for res, exc, pcond, _ in paths:
            if isinstance(exc, S.NeedFloat) or isinstance(exc, S.TooManyPaths):
                h.rep.undecided(f"{n} periods: {harness.exc_text(exc)}")
                continue
            if exc is not None:
                h.prove("periods", f"{n} periods: {harness.exc_text(exc)}", box + pcond, S.bconst(False), lambda env: _try(real_grid, env))
                continue
            i, year, asked = res
            t = list(i["t"][None])
            # the path's own number of periods must be the documented one for all values on the path
            k = len(t)
            goal = S.and_(le(end, S.add(start, S.mul(dt, const(k - 1)))), lt(S.add(start, S.mul(dt, const(k - 2))), end) if k > 1 else S.bconst(False))
            h.prove("periods", f"{k} periods are the ones that reach the end year and no more", box + pcond, goal, real_grid)
            h.holds("index", f"{n} periods: index set {t[:3]}...", t == list(range(k)))
            h.prove("index", f"{n} periods: last index", box + pcond, eq(S.lift(i["tf"][None]), const(k - 1)), real_grid)
            ks = range(k) if n <= 41 or h.thorough and n <= 120 else (0, 1, 2, k // 2, k - 2, k - 1)
            h.prove("years", f"{n} periods: years", box + pcond, S.and_(*[eq(S.lift(year(j)), S.add(start, S.mul(dt, const(j)))) for j in ks]), real_grid)
            h.prove("start", f"{n} periods: first year and step", box + pcond, S.and_(eq(S.lift(i["beginyear"][None]), start), eq(S.lift(i["dt"][None]), dt)), real_grid)
            for var in ("population", "GDP", "emissions"):
                ys = [y for y, r, v in asked if v == var]
                h.holds("data", f"{n} periods: {var} is looked up {len(ys)} times", len(ys) == k)
                if len(ys) == k:
                    h.prove("data", f"{n} periods: {var} is looked up at the years of the periods", box + pcond, S.and_(*[eq(S.lift(ys[j]), S.add(start, S.mul(dt, const(j)))) for j in ks]), real_grid)

    # ------------------------------------------------ any number of periods at once, with rounding
    captured.clear()
    grid = []

    def general():
        with harness.patched([(ip, "int", recording), (ip, "range", lambda n: grid.append(n) or range(2))]):
            return instance()

    def whole(x):
        return x.op == "floor" or x.op in ("neg", "mul", "add") and all(whole(a) or a.op == "const" and a.args[0].denominator == 1 for a in x.args)

    def general_int(x, *a):
        if not isinstance(x, S.Sym):
            return int(x)
        if whole(x):
            return x
        return S.fn("floor", x) if x >= 0 else S.neg(S.fn("floor", S.neg(x)))

    with harness.patched([(M, "symbolic_int", general_int)]):
        paths = h.explore(general, dom, label="any number of periods")
    for res, exc, pcond, _ in paths:
        if exc is not None:
            # written in a way that needs the number itself: the per-n results above stand alone
            h.rep.cov["general_grid"] = f"not applicable: {harness.exc_text(exc)}"
            continue
        i, year, _asked = res
        tf = S.lift(i["tf"][None])
        if tf is None or not S.variables(tf) or not any(isinstance(g, S.Sym) for g in grid):
            h.rep.cov["general_grid"] = "not applicable: the number of periods is not computed as one term"
            continue
        try:
            tf_r, e1 = rounded(tf)
            n_r = None
            y_last, e2 = rounded(S.lift(year(S.var("last"))))
            y_prev, e3 = rounded(S.lift(year(S.var("previous"))))
        except TypeError as e:
            h.rep.cov["general_grid"] = f"not applicable: {e}"
            continue
        last, prev = S.var("last"), S.var("previous")
        # names of the rounding errors must differ between the three terms
        ren = lambda term, es, tag: (S.substitute(term, {v: S.var(f"{tag}-{v}") for v in S.variables(term) | set() if v.startswith("rounding")}), [S.substitute(c, {v: S.var(f"{tag}-{v}") for v in S.variables(c)}) for c in es])  # noqa: E731
        y_last, e2 = ren(y_last, e2, "last")
        y_prev, e3 = ren(y_prev, e3, "previous")
        q = S.mul(S.sub(end, start), S.fn("inv", dt))
        base = dom + e1 + e2 + e3 + [eq(last, tf_r), eq(prev, S.sub(last, const(1)))]
        # instances of "products with a positive step keep the order" (true for all reals), to help the solver
        hints = [eq(S.mul(q, dt), S.sub(end, start))]
        for x in (last, prev):
            for tol in (F(0), F(1, 10**8), F(-1, 10**10)):
                b = S.add(q, const(tol))
                hints += [S.or_(S.not_(le(x, b)), le(S.mul(x, dt), S.mul(b, dt))), S.or_(S.not_(le(b, x)), le(S.mul(b, dt), S.mul(x, dt)))]
        step = [S.and_(le(S.sub(q, const(F(1, 10**8))), last), lt(prev, S.sub(q, const(F(1, 10**10)))))]
        h.prove("rounding", "the number of steps is the smallest that is not below the exact quotient (up to 1e-8)", base, step[0], real_grid, timeout=20000, points=_points())
        facts = base[:-2] + [eq(prev, S.sub(last, const(1)))] + step + hints + [le(const(0), last), le(last, const(801))]
        h.prove("rounding", "the last year reaches the end year up to rounding", facts, le(S.sub(end, const(F(1, 10**6))), y_last), real_grid, timeout=20000, points=_points())
        h.prove("rounding", "the year before the last does not reach the end year", facts, lt(y_prev, end), _no_extra(instance), timeout=20000, points=_points())
    for env in _points():
        got = _no_extra(instance)(env) or real_grid(env)
        h.holds("rounding", f"{got}", got is None)

    # ------------------------------------------------ the built model has this grid
    for n in (2, 3, 4) + ((5, 6) if h.thorough else ()):
        patches, assume, (s_, d_, n_) = M.symbolic_grid_patches(n)
        paths = h.explore(lambda: M.build(M.small_params(regions=("CAN", "USA")), patches=patches), assume, label=f"model with {n} periods")
        for sm, exc, pcond, _ in paths:
            if not h.holds("model", f"model with {n} periods: {harness.exc_text(exc) if exc else ''}", exc is None):
                continue
            m = sm.m
            h.holds("model", f"model with {n} periods has periods {list(m.t)}, last {pe.value(m.tf)}", list(m.t) == list(range(n)) and pe.value(m.tf) == n - 1)
            h.prove("model", f"model with {n} periods: years, first year, step", list(assume) + pcond,
                    S.and_(*[eq(S.lift(m.year(t)), S.add(s_, S.mul(d_, const(t)))) for t in m.t], eq(sm.expr(m.beginyear.value), s_), eq(sm.expr(m.dt.value), d_)))
            for v in ("regional_emissions", "temperature", "GDP_gross", "NPV"):
                if hasattr(m, v):
                    idx = {i if not isinstance(i, tuple) else i[0] for i in getattr(m, v)}
                    h.holds("model", f"{v} exists for the periods {sorted(idx)}", idx == set(range(n)))
    return h.done(
        bounds=[f"numbers of periods {ns[0]}..{ns[-1]} ({len(ns)} of them), each for all reals start, end, step in the documented ranges; horizons less than 1e-6 steps above a multiple of the step count as that multiple",
                "one query over all numbers of periods at once with a rounding error of half an ulp per operation"],
        outside=["end year not after the start year"], assumptions=["documented ranges: start 1900-2100, end 1901-2300, step 0.5-20", "IEEE double rounding is modelled as a relative error of at most 2^-53 per operation"])


def _points():
    out = []
    for s, e, d in ((2020, 2041, 1.4), (2020, 2041, 0.7), (2020, 2104, 0.7), (2020, 2077, 0.57), (2020, 2150, 5), (2020, 2100, 7), (1900, 2300, 0.5), (2015, 2036, 10), (2020, 2103, 8.3), (2020, 2021, 20)):
        out.append({"time.start": s, "time.end": e, "time.dt": d})
    return out


def _no_extra(instance):
    def replay(env):
        s, e, d = (float(env.get(k, v)) for k, v in (("time.start", 2020), ("time.end", 2100), ("time.dt", 5)))
        if not (1900 <= s <= 2100 and 1901 <= e <= 2300 and 0.5 <= d <= 20 and s < e):
            return None
        i, year, _ = instance((s, e, d))
        n = len(list(i["t"][None]))
        if n > 1 and year(n - 2) >= e:
            return f"start {s}, end {e}, step {d}: period {n - 2} already reaches {year(n - 2)}, but there is a further one at {year(n - 1)}"
        if year(n - 1) < e - 1e-6:
            return f"start {s}, end {e}, step {d}: the last year is {year(n - 1)}"
        return None
    return replay


def _try(f, env):
    try:
        return f(env)
    except Exception as e:  # noqa: BLE001
        return harness.exc_text(e)


_ = VL
