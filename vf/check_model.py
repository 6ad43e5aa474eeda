"""C01..C11: the built model is equivalent to the documented equations."""
from __future__ import annotations

import concurrent.futures as cf
import multiprocessing as mp
import os
import re
import time
import traceback

from . import configs, entail as E, funcs, model as M, replay as R, smt
from . import sym as S
from .report import Report
from .sym import const

BASE_RE = re.compile(r"^([A-Za-z_0-9]+)")


def base(name):
    return BASE_RE.match(name).group(1)


def owners(ent, cid_vars, is_eq):
    """Properties whose documented relations range over the most similar set of variables."""
    if not hasattr(ent, "_sig"):
        sig = {}
        for q in ent.eqs:
            vs = frozenset(base(v) for v in ent.mv(q.f))
            if vs:
                sig.setdefault((vs, q.f.op == "eq"), set()).add(q.prop)
        ent._sig = sig
    vs = frozenset(base(v) for v in cid_vars)
    best, out = -1.0, set()
    for (ws, weq), props in ent._sig.items():
        sim = len(vs & ws) / max(1, len(vs | ws)) + (0.01 if weq == is_eq else 0.0)
        if sim > best + 1e-9:
            best, out = sim, set(props)
        elif abs(sim - best) <= 1e-9:
            out |= props
    return out - {"C09"}


def make(c):
    """Ent for a configuration; numbers the code insists on are kept concrete and assumed."""
    g = c["grid"]
    p = M.small_params(c["overrides"], c["regions"], g["start"], g["end"], g["dt"])
    for r, cols in c["forms"].items():
        p["regions"][r] = {"COACCH": dict(cols)}
    conv = p["effort sharing"]["percapconv_year"]
    kw = {}
    if c["conv"] == "sym":
        conv_sym = S.var("effort sharing.percapconv_year")
        kw = {"conv_year": conv_sym, "build_kw": {"keep": ["economics.damages.percentage reversible"]},
              "extra_assume": [S.le(const(2020), conv_sym), S.le(conv_sym, const(2200))]}
    else:
        kw = {"conv_year": False if conv is False else const(conv)}
    keep = set(kw.get("build_kw", {}).get("keep", M.DEFAULT_KEEP))
    if c.get("symgrid"):
        patches, assume, grid = M.symbolic_grid_patches(c["symgrid"])
        kw["grid"] = grid
        kw["extra_assume"] = list(kw.get("extra_assume", [])) + assume
        kw["build_kw"] = {**kw.get("build_kw", {}), "patches": patches}
    pinned = {}
    for _ in range(12):
        kw["build_kw"] = {**kw.get("build_kw", {}), "keep": keep}
        try:
            e = E.Ent(p, c["name"], **kw)
            break
        except S.NeedFloat as ex:
            names = S.variables(ex.term) if ex.term is not None else set()
            if not names or names <= keep:
                raise
            keep |= names
            pinned.update(dict.fromkeys(names))
    for n in pinned:
        if n in e.sm.nominal:
            e.extra.append(S.eq(S.var(n), const(e.sm.nominal[n])))
    e.pinned = sorted(pinned)
    if c.get("symgrid"):
        def concrete_params(env, p=p, c=c):
            import copy
            q = copy.deepcopy(p)
            for k in ("start", "end", "dt"):
                v = env.get("time." + k)
                if v is not None:
                    q["time"][k] = int(v) if k != "dt" else float(v)
            return q
        e.concrete_params = concrete_params
        half = S.var("time.dt") * 2
        e.integral = [S.eq(S.fn("floor", x), x) for x in (S.var("time.start"), S.var("time.end"), half)]
        e.integral += [S.le(const(2010), S.var("time.start")), S.le(S.var("time.end"), const(2190))]
    return e


def run_ent(e, prop, c, tier, pc=()):
    out = {"obl": 0, "ok": 0, "viol": [], "und": [], "samples": [], "how": {}, "vac": 0, "cross": 0}
    e.extra = e.extra + list(pc)
    model_pool = [x for _, _, x in e.cons]
    spec_pool = [q.f for q in e.eqs if q.prop != "C09"]
    seen_label = set()

    def fail(kind, label, goal, cur, ref=None):
        k = (kind, label.split("[")[0])
        got = R.confirm(e, kind, goal, cur, ref, label)
        if got is not None and not e.still_refuted(goal, model_pool if kind == "a" else spec_pool, cur):
            out["ok"] += 1
            out["how"]["wider premises"] = out["how"].get("wider premises", 0) + 1
            return
        if got is None:
            failed[k] = failed.get(k, 0) + 1
            out["und"].append(f"{c['name']}: {label} (solver finds a candidate the real model does not confirm)")
            return
        env, text = got
        out["viol"].append({"k": k, "key": f"{label.split('[')[0]}", "text": f"[{c['name']}] {label}: {text}",
                            "replay": {"config": c["name"], "overrides": c["overrides"], "grid": c["grid"], "regions": list(c["regions"]),
                                       "kind": kind, "relation": label, "formula": S.show(S._lb(goal), 20), "point": env}})

    todo = []
    for q in e.eqs:
        if q.prop == prop and q.required:
            todo.append(("a", q.label, q.f, model_pool, None))
    for n, i, f in e.cons:
        vs = e.mv(f)
        if prop in owners(e, vs, f.op == "eq"):
            todo.append(("b", f"{n}{M.idx_str(i)}", f, spec_pool, (n, i)))
    t_end = time.time() + (150 if tier == "quick" else 1500)
    failed = {}
    for kind, label, goal, pool, ref in todo:
        out["obl"] += 1
        lab0 = (kind, label.split("[")[0])
        if any(v["k"] == lab0 for v in out["viol"]) or failed.get(lab0, 0) >= 3:
            continue  # already refuted (or repeatedly unconfirmed) for this equation
        if time.time() > t_end:
            out["und"].append(f"{c['name']}: time budget used up at {label}")
            break
        st, cur, info = e.decide(goal, pool)
        if st == "holds":
            out["ok"] += 1
            out["how"][info] = out["how"].get(info, 0) + 1
            lab = (kind, label.split("[")[0])
            if lab not in seen_label:
                seen_label.add(lab)
                if kind == "a" and cur:
                    v = smt.check(e.assume(cur) + cur, timeout=2000, want_model=False)
                    if v.status == "sat":
                        out["vac"] += 1
                    elif v.status == "unsat":
                        out["und"].append(f"{c['name']}: {label}: the premises are contradictory")
                if len(out["samples"]) < 2:
                    out["samples"].append({"config": c["name"], "direction": "model entails documentation" if kind == "a" else "documentation entails model constraint",
                                           "goal": label, "formula": S.show(S._lb(goal), 6)[:400], "premises": len(cur), "verdict": f"unsat ({info})"})
                if tier == "thorough" and cur:
                    r = smt.cvc5_check(e.assume(cur + [S._lb(goal)]) + cur + [S.not_(S._lb(goal))], timeout=5)
                    out["cross"] += r == "unsat"
                    if r == "sat" and info == "exact":
                        out["und"].append(f"{c['name']}: {label}: cvc5 disagrees (sat)")
        elif st == "poison":
            if kind == "b":
                # the constraint uses a data value that does not exist (NaN)
                out["viol"].append({"k": (kind, label), "key": label.split("[")[0], "text": f"[{c['name']}] {label}: uses missing data {info[:2]}", "replay": {"config": c["name"]}})
        elif st == "fails":
            fail(kind, label, goal, cur, ref)
        else:
            got_before = len(out["viol"])
            fail(kind, label, goal, cur, ref)
            if len(out["viol"]) == got_before and not out["und"]:
                out["und"].append(f"{c['name']}: {label} undecided by the solver")
    return out


def work(args):
    c, prop, tier = args
    M.quiet  # noqa: B018
    for k in smt.STATS:
        smt.STATS[k] = 0
    fset = set()
    res = []
    t0 = time.time()
    try:
        if c.get("symgrid"):
            patches, assume, grid = M.symbolic_grid_patches(c["symgrid"])
            if c["conv"] == "sym":
                cs = S.var("effort sharing.percapconv_year")
                assume = assume + [S.le(const(2020), cs), S.le(cs, const(2200))]
            ex = S.Explorer(assume)
            with funcs.traced(fset):
                outs = list(ex.run(lambda: make(c)))
            for e, exc, pc, _ in outs:
                if exc is not None:
                    res.append({"exc": exc_text(exc), "needfloat": isinstance(exc, S.NeedFloat)})
                    continue
                res.append(run_ent(e, prop, c, tier, pc))
        else:
            ex = S.Explorer([S.le(const(2020), S.var("effort sharing.percapconv_year")), S.le(S.var("effort sharing.percapconv_year"), const(2200))] if c["conv"] == "sym" else [])
            with funcs.traced(fset):
                outs = list(ex.run(lambda: make(c)))
            for e, exc, pc, _ in outs:
                if exc is not None:
                    res.append({"exc": exc_text(exc), "needfloat": isinstance(exc, S.NeedFloat), "concrete": concrete_exc(c)})
                    continue
                res.append(run_ent(e, prop, c, tier, pc))
    except Exception as exc:  # noqa: BLE001
        res.append({"exc": "harness: " + exc_text(exc), "needfloat": True})
    return c, res, sorted(fset), dict(smt.STATS), time.time() - t0


def exc_text(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    last = [f for f in tb if "/repo/" in f.filename]
    where = f" at {os.path.basename(last[-1].filename)}:{last[-1].name}" if last else ""
    return f"{type(exc).__name__}: {str(exc)[:200]}{where}"


def concrete_exc(c):
    """Does the real, concrete construction fail too?"""
    g = c["grid"]
    p = M.small_params(c["overrides"], c["regions"], g["start"], g["end"], g["dt"])
    for r, cols in c["forms"].items():
        p["regions"][r] = {"COACCH": dict(cols)}
    try:
        with M.quiet():
            M.mimosa_class()(p)
    except Exception as exc:  # noqa: BLE001
        return exc_text(exc)
    return None


def run_all(jobs, known):
    """Run the jobs on all cores; once a new violation is confirmed, the others get 20 more seconds."""
    jobs = sorted(jobs, key=lambda j: -(j[0].get("symgrid") or 0))  # the longest first
    ctx = mp.get_context("fork")
    results, stop_at = [], None
    with cf.ProcessPoolExecutor(max_workers=min(8, len(jobs)), mp_context=ctx) as ex:
        futs = {ex.submit(work, j) for j in jobs}
        while futs:
            done, futs = cf.wait(futs, timeout=1, return_when=cf.FIRST_COMPLETED)
            for f in done:
                r = f.result()
                results.append(r)
                if stop_at is None and any(v["key"] not in known for x in r[1] for v in x.get("viol", [])):
                    stop_at = time.time() + 20
            if stop_at is not None and time.time() > stop_at and futs:
                for f in futs:
                    f.cancel()
                for p in list(ex._processes.values()):
                    p.kill()
                break
    results.sort(key=lambda r: r[0]["name"])
    return results


def check(prop, tier, title, outside):
    rep = Report(prop, tier)
    cfgs = configs.for_property(prop, tier)
    results = run_all([(c, prop, tier) for c in cfgs], set(rep.known()))
    fns = set()
    relevant = 0
    for c, res, fs, st, wall in results:
        fns |= set(fs)
        rep.add_stats(st)
        for r in res:
            if "exc" in r:
                if r.get("concrete") and not r["needfloat"]:
                    if prop in c["tags"]:
                        rep.violation(f"build:{c['name']}", f"the configuration cannot be built: {r['concrete']}",
                                      {"config": c["name"], "overrides": c["overrides"], "grid": c["grid"]})
                    else:
                        rep.cov.setdefault("configurations_that_do_not_build", []).append(c["name"])
                else:
                    rep.undecided(f"{c['name']}: {r['exc']}")
                continue
            relevant += r["obl"] > 0
            rep.cov["obligations"] += r["obl"]
            rep.cov["discharged"] += r["ok"]
            rep.cov["vacuity_witnesses"] += r["vac"]
            for k, n in r["how"].items():
                d = rep.cov.setdefault("discharged_by", {})
                d[k] = d.get(k, 0) + n
            if len(rep.cov["samples"]) < 6:
                rep.cov["samples"] += r["samples"]
            for v in r["viol"]:
                rep.violation(v["key"], v["text"], v["replay"])
            for u in r["und"]:
                rep.undecided(u)
    if not relevant:
        rep.undecided("no configuration produced an obligation")
    rep.cov["functions_encoded"] = sorted(fns)
    rep.cov["configurations"] = [{"name": c["name"], "regions": list(c["regions"]), **c["grid"], "symbolic_time_grid_periods": c.get("symgrid")} for c in cfgs]
    rep.cov["explanation"] = (
        f"{title}: MIMOSA(params) is executed with every numeric parameter, data value and regional value replaced by a symbol; the resulting "
        "constraints, bounds and objective are compared with the documented equations by SMT queries in both directions (model entails each documented "
        "equation; each model constraint is entailed by the documented system). unsat = holds for all real values of all symbols and variables.")
    rep.cov["bounds"] = ["number of periods and regions per configuration as listed under configurations; all values (parameters, data, variables) unbounded reals within the domain assumptions",
                         "structural choices (modules, flags, enumerations) as listed in vf/configs.py"]
    rep.cov["outside_bounds"] = outside
    rep.assumptions = [E.DOMAIN_TEXT, "arithmetic is real arithmetic; constants are compared exactly where the encoding allows, otherwise to 9 or more significant digits (see discharged_by)",
                       "exp, log, power and arctan are uninterpreted functions with sound axioms", "trusted: z3, the translation of Pyomo expressions (validated by numeric replay of counterexamples), CPython and Pyomo's own component machinery"]
    return rep
