"""C20: regional parameters are the group means over the regions mapped to a model region."""
import itertools
import os
from fractions import Fraction as F

import mimosa
import numpy as np
import pandas as pd

from . import frames as FR
from . import harness
from . import sym as S
from . import values as VL
from .sym import const, eq


HOME = os.path.dirname(mimosa.__file__)


def check(prop, tier):
    h = harness.Harness(prop, tier, "The regional parameter store runs on tables whose numeric cells are symbols (a numeric pandas column type of the check), for every relation between small sets of source and model "
                        "regions and on the repository's own tables; each value is compared with the documented mean by a query over all cell values.")
    import mimosa.common.regional_params.main as main
    from mimosa.common.config import parseconfig as pc

    real_read = pd.read_csv

    def store(tables, files, mappings, regionstype, regions, wanted, plain=False):
        """{(category, parameter): {region: value}} through the real store."""
        def read(path, *a, **k):
            name = os.path.basename(str(path))
            if name not in tables:
                raise FileNotFoundError(name)
            t = tables[name]
            return t() if callable(t) else t.copy()

        params = {"regions": regions, "regionstype": regionstype, "regional_parameter_files": files,
                  "regionsmappings": [{"regionstype1": a, "regionstype2": b, "conversiontable": f} for a, b, f in mappings]}
        with harness.patched([(pd, "read_csv", read)]), VL.shims():
            st = main.RegionalParamStore(params, {})
            return {(c, p): st.get(c, p) for c, p in wanted}

    def near(got, want):
        return eq(S.lift(got), S.lift(want)) if S.lift(got) is not None else S.bconst(False)

    def mean(cells):
        return S.div(sum(cells[1:], cells[0]), const(len(cells)))

    # ------------------------------------------------ every relation between small sets of regions
    ns, nt = (3, 3) if not h.thorough else (4, 3)
    src, tgt = [f"s{i}" for i in range(ns)], [f"T{i}" for i in range(nt)]
    x = {s: S.var(f"x of {s}") for s in src}
    z = {s: S.var(f"z of {s}") for s in src}
    text = {s: f"form {s}" for s in src}
    rels = [r for r in itertools.product(range(2), repeat=ns * nt)]
    if not h.thorough:
        rels = rels[:: 1]
    orders = ("sorted", "reversed") if h.thorough else ("sorted",)
    plan = [(rel, False, o) for rel in rels for o in orders] + [(rel, True, "reversed") for rel in rels[:: 7 if not h.thorough else 1]]

    def tables_for(pairs, order, reverse, extra, env=None):
        rows = list(src) + (["s9"] if extra else [])
        if order == "reversed":
            rows, pairs = rows[::-1], pairs[::-1]
        val = lambda d, s: (float(env.get(d[s].args[0], 1 + src.index(s) * 3)) if env is not None else d[s]) if s in d else (7.0 if env is not None else const(7))  # noqa: E731
        col = (lambda v: v) if env is not None else FR.SymArray
        par = lambda: pd.DataFrame({"region": rows, "x": col([val(x, s) for s in rows]), "form": [text.get(s, "other") for s in rows], "z": col([val(z, s) for s in rows])})  # noqa: E731
        # mapping file: further columns and regions that have no data or no target do not matter
        mp = pd.DataFrame({"MODEL": [t for _, t in pairs] + ["T9"], "Name": ["n"] * (len(pairs) + 1), "SOURCE": [s for s, _ in pairs] + ["s8"]})
        return {"par.csv": par, "map.csv": mp}

    npaths = 0
    for rel, reverse, order in plan:
        pairs = [(s, t) for (s, t), b in zip(itertools.product(src, tgt), rel) if b]
        mappings = [("MODEL", "SOURCE", "inputdata/map.csv") if reverse else ("SOURCE", "MODEL", "inputdata/map.csv")]
        present = [t for t in tgt if any(b == t for _, b in pairs)]
        regions = {t: None for t in present}
        files = {"cat": {"filename": "inputdata/par.csv", "regionstype": "SOURCE"}}
        wanted = [("cat", "x"), ("cat", "form"), ("cat", "z")]
        label = f"mapping {pairs} ({order})"

        def run(env=None):
            return store(tables_for(pairs, order, reverse, len(pairs) % 2 == 0, env), files, mappings, "MODEL", regions, wanted)

        def real(env):
            got = run(env)
            for t in present:
                group = [s for s, b in pairs if b == t]
                for c, d in (("x", x), ("z", z)):
                    want = np.mean([float(env.get(d[s].args[0], 1 + src.index(s) * 3)) for s in group])
                    if not abs(got["cat", c][t] - want) <= 1e-9 * (1 + abs(want)):
                        return f"{label}: {c} of {t} is {got['cat', c][t]} instead of {want}"
            return None
        for res, exc, pcond, _ in h.explore(run, label=label):
            npaths += 1
            if isinstance(exc, S.NeedFloat):
                h.no_answer("mapping", label, exc, real, [{}, {x[s].args[0]: 1.23456789 * i + 0.1 for i, s in enumerate(src)}])
                continue
            if exc is not None:
                h.prove("mapping", f"{label}: {harness.exc_text(exc)}", pcond, S.bconst(False), lambda env: _raises(real, env))
                continue
            goals = []
            for t in present:
                group = [s for s, b in pairs if b == t]
                goals += [near(res["cat", "x"][t], mean([x[s] for s in group])), near(res["cat", "z"][t], mean([z[s] for s in group]))]
                got = res["cat", "form"][t]
                ok = got == text[group[0]] if order == "sorted" else got in [text[s] for s in group]
                h.holds("text", f"{label}: text of {t} is {got!r}", ok)
            h.prove("mapping", label, pcond, S.and_(*goals), real, points=[{}])

    # ------------------------------------------------ unchanged when the definitions agree; errors otherwise
    tabs = tables_for([("s0", "T0")], "sorted", False, False)
    same = {"cat": {"filename": "inputdata/par.csv", "regionstype": "SOURCE"}}
    for maps in ([], [("SOURCE", "MODEL", "inputdata/map.csv")]):
        for res, exc, pcond, _ in h.explore(lambda: store(tabs, same, maps, "SOURCE", {s: None for s in src[::-1]}, [("cat", "x"), ("cat", "form")]), label="same definition"):
            if h.holds("same", f"parameter in the model's own regions: {harness.exc_text(exc) if exc else ''}", exc is None):
                h.prove("same", "parameter in the model's own regions", pcond, S.and_(*[near(res["cat", "x"][s], x[s]) for s in src]))
                h.holds("same", f"text in the model's own regions: {res['cat', 'form']}", res["cat", "form"] == {s: text[s] for s in src})

    def must_fail(key, what, fn):
        for res, exc, pcond, _ in h.explore(fn, label=what):
            if isinstance(exc, S.NeedFloat):
                h.rep.undecided(f"{what}: {harness.exc_text(exc)}")
                continue
            h.holds(key, f"{what}: no error but {res!r}", exc is not None)

    for rs in ({"s0": None}, {"s0": None, "T0": None}):
        must_fail("missing", "no conversion table, regions of the same name", lambda: store(tabs, same, [], "MODEL", rs, [("cat", "x")]))
        must_fail("missing", "no conversion table from these regions, regions of the same name", lambda: store(tabs, same, [("Name", "MODEL", "inputdata/map.csv")], "MODEL", rs, [("cat", "x")]))
    must_fail("missing", "no conversion table at all", lambda: store(tabs, same, [], "MODEL", {"T0": None}, [("cat", "x")]))
    must_fail("missing", "conversion table between other definitions", lambda: store(tabs, same, [("Name", "MODEL", "inputdata/map.csv")], "MODEL", {"T0": None}, [("cat", "x")]))
    must_fail("missing", "conversion only indirectly", lambda: store(tabs, same, [("SOURCE", "Name", "inputdata/map.csv"), ("Name", "MODEL", "inputdata/map.csv")], "MODEL", {"T0": None}, [("cat", "x")]))
    must_fail("missing", "conversion table without the source column", lambda: store(tabs, same, [("NOTHERE", "MODEL", "inputdata/map.csv")], "MODEL", {"T0": None}, []))
    must_fail("missing", "conversion table without the target column", lambda: store(tabs, same, [("SOURCE", "NOTHERE", "inputdata/map.csv")], "MODEL", {"T0": None}, []))
    must_fail("missing", "model region without a conversion", lambda: store(tabs, same, [("SOURCE", "MODEL", "inputdata/map.csv")], "MODEL", {"T1": None}, [("cat", "x")]))
    must_fail("missing", "region that is not in the file", lambda: store(tabs, same, [], "SOURCE", {"s7": None}, [("cat", "x")]))
    must_fail("missing", "parameter that is not in the file", lambda: store(tabs, same, [], "SOURCE", {"s0": None}, [("cat", "nothere")]))

    # ------------------------------------------------ a manually given value wins
    v, w = S.var("manual"), S.var("other manual")
    both = [("cat", "x"), ("cat", "z"), ("dog", "x")]
    files2 = {"cat": same["cat"], "dog": {"filename": "inputdata/par.csv", "regionstype": "SOURCE"}}
    maps = [("SOURCE", "MODEL", "inputdata/map.csv")]
    for rtype, rs, base in (("SOURCE", ["s0", "s1", "s2"], lambda c, r: {"x": x, "z": z}[c][r]), ("MODEL", ["T0", "T1"], lambda c, r: mean([{"x": x, "z": z}[c][s] for s in (("s0", "s1") if r == "T0" else ("s2",))]))):
        t2 = tables_for([("s0", "T0"), ("s1", "T0"), ("s2", "T1")], "sorted", False, False)
        manual = {"nothing": None, "no category": {}, "empty category": {"cat": None}, "category without parameter": {"cat": {}}, "parameter": {"cat": {"x": v}}, "zero": {"cat": {"x": 0}}, "false": {"cat": {"x": False}},
                  "another parameter": {"cat": {"z": v}}, "two parameters": {"cat": {"x": v, "z": w}}, "another category": {"dog": {"x": w}}, "two categories": {"cat": {"x": v}, "dog": {"x": w}}}
        for name, m in manual.items():
            for r in rs:
                regions = {q: (m if q == r else None) for q in rs}
                for res, exc, pcond, _ in h.explore(lambda: store(t2, files2, maps, rtype, regions, both), label=f"manual {name}"):
                    if isinstance(exc, S.NeedFloat):
                        h.rep.undecided(f"manual {name}: {harness.exc_text(exc)}")
                        continue
                    if not h.holds("manual", f"manual values of {r}: {name}: {harness.exc_text(exc) if exc else ''}", exc is None):
                        continue
                    for c, p in both:
                        for q in rs:
                            given = q == r and isinstance(m, dict) and isinstance(m.get(c), dict) and p in m[c]
                            want = m[c][p] if given else base(p, q)
                            got = res[c, p][q]
                            if isinstance(want, S.Sym):
                                h.prove("manual", f"manual values of {r}: {name}: {c}.{p} of {q}", pcond, near(got, want), _replay_manual(store, tables_for, files2, maps, rtype, rs, r, m, c, p, q, x, z, src))
                            else:
                                h.holds("manual", f"manual values of {r}: {name}: {c}.{p} of {q} is {got!r}", got is want or not isinstance(got, S.Sym) and got == want)

    # ------------------------------------------------ the repository's own tables
    params, _tree = pc.check_params({}, True)
    seen = {}

    def symbolic_file(name):
        def read():
            t = seen[name] = real_read(os.path.join(HOME, name))
            t = t.copy()
            rid = t["region"]
            for c in t.columns:
                if pd.api.types.is_numeric_dtype(t[c]):
                    t[c] = FR.SymArray([v if v != v else S.var(f"{os.path.basename(name)} {r} {c}") for r, v in zip(rid, t[c])])
            return t
        return read

    def with_tables():
        out = {}
        for f in [c["filename"] for c in params["regional_parameter_files"].values()]:
            out[os.path.basename(f)] = symbolic_file(f)
        for f in [c["conversiontable"] for c in params["regionsmappings"]]:
            out[os.path.basename(f)] = (lambda f=f: real_read(os.path.join(HOME, f)))
        return out

    maps_real = [(c["regionstype1"], c["regionstype2"], c["conversiontable"]) for c in params["regionsmappings"]]
    for model_type in ("IMAGE26", "COACCH", "ADRICE2010", "ADRICE2012"):
        files = dict(params["regional_parameter_files"])
        if model_type != "IMAGE26":
            files = {k: f for k, f in files.items() if f["regionstype"] in ("IMAGE26", model_type)}
        groups = _groups(real_read, maps_real, model_type)
        regions = list(params["regions"]) if model_type == "IMAGE26" else groups["IMAGE26"][1]
        for cat, info in files.items():
            head = real_read(os.path.join(HOME, info["filename"]))
            names = [c for c in head.columns if c != "region" and not str(c).startswith("Unnamed")]
            own = info["regionstype"] == model_type
            grp = None if own else groups[info["regionstype"]][0]
            for res, exc, pcond, _ in h.explore(lambda: store(with_tables(), {cat: info}, maps_real, model_type, {r: None for r in regions}, [(cat, n) for n in names]), label=f"{cat} in {model_type}"):
                if isinstance(exc, S.NeedFloat):
                    h.rep.undecided(f"{cat}: {harness.exc_text(exc)}")
                    continue
                if not h.holds("own tables", f"{cat} for {model_type} regions: {harness.exc_text(exc) if exc else ''}", exc is None):
                    continue
                for n in names:
                    numeric = pd.api.types.is_numeric_dtype(head[n])
                    goals = []
                    for r in regions:
                        rows = [r] if own else grp[r]
                        have = [s for s in rows if s in set(head["region"])]
                        cellv = {s: head.loc[head["region"] == s, n].iloc[0] for s in have}
                        got = res[cat, n][r]
                        if numeric:
                            gs = [S.var(f"{os.path.basename(info['filename'])} {s} {n}") for s in have if cellv[s] == cellv[s]]
                            if gs:
                                goals.append(near(got, mean(gs)))
                            else:
                                h.holds("own tables", f"{cat} {n} of {r} is {got!r} although no value is given", isinstance(got, float) and got != got)
                        else:
                            vals = [v for v in cellv.values() if isinstance(v, str)]
                            if vals:
                                h.holds("own tables", f"{cat} {n} of {r} is {got!r}, not one of {vals}", got in vals)
                    if goals:
                        h.prove("own tables", f"{cat} {n} for {model_type} regions", pcond, S.and_(*goals), lambda env, cat=cat, info=info, n=n: _own(store, real_read, params, maps_real, model_type, regions, cat, info, n, own, grp, head))
    return h.done(
        bounds=[f"all {len(rels)} relations between {ns} source and {nt} model regions (in either direction of the table, rows in either order), all cell values", "the repository's parameter and mapping tables for all documented region definitions, all cell values",
                "manual values: all listed shapes of the region's entry, all values"],
        outside=["two rows for one region in a parameter file", "a mean over regions some of which have an empty cell", "which of several different texts is the first when table orders disagree"],
        assumptions=["pandas' joins are executed as they are; its reductions of a numeric column (mean, first, ...) are modelled as exact arithmetic over the given cells"])


def _groups(read, maps, model_type):
    """source definition -> ({model region: [source regions]}, model regions)"""
    out = {}
    for a, b, f in maps:
        if model_type not in (a, b):
            continue
        src = b if model_type == a else a
        t = read(os.path.join(HOME, f))
        g = {}
        for _, row in t.iterrows():
            if isinstance(row[model_type], str) and isinstance(row[src], str):
                g.setdefault(row[model_type], []).append(row[src])
        out[src] = (g, sorted(g))
    return out


def _own(store, read, params, maps, model_type, regions, cat, info, n, own, grp, head):
    tables = {os.path.basename(info["filename"]): (lambda: read(os.path.join(HOME, info["filename"])))}
    for _, _, f in maps:
        tables[os.path.basename(f)] = (lambda f=f: read(os.path.join(HOME, f)))
    got = store(tables, {cat: info}, maps, model_type, {r: None for r in regions}, [(cat, n)])[cat, n]
    for r in regions:
        vals = [head.loc[head["region"] == s, n].iloc[0] for s in ([r] if own else grp[r]) if s in set(head["region"])]
        vals = [v for v in vals if v == v]
        if vals and not abs(got[r] - np.mean(vals)) <= 1e-9 * (1 + abs(np.mean(vals))):
            return f"{cat} {n} of {r} for {model_type} regions is {got[r]} instead of {np.mean(vals)}"
    return None


def _replay_manual(store, tables_for, files, maps, rtype, rs, r, m, c, p, q, x, z, src):
    def replay(env):
        num = VL.concrete(m, env) if isinstance(m, dict) else m
        regions = {k: (num if k == r else None) for k in rs}
        t = tables_for([("s0", "T0"), ("s1", "T0"), ("s2", "T1")], "sorted", False, False, env)
        got = store(t, files, maps, rtype, regions, [(c, p)])[c, p][q]
        given = q == r and isinstance(num, dict) and isinstance(num.get(c), dict) and p in num[c]
        d = {"x": x, "z": z}[p]
        val = lambda s: float(env.get(d[s].args[0], 1 + src.index(s) * 3))  # noqa: E731
        want = num[c][p] if given else np.mean([val(s) for s in ([q] if rtype == "SOURCE" else ["s0", "s1"] if q == "T0" else ["s2"])])
        return f"{c}.{p} of {q} is {got} instead of {want} with manual values {num} for {r}" if abs(got - want) > 1e-9 * (1 + abs(want)) else None
    return replay


def _raises(real, env):
    try:
        return real(env)
    except Exception as e:  # noqa: BLE001
        return harness.exc_text(e)


_ = F
