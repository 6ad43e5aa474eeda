"""C13: the parsers accept exactly the documented domain, for every value."""
import copy
import math

import numpy as np

from . import documented, harness
from . import model as M
from . import sym as S
from . import values as VL
from .sym import const, eq, le

JUNK = ["abc", "", None, [], {}, [1], {"a": 1}, float("nan"), "nan", np.float64("nan"), True, "true", "yes"]
FALSY = [False, "False", "false", "no"]


def same(a, b):
    """Equality of an accepted value with the given one, as a condition (SymBool or bool)."""
    if isinstance(a, VL.NumText) or isinstance(b, VL.NumText):
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, S.Sym) or isinstance(b, S.Sym):
        if S.lift(a) is None or S.lift(b) is None:
            return False
        return eq(S.lift(a), S.lift(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and S.and_(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return list(map(str, a)) == list(map(str, b)) and S.and_(*[same(a[k], b[k2]) for k, k2 in zip(a, b)])
    if a is None or b is None:
        return a is b
    return type(a) is type(b) and (a is b or bool(str.__eq__(a, b) if isinstance(a, str) and not isinstance(a, VL.Tok) else a == b))


def check(prop, tier):
    h = harness.Harness(prop, tier, "Every parser is executed on symbolic numbers, symbolic texts and the finitely many special values; each path's verdict (accept/reject and the accepted value) "
                        "is compared with the documented domain by a query. Generic parsers take symbolic bounds; every documented setting is driven through check_params.")
    from mimosa.common import quant
    from mimosa.common.config import parseconfig as pc
    from mimosa.common.config.utils import PARSER_FACTORY, get_nested, parsers

    def decide(key, text, run, expect, assume=(), concrete=None):
        """run() -> accepted value or raises.  expect: (condition for acceptance, accepted value)."""
        cond, val = expect
        with VL.shims(parsers), VL.symbolic_numerals():
            paths = h.explore(run, assume, label=text)
        for res, exc, pcond, _ in paths:
            if isinstance(exc, (S.NeedFloat, RuntimeError)) and not isinstance(exc, RuntimeWarning):
                h.rep.undecided(f"{text}: {harness.exc_text(exc)}")
                continue

            def replay(env):
                v, dom = concrete(env)
                try:
                    got = ("accepted", real(v))
                except Exception as e:  # noqa: BLE001
                    got = ("rejected", type(e).__name__)
                if got[0] == "accepted" and not dom[0]:
                    return f"{v!r} is accepted (as {got[1]!r}), but is outside the documented domain"
                if got[0] == "rejected" and dom[0]:
                    return f"{v!r} is rejected ({got[1]}), but is inside the documented domain"
                if got[0] == "accepted" and not close(got[1], dom[1]):
                    return f"{v!r} is accepted as {got[1]!r} instead of {dom[1]!r}"
                return None

            real = getattr(run, "real", None)
            rp = replay if concrete is not None and real is not None else None
            if exc is not None:
                h.prove(key, f"{text}: rejected only outside the domain", list(assume) + pcond, S.not_(S._lb(cond)), rp)
            else:
                h.prove(key, f"{text}: accepted only inside the domain", list(assume) + pcond, S._lb(cond), rp)
                h.prove(key, f"{text}: kept unchanged", list(assume) + pcond + [S._lb(cond)], S._lb(same(res, val)), rp)

    def close(a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return list(a) == list(b) and all(close(a[k], b[k]) for k in a)
        return a == b

    def const_case(key, text, parse, value, accept, result=None):
        """A concrete special value."""
        with VL.shims(parsers), VL.symbolic_numerals():
            paths = h.explore(lambda: parse(value), label=text)
        for res, exc, pcond, _ in paths:
            if isinstance(exc, S.NeedFloat):
                h.rep.undecided(f"{text}: {harness.exc_text(exc)}")
            elif exc is not None:
                h.holds(key, f"{text}: {value!r} is rejected ({type(exc).__name__}) although it is documented as valid", not accept, {"value": repr(value)})
            else:
                ok = accept and (res is result if isinstance(result, bool) or result is None else close(res, result))
                h.holds(key, f"{text}: {value!r} is accepted as {res!r}" + ("" if accept else " although it is outside the documented domain"), ok, {"value": repr(value)})

    def wrap(f, real):
        g = lambda: f()  # noqa: E731
        g.real = real
        return g

    def number_cases(key, name, typ, parse, lo, hi, canfalse, assume=()):
        """All kinds of value for one numeric parser. lo/hi: Sym, number or None."""
        v = S.var("v")
        lo_, hi_ = S.lift(lo) if lo is not None else None, S.lift(hi) if hi is not None else None

        def bound(env, b):
            return None if b is None else S.evaluate(S.lift(b), {n: float(env.get(n, 0)) for n in S.variables(S.lift(b))})

        def domain(t):
            return S.and_(*([le(lo_, t)] if lo_ is not None else []), *([le(t, hi_)] if hi_ is not None else []))

        def conc(mk, whole):
            def c(env):
                f = float(env.get("v", 0))
                val = mk(f)
                p = math.trunc(f) if whole else f
                l, u = bound(env, lo), bound(env, hi)
                return val, ((l is None or l <= p) and (u is None or p <= u), p)
            return c

        t = S.trunc(v) if typ == "int" else v
        real = lambda env_parse: env_parse  # noqa: E731,F841
        decide(key, f"{name}: any number", wrap(lambda: parse(v), parse), (domain(t), t), assume,
               conc(lambda f: f, typ == "int") if not S.variables(domain(t)) - {"v"} else None)
        if typ == "float":
            decide(key, f"{name}: text of any number", wrap(lambda: parse(VL.NumText(v)), parse), (domain(v), v), assume,
                   conc(repr, False) if not S.variables(domain(t)) - {"v"} else None)
        else:
            n = S.fn("floor", v)
            decide(key, f"{name}: text of any whole number", wrap(lambda: parse(VL.NumText(n, True)), parse), (domain(n), n), assume)
            decide(key, f"{name}: text of a decimal fraction", wrap(lambda: parse(VL.NumText(v)), parse), (False, None), assume)
        for x in JUNK:
            const_case(key, name, parse, x, False)
        for x in FALSY:
            const_case(key, name, parse, x, canfalse, False)

    # ------------------------------------------------ generic numeric parsers with symbolic bounds
    lo, hi = S.var("min"), S.var("max")
    for typ in ("float", "int"):
        for l, u in ((lo, hi), (None, hi), (lo, None), (None, None)):
            for cf in (False, True):
                node = {"type": typ, "can_be_false": cf, **({"min": l} if l is not None else {}), **({"max": u} if u is not None else {})}
                name = f"{typ} parser{' min' if l is not None else ''}{' max' if u is not None else ''}{' can be false' if cf else ''}"
                number_cases("number", name, typ, lambda x, node=node: PARSER_FACTORY.create_parser(node, quant).parse(x), l, u, cf)

    # ------------------------------------------------ every documented setting
    default = pc.load_default_yaml()
    settings = documented.settings(default)

    def through_config(keys):
        def parse(x):
            user = {}
            M.deep_update(user, keys, x)
            with harness.patched([(pc, "load_default_yaml", lambda: copy.deepcopy(default))]):  # read once: only for speed
                return get_nested(pc.check_params(user), keys)
        return parse

    units_of = {"[CO2emissions]": ["GtCO2", "MtCO2", "tCO2", "t CO2", "TtCO2", "ktCO2"]}
    good = {
        "currency_unit/emissionsrate_unit": (["USD2005/tCO2", "US$/t CO2", "USD2010/tCO2", "trillion USD2005/GtCO2"], ["USD2005", "tCO2", "USD2005/yr", "kg", "delta_degC", ""]),
        "emissions_unit": (units_of["[CO2emissions]"], ["GtCO2/yr", "USD2005", "kg", "Gt", "yr", ""]),
        "emissionsrate_unit": (["GtCO2/yr", "MtCO2/yr", "MtCO2/year", "tCO2/month", "t CO2/yr"], ["GtCO2", "USD2005/yr", "kg/yr", "GtCO2/yr**2", ""]),
        "temperature_unit": (["delta_degC", "delta_degree_Celsius", "kelvin"], ["GtCO2", "yr", "m", ""]),
        "(temperature_unit)/(emissions_unit)": (["delta_degC/TtCO2", "delta_degC/(TtCO2)", "delta_degC/GtCO2", "kelvin/tCO2"], ["delta_degC", "GtCO2/delta_degC", "delta_degC/GtCO2/yr", "delta_degC/kg", ""]),
    }
    for keys, node in settings:
        name, typ, cf = ".".join(keys), node["type"], node.get("can_be_false", False)
        key = "setting " + name
        parse = through_config(keys)
        if typ in ("float", "int"):
            number_cases(key, name, typ, parse, node.get("min"), node.get("max"), cf)
        elif typ == "enum":
            allowed = node["values"]
            texts = [a for a in allowed if isinstance(a, str)]
            nums = [a for a in allowed if not isinstance(a, str)]
            tok, v = VL.Tok("w"), S.var("v")
            for a in texts:
                VL.code(a)
            decide(key, f"{name}: any text", wrap(lambda: parse(tok), parse), (S.or_(*[S._lb(tok == a) for a in texts]), tok), (),
                   lambda env: (VL.concrete(tok, env), (VL.concrete(tok, env) in allowed, VL.concrete(tok, env))))
            decide(key, f"{name}: any number", wrap(lambda: parse(v), parse), (S.or_(*[eq(v, const(a)) for a in nums]), v), (),
                   lambda env: (float(env.get("v", 0)), (float(env.get("v", 0)) in nums, float(env.get("v", 0)))))
            for a in allowed:
                const_case(key, name, parse, a, True, a)
            for x in [None, [], "", "some other text"] + [False] * (not cf):
                const_case(key, name, parse, x, False)
        elif typ == "bool":
            tok, v = VL.Tok("w"), S.var("v")
            yes, no = ["True", "true", "yes"], ["False", "false", "no"]
            with VL.shims(parsers):
                cases = [(h.explore(lambda: parse(tok), label=name), S.or_(*[S._lb(tok == a) for a in yes]), S.or_(*[S._lb(tok == a) for a in no]), tok),
                         (h.explore(lambda: parse(v), label=name), eq(v, const(1)), eq(v, const(0)), v)]
            for paths, t, f, x in cases:
                for res, exc, pcond, _ in paths:
                    if isinstance(exc, S.NeedFloat):
                        h.rep.undecided(f"{name}: {harness.exc_text(exc)}")
                        continue

                    def replay(env, x=x):
                        c = VL.concrete(x, env)
                        want = True if c in yes or c == 1 else False if c in no or c == 0 else "rejected"
                        try:
                            got = parse(c)
                        except Exception:  # noqa: BLE001
                            got = "rejected"
                        return f"{c!r} gives {got!r} instead of {want!r}" if got is not want and got != want else None

                    goal = S.not_(S.or_(t, f)) if exc is not None else t if res is True else f if res is False else False
                    h.prove(key, f"{name}: flag value", pcond, S._lb(goal), replay)
            for x, a in [(True, True), (False, False), ("yes", True), ("no", False), (None, None), ([], None), ("maybe", None), (float("nan"), None)]:
                const_case(key, name, parse, x, a is not None, a)
        elif typ == "quantity":
            ok_units, bad_units = good.get(node["unit"], ([], []))
            if not ok_units:
                h.rep.undecided(f"{name}: unit {node['unit']} not known to the check")
            v = VL.magic_var("v")
            num = VL.numeral(v)
            for u in ok_units:
                for text in (f"{num} {u}", f"-{num} {u}"):
                    const_case(key, f"{name} (any magnitude)", parse, text, True, text)
            for u in bad_units:
                const_case(key, f"{name} (any magnitude)", parse, f"{num} {u}".strip(), False)
            with VL.shims(parsers), VL.symbolic_numerals():
                bare = h.explore(lambda: parse(v), label=name)
            for res, exc, pcond, _ in bare:
                h.holds(key, f"{name}: a bare number without unit is accepted as {res!r}", exc is not None)
            for x in ["nan " + ok_units[0], "some text", "", None, [], True]:
                const_case(key, name, parse, x, False)
            for x in FALSY:
                const_case(key, name, parse, x, cf, False)

    # ------------------------------------------------ containers check each entry
    a, b, c = (S.var(n) for n in "abc")
    entry = {"type": "float", "min": lo, "max": hi}
    inr = lambda x: S.and_(le(lo, x), le(x, hi))  # noqa: E731
    for n in range(4 if h.thorough else 3):
        xs = [a, b, c][:n]
        P = lambda node: PARSER_FACTORY.create_parser(node, quant)  # noqa: E731
        decide("list", f"list of {n} numbers", lambda: P({"type": "list", "values": entry}).parse(list(xs)), (S.and_(*map(inr, xs)), xs))
        d = {f"k{i}": x for i, x in enumerate(xs)}
        decide("dict", f"dictionary of {n} numbers", lambda: P({"type": "dict", "values": entry, "keys": {"type": "str"}}).parse(dict(d)), (S.and_(*map(inr, xs)), d))
        nested = [{"k": x} for x in xs]
        decide("list", f"list of {n} dictionaries", lambda: P({"type": "list", "values": {"type": "dict", "values": entry}}).parse(copy.copy(nested)), (S.and_(*map(inr, xs)), nested))
    tok = VL.Tok("key")
    with VL.shims(parsers):
        ks = h.explore(lambda: P({"type": "dict", "keys": {"type": "enum", "values": ["p", "q"], "default": "p"}, "values": entry}).parse({str(S.choose(["p", "q", "r"], "key")): a}), label="dict keys")
    for res, exc, pcond, labels in ks:
        k = dict(labels)["key"]
        cond = inr(a) if k in ("p", "q") else False
        if exc is not None:
            h.prove("dict", f"dictionary key {k}: rejected only outside the domain", pcond, S.not_(S._lb(cond)))
        else:
            h.prove("dict", f"dictionary key {k}: accepted only inside the domain", pcond, S._lb(cond))
            h.holds("dict", f"dictionary key {k} becomes {list(res)}", list(res) == [k])
    for typ, empty in (("list", []), ("dict", {})):
        for cf in (False, True):
            parse = lambda x, typ=typ, cf=cf: P({"type": typ, "values": {"type": "float"}, "can_be_false": cf}).parse(x)  # noqa: E731
            const_case(typ, f"{typ} parser", parse, None, True, empty)
            const_case(typ, f"{typ} parser", parse, False, cf, False)
            for x in ["text", 3.0, True] + ([{"a": 1}] if typ == "list" else [[1]]):
                const_case(typ, f"{typ} parser", parse, x, False)
            const_case(typ, f"{typ} parser", parse, ["x"] if typ == "list" else {"k": "x"}, False)
    # ------------------------------------------------ data sources need all their fields
    fields = ["variable", "unit", "scenario", "model", "file"]

    def datasource():
        d = {f: f"some {f}" for f in fields if S.choose([True, False], f)}
        for sub in ("GDP", "emissions", "population"):
            pass
        return pc.check_params({"input": {"variables": {"GDP": d}}})["input"]["variables"]["GDP"]

    for res, exc, pcond, labels in h.explore(datasource, label="data source"):
        given = [f for f, on in labels if on]
        full = len(given) == len(fields)
        if exc is not None:
            h.holds("datasource", f"data source with {given} is rejected", not full)
        else:
            h.holds("datasource", f"data source with {given} is accepted as {res}", full and res == {f: f"some {f}" for f in fields})
    # ------------------------------------------------ texts
    tok, v = VL.Tok("w"), S.var("v")
    for typ in ("str", "filepath", "str_or_plain_dict"):
        for cf in (False, True):
            parse = lambda x, typ=typ, cf=cf: PARSER_FACTORY.create_parser({"type": typ, "can_be_false": cf}, quant).parse(x)  # noqa: E731
            with VL.shims(parsers):
                paths = h.explore(lambda: parse(tok), label=typ)
            falsy = S.or_(*[S._lb(tok == f) for f in ("False", "false", "no")]) if cf else S.bconst(False)
            for res, exc, pcond, _ in paths:
                h.holds("text", f"{typ} parser rejects a text ({exc!r})", exc is None)
                if exc is None:
                    h.prove("text", f"{typ} parser (can be false: {cf}): text kept", pcond, S._lb(falsy if res is False else S.and_(S.not_(falsy), S._lb(res is tok))))
            const_case("text", f"{typ} parser", parse, False, True, False if cf else "False")
    const_case("text", "text or dictionary", lambda x: PARSER_FACTORY.create_parser({"type": "str_or_plain_dict"}, quant).parse(x), {"a": {"b": 1}}, True, {"a": {"b": 1}})
    return h.done(
        bounds=["numbers: all reals; texts: all (equality theory); bounds of the generic parsers: all reals", "list and dictionary entries: up to 2 (quick) or 3 (thorough), one level of nesting",
                "special values: " + ", ".join(map(repr, JUNK + FALSY)), "quantities: all magnitudes, the unit texts listed in check_c13.py"],
        outside=["units not listed; infinities; rounding when a decimal text becomes a double; whole-number settings truncate fractions (as the unit tests fix)"],
        assumptions=["documented domain = type/min/max/values/can_be_false/unit of every setting in vf/documented_settings.json (the settings documentation of the pinned commit); settings that are not in it: config_default.yaml of the current tree", "float()/int() of a number keep its value (int truncates)"])
