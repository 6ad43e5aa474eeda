"""C16: conversion to the model's units is exact for every magnitude and rejects other dimensions."""
from fractions import Fraction as F

import numpy as np

from . import documented, harness
from . import sym as S
from . import values as VL
from .sym import const, eq, le

# ------------------------------------------------ independent table: unit text -> (dimension, factor)
# dimension: exponents of (currency, CO2, time, temperature, people); factor to USD2005, tCO2, yr, K, 1
PRE = {"": 1, "k": 10**3, "M": 10**6, "G": 10**9, "T": 10**12, "P": 10**15}
CO2 = {f"{p}tCO2": F(f) for p, f in PRE.items()}
CO2.update({f"{p}t CO2": F(f) for p, f in PRE.items()})
WORDS = {"": 1, "thousand ": 10**3, "million ": 10**6, "billion ": 10**9, "trillion ": 10**12}
MONEY = {}
for w, f in WORDS.items():
    for n, k in (("USD2005", F(1)), ("USD2010", F(111, 100)), ("US$2005", F(1)), ("US$2010", F(111, 100)), ("USD", F(1)), ("US$", F(1)), ("usd", F(1))):
        MONEY[w + n] = F(f) * k
TIME = {"yr": F(1), "year": F(1), "years": F(1), "month": F(1, 12), "day": F(100, 36525), "week": F(700, 36525), "century": F(100)}
TEMP = {"delta_degC": F(1), "delta_degree_Celsius": F(1), "K": F(1), "kelvin": F(1), "mK": F(1, 1000), "delta_degF": F(5, 9)}
PEOPLE = {w.strip() or "dimensionless": F(f) for w, f in WORDS.items()}
PEOPLE.update({"thousand thousand": F(10**6), "percent": F(1, 100)})


def dim(c=0, e=0, t=0, k=0):
    return (c, e, t, k)


def table(thorough):
    out = {}

    def add(text, d, f):
        out.setdefault(text, (d, f))

    times = TIME if thorough else {k: TIME[k] for k in ("yr", "year", "month", "day")}
    for u, f in CO2.items():
        add(u, dim(e=1), f)
        for t, g in times.items():
            add(f"{u}/{t}", dim(e=1, t=-1), f / g)
        add(f"{u} * yr**-1", dim(e=1, t=-1), f)
        add(f"{u} / yr", dim(e=1, t=-1), f)
    for u, f in MONEY.items():
        add(u, dim(c=1), f)
        for t, g in times.items():
            add(f"{u}/{t}", dim(c=1, t=-1), f / g)
        for e, g in CO2.items():
            if thorough or e in ("tCO2", "GtCO2", "t CO2", "MtCO2"):
                add(f"{u}/{e}", dim(c=1, e=-1), f / g)
    for u, f in TEMP.items():
        add(u, dim(k=1), f)
        for e, g in CO2.items():
            add(f"{u}/{e}", dim(k=1, e=-1), f / g)
            add(f"{u}/({e})", dim(k=1, e=-1), f / g)
    for u, f in PEOPLE.items():
        add(u, dim(), f)
    for t, g in TIME.items():
        add(t, dim(t=1), g)
    return out


DEFAULT = {"currency_unit": (dim(c=1, t=-1), F(10**12)), "emissionsrate_unit": (dim(e=1, t=-1), F(10**9)), "emissions_unit": (dim(e=1), F(10**9)),
           "temperature_unit": (dim(k=1), F(1)), "population_unit": (dim(), F(10**9))}


def quot(a, b):
    return tuple(x - y for x, y in zip(a[0], b[0])), a[1] / b[1]


TARGETS = dict(DEFAULT)
TARGETS["currency_unit/emissionsrate_unit"] = quot(DEFAULT["currency_unit"], DEFAULT["emissionsrate_unit"])
TARGETS["currency_unit / emissionsrate_unit"] = TARGETS["currency_unit/emissionsrate_unit"]
TARGETS["(temperature_unit)/(emissions_unit)"] = quot(DEFAULT["temperature_unit"], DEFAULT["emissions_unit"])
TARGETS["emissionsrate_unit/currency_unit"] = quot(DEFAULT["emissionsrate_unit"], DEFAULT["currency_unit"])
TARGETS["emissionsrate_unit/population_unit"] = quot(DEFAULT["emissionsrate_unit"], DEFAULT["population_unit"])
TARGETS["currency_unit/emissions_unit"] = quot(DEFAULT["currency_unit"], DEFAULT["emissions_unit"])
# units of the data sets, also given explicitly as target
TARGETS["USD2010"] = (dim(c=1), F(111, 100))
TARGETS["MtCO2/year"] = (dim(e=1, t=-1), F(10**6))
TARGETS["yr"] = (dim(t=1), F(1))


def check(prop, tier):
    h = harness.Harness(prop, tier, "The quantity helper (with Pint) is executed on texts and arrays whose magnitude is a symbol; the result must be linear in it with exactly the factor of an "
                        "independent unit table, for every magnitude, and pairs of different dimension must be rejected.")
    from mimosa.common import quant

    src = table(h.thorough)
    v = VL.magic_var("v")
    num = VL.numeral(v)

    def near(res, k):
        """|res - v*k| <= 1e-9 |v| k  (floating-point rounding of the factor only)."""
        d = S.sub(S.lift(res), S.mul(v, const(k)))
        tol = S.mul(const(F(1, 10**9) * abs(k)), v)
        return S.or_(S.and_(le(const(0), v), le(d, tol), le(S.neg(tol), d)), S.and_(le(v, const(0)), le(d, S.neg(tol)), le(tol, d)))

    def one(key, text, call, ok, k, real):
        with VL.symbolic_numerals():
            paths = h.explore(call, label=text)
        for res, exc, pcond, _ in paths:
            if isinstance(exc, S.NeedFloat):
                h.rep.undecided(f"{text}: {harness.exc_text(exc)}")
            elif exc is not None:
                h.holds(key, f"{text}: rejected ({harness.exc_text(exc)})", not ok)
            elif not ok:
                h.holds(key, f"{text}: accepted as {res!r} although the dimensions differ", False)
            elif S.lift(res) is None:
                h.holds(key, f"{text}: gives {res!r}", False)
            else:
                def replay(env):
                    x = float(env.get("v", env.get(v.args[0] if v.args else "", 1)))
                    got = float(real(x))
                    return f"{x} becomes {got} instead of {x * float(k)}" if abs(got - x * float(k)) > 1e-9 * abs(x * float(k)) + 1e-300 else None
                h.prove(key, f"{text}", pcond, near(res, k), replay, points=[{n: p for n in S.variables(v)} for p in (1.0, 2.0, 1000.0)])

    # ------------------------------------------------ the documented default units
    h.holds("default units", f"default units are {quant.default_units}", set(DEFAULT) <= set(quant.default_units))
    order = sorted(src)
    for tgt, (td, tf) in TARGETS.items():
        same_dim = [u for u in order if src[u][0] == td]
        other = [u for u in order if src[u][0] != td]
        if not h.thorough:
            other = other[:: max(1, len(other) // 25)]
        if not same_dim:
            h.rep.cov["samples"].append(f"target {tgt}: no source unit in the table")
        for u in same_dim:
            k = src[u][1] / tf
            one(f"value {tgt}", f"'v {u}' in {tgt}", lambda u=u: quant(f"{num} {u}", tgt), True, k, lambda x, u=u: quant(f"{x!r} {u}", tgt))
        for u in same_dim[:: 1 if h.thorough else 4]:
            k = src[u][1] / tf
            one(f"value {tgt}", f"'-v {u}' in {tgt}", lambda u=u: quant(f"-{num} {u}", tgt), True, -k, lambda x, u=u: quant(f"{-x!r} {u}", tgt))
            one(f"value {tgt}", f"(v, {u!r}) in {tgt}", lambda u=u: quant(v, u, tgt), True, k, lambda x, u=u: quant(x, u, tgt))
            one(f"value {tgt}", f"(array, {u!r}) in {tgt}", lambda u=u: quant(np.array([v, const(F(3)), S.var("w")], dtype=object), u, tgt)[0], True, k, lambda x, u=u: quant(np.array([x, 3.0, 7.0]), u, tgt)[0])
            one(f"value {tgt}", f"(v, {u!r}) in {tgt} with units", lambda u=u: quant(v, u, tgt, only_magnitude=False).magnitude, True, k, lambda x, u=u: quant(x, u, tgt, only_magnitude=False).magnitude)
            one(f"value {tgt}", f"'v {u}' in {tgt}, may be false", lambda u=u: quant(f"{num} {u}", tgt, can_be_false=True), True, k, lambda x, u=u: quant(f"{x!r} {u}", tgt))
        for u in other:
            one(f"dimension {tgt}", f"'v {u}' in {tgt}", lambda u=u: quant(f"{num} {u}", tgt), False, None, None)
            one(f"dimension {tgt}", f"(v, {u!r}) in {tgt}", lambda u=u: quant(v, u, tgt), False, None, None)
            one(f"dimension {tgt}", f"(array, {u!r}) in {tgt}", lambda u=u: quant(np.array([v, S.var("w")], dtype=object), u, tgt), False, None, None)
        if td != dim():
            one(f"dimension {tgt}", f"a bare number in {tgt}", lambda: quant(num, tgt), False, None, None)
            one(f"dimension {tgt}", f"a bare number in {tgt}", lambda: quant(v, tgt), False, None, None)
        for junk in ("some text", "5 nonsense/yr", "5 degC", ""):
            one(f"dimension {tgt}", f"{junk!r} in {tgt}", lambda junk=junk: quant(junk, tgt), td == dim() and junk == "", 1, None) if junk or td != dim() else None
        # false is not a quantity unless it may be
        for res, exc, _, _ in h.explore(lambda: quant(False, tgt), label="false"):
            h.holds("false", f"false in {tgt}: {res!r} {exc!r}", res is False)
        for res, exc, _, _ in h.explore(lambda: quant(False, tgt, can_be_false=False), label="false"):
            h.holds("false", f"false in {tgt} where it may not be false: {res!r}", exc is not None)
    # every entry of an array is converted by the same factor, independent of the others
    w = S.var("w")
    for u, tgt in (("Mt CO2/yr", "emissionsrate_unit"), ("billion US$2005/yr", "currency_unit"), ("million", "population_unit"), ("billion US$2010/yr", "currency_unit")):
        k = src[u.replace("US$2005/yr", "US$2005/yr")][1] / TARGETS[tgt][1] if u in src else (F(1, 1000))
        arr = np.array([v, w, S.add(v, w)], dtype=object)
        for res, exc, pcond, _ in h.explore(lambda: quant(arr, u, tgt, only_magnitude=False), label=u):
            if h.holds(f"array {u}", f"{u} to {tgt}: {exc!r}", exc is None and len(res.magnitude) == 3):
                m = res.magnitude
                tol = F(1, 10**9) * k
                for got, want in zip(m, (v, w, S.add(v, w))):
                    d = S.sub(S.lift(got), S.mul(want, const(k)))
                    b = [le(const(-10**6), x) for x in (v, w)] + [le(x, const(10**6)) for x in (v, w)]
                    h.prove(f"array {u}", f"array in {u} to {tgt}", pcond + b, S.and_(le(d, const(tol * 4 * 10**6)), le(const(-tol * 4 * 10**6), d)))
                h.holds(f"array {u}", "the given array itself was changed", all(a is b for a, b in zip(arr, (v, w, arr[2]))))
    # the unit of every variable and parameter that names default units
    for text, (td, tf) in TARGETS.items():
        if not any(n in text for n in DEFAULT):
            continue
        for res, exc, _, _ in h.explore(lambda: quant.unit(text, pyomo=False), label=text):
            if h.holds("unit", f"unit {text}: {exc!r}", exc is None):
                base = {dim(c=1, t=-1): "USD2005/yr", dim(e=1, t=-1): "tCO2/yr", dim(e=1): "tCO2", dim(k=1): "delta_degC", dim(): "dimensionless"}.get(td)
                if base is None:
                    num_, den = {(1, -1, 0, 0): ("USD2005", "tCO2"), (0, -1, 0, 1): ("delta_degC", "tCO2"), (-1, 1, 0, 0): ("tCO2", "USD2005"), (1, -1, -1, 0): ("USD2005/yr", "tCO2")}.get(td, (None, None))
                    base = f"{num_}/{den}" if num_ else None
                if base:
                    f = (1.0 * res).to(base).magnitude
                    h.holds("unit", f"unit {text} is {f} {base} instead of {float(tf)}", abs(f - float(tf)) <= 1e-9 * float(tf))
    # ------------------------------------------------ settings: the quantity that is parsed is the one that is converted
    from mimosa.common.config import parseconfig as pc
    from mimosa.common.config.utils import get_nested

    for keys, node in documented.settings(pc.load_default_yaml()):
        if node["type"] != "quantity":
            continue
        tgt = node["unit"]
        if tgt not in TARGETS:
            h.rep.undecided(f"setting {keys}: unit {tgt} not in the table of the check")
            continue
        td, tf = TARGETS[tgt]
        us = [u for u in order if src[u][0] == td]
        for u in us[:: 1 if h.thorough else max(1, len(us) // 6)]:
            user = {}
            from . import model as M
            M.deep_update(user, list(keys), f"{num} {u}")

            def go():
                p, t = pc.check_params(user, True)
                return quant(get_nested(p, keys), get_nested(t, keys).unit)
            one("setting " + ".".join(keys), f"{'.'.join(keys)} = 'v {u}'", go, True, src[u][1] / tf, lambda x, u=u: quant(f"{x!r} {u}", tgt))
    return h.done(
        bounds=["all magnitudes (reals, both signs, zero); %d unit texts times %d targets (all pairs of equal dimension, every pair of different dimension in the thorough tier)" % (len(src), len(TARGETS))],
        outside=["unit texts that are not in the table of check_c16.py; relative rounding below 1e-9"],
        assumptions=["reference factors: SI prefixes, 1 yr = 365.25 days = 12 months, 1 USD2010 = 1.11 USD2005 (documented inflation factor), undated dollars are USD2005 (extra_units.txt)",
                     "a Pint numeral is replaced by a symbol at Pint's own token evaluation"])
