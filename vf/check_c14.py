"""C14: unknown settings are rejected, unspecified ones keep their default, nothing leaks."""
import copy

from . import documented, harness
from . import model as M
from . import sym as S
from . import values as VL
from .check_c13 import same

DICTS = ("dict",)


def parsed_default(node):
    """The value a setting has when it is not given."""
    typ, d = node["type"], node.get("default")
    if d is None and typ == "dict":
        return {}
    if d is None and typ == "list":
        return []
    if typ == "dict":
        return {str(k): ({} if v is None else v) for k, v in d.items()}
    return d


def expected(settings, given=()):
    out = {}
    for keys, node in settings:
        M.deep_update(out, list(keys), copy.deepcopy(parsed_default(node)))
    for keys, v in given:
        M.deep_update(out, list(keys), v)
    return out


def leaves(tree, keys, prefix=()):
    for k, v in tree.items():
        p = prefix + (k,)
        if list(p) in keys:
            yield p, v
        elif isinstance(v, dict):
            yield from leaves(v, keys, p)
        else:
            yield p, v


def snapshot(x):
    """Structure of a value that survives later changes to it: identities of leaves and containers."""
    if isinstance(x, dict):
        return ("d", id(x), tuple((k, snapshot(v)) for k, v in x.items()))
    if isinstance(x, list):
        return ("l", id(x), tuple(snapshot(v) for v in x))
    if isinstance(x, (str, int, float)) and not isinstance(x, VL.Tok):
        return ("v", type(x).__name__, str(x))
    return ("o", id(x))


def check(prop, tier):
    h = harness.Harness(prop, tier, "check_params is executed with an arbitrary (symbolic) key at every dictionary position of the configuration, with symbolic values for every setting and "
                        "pair of settings; on every path the verdict and the complete resulting configuration are compared with the documented settings.")
    from mimosa.common.config import parseconfig as pc
    from mimosa.common.config.utils import get_nested, parsers

    tree = pc.load_default_yaml()
    settings = documented.settings(tree)
    keys_of = [list(k) for k, _ in settings]
    fast = lambda: harness.patched([(pc, "load_default_yaml", lambda: copy.deepcopy(tree))])  # noqa: E731  read once: only for speed

    # the file is really what is read
    h.holds("default tree", "load_default_yaml is not the documented configuration file", [k for k in keys_of if not _in(tree, k)] == [])

    # ------------------------------------------------ defaults
    def compare(key, text, given, res, pcond, replay=None):
        want = expected(settings, given)
        a, b = dict(leaves(res, keys_of)), dict(leaves(want, keys_of))
        h.holds(key, f"{text}: settings of the result differ from the documented ones: {sorted(map(str, set(a) ^ set(b)))[:5]}", set(a) == set(b))
        concrete_bad, goals = [], []
        for p in b:
            if p in a:
                c = same(a[p], b[p]) if not isinstance(a[p], (int, float)) or isinstance(a[p], (bool, S.Sym)) or isinstance(b[p], (str, bool, S.Sym)) else a[p] == b[p]
                if c is True:
                    continue
                if isinstance(c, S.SymBool):
                    goals.append(c)
                else:
                    concrete_bad.append(f"{'.'.join(map(str, p))} is {a[p]!r} instead of {b[p]!r}")
        h.holds(key, f"{text}: {'; '.join(concrete_bad[:4])}", not concrete_bad)
        if goals:
            h.prove(key, f"{text}: values in place", pcond, S.and_(*goals), replay)
        return not concrete_bad

    for name, arg in (("no settings", {}),):
        for res, exc, pcond, _ in h.explore(lambda: pc.check_params(arg), label=name):
            if h.holds("defaults", f"{name}: rejected ({exc!r})", exc is None):
                compare("defaults", name, [], res, pcond)
    for res, exc, pcond, _ in h.explore(lambda: pc.load_params(), label="load_params"):
        if h.holds("defaults", f"load_params(): {exc!r}", exc is None):
            compare("defaults", "load_params()", [], res, pcond)
            again = pc.check_params(res)
            h.holds("defaults", "parsing parsed settings changes them", again == res)

    # ------------------------------------------------ unknown keys
    groups = {(): sorted({k[0] for k in keys_of})}
    for k in keys_of:
        for i in range(1, len(k)):
            groups.setdefault(tuple(k[:i]), [])
            if k[i] not in groups[tuple(k[:i])]:
                groups[tuple(k[:i])].append(k[i])
    shapes = {"a number": lambda: S.var("v"), "a text": lambda: VL.Tok("t"), "an empty dictionary": dict, "a dictionary": lambda: {"x": S.var("v")},
              "a nested dictionary": lambda: {"x": {"y": {}}}, "nothing": lambda: None, "a list": lambda: [S.var("v")], "an empty list": list, "false": lambda: False, "an empty text": lambda: ""}
    if not h.thorough:
        for drop in ("a nested dictionary", "an empty list", "an empty text", "a text"):
            shapes.pop(drop)
    all_names = sorted({str(x) for k in keys_of for x in k})
    for pos, sib in groups.items():
        for shape, mk in shapes.items():
            VL._CODES.clear()
            # texts the arbitrary key may coincide with: this level, joined paths, every other key of the tree
            for x in sib + [" - ".join(pos + (s,)) for s in sib] + [" - ".join([s, "x"]) for s in sib[:1]] + (all_names if h.thorough else all_names[::7]):
                VL.code(x)
            tok = VL.Tok("key")

            def go():
                user = {}
                val = mk()
                if pos:
                    M.deep_update(user, list(pos), {tok: val})
                else:
                    user[tok] = val
                return pc.check_params(user)

            with VL.shims(parsers), VL.symbolic_numerals(), fast(), M.quiet():
                paths = h.explore(go, label=f"unknown key at {pos}")
            n_rej = 0
            for res, exc, pcond, labels in paths:
                if isinstance(exc, S.NeedFloat):
                    h.rep.undecided(f"unknown key at {pos}: {harness.exc_text(exc)}")
                elif exc is None:
                    h.prove("unknown " + ".".join(pos), f"key at {'.'.join(pos) or 'top level'} (value: {shape}) accepted only if documented", pcond, S.or_(*[S._lb(tok == s) for s in sib]),
                            lambda env, pos=pos, sib=sib, mk=mk, tok=tok: _replay_unknown(pc, pos, sib, mk, tok, env))
                else:
                    n_rej += 1
            h.holds("unknown " + ".".join(pos), f"no key at all is rejected at {pos} (value: {shape})", n_rej > 0)
    # keys that are not texts
    for pos in groups:
        for k in (1, 0, None, True, 2.5, ("a", "b")):
            user = {}
            if pos:
                M.deep_update(user, list(pos), {k: 1})
            else:
                user[k] = 1
            with fast(), M.quiet():
                for res, exc, pcond, _ in h.explore(lambda: pc.check_params(user), label="key"):
                    h.holds("unknown " + ".".join(pos), f"key {k!r} at {pos} is accepted", exc is not None)
    # an unknown key next to documented ones and inside a group with other settings given
    for pos, sib in groups.items():
        for extra in (["misspelled"], [f"{sib[0]} "], [sib[0].upper() + "x"], ["type"], ["default"], ["a", "b"]):
            user = {}
            for keys, node in settings:
                M.deep_update(user, list(keys), copy.deepcopy(node.get("default")))
            d = get_nested(user, pos)
            if extra[0] in d:
                continue
            M.deep_update(d, extra, 1)
            with fast(), M.quiet():
                for res, exc, pcond, _ in h.explore(lambda: pc.check_params(user), label="key"):
                    h.holds("unknown " + ".".join(pos), f"key {extra} at {pos} next to documented settings is accepted", exc is not None)

    # ------------------------------------------------ every setting at its own place; nothing else changes
    v, w = S.var("v"), S.var("w")

    def given_values(keys, node, sym):
        """[(description, value, condition)] valid values of a setting other than its default."""
        typ = node["type"]
        if typ in ("float", "int"):
            cond = []
            if node.get("min") is not None:
                cond.append(S.le(S.const(node["min"]), sym))
            if node.get("max") is not None:
                cond.append(S.le(sym, S.const(node["max"])))
            x = sym if typ == "float" else S.fn("floor", sym)
            if typ == "int":
                cond = [S.substitute(c, {}) if False else c for c in cond] + [S.eq(x, sym)]
            return [("any number", sym, cond)] + ([("false", False, [])] if node.get("can_be_false") else [])
        if typ == "enum":
            return [(repr(a), a, []) for a in node["values"]]
        if typ == "bool":
            return [(repr(a), a, []) for a in (True, False)]
        if typ == "quantity":
            unit = str(node.get("default") or "").split(" ", 1)[-1] if isinstance(node.get("default"), str) else {"emissions_unit": "GtCO2", "temperature_unit": "delta_degC", "emissionsrate_unit": "GtCO2/yr"}.get(node["unit"])
            q = f"{VL.numeral(VL.magic_var('q-' + '.'.join(keys)))} {unit}"
            return [("any quantity", q, [])] + ([("false", False, [])] if node.get("can_be_false") else [])
        if typ == "datasource":
            return [("a data source", {f: f"own {f}" for f in ("variable", "unit", "scenario", "model", "file")}, [])]
        if typ == "list":
            return [("a list", [], [])] + ([("a list of texts", ["a", "b"], [])] if node.get("values", {}).get("type") == "str" else [("a list", [{"regionstype1": "a"}], [])])
        if typ == "dict":
            vt = node.get("values", {}).get("type")
            return [("an empty dictionary", {}, []), ("a dictionary", {"A": {"own": 1.5}} if vt in ("dict", "str_or_plain_dict", None) else {"A": "own"}, [])]
        h.rep.undecided(f"{keys}: type {typ} not known to the check")
        return []

    def run_given(given, conds, text, key):
        user = {}
        for keys, val in given:
            M.deep_update(user, list(keys), val)
        before = snapshot(user)
        with VL.shims(parsers), VL.symbolic_numerals(), fast(), M.quiet():
            paths = h.explore(lambda: pc.check_params(user), conds, label=text)
        for res, exc, pcond, _ in paths:
            if isinstance(exc, S.NeedFloat):
                h.rep.undecided(f"{text}: {harness.exc_text(exc)}")
            elif h.holds(key, f"{text}: valid settings are rejected ({harness.exc_text(exc) if exc else ''})", exc is None):
                compare(key, text, given, res, list(conds) + pcond, None)
                h.holds("user dictionary", f"{text}: the user's dictionary was changed", snapshot(user) == before)

    cases = {}
    for keys, node in settings:
        cases[tuple(keys)] = given_values(keys, node, v)
        for d, val, cond in cases[tuple(keys)]:
            run_given([(keys, val)], cond, f"{'.'.join(keys)} = {d}", "setting " + ".".join(keys))
    # pairs
    lst = list(settings)
    for i, (k1, n1) in enumerate(lst):
        for k2, n2 in lst[i + 1:]:
            if not h.thorough and (hash_pair(k1, k2) % 6):
                continue
            c1, c2 = cases[tuple(k1)], given_values(k2, n2, w)
            d1, v1, q1 = c1[0]
            d2, v2, q2 = c2[0]
            run_given([(k1, v1), (k2, v2)], q1 + q2, f"{'.'.join(k1)} = {d1} and {'.'.join(k2)} = {d2}", "setting " + ".".join(k1))

    # ------------------------------------------------ the user's dictionary survives the whole pipeline
    def pipeline(user):
        p, _t = pc.check_params(user, True)
        pc.parse_param_values(p)
        return p

    rich = {"SSP": "SSP3", "regions": {"CAN": {"MAC": {"kappa": 1.0, "note": "{SSP}"}}},
            "regional_parameter_files": {"economics": {"filename": "x/{SSP}.csv", "regionstype": "IMAGE26", "more": {"deep": "{SSP}"}}},
            "simulation": {"constraint_variables": {"relative_abatement": {"CAN": {"2025": "{SSP}"}}, "population": "{SSP}.csv"}, "custom_mapping": {"PRTP": {"a": "{SSP}", "b": {"c": "{SSP}"}}},
                           "deactivated_constraints": ["{SSP}"]},
            "input": {"variables": {"GDP": {"variable": "GDP|PPP", "unit": "currency_unit", "scenario": "{SSP}-x", "model": "m", "file": "f"}}}, "regionsmappings": [{"regionstype1": "{SSP}", "deep": {"x": "{SSP}"}}]}
    for name, user in _variants(rich, keys_of):
        before, value = snapshot(user), copy.deepcopy(user)
        with M.quiet():
            paths = h.explore(lambda: pipeline(user), label=name)
        for res, exc, pcond, _ in paths:
            if h.holds("user dictionary", f"{name}: rejected ({exc!r})", exc is None):
                h.holds("user dictionary", f"{name}: parsing the settings changed the user's own dictionary into {user!r}", snapshot(user) == before and user == value)
    return h.done(
        bounds=["an arbitrary key (all texts) at each of the %d dictionary positions, with %d shapes of value" % (len(groups), len(shapes)), "every setting alone with all valid values, pairs of settings (every sixth pair in the quick tier)"],
        outside=["three or more settings given together; configuration files read from disk are the same dictionaries after YAML parsing"],
        assumptions=["documented settings and defaults: vf/documented_settings.json (pinned commit), plus settings only the current tree has"])


def hash_pair(a, b):
    return sum(map(ord, ".".join(a) + ".".join(b)))


def _in(tree, keys):
    for k in keys:
        if not isinstance(tree, dict) or k not in tree:
            return False
        tree = tree[k]
    return True


def _variants(rich, keys_of):
    yield "settings with references", copy.deepcopy(rich)
    for keys in keys_of:
        if _in(rich, keys):
            d, u = rich, {}
            for k in keys:
                d = d[k]
            u["SSP"] = "SSP3"
            M.deep_update(u, list(keys), copy.deepcopy(d))
            yield f"{'.'.join(keys)} with references", u


def _replay_unknown(pc, pos, sib, mk, tok, env):
    k = VL.concrete(tok, env)
    if k in sib:
        return None
    user, val = {}, VL.concrete(mk(), env)
    M.deep_update(user, list(pos) + [k], val)
    with M.quiet():
        try:
            pc.check_params(user)
        except Exception:  # noqa: BLE001
            return None
    return f"{user!r} is accepted"
