"""C15: references in braces are replaced by the value of the setting they name."""
import copy
import re

from . import documented, harness
from . import model as M
from . import sym as S
from . import values as VL

DUMMY = object()


class Marked(VL.Tok):
    """An arbitrary text; wherever it ends up inside a longer text it can be recognised."""


def expected_text(segments):
    return "".join(s if kind == "text" else str(v) for kind, s, v in segments)


def check(prop, tier):
    h = harness.Harness(prop, tier, "parse_param_values is executed on configurations whose referenced values are symbolic (numbers and texts recognisable inside the result); the structure of the referring "
                        "text, its place and the referenced setting are forked by the explorer, and each resulting text must be the surrounding text with the symbols of exactly the referenced settings.")
    from mimosa.common.config import parseconfig as pc
    from mimosa.common.config.utils import get_nested, set_nested

    base = pc.check_params({})
    tree = pc.load_default_yaml()
    settings = documented.settings(tree)
    # every place that holds a text (also inside nested dictionaries)
    places = []

    def walk(keys, node):
        for k, v in node.items():
            if isinstance(v, dict):
                walk(keys + [k], v)
            elif isinstance(v, str):
                places.append(keys + [k])

    walk([], base)
    extra = {"regions": {"CAN": {"MAC": {"note": "x"}}}, "simulation": {"constraint_variables": {"population": "x", "relative_abatement": {"CAN": {"file": "x"}}}, "custom_mapping": {"PRTP": {"note": "x"}}}}
    walk([], extra)
    targets = [list(k) for k, n in settings if n["type"] not in ("dict", "list", "datasource")] + [p for p in places if len(p) > 2 and p[0] in ("input", "regional_parameter_files")]
    lists = [list(k) for k, n in settings if n["type"] == "list"]
    groups = sorted({" - ".join(k[:i]) for k, _ in settings for i in range(1, len(k))} | {" - ".join(k) for k, n in settings if n["type"] in ("dict", "datasource")})
    h.holds("names", "a setting cannot be named in a reference", all(re.fullmatch(r"[\w -]+", k) is not None for t in targets for k in t))

    def config(place, text):
        p = copy.deepcopy(base)
        for k in extra:
            for kk, v in _flat(extra[k], [k]):
                set_nested(p, kk, v)
        # no other references, so that a referenced setting is not itself replaced
        for q in places:
            if isinstance(get_nested(p, q), str) and "{" in get_nested(p, q):
                set_nested(p, q, "plain text")
        set_nested(p, place, text)
        return p

    def run(key, text, place, build, replay=None):
        """build(p) -> (text to place, [segments], {path: symbolic value})."""
        def go():
            p = config(place, "plain text")
            t, segs, vals = build(p)
            for q, v in vals.items():
                set_nested(p, list(q), v)
            set_nested(p, place, t)
            before = {tuple(q): v for q, v in _flat(p, [])}
            res = pc.parse_param_values(p)
            return segs, before, res

        cases = []
        for out, exc, pcond, labels in h.explore(go, label=text, max_paths=200000):
            lab = ", ".join(f"{a}={b}" for a, b in labels)
            if isinstance(exc, S.NeedFloat):
                h.rep.undecided(f"{text}: {harness.exc_text(exc)}")
                continue
            if not h.holds(key, f"{text} ({lab}): {harness.exc_text(exc) if exc else ''}", exc is None):
                continue
            segs, before, res = out
            got = get_nested(res, place)
            want = expected_text(segs)
            cases.append((key, f"{text} ({lab})", got if isinstance(got, str) else repr(got), want))
            after = {tuple(q): v for q, v in _flat(res, [])}
            bad = [q for q in before if q != tuple(place) and (q not in after or not (after[q] is before[q] or isinstance(before[q], str) and isinstance(after[q], str) and str.__eq__(before[q], after[q])))] + [q for q in after if q not in before]
            h.holds(key + " others", f"{text} ({lab}): also changes {bad[:3]}", not bad)
        if cases:
            h.prove_texts(cases)

    def value_for(q, i):
        node = dict((tuple(k), n) for k, n in settings).get(tuple(q), {"type": "text"})
        if node["type"] in ("float", "int"):
            return S.var(VL.marker(f"Value{i}"))
        if node["type"] == "bool":
            return S.choose([True, False], "flag")
        return Marked(f"Text{i}_Of Reference")

    def ref(q):
        return "{" + " - ".join(q) + "}"

    # ---- every setting can be referenced from every text
    for place in places:
        for q in targets:
            if q == place or (not h.thorough and place[0] == "input" and q[0] == "input" and places.index(place) % 3):
                continue
            for before, after in (("", ""), ("pre-" + VL.marker("Text before"), VL.marker("Text after") + "_1")):
                def build(p, q=q, before=before, after=after):
                    v = value_for(q, 0)
                    return before + ref(q) + after, [("text", before, None), ("ref", q, v), ("text", after, None)], {tuple(q): v}
                if not before and not h.thorough and places.index(place) % 2:
                    continue
                run("reference", f"{'.'.join(place)} = {before + ref(q) + after!r}", place, build)
    # ---- false is the value of a switched-off setting
    for q in [k for k, n in settings if n.get("can_be_false")]:
        def build(p, q=q):
            return "a" + ref(q), [("text", "a", None), ("ref", q, False)], {tuple(q): False}
        run("reference", f"reference to {q} when it is false", places[0], build)

    # ---- several references, surrounding texts, invalid references in one text
    pick = [["SSP"], ["time", "start"], ["economics", "GDP", "alpha"], ["input", "variables", "GDP", "unit"], ["model", "damage module"]]
    pick = [q for q in pick if q in targets]
    literal = ["", "-", " x ", "a{b", "}", "{}", "{unknown}", "{SSP - x}", "{" + groups[0] + "}", "{economics - nothing}", "{ SSP}", "{a.b}", "{SSP}"[:-1] + "s}", "\\1", "$SSP"]
    n_parts = 5 if h.thorough else 3
    lits = literal if h.thorough else literal[:9] + literal[-2:]
    place = places[[p[-1] for p in places].index("scenario")] if "scenario" in [p[-1] for p in places] else places[0]

    def build_many(p):
        segs, text, vals = [], "", {}
        for i in range(n_parts):
            if i % 2 == 0:
                t = S.choose(lits if i == 0 or h.thorough and i == 2 else lits[:5], f"text{i}")
                segs.append(("text", t, None))
                text += t
            else:
                q = S.choose([q for q in pick if q != place], f"ref{i}")
                if tuple(q) not in vals:
                    vals[tuple(q)] = value_for(q, i)
                segs.append(("ref", q, vals[tuple(q)]))
                text += ref(q)
        return text, segs, vals

    run("several references", f"{n_parts // 2} references in {'.'.join(place)}", place, build_many)

    def build_pairs(p):
        segs, text, vals = [], "", {}
        for i in range(3 if h.thorough else 2):
            q = S.choose([q for q in pick if q != place], f"ref{i}")
            vals.setdefault(tuple(q), value_for(q, i))
            sep = S.choose(["", "_"], f"separator{i}")
            segs += [("ref", q, vals[tuple(q)]), ("text", sep, None)]
            text += ref(q) + sep
        return text, segs, vals

    for pl in places if h.thorough else places[::3]:
        if pl not in pick:
            run("several references", f"adjacent references in {'.'.join(pl)}", pl, build_pairs)

    # ---- texts without a valid reference stay as they are
    for bad in groups + [" - ".join(q + ["x"]) for q in pick] + ["nothing", "SSP - ", "economics - ", "time - begin", "GDP", "alpha", "start"]:
        for pl in places if h.thorough else places[:1] + places[-2:]:
            def build(p, bad=bad):
                v = S.var(VL.marker("Value"))
                return "a{" + bad + "}b", [("text", "a{" + bad + "}b", None)], {("time", "start"): v}
            run("invalid reference", f"{'.'.join(pl)} refers to {bad!r}", pl, build)
    # ---- values that are no texts stay as they are (checked in `others` above), also symbolic ones everywhere
    for q in lists:
        def build(p, q=q):
            return ref(["SSP"]), [("ref", ["SSP"], p["SSP"])], {}
        run("reference", f"with the list {q}", places[-1], build)
    # ---- the documented way through the whole pipeline
    for ssp in ("SSP1", "SSP2", "SSP5"):
        def go():
            p, _ = pc.check_params({"SSP": ssp}, True)
            return pc.parse_param_values(p)
        for res, exc, pcond, _ in h.explore(go, label="pipeline"):
            ok = exc is None and all(res["input"]["variables"][v]["scenario"] == f"{ssp}-Ref-SPA0-V17" for v in ("GDP", "emissions", "population"))
            h.holds("pipeline", f"SSP {ssp}: scenario names {exc!r}", ok)
    return h.done(
        bounds=[f"arbitrary texts before and after the reference; {len(places)} places holding a text, {len(targets)} referenced settings, all values of them (numbers and texts)", f"up to {n_parts // 2} references with surrounding text and {3 if h.thorough else 2} adjacent ones; {len(lits)} surrounding texts including unbalanced braces and invalid references"],
        outside=["referenced settings that themselves contain references (the result then depends on their order); texts inside lists are not settings of their own"],
        assumptions=["a reference is the path of a setting joined by ' - ' in braces, as documented in parse_param_values"])


def _flat(node, keys):
    for k, v in node.items():
        if isinstance(v, dict):
            yield from _flat(v, keys + [k])
        else:
            yield keys + [k], v
