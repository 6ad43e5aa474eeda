"""C28: the parameter reference states what is enforced."""
import copy
import importlib.util
import os
import re
from fractions import Fraction as F

import yaml

from . import documented, harness
from . import model as M
from . import sym as S
from . import values as VL
from .check_c22 import Texts, _abs_le
from .sym import Sym, const, eq, le

HOOKS = os.path.join(M.REPO, "docs/scripts/mkdocs_hooks.py")
FIELDS = {"type": r"-\s*Type:[ \t]*(.*)", "default": r"-\s*Default:[ \t]*(.*)", "false": r"-\s*Can be false:[ \t]*(\w+)", "min": r"-\s*Min:[ \t]*(\S+)", "max": r"-\s*Max:[ \t]*(\S+)", "unit": r"-\s*Unit:[ \t]*(.*)"}
SHORT = {"type": r"Type: (.+?)\.(?=\s|$)", "default": r"Default: (.+?)\.(?=\s+(?:Can|Min|Max|Unit|Allowed)|\s*$)", "min": r"Min: (\S+?)\.(?=\s|$)", "max": r"Max: (\S+?)\.(?=\s|$)", "unit": r"Unit: (.+?)\.(?=\s|$)"}
INF = float("inf")


def sections(text):
    """{setting: its part of the generated reference}"""
    out, marks = {}, list(re.finditer(r'<span id="([^"]+)"', text))
    for a, b in zip(marks, marks[1:] + [None]):
        out.setdefault(a.group(1), []).append(text[a.start():b.start() if b else len(text)])
    return out


def fields(part, patterns):
    out = {}
    if patterns is SHORT:
        part = part[max(part.rfind("Type: "), 0):]  # after the description
    for k, rx in patterns.items():
        m = re.findall(rx, part)
        if m:
            out[k] = m[-1 if patterns is SHORT else 0].strip()
    m = re.search(r"- Allowed values:\s*\n((?:\s+- .*\n)+)", part) if patterns is FIELDS else re.search(r"Allowed values: (\[.*\])\.", part)
    if m:
        out["allowed"] = [x.strip()[2:] for x in m.group(1).strip().split("\n")] if patterns is FIELDS else [str(x) for x in yaml.safe_load(m.group(1))]
    return out


class Stub:
    """Stands for the model the reference is generated from."""

    concrete = None

    def __init__(self, params):
        self.params, self.concrete_model = params, Stub.concrete


def check(prop, tier):
    h = harness.Harness(prop, tier, "The generator of the reference is run with a symbol for the default and each bound of every numeric setting; the numbers printed for a setting are traced back to the symbols, and the "
                        "parser's verdict on an arbitrary value is compared with the stated domain by queries over all values, bounds and defaults.")
    import mimosa
    from mimosa.common import quant
    from mimosa.common.config import parseconfig as pc
    from mimosa.common.config.utils import get_nested, parsers

    base_load = yaml.safe_load
    nodes = {".".join(k): n for k, n in documented.settings(pc.load_default_yaml())}
    numeric = [n for n, d in nodes.items() if d["type"] in ("float", "int")]

    def loader(num, only):
        """The default configuration with num(name of the number, its value) in place of the numbers of one setting."""
        def load(stream):
            d = base_load(stream)
            if isinstance(d, dict) and isinstance(d.get("economics"), dict) and "input" in d:
                d = copy.deepcopy(d)
                for n in only:
                    try:
                        node = get_nested(d, n.split("."))
                    except KeyError:
                        continue
                    for k in ("min", "max", "default"):
                        if node.get(k) is not None and not isinstance(node[k], bool):
                            node[k] = num(f"{k} of {n}", node[k])
            return d
        return load

    def number(name, v):
        return S.var(name)

    def generate():
        spec = importlib.util.spec_from_file_location("mkdocs_hooks_under_check", HOOKS)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        text = mod.on_page_markdown("{params::reference}")
        names = [c.name for c in Stub.concrete.component_objects(M.pe.Param)]
        html = {n: mod.on_page_content(f"BEGIN param::{n} END") for n in names}
        manual = {n: mod.on_page_content(f"BEGIN manualparam::title here::{n} END") for n in nodes if re.fullmatch("[a-zA-Z0-9_.]+", n)}
        return text, html, manual

    with M.quiet():
        p = M.small_params()
        Stub.concrete = M.build(p, symbolic=False, values={}).m
    docs = {c.name: c.doc for c in Stub.concrete.component_objects(M.pe.Param)}

    def tree(only=(), num=number):
        return harness.patched([(yaml, "safe_load", loader(num, only)), (mimosa, "MIMOSA", Stub)])

    def nested(name, v):
        d = {}
        M.deep_update(d, name.split("."), v)
        return d

    def accepts(name, v):
        return get_nested(pc.check_params(nested(name, v)), name.split("."))

    # the documented configuration is consistent: every default lies within its bounds
    def consistency(n):
        consistent, d = [], nodes[n]
        if d.get("default") is not None and not isinstance(d["default"], bool):
            if d.get("min") is not None:
                consistent.append(le(S.var(f"min of {n}"), S.var(f"default of {n}")))
            if d.get("max") is not None:
                consistent.append(le(S.var(f"default of {n}"), S.var(f"max of {n}")))
        elif d.get("min") is not None and d.get("max") is not None:
            consistent.append(le(S.var(f"min of {n}"), S.var(f"max of {n}")))

        if nodes[n]["type"] == "int":
            consistent += [eq(S.fn("floor", S.var(f"{k} of {n}")), S.var(f"{k} of {n}")) for k in ("default", "min", "max") if nodes[n].get(k) is not None and not isinstance(nodes[n][k], bool)]
        return consistent

    T = Texts()

    def go(n):
        with tree([n]), VL.shims(parsers), M.quiet(), harness.patched([(Sym, "__str__", lambda s: T.text(s)), (Sym, "__repr__", lambda s: T.text(s)), (Sym, "__format__", lambda s, spec: T.text(s, spec))]):
            return generate()

    def real(name, env, form):
        """The statement about a setting and the verdict of its parser, on numbers."""
        def num(n, v):
            return float(env[n]) if n in env else v
        with tree([name], num), M.quiet():
            text, html, manual = generate()
            part = form(text, html, manual)
            got = fields(part, FIELDS if "Can be false:" in part else SHORT)
            lo, hi = float(got.get("min", -INF)), float(got.get("max", INF))
            out = []
            try:
                d = get_nested(pc.load_params(), name.split("."))
                if not isinstance(d, bool) and abs(float(got["default"]) - float(d)) > 1e-5 * max(abs(float(d)), 1e-300):
                    out.append(f"the stated default is {got['default']}, the default is {d}")
            except (ValueError, KeyError) as exc:
                out.append(f"default: {harness.exc_text(exc)}")
            v = float(env.get("v", 1))
            for x in (v, lo, hi, lo - 1, hi + 1, lo - 1e-3 * max(1, abs(lo)), hi + 1e-3 * max(1, abs(hi)), (lo + hi) / 2):
                if x != x or abs(x) == INF or nodes[name]["type"] == "int" and x != int(x):
                    continue
                try:
                    accepts(name, x)
                    ok = True
                except ValueError:
                    ok = False
                stated = lo <= x <= hi
                near = min(abs(x - lo), abs(x - hi)) <= 2e-5 * max(1e-9, abs(x))
                if ok != stated and not near:
                    out.append(f"{x} is {'accepted' if ok else 'rejected'}, but the reference states the range {lo} to {hi}")
        return f"{name}: " + "; ".join(out) if out else None

    def forms():
        for n in nodes:
            yield n, "reference", FIELDS, (lambda text, html, manual, n=n: sections(text)[n][0])
        for c, doc in docs.items():
            if isinstance(doc, str) and doc.startswith("::"):
                yield doc.split("::")[1], f"text of {c}", SHORT, (lambda text, html, manual, c=c: html[c][len("BEGIN "):-len(" END")])
        for n in nodes:
            if re.fullmatch("[a-zA-Z0-9_.]+", n):
                yield n, "manual text", SHORT, (lambda text, html, manual, n=n: manual[n][len("BEGIN "):-len(" END")])

    # the reference as it is generated
    try:
        with tree(), M.quiet():
            text, html, manual = generate()
    except Exception as exc:
        h.holds("complete", f"the reference is not generated: {harness.exc_text(exc)}", False)
        return h.done(bounds=[], outside=[])
    sec = sections(text)
    h.holds("complete", f"settings without exactly one entry in the reference: {[n for n in nodes if len(sec.get(n, [])) != 1][:5]}", all(len(sec.get(n, [])) == 1 for n in nodes))
    h.holds("complete", f"entries of the reference that are no settings: {[n for n in sec if n not in nodes][:5]}", all(n in nodes for n in sec))
    h.holds("placeholder", "the placeholder is left in the text", "{params::reference}" not in text)
    for c, t in html.items():
        if isinstance(docs[c], str) and docs[c].startswith("::"):
            n = docs[c].split("::")[1]
            h.holds("link", f"text for parameter {c}: {t[:200]}", (f"#{n}'" in t or f'#{n}"' in t) and c in t.replace(n, ""))
    for n, t in manual.items():
        h.holds("link", f"text for setting {n}: {t[:200]}", (f"#{n}'" in t or f'#{n}"' in t) and "title here" in t)
    with M.quiet():
        defaults = pc.load_params()

    def statements(n, texts, pcond):
        for m, where, patterns, form in forms():
            if m == n and (where != "reference" or n in sec):
                job(n, where, fields(form(*texts), patterns), pcond, form)

    def setting(n):
        if n not in numeric:
            return statements(n, (text, html, manual), [])
        paths = h.explore(lambda: go(n), consistency(n), label=n)
        h.holds("complete", f"{n}: no reference was generated", bool(paths))
        for res, exc, pcond, _ in paths:
            if exc is not None:
                h.rep.undecided(f"{n}: the reference is not generated: {harness.exc_text(exc)}")
            else:
                statements(n, res, pcond)

    def traced(t):
        """Printed text -> (symbol, rounding condition)."""
        e = T.get(t)
        if e is not None:
            sym, w, bound = e
            return w, ([] if bound is None else [_abs_le(S.sub(w, sym), bound[1], sym)])
        try:
            f = float(t)
        except (TypeError, ValueError):
            return None, []
        return (f, []) if abs(f) == INF else (const(F(f)), [])

    def job(n, where, got, pcond, form):
        d, what = nodes[n], f"{n} ({where})"
        asm = (consistency(n) if n in numeric else []) + list(pcond)
        h.holds("type", f"{what}: stated type {got.get('type')}, documented {d['type']}", got.get("type") == d["type"])
        h.holds("default", f"{what}: a default is stated", "default" in got)
        dv = get_nested(defaults, n.split("."))
        if n in numeric and not isinstance(dv, bool):
            w, rnd = traced(got.get("default"))
            if w is None or not isinstance(w, Sym):
                h.holds("default", f"{what}: stated default {got.get('default')!r}", False)
            else:
                x = S.var(f"default of {n}")
                h.prove("default", f"{what}: the stated default", asm + rnd, close(w, x), lambda env: real(n, env, form))
        else:
            stated = got.get("default")
            ok = stated == str(dv) or stated == "None" and not dv or stated == str(d.get("default"))
            h.holds("default", f"{what}: stated default {stated!r}, default {dv!r}", ok)
            if stated is not None and stated == str(d.get("default")) and stated != str(dv) and not isinstance(d.get("default"), (dict, list, type(None))):
                h.holds("default", f"{what}: stated default {stated!r}, default {dv!r}", False)
        if d["type"] in ("float", "int", "quantity", "enum") and "false" in got and where == "reference":
            def off():
                with M.quiet():
                    return accepts(n, False)
            for res, exc, _, _ in h.explore(off, label=what):
                can = exc is None and res is False
                h.holds("can be false", f"{what}: stated {got['false']}, but False is {'accepted' if can else 'rejected'}", can == (got["false"] == "True"))
        if d["type"] in ("float", "int"):
            v = S.var("v")
            if d["type"] == "int":
                asm = asm + [eq(S.fn("floor", v), v)]
            lo, r1 = traced(got.get("min", "-inf"))
            hi, r2 = traced(got.get("max", "inf"))
            if not h.holds("bounds", f"{what}: stated range {got.get('min')} to {got.get('max')}", lo is not None and hi is not None and lo != INF and hi != -INF):
                return
            inside = S.and_(*([le(lo, v)] if isinstance(lo, Sym) else []), *([le(v, hi)] if isinstance(hi, Sym) else []))
            away = S.and_(*[S.not_(close(v, b)) for b in (lo, hi) if isinstance(b, Sym) and (r1 or r2)])

            def parse():
                with tree([n]), VL.shims(parsers), M.quiet():
                    return accepts(n, v)
            done = h.explore(parse, asm, label=what)
            h.holds("bounds", f"{what}: no verdict", bool(done))
            for res, exc, pc2, _ in done:
                if isinstance(exc, S.NeedFloat):
                    h.no_answer("bounds", what, exc, lambda env: real(n, env, form), [{}])
                    continue
                if exc is not None and not isinstance(exc, ValueError):
                    h.rep.undecided(f"{what}: {harness.exc_text(exc)}")
                    continue
                goal = inside if exc is None else S.not_(inside)
                h.prove("bounds", f"{what}: {'accepted' if exc is None else 'rejected'} as stated", asm + list(pc2) + r1 + r2, S.implies(away, goal) if r1 or r2 else goal, lambda env: real(n, env, form))
        if d["type"] == "enum":
            numbers = all(isinstance(a, (int, float)) and not isinstance(a, bool) for a in d["values"])
            tok = S.var("v") if numbers else VL.Tok("text")

            def parse():
                with VL.shims(parsers), M.quiet():
                    return accepts(n, tok)
            stated = S.or_(*[S._lb(tok == (F(a) if numbers else a)) for a in got.get("allowed", [])]) if got.get("allowed") else S.bconst(False)
            for res, exc, pc2, _ in h.explore(parse, [], label=what):
                if exc is not None and not isinstance(exc, ValueError):
                    h.rep.undecided(f"{what}: {harness.exc_text(exc)}")
                    continue
                h.prove("allowed values", f"{what}: {'accepted' if exc is None else 'rejected'} as stated ({got.get('allowed')})", list(pc2), stated if exc is None else S.not_(stated))
        if d["type"] == "quantity" and h.holds("unit", f"{what}: stated unit {got.get('unit')}, documented {d['unit']}", got.get("unit") == d["unit"]):
            x = VL.magic_var(f"magnitude of {n}")
            unit = str(quant.unit(str(got.get("unit")), pyomo=False))  # the stated unit, with MIMOSA's unit names expanded

            def parse():
                with VL.shims(parsers), VL.symbolic_numerals(), M.quiet():
                    return accepts(n, f"{VL.numeral(x)} {unit}")
            for res, exc, pc2, _ in h.explore(parse, [], label=what):
                if exc is not None and not isinstance(exc, ValueError):
                    h.rep.undecided(f"{what}: {harness.exc_text(exc)}")
                    continue
                h.prove("unit", f"{what}: a quantity in the stated unit {got.get('unit')} is accepted", list(pc2), S.bconst(exc is None))

    def close(a, b):
        return S.or_(eq(a, b), _abs_le(S.sub(a, b), F(1, 10**5), b))

    h.rep.cov["statements"] = len(list(forms()))
    h.parallel(list(nodes), setting)
    return h.done(
        bounds=[f"{len(nodes)} settings; all values of each numeric setting, all bounds and defaults (default within the bounds); all texts for settings with allowed values; all magnitudes in the stated units"],
        outside=["the descriptions (free text) and usage examples", "regional parameters, which the reference does not cover"],
        assumptions=["a printed number is traced back to the value it was printed from; number formats round as documented"])
