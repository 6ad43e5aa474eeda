import importlib
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODEL = {f"C{i:02d}" for i in range(1, 12)}

_T = "symbolic execution of the real model construction + z3 entailment queries against the documented equations (both directions)"
_N = ("For every listed structural configuration, all values of parameters, data and variables are covered by the solver (bounded in periods and regions). "
      "Assumes real arithmetic, sound axioms for exp/log/power/arctan, z3 and the Pyomo-expression translation; counterexamples are replayed on the concretely built model.")
CHECKS = {p: (_T, _N) for p in sorted(MODEL)}
_H = "path exploration of the real functions on symbolic inputs + z3 queries against the documented behaviour on every path"
_HN = ("All real numbers, all texts and all listed structural choices within the bounds in the evidence; assumes real arithmetic, z3 and the symbolic value types of vf/; "
       "counterexamples are replayed on the real code with plain values.")
CHECKS.update({p: (_H, _HN) for p in ("C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31")})
NOT_APPLICABLE = {}


def title(prop):
    path = os.path.join(ROOT, "properties.jsonl")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            d = json.loads(line)
            if d["id"] == prop:
                return d["title"]
    return prop


def run(prop, tier):
    if prop in MODEL:
        from . import check_model

        return check_model.check(prop, tier, title(prop), [])
    if prop in CHECKS:
        return importlib.import_module(f"vf.check_{prop.lower()}").check(prop, tier)
    raise SystemExit(f"unknown property {prop}")
