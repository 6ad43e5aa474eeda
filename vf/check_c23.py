"""C23: a solve is reported as successful only if the solver says so."""
import os
import sys
from fractions import Fraction as F

import pyomo.environ as pe
from pyomo.common.numeric_types import RegisterNumericType
from pyomo.core.expr.visitor import identify_variables
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition

from . import configs, harness
from . import model as M
from . import sym as S
from . import values as VL
from .sym import Sym

REAL_TF = pe.TransformationFactory


class _TF:
    """The real transformation; remembers which constraints were active before the first one."""

    def __init__(self, name, world):
        self.t, self.world = REAL_TF(name), world

    def apply_to(self, m, **k):
        if self.world.get("before") is None:
            add_equalities(m)
            self.world["before"] = [(c, c.expr) for c in m.component_data_objects(pe.Constraint, active=True)]
        return self.t.apply_to(m, **k)

    def __getattr__(self, a):
        return getattr(self.t, a)


def add_equalities(m):
    """The model's own constraints x = y are few (none in most configurations): add some, in chains."""
    t = sorted(m.t)
    late = []
    for name in ("temperature", "consumption", "utility", "GDP_net", "yearly_welfare", "total_SLR", "investments"):
        comp = getattr(m, name, None)
        if comp is not None:
            late += [comp[i] for i in comp if (i[0] if isinstance(i, tuple) else i) == t[1] and not comp[i].fixed]
    m.vf_equal = pe.ConstraintList()
    for a, b in list(zip(late, late[1:]))[:6] + [(late[-1], late[-3])]:
        m.vf_equal.add(a == b)


class SolverCrash(Exception):
    pass


class Options(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k) from None

    def __setattr__(self, k, v):
        self[k] = v


def check(prop, tier):
    h = harness.Harness(prop, tier, "The real MIMOSA.solve is executed with a stand-in for the external solver that returns every status and termination condition and gives every variable the solver sees its own symbolic value; "
                        "the queries decide that every variable holds the solver's value afterwards and that every constraint the pre-processing removed holds again.")
    RegisterNumericType(Sym)
    import mimosa.mimosa as mm

    def build(c):
        p = M.small_params(regions=c["regions"], start=c["grid"]["start"], end=c["grid"]["end"], dt=c["grid"]["dt"])
        for k, v in c["overrides"].items():
            M.deep_update(p, k.split("."), v)
        world = {}
        sm = M.build(p, symbolic=False, patches={(mm, "TransformationFactory"): lambda n: _TF(n, world)})
        m = sm.m
        world["initial"] = {id(v): v.value for v in m.component_data_objects(pe.Var)}
        seen = {}
        for c2 in m.component_data_objects(pe.Constraint, active=True):
            for v in identify_variables(c2.body, include_fixed=False):
                seen[id(v)] = v
        for o in m.component_data_objects(pe.Objective, active=True):
            for v in identify_variables(o.expr, include_fixed=False):
                seen[id(v)] = v
        world["seen"] = list(seen.values())
        return sm, world

    def changed(world):
        return [(x, old) for x, old in world["before"] if x.expr is not old or not x.active]

    def pair(e):
        """x = y"""
        return type(e).__name__ == "EqualityExpression" and len(e.args) == 2 and all(hasattr(a, "is_variable_type") and a.is_variable_type() for a in e.args)

    def reset(sm, world):
        for v in sm.m.component_data_objects(pe.Var):
            v.set_value(world["initial"][id(v)], skip_validation=True)

    class Manager:
        """Local solver or remote solver manager."""

        def __init__(self, rec, name, kind):
            rec["created"].append((kind, name))
            self.rec, self.kind, self.options = rec, kind, Options()

        def available(self, *a, **k):
            return True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def solve(self, model, *a, **k):
            rec = self.rec
            rec["calls"].append({"kind": self.kind, "model": model, "args": a, "kwargs": dict(k), "options": {**self.options, **dict(k.get("options") or {})}, "email": os.environ.get("NEOS_EMAIL")})
            what = rec["outcomes"][min(len(rec["calls"]), len(rec["outcomes"])) - 1]
            if what == "crash":
                raise SolverCrash("no solver")
            for n, v in enumerate(rec["seen"]):
                v.set_value(rec["value"](n, v), skip_validation=True)
            r = SolverResults()
            r.solver.status, r.solver.termination_condition = what
            r.solver.message = "message"
            return r

    def solve(sm, world, outcomes, kw, value):
        """Run MIMOSA.solve once per outcome; returns what was observed after each."""
        reset(sm, world)
        rec = {"created": [], "calls": [], "outcomes": outcomes, "seen": world["seen"], "value": value}
        pairs = []
        for mod in [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "mimosa"] + [pe]:
            for attr, obj in list(vars(mod).items()):
                if obj is _SF:
                    pairs.append((mod, attr, lambda name, *a, **k: Manager(rec, name, "local")))
                elif obj is _SMF:
                    pairs.append((mod, attr, lambda name, *a, **k: Manager(rec, name, "manager")))
        obs = []
        email = os.environ.pop("NEOS_EMAIL", None)
        if world.get("email"):
            os.environ["NEOS_EMAIL"] = world["email"]
        try:
            from mimosa.common import logger
            pairs += [(logger, n, lambda *a, **k: None) for n in ("error", "warning", "info")]
            with M.quiet(), harness.patched(pairs):
                for _ in outcomes:
                    try:
                        sm.mimosa.solve(**kw)
                        err = None
                    except (S.Abort, S.NeedFloat, S.TooManyPaths):
                        raise
                    except Exception as e:  # noqa: BLE001
                        err = e
                    obs.append((err, sm.mimosa.status))
        finally:
            os.environ.pop("NEOS_EMAIL", None)
            if email is not None:
                os.environ["NEOS_EMAIL"] = email
        return obs, rec

    class After(M.SymModel):
        """Terms over the values the variables have now."""

        def var_sym(self, vd):
            v = vd.value
            return v if isinstance(v, Sym) else S.const(F(v)) if v is not None else S.var(f"no value: {vd.name}")

        use_fixed = False

    symbol = {}

    def value(n, v):
        if v.name not in symbol:
            symbol[v.name] = S.var(f"solution {v.name}")
        return symbol[v.name]

    def judge(label, obs, outcomes):
        for n, ((err, status), what) in enumerate(zip(obs, outcomes)):
            lab = f"{label}, solve {n + 1} of {[str(o) if isinstance(o, str) else o[0].value for o in outcomes]}"
            if what == "crash":
                h.holds("raises", f"{lab}: the solver crashed but solve() returned", err is not None)
                h.holds("status", f"{lab}: the solver crashed but the status is {status!r}", status != SolverStatus.ok)
                continue
            st, term = what
            if st == SolverStatus.ok:
                h.holds("no error", f"{lab} ({term}): raises {harness.exc_text(err) if err else ''} although the solver ended with status ok", err is None)
            else:
                h.holds("raises", f"{lab} ({term}): returns although the solver ended with status {st.value}", err is not None)
                if err is not None:
                    h.holds("raises", f"{lab} ({term}): {harness.exc_text(err)} instead of SolverException", isinstance(err, mm.SolverException))
            h.holds("status", f"{lab} ({term}): the recorded status is {status!r}", status == st)

    # ------------------------------------------------ variables the solver's values are restored to
    names = ("default", "trade", "transfer", "cost-pool", "percap-notrade", "single-region", "trade-budget-2100", "nodamage-globalcosts", "equal-total")
    todo = [c for c in configs.QUICK if c["symgrid"] is None and c["conv"] != "sym" and (h.thorough or c["name"] in names)]
    todo.append(configs.cfg("two regions", regions=("USA", "CAN")))
    SMALL = None
    merged_total = 0
    for c in todo:
        try:
            sm, world = build(c)
        except Exception as e:  # noqa: BLE001
            h.rep.undecided(f"{c['name']}: {harness.exc_text(e)}")
            continue
        if c["name"] == "two regions":
            SMALL = (sm, world)

        def real(env, sm=sm, world=world):
            """Plain numbers: every variable the solver sees gets its own number."""
            obs, _ = solve(sm, world, [(SolverStatus.ok, TerminationCondition.optimal)], {}, lambda n, v: float(env.get(f"solution {v.name}", 1 + n * 0.01)))
            if obs[0][0] is not None:
                return f"raises {harness.exc_text(obs[0][0])}"
            for n, v in enumerate(world["seen"]):
                want = float(env.get(f"solution {v.name}", 1 + n * 0.01))
                if v.value is None or abs(v.value - want) > 1e-9:
                    return f"{v.name} is {v.value} after the solve, the solver's value is {want}"
            for x, old in changed(world):
                vs = list(identify_variables(old))
                if any(v.value is None for v in vs):
                    return f"a variable of {x.name} has no value after the solve"
                if pair(old):
                    if abs(vs[0].value - vs[1].value) > 1e-9:
                        return f"{x.name}, replaced before the solve, does not hold afterwards: {vs[0].name} = {vs[0].value}, {vs[1].name} = {vs[1].value}"
            return None

        for (obs, rec), exc, pc, _ in [x if x[1] is None else ((None, None),) + x[1:] for x in h.explore(lambda: solve(sm, world, [(SolverStatus.ok, TerminationCondition.optimal)], {}, value), label=c["name"])]:
            if isinstance(exc, S.NeedFloat):
                h.no_answer("restored", c["name"], exc, real, [{}])
                continue
            if exc is not None:
                h.holds("no error", f"{c['name']}: {harness.exc_text(exc)}", False)
                continue
            judge(c["name"], obs, [(SolverStatus.ok, TerminationCondition.optimal)])
            h.holds("solved", f"{c['name']}: {len(rec['calls'])} solver calls", len(rec["calls"]) == 1 and rec["calls"][0]["model"] is sm.m)
            after = After(sm.mimosa, sm.params, {})
            # a: what the solver saw keeps the solver's value
            for v in world["seen"]:
                h.prove("kept", f"{c['name']}: {v.name} holds the solver's value", pc, S.eq(after.var_sym(v), symbol[v.name]), real)
            # b: everything has a value, and constraints removed before the solve hold again
            top = [v for v in sm.m.component_data_objects(pe.Var) if v.parent_block() is sm.m and not v.parent_component().name.startswith("_")]
            for v in top:
                if v.value is None:
                    h.prove("restored", f"{c['name']}: {v.name} has no value", pc, S.bconst(False), real)
            for x, old in sorted(changed(world), key=lambda q: not pair(q[1])):
                vs = list(identify_variables(old, include_fixed=True))
                if any(v.value is None for v in vs):
                    continue
                if pair(old):
                    merged_total += 1
                    h.prove("restored", f"{c['name']}: {x.name} ({vs[0].name} = {vs[1].name}), replaced by the pre-processing, holds", pc, after.relation(old), real)
                elif "restored" not in h.failed_keys and x.active:
                    f, g = after.relation(old), after.relation(x.expr)
                    h.prove("restored", f"{c['name']}: {x.name} means the same with the restored variables", pc, S.and_(S.implies(f, g), S.implies(g, f)), real)
    if not merged_total and not h.rep.violations:
        h.rep.undecided("no variable was merged in any configuration: nothing to restore")

    # ------------------------------------------------ status handling: every status and termination condition, sequences of solves
    sm, world = SMALL if SMALL else build(configs.cfg("two regions", regions=("USA", "CAN")))
    statuses = list(SolverStatus)
    terms = list(TerminationCondition)

    def one():
        w = (S.choose(statuses, "status"), S.choose(terms, "termination condition"))
        return w, solve(sm, world, [w], {}, value)
    for o, exc, _, ch in h.explore(one, label="status"):
        if exc is not None:
            h.holds("status", f"{ch}: {harness.exc_text(exc)}", False)
            continue
        w, (obs, _) = o
        judge("status", obs, [w])
    outcomes = [(SolverStatus.ok, TerminationCondition.optimal), (SolverStatus.warning, TerminationCondition.maxIterations), (SolverStatus.warning, TerminationCondition.infeasible),
                (SolverStatus.error, TerminationCondition.error), (SolverStatus.aborted, TerminationCondition.userInterrupt), (SolverStatus.unknown, TerminationCondition.unknown), "crash"]

    def history():
        w = [S.choose(outcomes, f"outcome {k}") for k in range(3 if h.thorough else 2)]
        return w, solve(sm, world, w, {}, value)
    for o, exc, _, ch in h.explore(history, label="history"):
        if exc is not None:
            h.holds("status", f"{ch}: {harness.exc_text(exc)}", False)
            continue
        w, (obs, _) = o
        judge("history", obs, w)

    # ------------------------------------------------ options
    it, halt, out = S.var("ipopt_maxiter"), VL.Tok("halt_on_ampl_error"), f"runs/first/{VL.marker('file name')}.log"
    MAIL = VL.marker("address")

    def opts():
        kw = {}
        verbose = S.choose([True, False, None], "verbose")
        if verbose is not None:
            kw["verbose"] = verbose
        for name, v in (("ipopt_maxiter", it), ("halt_on_ampl_error", halt), ("ipopt_output_file", out)):
            if S.choose([True, False], name):
                kw[name] = v
        neos = S.choose([False, True], "neos")
        if neos:
            kw.update(use_neos=True, neos_email=MAIL)
            world["email"] = S.choose([None, "earlier address"], "environment")
        w = S.choose(outcomes[:2], "outcome")
        return kw, w, solve(sm, world, [w], kw, value)
    rng = [S.le(S.const(0), it)]

    def real_opts(kw):
        def go(env):
            n = int(env.get("ipopt_maxiter", 7))
            k2 = {k: (n if k == "ipopt_maxiter" else "yes" if k == "halt_on_ampl_error" else "some file.txt" if k == "ipopt_output_file" else v) for k, v in kw.items()}
            _, rec = solve(sm, world, [outcomes[0]], k2, lambda n2, v: 1.0)
            o = rec["calls"][0]["options"] if rec["calls"] else {}
            want = {a: k2[b] for a, b in (("max_iter", "ipopt_maxiter"), ("halt_on_ampl_error", "halt_on_ampl_error"), ("output_file", "ipopt_output_file")) if b in k2}
            for a, v in want.items():
                if o.get(a) != v:
                    return f"solve({k2}) passes {a}={o.get(a)!r} to the solver"
            return None
        return go
    for o, exc, pc, ch in h.explore(opts, rng, label="options"):
        if isinstance(exc, S.NeedFloat):
            h.no_answer("options", f"{ch}", exc, real_opts({"ipopt_maxiter": it, "halt_on_ampl_error": halt, "ipopt_output_file": out}), [{"ipopt_maxiter": F(0)}, {"ipopt_maxiter": F(5000)}])
            continue
        if exc is not None:
            h.holds("options", f"{ch}: {harness.exc_text(exc)}", False)
            continue
        kw, w, (obs, rec) = o
        judge(f"options {sorted(kw)}", obs, [w])
        if not h.holds("options", f"{sorted(kw)}: {len(rec['calls'])} solver calls", len(rec["calls"]) == 1):
            continue
        call = rec["calls"][0]
        got = call["options"]
        h.holds("options", f"{sorted(kw)}: another model was solved", call["model"] is sm.m)
        if kw.get("use_neos"):
            h.holds("options", f"NEOS: solved with {rec['created']}", call["kind"] == "manager" and ("manager", "neos") in rec["created"])
            h.holds("options", f"NEOS: the address is {call['email']!r}", call["email"] == MAIL)
            continue
        h.holds("options", f"local: solved with {rec['created']}", call["kind"] == "local" and [n for k, n in rec["created"] if k == "local"] == ["ipopt"] and not any(k == "manager" for k, _ in rec["created"]))
        h.holds("options", f"{sorted(kw)}: tee is {call['kwargs'].get('tee')!r}", call["kwargs"].get("tee", False) is kw.get("verbose", True))
        names = {"max_iter": "ipopt_maxiter", "output_file": "ipopt_output_file"}
        for opt, arg in names.items():
            if arg not in kw:
                h.holds("options", f"{sorted(kw)}: {opt} is passed on as {got.get(opt)!r} although not requested", opt not in got)
            elif opt not in got:
                h.prove("options", f"{sorted(kw)}: {opt} is not passed on", rng + list(pc), S.bconst(False), real_opts(kw))
            elif opt == "max_iter":
                v = S.lift(got[opt])
                h.prove("options", f"{sorted(kw)}: the iteration limit", rng + list(pc), S.eq(v, it) if v is not None else S.bconst(False), real_opts(kw))
            else:
                h.holds("options", f"{sorted(kw)}: {opt} is passed on as {got[opt]!r}", False) if not isinstance(got[opt], str) else h.prove_texts([("options", f"{sorted(kw)}: {opt}", got[opt], kw[arg])])
        h.holds("options", f"{sorted(kw)}: halt_on_ampl_error is passed on as {got.get('halt_on_ampl_error')!r}", str.__str__(str(got.get("halt_on_ampl_error"))) == (str.__str__(str(halt)) if "halt_on_ampl_error" in kw else "no"))
        extra = set(got) - {"max_iter", "output_file", "halt_on_ampl_error"}
        h.holds("options", f"{sorted(kw)}: options {sorted(extra)} were not requested", not extra)
    return h.done(
        bounds=[f"{len(todo)} configurations; every value of every variable the solver sees", f"{len(statuses)} statuses x {len(terms)} termination conditions, sequences of {3 if h.thorough else 2} solves with {len(outcomes)} outcomes (a crash of the solver among them)",
                "any iteration limit >= 0, any output file, any halt_on_ampl_error text, local and remote"],
        outside=["options for NEOS", "whether Ipopt itself is right"],
        assumptions=["the solver gives a value to every free variable of the active constraints and the objective, to no other", "Pyomo's transformations (their real code is executed)"])


_SF, _SMF = pe.SolverFactory, pe.SolverManagerFactory
