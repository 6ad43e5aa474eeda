"""Decide equivalence of the built model with the documented equations.

(a) every documented equation is entailed by the model's constraints: in *every* point that
    satisfies the model, for every parameter value, the documented relation holds;
(b) every model constraint is entailed by the documented system: nothing is imposed that the
    documentation does not ask for.
Each is an SMT query `slice and domain and not goal`; unsat = holds for all real values.
A satisfiable answer is turned into numbers and replayed on the concretely built model.
"""
from __future__ import annotations

import copy
import math
import re
import time
from fractions import Fraction

import pyomo.environ as pe

from . import model as M
from . import smt
from . import sym as S
from .spec import Eq, Spec
from .sym import Sym, SymBool, const, eq, le, lt, var

# ------------------------------------------------------------------ domains of the inputs

POSITIVE = ("population", "GDP", "economics.MAC.gamma", "economics.MAC.beta", "economics.MAC.LBD_scaling",
            "economics.init_capital_factor", "MAC.", "temperature.TCRE", "economics.GDP.savings rate",
            "economics.MAC.LBD_rate")
OPEN01 = ("economics.GDP.alpha", "economics.GDP.depreciation of capital", "economics.GDP.savings rate", "economics.MAC.LBD_rate")


def domain(name):
    """What is assumed about an input symbol (stated in the evidence)."""
    base = name.split("[")[0]
    x = var(name)
    out = []
    if base in OPEN01:
        return [lt(const(0), x), lt(x, const(1))]
    if base.startswith("MAC.") or base in POSITIVE:
        out.append(lt(const(0), x))
    if base == "economics.MAC.LOT_rate":
        out.append(le(const(0), x))
    return out


DOMAIN_TEXT = ("population, GDP, capital factor, MAC gamma/beta/kappa, LBD scaling, TCRE > 0; alpha, depreciation, savings rate, "
               "LBD rate in (0,1); LOT rate >= 0; every documented denominator is non-zero; everything else any real")


class Ent:
    """One configuration: the model, its documented system and the decision procedure."""

    def __init__(self, params, label, spec_kw=None, build_kw=None, conv_year=False, extra_assume=(), grid=None, sources=None):
        self.params, self.label = params, label
        self.build_kw = build_kw or {}
        self.conv_year = conv_year
        self.extra = [S._lb(x) for x in extra_assume]
        self.sm = M.build(params, **self.build_kw)
        p = params["time"]
        if grid is None:
            start, dt = p["start"], p["dt"]
            n = math.ceil((p["end"] - start) / dt) + 1
        else:
            start, dt, n = grid
        self.start, self.dt, self.n = start, dt, n
        self.regions = list(params["regions"])
        self.spec = Spec(self.sm, start, dt, n, self.regions, damage_forms(self.sm, params))
        self.spec.conv_year = conv_year
        self.spec_args = (start, dt, n)
        self.eqs = self.spec.all()
        self.cons = [(nm, ix, c) for nm, ix, c in self.sm.constraints()]
        self.modelvars = set()
        for v in self.sm.m.component_objects(pe.Var, descend_into=True):
            for ix in v:
                self.modelvars.add(v.name + M.idx_str(ix if v.is_indexed() else None))
        self.headrank = {}
        self._conc = None

    def mv(self, f):
        return S.variables(f) & self.modelvars

    # ------------------------------------------------------------- slices
    def slices(self, goal, pool, maxlevel=4):
        """Growing sets of formulas from pool (list of SymBool)."""
        V = set(self.mv(goal))
        info = [(f, vs) for f, vs in ((f, self.mv(f)) for f in pool) if vs]
        used = None
        for level in range(maxlevel + 1):
            if level > 0:
                # one more definition step: equalities with exactly one new variable
                new = set()
                for f, vs in info:
                    if f.op == "eq" and len(vs - V) == 1 and (vs & V):
                        new |= vs - V
                if not new:
                    # one hop: everything sharing a variable
                    for f, vs in info:
                        if vs & V and len(vs - V) <= 6 * level:
                            new |= vs - V
                if not new and used is not None:
                    return
                V |= new
            cur = [f for f, vs in info if vs <= V]
            key = frozenset(f.id for f in cur)
            if key != used:
                used = key
                yield level, cur

    def assume(self, fs):
        names = set()
        for f in fs:
            names |= S.variables(f)
        out = []
        for n in sorted(names - self.modelvars):
            out += domain(n)
        return out + self.extra

    def still_refuted(self, goal, pool, cur):
        """False if more of the pool than the slice that refutes the goal entails it after all."""
        goal = S._lb(goal)
        have, t0 = len(cur), time.time()
        for _, more in self.slices(goal, pool, 8):
            more = [c for c in more if not any(v.startswith("NaN!") for v in S.variables(c))]
            if len(more) <= have:
                continue
            have = len(more)
            for snap in (None, 10):
                if smt.prove(self.assume(more + [goal]) + more, goal, timeout=6000, **({"snap": snap} if snap else {})).status == "unsat":
                    return False
            if have > 4000 or time.time() - t0 > 40:
                break
        return True

    def decide(self, goal, pool, timeout=3000, maxlevel=3):
        """('holds', info) or ('fails', slice, result) or ('unknown', slice, result)"""
        goal = S._lb(goal)
        last = None
        poison = [v for v in S.variables(goal) if v.startswith(("NaN!", "Inf!"))]
        if poison:
            return "poison", [], poison
        sat = None
        deadline = time.time() + 3 * timeout / 1000
        for level, cur in self.slices(goal, pool, maxlevel):
            cur = [c for c in cur if not any(v.startswith("NaN!") for v in S.variables(c))]
            if last is not None and (len(cur) > 30 * max(5, len(self.regions)) or time.time() > deadline):
                break
            tmo = timeout if level == 0 else timeout // 2
            pre = self.assume(cur + [goal]) + cur
            r = smt.prove(pre, goal, timeout=tmo)
            if r.status == "unsat":
                return "holds", cur, "exact"
            if r.status == "sat" and sat is None:
                sat = (cur, r)
            # constants agree only up to the last digits of their decimal representation
            for digits in (12, 10) if level == 0 else (10,):
                r2 = smt.prove(pre, goal, timeout=tmo, snap=digits)
                if r2.status == "unsat":
                    return "holds", cur, f"constants rounded to {digits} digits"
            for f in cur if level == 0 else ():
                if smt.approx_same(f, goal):
                    return "holds", [f], "coefficients equal to 9 digits"
            last = (cur, r)
        if sat is not None:
            return "fails", sat[0], sat[1]
        return "unknown", last[0] if last else [], last[1] if last else None


def damage_forms(sm, params):
    """The functional form each region is documented to use (data file, overridden by config)."""
    out = {}
    p = sm.params
    if p["model"]["damage module"] == "nodamage":
        return out
    d = p["economics"]["damages"]
    ad = "Ad" if d["coacch_slr_withadapt"] else "NoAd"
    store = M.regional_params.RegionalParamStore(p, sm.mimosa.param_parser_tree)
    for r in p["regions"]:
        for k, col in (("slr", f"SLR-{ad}_form"), ("noslr", "NoSLR_form")):
            out[(k, r)] = str(store.getregional("COACCH", col, r))
    return out
