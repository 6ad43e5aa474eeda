"""The documented equations of MIMOSA, as formulas over symbolic variables.

Written from the documentation (docs/, docstrings' LaTeX, config_default.yaml
descriptions), not from the rules.  Every entry is `Eq(prop, label, formula, head)`:
`prop` the owning property, `head` the variable the documented equation defines (or None
for a restriction), `required` False for numerical guard bounds which the model may impose
but need not.
"""
from __future__ import annotations

from dataclasses import dataclass
from typing import Optional

from . import sym as S
from .sym import Sym, const, eq, ite, implies, le, lt, var


@dataclass
class Eq:
    prop: str
    label: str
    f: object
    head: Optional[str] = None
    required: bool = True


def ssum(xs):
    xs = list(xs)
    r = const(0)
    for x in xs:
        r = r + x
    return r


class Spec:
    def __init__(self, sm, start, dt, n, regions, forms=None):
        """sm: SymModel (used for its configuration and for parameters calibrated at construction,
        whose own definition is checked by the property owning them)."""
        self.sm = sm
        self.c = sm.params
        self.start, self.dt, self.n, self.R = S.lift(start), S.lift(dt), n, list(regions)
        self.T = range(n)
        self.forms = forms or {}
        self.out = []
        from mimosa.common import soft_min, soft_max

        self._soft_min, self._soft_max = soft_min, soft_max

    # --- vocabulary
    def year(self, t):
        return self.start + self.dt * t

    def V(self, name, *idx):
        comp = getattr(self.sm.m, name)
        import pyomo.environ as pe

        if isinstance(comp, pe.Param):  # constant in this module variant (e.g. notrade)
            return self.sm.param(name, *idx)
        return var(name + "[" + ",".join(str(i) for i in idx) + "]")

    def P(self, canon, *idx):
        """Symbol of a configuration / data value."""
        return var(canon + ("[" + ",".join(str(i) for i in idx) + "]" if idx else ""))

    def add(self, prop, label, f, head=None, required=True):
        self.out.append(Eq(prop, label, S._lb(f), head, required))

    def cfg(self, *keys):
        d = self.c
        for k in keys:
            d = d[k]
        return d

    def soft_min(self, x, scale=1.0):
        return self._soft_min(x, scale=scale)

    def soft_max(self, x, maxval, scale=1.0):
        return self._soft_max(x, maxval, scale=scale)

    # --- data
    def pop(self, t, r):
        return self.P("population", t, r)

    def gdp0(self, t, r):
        return self.P("GDP", t, r)

    def em0(self, t, r):
        return self.P("emissions", t, r)

    def cum_baseline(self, t, r):
        """trapezoidal integral of the baseline emissions from the start year"""
        return ssum(self.dt * (self.em0(s, r) + self.em0(s - 1, r)) / 2 for s in range(1, t + 1))

    def cum_global_baseline(self, t):
        return ssum(self.cum_baseline(t, r) for r in self.R)

    # ------------------------------------------------------------------ all
    def all(self):
        self.emissions()
        self.climate()
        self.limits()
        self.mitigation()
        self.trade()
        self.transfers()
        self.effort()
        self.economy()
        self.calibration()
        self.damages()
        self.welfare()
        return self.out

    # ------------------------------------------------------------------ C01
    def emissions(self):
        V, add = self.V, lambda *a, **k: self.add("C01", *a, **k)
        inten = self.cfg("emissions", "baseline carbon intensity")
        trapz = self.cfg("emissions", "cumulative_emissions_trapz")
        for t in self.T:
            for r in self.R:
                b = V("baseline", t, r)
                if inten:
                    f = eq(b, self.em0(t, r) / self.gdp0(t, r) * V("GDP_net", t, r))
                else:
                    f = eq(b, self.em0(t, r))
                add(f"baseline emissions[{t},{r}]", f, f"baseline[{t},{r}]")
                e = V("regional_emissions", t, r)
                if t == 0:
                    add(f"initial regional emissions[{r}]", eq(e, self.em0(0, r)), f"regional_emissions[0,{r}]")
                else:
                    base = b if inten else self.em0(t, r)
                    add(f"regional emissions[{t},{r}]", eq(e, (1 - V("relative_abatement", t, r)) * base), f"regional_emissions[{t},{r}]")
                add(f"emission reduction[{t},{r}]", eq(V("regional_emission_reduction", t, r), b - e), f"regional_emission_reduction[{t},{r}]")
            g = V("global_emissions", t)
            if t == 0:
                add("initial global emissions", eq(g, ssum(self.em0(0, r) for r in self.R)), "global_emissions[0]")
            else:
                add(f"global emissions[{t}]", eq(g, ssum(V("regional_emissions", t, r) for r in self.R)), f"global_emissions[{t}]")
            c = V("cumulative_emissions", t)
            if t == 0:
                add("initial cumulative emissions", eq(c, const(0)), "cumulative_emissions[0]")
                add("initial relative cumulative emissions", eq(V("emission_relative_cumulative", 0), const(1)), "emission_relative_cumulative[0]")
            else:
                gp = V("global_emissions", t - 1)
                inc = self.dt * (g + gp) / 2 if trapz else self.dt * g
                add(f"cumulative emissions[{t}]", eq(c, V("cumulative_emissions", t - 1) + inc), f"cumulative_emissions[{t}]")
                add(f"relative cumulative emissions[{t}]", eq(V("emission_relative_cumulative", t), c / self.cum_global_baseline(t)), f"emission_relative_cumulative[{t}]")

    # ------------------------------------------------------------------ C02
    def climate(self):
        V, add, P = self.V, lambda *a, **k: self.add("C02", *a, **k), self.P
        T0, tcre = P("temperature.initial"), P("temperature.TCRE")
        a, equil, init = const(0.024076141150722), const(0.5), const(0.0920666936642)
        for t in self.T:
            temp = V("temperature", t)
            add(f"temperature[{t}]", eq(temp, T0 + tcre * V("cumulative_emissions", t)), f"temperature[{t}]")
            if t == 0:
                add("initial temperature", eq(temp, T0), "temperature[0]")
                add("initial thermal SLR", eq(V("slr_thermal", 0), init + a * (T0 * equil - init)), "slr_thermal[0]")
                add("initial GSIC SLR", eq(V("slr_cumgsic", 0), const(0.015)), "slr_cumgsic[0]")
                add("initial GIS SLR", eq(V("slr_cumgis", 0), const(0.006)), "slr_cumgis[0]")
            else:
                tp = V("temperature", t - 1)
                sp = V("slr_thermal", t - 1)
                add(f"thermal SLR[{t}]", eq(V("slr_thermal", t), sp * (1 - a) ** (self.dt / 10) + tp * a * (self.dt / 10) * equil), f"slr_thermal[{t}]")
                gp = V("slr_cumgsic", t - 1)
                add(f"GSIC SLR[{t}]", eq(V("slr_cumgsic", t), gp + const(0.0008) * self.dt * (const(0.26) - gp) / const(0.26) * (tp + 1)), f"slr_cumgsic[{t}]")
                ip = V("slr_cumgis", t - 1)
                add(f"GIS SLR[{t}]", eq(V("slr_cumgis", t), ip + self.dt / 10 / 100 * (const(1.11860082) * tp + const(0.6)) * (1 - ip / const(7.3))), f"slr_cumgis[{t}]")
            add(f"total SLR[{t}]", eq(V("total_SLR", t), V("slr_thermal", t) + V("slr_cumgsic", t) + V("slr_cumgis", t)), f"total_SLR[{t}]")
            for n in ("slr_thermal", "slr_cumgsic", "slr_cumgis", "total_SLR"):
                add(f"{n} non-negative[{t}]", le(const(0), V(n, t)), None, required=False)

    # ------------------------------------------------------------------ C03
    def limits(self):
        V, add, P = self.V, lambda *a, **k: self.add("C03", *a, **k), self.P
        e = self.c["emissions"]
        y2100 = const(2100)
        budget = e["carbonbudget"] is not False
        for t in self.T:
            late = le(y2100, self.year(t))
            g, c = V("global_emissions", t), V("cumulative_emissions", t)
            if budget:
                add(f"carbon budget[{t}]", implies(late, le(c, P("emissions.carbonbudget"))))
                if e["not positive after budget year"]:
                    add(f"net zero from 2100[{t}]", implies(late, le(g, const(0))))
            if self.c["temperature"]["target"] is not False:
                add(f"temperature target[{t}]", implies(late, le(V("temperature", t), P("temperature.target"))))
            add(f"cumulative emissions non-negative[{t}]", le(const(0), c))
            if e["global min level"] is not False:
                add(f"global minimum level[{t}]", le(P("emissions.global min level"), g))
            if e["inertia"]["global"] is not False and t > 0:
                add(f"global inertia[{t}]", le(self.dt * P("emissions.inertia.global") * ssum(self.em0(0, r) for r in self.R), g - V("global_emissions", t - 1)))
            for r in self.R:
                x = V("regional_emissions", t, r)
                if e["regional min level"] is not False:
                    add(f"regional minimum level[{t},{r}]", le(P("emissions.regional min level"), x))
                if t > 0:
                    xp = V("regional_emissions", t - 1, r)
                    if e["inertia"]["regional"] is not False:
                        add(f"regional inertia[{t},{r}]", le(self.dt * P("emissions.inertia.regional") * self.em0(0, r), x - xp))
                    if e["non increasing emissions after 2100"]:
                        add(f"non-increasing after 2100[{t},{r}]", implies(lt(y2100, self.year(t - 1)), le(x, xp)))
                a = V("relative_abatement", t, r)
                add(f"abatement non-negative[{t},{r}]", le(const(0), a))
                add(f"abatement cap[{t},{r}]", le(a, const(2.5)), required=False)

    # ------------------------------------------------------------------ C04
    def mac_factor(self, t, r):
        kappa = "MAC." + self.cfg("economics", "MAC", "regional calibration factor")
        return self.P(kappa, r) * self.V("learning_factor", t) * self.P("economics.MAC.gamma")

    def area(self, t, r):
        beta = self.P("economics.MAC.beta")
        a = self.V("relative_abatement", t, r)
        return self.mac_factor(t, r) * a ** (beta + 1) / (beta + 1) * self.V("baseline", t, r)

    def mitigation(self):
        V, add, P = self.V, lambda *a, **k: self.add("C04", *a, **k), self.P
        for t in self.T:
            cum = self.cum_global_baseline(t) - V("cumulative_emissions", t)
            add(f"learning by doing[{t}]", eq(V("LBD_factor", t), self.soft_min(cum / P("economics.MAC.LBD_scaling") + 1)
                ** (S.fn("log", P("economics.MAC.LBD_rate")) / S.fn("log", const(2)))), f"LBD_factor[{t}]")
            add(f"learning over time[{t}]", eq(V("LOT_factor", t), 1 / (1 + P("economics.MAC.LOT_rate")) ** t), f"LOT_factor[{t}]")
            add(f"learning factor[{t}]", eq(V("learning_factor", t), V("LBD_factor", t) * V("LOT_factor", t)), f"learning_factor[{t}]")
            mc = ssum(V("mitigation_costs", t, r) for r in self.R)
            red = ssum(V("regional_emission_reduction", t, r) for r in self.R)
            add(f"global relative costs[{t}]", eq(V("global_rel_mitigation_costs", t), mc / ssum(V("GDP_gross", t, r) for r in self.R)), f"global_rel_mitigation_costs[{t}]")
            if t > 0:
                add(f"reduction per cost[{t}]", eq(V("global_emission_reduction_per_cost_unit", t), red / self.soft_min(mc)), f"global_emission_reduction_per_cost_unit[{t}]")
                add(f"cost per reduction[{t}]", eq(V("global_cost_per_emission_reduction_unit", t), mc / self.soft_min(red)), f"global_cost_per_emission_reduction_unit[{t}]")
            for r in self.R:
                p = V("carbonprice", t, r)
                add(f"carbon price = MAC[{t},{r}]", eq(p, self.mac_factor(t, r) * V("relative_abatement", t, r) ** P("economics.MAC.beta")), f"carbonprice[{t},{r}]")
                if t == 0:
                    add(f"initial carbon price[{r}]", eq(p, const(0)), f"carbonprice[0,{r}]")
                add(f"carbon price non-negative[{t},{r}]", le(const(0), p), required=False)
                add(f"carbon price cap[{t},{r}]", le(p, 2 * P("economics.MAC.gamma")), required=False)
                add(f"area under MAC[{t},{r}]", eq(V("area_under_MAC", t, r), self.area(t, r)), f"area_under_MAC[{t},{r}]")
                add(f"mitigation costs[{t},{r}]", eq(V("mitigation_costs", t, r), self.area(t, r) + V("import_export_mitigation_cost_balance", t, r)), f"mitigation_costs[{t},{r}]")
                rel = V("rel_mitigation_costs", t, r)
                add(f"relative mitigation costs[{t},{r}]", eq(rel, V("mitigation_costs", t, r) / V("GDP_gross", t, r)), f"rel_mitigation_costs[{t},{r}]")
                add(f"minimum relative costs[{t},{r}]", le(P("economics.MAC.rel_mitigation_costs_min_level") if t > 0 else const(0), rel))

    # ------------------------------------------------------------------ C05
    def trade(self):
        V, add, P = self.V, lambda *a, **k: self.add("C05", *a, **k), self.P
        mod = self.cfg("model", "emissiontrade module")
        for t in self.T:
            if mod == "notrade":
                for r in self.R:
                    add(f"no money balance[{t},{r}]", eq(V("import_export_mitigation_cost_balance", t, r), const(0)))
                    add(f"no emission balance[{t},{r}]", eq(V("import_export_emission_reduction_balance", t, r), const(0)))
                    add(f"costs are own area[{t},{r}]", eq(V("mitigation_costs", t, r), self.area(t, r)), f"mitigation_costs[{t},{r}]")
                continue
            bal = lambda r: V("import_export_mitigation_cost_balance", t, r)
            add(f"money balance sums to zero[{t}]", eq(ssum(bal(r) for r in self.R), const(0)))
            add(f"costs conserve area[{t}]", eq(ssum(V("mitigation_costs", t, r) for r in self.R), ssum(V("area_under_MAC", t, r) for r in self.R)))
            if mod == "emissiontrade":
                gp = V("global_carbonprice", t)
                add(f"global carbon price[{t}]", eq(gp, ssum(V("carbonprice", t, r) * self.pop(t, r) for r in self.R) / ssum(self.pop(t, r) for r in self.R)), f"global_carbonprice[{t}]")
                if t > 0:
                    for r in self.R:
                        eb = V("import_export_emission_reduction_balance", t, r)
                        add(f"emission balance[{t},{r}]", eq(eb, bal(r) / self.soft_min(gp)), f"import_export_emission_reduction_balance[{t},{r}]")
                        paid = V("paid_for_emission_reductions", t, r)
                        add(f"paid-for reductions[{t},{r}]", eq(paid, V("regional_emission_reduction", t, r) + eb), f"paid_for_emission_reductions[{t},{r}]")
                        add(f"allowances[{t},{r}]", eq(V("regional_emission_allowances", t, r), V("baseline", t, r) - paid), f"regional_emission_allowances[{t},{r}]")
                    add(f"emission balance sums to zero[{t}]", eq(ssum(V("import_export_emission_reduction_balance", t, r) for r in self.R), const(0)))
            else:
                if t > 0:
                    for r in self.R:
                        paid = V("paid_for_emission_reductions", t, r)
                        add(f"paid-for reductions[{t},{r}]", eq(paid, V("mitigation_costs", t, r) * V("global_emission_reduction_per_cost_unit", t)), f"paid_for_emission_reductions[{t},{r}]")
                        add(f"emission balance[{t},{r}]", eq(V("import_export_emission_reduction_balance", t, r), paid - V("regional_emission_reduction", t, r)), f"import_export_emission_reduction_balance[{t},{r}]")
                        add(f"allowances[{t},{r}]", eq(V("regional_emission_allowances", t, r), V("baseline", t, r) - paid), f"regional_emission_allowances[{t},{r}]")
                for r in self.R:
                    add(f"money balance[{t},{r}]", eq(bal(r), V("mitigation_costs", t, r) - V("area_under_MAC", t, r)))
                    add(f"area non-negative[{t},{r}]", le(const(0), V("area_under_MAC", t, r)), required=False)

    # ------------------------------------------------------------------ C06
    def transfers(self):
        V, add = self.V, lambda *a, **k: self.add("C06", *a, **k)
        mod = self.cfg("model", "financialtransfer module")
        for t in self.T:
            ft = lambda r: V("financial_transfer", t, r)
            rel = lambda r: V("rel_financial_transfer", t, r)
            if mod == "notransfer":
                for r in self.R:
                    add(f"no transfer[{t},{r}]", eq(ft(r), const(0)))
                    add(f"no relative transfer[{t},{r}]", eq(rel(r), const(0)))
                continue
            add(f"transfers sum to zero[{t}]", eq(ssum(ft(r) for r in self.R), const(0)))
            for r in self.R:
                if t == 0:
                    add(f"no transfer in first period[{r}]", eq(ft(r), const(0)), f"financial_transfer[0,{r}]")
                add(f"receipts capped by damages[{t},{r}]", le(-(V("damage_costs", t, r) * V("GDP_gross", t, r)), ft(r)))
                add(f"relative transfer[{t},{r}]", eq(rel(r) * V("GDP_gross", t, r), ft(r)), f"rel_financial_transfer[{t},{r}]")

    # ------------------------------------------------------------------ C07
    def share_pop(self, t, r):
        return self.pop(t, r) / ssum(self.pop(t, s) for s in self.R)

    def share_gf(self, r):
        return self.em0(0, r) / ssum(self.em0(0, s) for s in self.R)

    def allowance_share(self, t, r, conv):
        """documented share; conv False or Sym"""
        if conv is False:
            return self.share_gf(r)
        y0, yt = self.year(0), self.year(t)
        # a convergence year that is not later than the start year has been reached at once
        gap = S.ite(le(conv, y0), const(1), conv - y0)
        x = (yt - y0) / gap
        lin = x * self.share_pop(t, r) + (1 - x) * self.share_gf(r)
        return ite(S.or_(le(conv, yt), le(conv, y0)), self.share_pop(t, r), lin)

    def effort(self):
        V, add = self.V, lambda *a, **k: self.add("C07", *a, **k)
        regime = self.cfg("effort sharing", "regime")
        eps = const(0.005)
        for t in self.T:
            lev = V("effort_sharing_common_level", t)
            for r in self.R:
                if regime == "equal_mitigation_costs":
                    x = V("rel_mitigation_costs", t, r)
                    add(f"equal mitigation costs[{t},{r}]", S.and_(le((1 - eps) * lev, x), le(x, (1 + eps) * lev)))
                elif regime == "equal_total_costs":
                    x = V("rel_mitigation_costs", t, r) + V("damage_costs", t, r) + V("rel_financial_transfer", t, r)
                    add(f"equal total costs[{t},{r}]", implies(le(self.year(t), const(2100)), S.and_(le((1 - eps) * lev, x), le(x, (1 + eps) * lev))))
                elif regime == "per_cap_convergence" and t > 0:
                    conv = self.conv_year
                    sh = self.allowance_share(t, r, conv)
                    x = sh * V("global_emissions", t)
                    # without trade a region's allowances are its own emissions
                    al = V("regional_emissions" if self.cfg("model", "emissiontrade module") == "notrade" else "regional_emission_allowances", t, r)
                    d = const(0.001)
                    add(f"allowance share[{t},{r}]", S.and_(le(al - d, x), le(x, al + d)))

    conv_year = None

    # ------------------------------------------------------------------ C08/C09
    def economy(self):
        V, add, P = self.V, lambda *a, **k: self.add("C08", *a, **k), self.P
        alpha, dk, sr = P("economics.GDP.alpha"), P("economics.GDP.depreciation of capital"), P("economics.GDP.savings rate")
        ignore = self.cfg("economics", "damages", "ignore damages")
        for t in self.T:
            for r in self.R:
                K, Y, N, I = V("capital_stock", t, r), V("GDP_gross", t, r), V("GDP_net", t, r), V("investments", t, r)
                if t == 0:
                    add(f"initial GDP[{r}]", eq(Y, self.gdp0(0, r)), f"GDP_gross[0,{r}]")
                    add(f"initial capital[{r}]", eq(K, P("economics.init_capital_factor", r) * self.gdp0(0, r)), f"capital_stock[0,{r}]")
                else:
                    tfp = self.tfp(t, r)
                    add(f"gross GDP[{t},{r}]", eq(Y, tfp * self.pop(t, r) ** (1 - alpha) * self.soft_min(K, scale=10) ** alpha), f"GDP_gross[{t},{r}]")
                    add(f"capital stock[{t},{r}]", eq(K, V("capital_stock", t - 1, r) + self.dt * (((1 - dk) ** self.dt - 1) / self.dt * K + I)), f"capital_stock[{t},{r}]")
                dmg = const(0) if ignore else V("damage_costs", t, r)
                add(f"net GDP[{t},{r}]", eq(N, Y * (1 - dmg) - V("mitigation_costs", t, r) - V("financial_transfer", t, r)), f"GDP_net[{t},{r}]")
                add(f"investments[{t},{r}]", eq(I, sr * N), f"investments[{t},{r}]")
                add(f"consumption[{t},{r}]", eq(V("consumption", t, r), (1 - sr) * N), f"consumption[{t},{r}]")

    def calibration(self):
        if not self.sm.has("TFP"):
            return
        for t in self.T:
            for r in self.R:
                alpha = self.P("economics.GDP.alpha")
                out = self.sm.param("TFP", t, r) * self.pop(t, r) ** (1 - alpha) * self.calib_capital(t, r) ** alpha
                self.add("C09", f"calibrated productivity[{t},{r}]", eq(out, self.gdp0(t, r)), None)

    def tfp(self, t, r):
        if self.sm.has("TFP"):
            return self.sm.param("TFP", t, r)
        return self.tfp_doc(t, r)

    def calib_capital(self, t, r):
        """Capital stock of the no-damage no-mitigation baseline used for the calibration."""
        dk, sr = self.P("economics.GDP.depreciation of capital"), self.P("economics.GDP.savings rate")
        K = self.P("economics.init_capital_factor", r) * self.gdp0(0, r)
        for s in range(1, t + 1):
            K = K + self.dt * (((1 - dk) ** self.dt - 1) / self.dt * K + sr * self.gdp0(s - 1, r))
        return K

    def tfp_doc(self, t, r):
        alpha = self.P("economics.GDP.alpha")
        return self.gdp0(t, r) / (self.pop(t, r) ** (1 - alpha) * self.calib_capital(t, r) ** alpha)

    # ------------------------------------------------------------------ C10
    def coef(self, r, slr):
        q = self.cfg("economics", "damages", "quantile")
        adapt = "Ad" if self.cfg("economics", "damages", "coacch_slr_withadapt") else "NoAd"
        P = self.P
        if slr:
            p = f"COACCH.SLR-{adapt}_"
        else:
            p = "COACCH.NoSLR_"
        return P(p + "b1", r), P(p + "b2", r), P(p + "b3", r), P(p + f"a (q={q})", r)

    def form(self, x, form, b1, b2, b3):
        if "Linear" in form:
            return b1 * x
        if "Quadratic" in form:
            return b1 * x + b2 * x**2
        if "Logistic" in form:
            ex = self.soft_max(-(b3 * x), 10, scale=0.1)
            return b1 / (1 + b2 * S.fn("exp", ex)) - b1 / (1 + b2)
        raise KeyError(form)

    def damages(self):
        V, add, P = self.V, lambda *a, **k: self.add("C10", *a, **k), self.P
        if self.cfg("model", "damage module") == "nodamage":
            for t in self.T:
                for r in self.R:
                    add(f"no damages[{t},{r}]", eq(V("damage_costs", t, r), const(0)), f"damage_costs[{t},{r}]")
            return
        k = P("economics.damages.scale factor")
        T0 = P("temperature.initial")
        for t in self.T:
            temp, slr = V("temperature", t), V("total_SLR", t)
            for r in self.R:
                d, dn, ds = V("damage_costs", t, r), V("damage_costs_non_slr", t, r), V("damage_costs_slr", t, r)
                add(f"total damages[{t},{r}]", eq(d, dn + ds), f"damage_costs[{t},{r}]")
                if self.cfg("economics", "damages", "coacch_combined_slr_nonslr_damages"):
                    q, ad = self.cfg("economics", "damages", "quantile"), "Ad" if self.cfg("economics", "damages", "coacch_slr_withadapt") else "NoAd"
                    b1, b2 = P(f"COACCH.combined_b1_{ad}-q{q}", r), P(f"COACCH.combined_b2_{ad}-q{q}", r)
                    D = lambda x: self.form(x, "Quadratic", b1, b2, None)
                    add(f"temperature damages[{t},{r}]", eq(dn, k * (D(temp - const(0.6)) - D(T0 - const(0.6))) / 100), f"damage_costs_non_slr[{t},{r}]")
                    add(f"SLR damages[{t},{r}]", eq(ds, const(0)), f"damage_costs_slr[{t},{r}]")
                else:
                    b1, b2, b3, a = self.coef(r, False)
                    D = lambda x: self.form(x, self.forms[("noslr", r)], b1, b2, b3)
                    add(f"temperature damages[{t},{r}]", eq(dn, k * a * (D(temp - const(0.6)) - D(T0 - const(0.6))) / 100), f"damage_costs_non_slr[{t},{r}]")
                    b1, b2, b3, a = self.coef(r, True)
                    E = lambda x: self.form(x, self.forms[("slr", r)], b1, b2, b3)
                    add(f"SLR damages[{t},{r}]", eq(ds, k * a * (E(slr) - E(V("total_SLR", 0))) / 100), f"damage_costs_slr[{t},{r}]")
                add(f"SLR damage guard low[{t},{r}]", le(const(-0.5), ds), required=False)
                add(f"SLR damage guard high[{t},{r}]", le(ds, const(0.7)), required=False)
                if t == 0:
                    add(f"no damages at start[{r}]", S.and_(eq(ds, const(0))))
                for grp in ("oldest", "older", "young"):
                    add(f"mortality {grp}[{t},{r}]", eq(V(f"mortality_{grp}", t, r), P(f"mortality.{grp}_a", r) + P(f"mortality.{grp}_b", r) * temp
                        + P(f"mortality.{grp}_c", r) * temp**2), f"mortality_{grp}[{t},{r}]")
                add(f"mortality cost[{t},{r}]", eq(V("mortality_cost_oldest", t, r), V("mortality_oldest", t, r) * self.pop(t, r) * 10000 * const(1.3)), f"mortality_cost_oldest[{t},{r}]")

    # ------------------------------------------------------------------ C11
    def welfare(self):
        V, add, P = self.V, lambda *a, **k: self.add("C11", *a, **k), self.P
        mod = self.cfg("model", "welfare module")
        obj = self.cfg("model", "objective module")
        mu, g = P("economics.elasmu"), P("economics.inequal_aversion")
        util = lambda C, L: (self.soft_min(C / L) ** (1 - mu) - 1) / (1 - mu)
        for t in self.T:
            C = {r: V("consumption", t, r) for r in self.R}
            L = {r: self.pop(t, r) for r in self.R}
            sC, sL = ssum(C.values()), ssum(L.values())
            U = {r: V("utility", t, r) for r in self.R}
            W = V("yearly_welfare", t)
            for r in self.R:
                if mod == "welfare_loss_minimising":
                    f = eq(U[r], util(C[r], L[r]))
                elif mod == "cost_minimising":
                    f = eq(U[r], C[r] / L[r])
                else:
                    f = eq(U[r], L[r] * self.soft_min(C[r] / L[r]) ** (1 - g))
                add(f"utility[{t},{r}]", f, f"utility[{t},{r}]")
            if mod == "welfare_loss_minimising":
                f = eq(W, ssum(L[r] * U[r] for r in self.R))
            elif mod == "cost_minimising":
                f = eq(W, sL * util(sC, sL))
            else:
                f = eq(W, sL * (self.soft_min(ssum(U.values()) / sL) ** ((1 - mu) / (1 - g)) / (1 - mu)))
            add(f"yearly welfare[{t}]", f, f"yearly_welfare[{t}]")
            npv = V("NPV", t)
            if t == 0:
                add("initial NPV", eq(npv, const(0)), "NPV[0]")
            else:
                if obj == "utility":
                    flow = W
                else:
                    flow = ssum(V("mitigation_costs", t, r) for r in self.R) + ssum(V("damage_costs", t, r) * V("GDP_gross", t, r) for r in self.R)
                add(f"NPV[{t}]", eq(npv, V("NPV", t - 1) + self.dt * S.fn("exp", -(P("economics.PRTP") * (self.year(t) - self.start))) * flow), f"NPV[{t}]")
