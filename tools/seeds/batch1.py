import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import add
H = "from demo_lib import *\n"

add("s01-target-2100-index", "C03",
    [("mimosa/components/emissions.py", "if (m.year(t) >= 2100 and value(m.temperature_target) is not False)",
      "if (t >= value(m.year2100) and value(m.temperature_target) is not False)")],
    "a time step that jumps over 2100 (e.g. start 2085, step 10: 2095 then 2105)", "The temperature target is imposed in a period before 2100.",
    H + '''
m = model({"temperature.target": "2 delta_degC"}, start=2085, end=2115, dt=10)
t95 = 1  # 2095
limited = any(
    c.upper is not None and len(vs := list(pe.Block and __import__("pyomo.core.expr.visitor", fromlist=["x"]).identify_variables(c.body))) == 1 and vs[0] is m.temperature[t95] and not c.equality
    for c in m.component_data_objects(pe.Constraint, active=True))
expect(not limited, "no temperature target in 2095")
''')

add("s02-gis-step", "C02",
    [("mimosa/components/sealevelrise.py", "return cumgis + (m.dt / 10) * (1 / 100) * (", "return cumgis + (1 - (1 - 1 / 100) ** (m.dt / 10)) * (")],
    "a time step other than ten years", "Greenland's contribution no longer advances linearly with the time step.",
    H + '''
m = model(dt=5, end=2035)
m.slr_cumgis[0].set_value(0.5); m.temperature[0].set_value(2.0)
got = head(find(m, m.slr_cumgis[1], m.slr_cumgis[0], m.temperature[0]), m.slr_cumgis[1])
want = 0.5 + 5 / 10 / 100 * (1.11860082 * 2.0 + 0.6) * (1 - 0.5 / 7.3)
expect(close(got, want), f"GIS step {got} vs {want}")
''')

add("s03-percap-origin", "C07",
    [("mimosa/components/effortsharing.py", "year_linear_part = (year_t - year_0) / (year_conv - year_0)", "year_linear_part = (year_t - year_0) / (year_conv - 2020)")],
    "per-capita convergence with a start year other than 2020", "The convergence to equal per capita shares is not reached in the convergence year.",
    H + '''
m = model({"effort sharing.regime": "per_cap_convergence", "model.emissiontrade module": "emissiontrade", "effort sharing.percapconv_year": 2050}, start=2030, end=2060, dt=10)
pop = {r: pe.value(m.population[1, r]) for r in m.regions}; em = {r: pe.value(m.baseline_emissions[0, r]) for r in m.regions}
r = "INDIA"
share = 0.5 * pop[r] / sum(pop.values()) + 0.5 * em[r] / sum(em.values())
m.global_emissions[1].set_value(10.0)
lo = max(pe.value((c.body - (c.upper if c.upper is not None else c.lower))) for c in [c for c in m.component_data_objects(pe.Constraint, active=True)
     if not c.equality and {id(m.global_emissions[1]), id(m.regional_emission_allowances[1, r])} <= {id(v) for v in __import__("pyomo.core.expr.visitor", fromlist=["x"]).identify_variables(c.body)}]
     if m.regional_emission_allowances[1, r].set_value(share * 10.0) is None)
expect(lo <= 1e-6, f"documented allowances satisfy the regime ({lo})")
''')

add("s04-trade-price-weights", "C05",
    [("mimosa/components/emissiontrade/emissiontrade.py", "sum(m.carbonprice[t, r] * m.population[t, r] for r in m.regions)\n                / sum(m.population[t, r] for r in m.regions)",
      "sum(m.carbonprice[t, r] * m.population[0, r] for r in m.regions)\n                / sum(m.population[0, r] for r in m.regions)")],
    "populations whose regional shares change over time", "The trading price is weighted by the initial instead of the current population.",
    H + '''
m = model({"model.emissiontrade module": "emissiontrade"})
t = 4
for i, r in enumerate(m.regions): m.carbonprice[t, r].set_value(0.1 * (i + 1))
got = head(find(m, m.global_carbonprice[t], *[m.carbonprice[t, r] for r in m.regions]), m.global_carbonprice[t])
P = {r: pe.value(m.population[t, r]) for r in m.regions}
want = sum(pe.value(m.carbonprice[t, r]) * P[r] for r in m.regions) / sum(P.values())
expect(close(got, want), f"price {got} vs {want}")
''')

add("s05-discount-origin", "C11",
    [("mimosa/components/objective/globalcosts.py", "* exp(-m.PRTP * (m.year(t) - m.beginyear))", "* exp(-m.PRTP * (m.dt * (t - 1)))")],
    "the cost objective with a positive discount rate", "Costs are discounted to the second instead of the first period.",
    H + '''
import math
m = model({"model.objective module": "globalcosts", "economics.PRTP": 0.03})
t = 3
for r in m.regions:
    m.mitigation_costs[t, r].set_value(0.2); m.damage_costs[t, r].set_value(0.01); m.GDP_gross[t, r].set_value(5.0)
m.NPV[t - 1].set_value(1.5)
got = head(find(m, m.NPV[t], m.NPV[t - 1]), m.NPV[t])
want = 1.5 + 5 * math.exp(-0.03 * 15) * 3 * (0.2 + 0.05)
expect(close(got, want), f"NPV {got} vs {want}")
''')

add("s06-tfp-first-step", "C09",
    [("mimosa/common/economics.py", "investments = sr * baseline_gdp\n", "investments = sr * value(m.baseline_GDP[s, r])\n")],
    "baseline GDP that changes between periods", "The calibration capital stock uses the investments of the wrong period.",
    H + '''
m = model()
for r in m.regions:
    K = pe.value(m.init_capitalstock_factor[r] * m.baseline_GDP[0, r])
    a, dk, sr = pe.value(m.alpha), pe.value(m.dk), pe.value(m.sr)
    for t in range(1, 4):
        K = K + 5 * (((1 - dk) ** 5 - 1) / 5 * K + sr * pe.value(m.baseline_GDP[t - 1, r]))
        want = pe.value(m.baseline_GDP[t, r]) / (pe.value(m.population[t, r]) ** (1 - a) * K ** a)
        expect(close(pe.value(m.TFP[t, r]), want), f"TFP {t} {r}")
''')

add("s07-damage-combined-scale", "C10",
    [("mimosa/components/damages/coacch.py", None, None)] if False else
    [("mimosa/components/cobbdouglas.py", "* (1 - (m.damage_costs[t, r] if not value(m.ignore_damages) else 0))", "* (1 - (m.damage_costs[t, r] if not value(m.ignore_damages) or t == 0 else 0))")],
    "damages ignored in GDP while the first period's damages are not zero (combined damage function off by its offset)", "Damages enter net GDP in the first period although they are configured to be ignored.",
    H + '''
m = model({"economics.damages.ignore damages": True})
for t in m.t:
    r = "CAN"
    m.GDP_gross[t, r].set_value(3.0); m.damage_costs[t, r].set_value(0.2); m.mitigation_costs[t, r].set_value(0.1)
    got = head(find(m, m.GDP_net[t, r], m.GDP_gross[t, r], m.mitigation_costs[t, r]), m.GDP_net[t, r])
    expect(close(got, 2.9), f"net GDP {t} {got}")
''') if False else None
