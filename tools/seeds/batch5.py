import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import add
H = "from demo_lib import *\n"

add("s28-learning-power-unguarded", "C29",
    [("mimosa/components/mitigation.py", "            == soft_min(\n                (m.cumulative_global_baseline_emissions[t] - m.cumulative_emissions[t])\n                / m.LBD_scaling\n                + 1.0\n            )\n            ** m.log_LBD_rate,",
      "            == (\n                (m.cumulative_global_baseline_emissions[t] - m.cumulative_emissions[t])\n                / m.LBD_scaling\n                + 1.0\n            )\n            ** m.log_LBD_rate,")],
    "emissions above the baseline by more than the learning scale", "The learning factor takes a fractional power of a number that can be negative.",
    H + '''
m = model()
m.cumulative_emissions[2].set_value(pe.value(m.cumulative_global_baseline_emissions[2]) + 5 * pe.value(m.LBD_scaling) + 5, skip_validation=True)
m.LBD_factor[2].set_value(1.0)
c = find(m, m.LBD_factor[2], m.cumulative_emissions[2])
try:
    v = pe.value(c.body)
except (ValueError, ZeroDivisionError, OverflowError) as e:
    v = e
expect(isinstance(v, float) and v == v, f"the learning equation has a value when emissions exceed the baseline: {v}")
''')

add("s29-gdp-without-start", "C29",
    [("mimosa/components/cobbdouglas.py", "    m.GDP_gross = Var(\n        m.t,\n        m.regions,\n        initialize=lambda m, t, r: m.baseline_GDP[0, r],\n", "    m.GDP_gross = Var(\n        m.t,\n        m.regions,\n")],
    "the first evaluation of the equations, before any step of the solver", "Gross GDP has no starting value, so equations dividing by it are evaluated at zero.",
    H + '''
m = model()
for v in m.component_data_objects(pe.Var):
    if v.value is None:
        lo, hi = v.lb, v.ub
        v.set_value(min(max(0.0, lo if lo is not None else 0.0), hi if hi is not None else 0.0) if lo is not None or hi is not None else 0.0, skip_validation=True)
from pyomo.common.collections import ComponentSet
from pyomo.core.expr.visitor import identify_variables
bad = None
for c in m.component_data_objects(pe.Constraint, active=True):
    if m.GDP_gross[1, "CAN"] in ComponentSet(identify_variables(c.body)):
        try:
            pe.value(c.body)
        except ZeroDivisionError as e:
            bad = f"{c.name}: {e}"
expect(bad is None, f"equations using gross GDP have a value at the starting point {bad or ''}")
''')

add("s30-last-region-implied", "C30",
    [("mimosa/components/effortsharing.py", "            or t == 0,\n            name=\"percapconv_rule\",", "            or t == 0\n            or (len(m.regions) > 2 and r == m.regions.last()),\n            name=\"percapconv_rule\",")],
    "per-capita convergence with more than two regions; which region escapes depends on the order of listing", "The allowances of the region listed last are left to follow from the global balance, which emission trading does not close.",
    H + """
def bound(regions):
    m = model({"effort sharing.regime": "per_cap_convergence", "model.emissiontrade module": "emissiontrade"}, regions=regions)
    names = {}
    from pyomo.core.expr.visitor import identify_variables
    for r in regions:
        v = m.regional_emission_allowances[2, r] if hasattr(m, "regional_emission_allowances") else None
        names[r] = sum(1 for c in m.component_data_objects(pe.Constraint, active=True)
                       if any(x is v for x in identify_variables(c.body)) and any(x is m.global_emissions[2] for x in identify_variables(c.body)))
    return names
a, b = bound(("CAN", "USA", "INDIA")), bound(("INDIA", "USA", "CAN"))
expect(a == b, f"the same equations whatever the order of the regions: {a} {b}")
expect(len(set(a.values())) == 1, f"the same equations for every region: {a}")
""")
