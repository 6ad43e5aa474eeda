import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import add
H = "from demo_lib import *\n"

add("s31-two-regions-not-restored", "C31",
    [("mimosa/mimosa.py", "        if len(self.regions) > 1:\n            TransformationFactory(\"contrib.aggregate_vars\").update_variables(", "        if len(self.regions) > 2:\n            TransformationFactory(\"contrib.aggregate_vars\").update_variables(")],
    "a run with exactly two regions and variables that the preprocessing merges, which a component added by the user may have", "The variables that were merged before the solve keep their starting values afterwards.",
    H + '''
import mimosa.mimosa as mm
from pyomo.core.expr.visitor import identify_variables
real = mm.create_abstract_model
def extended(*a, **k):
    m = real(*a, **k)
    m.extra_level = pe.Var(m.t, m.regions, initialize=1.0)
    m.extra_link = pe.Constraint(m.t, m.regions, rule=lambda m, t, r: m.extra_level[t, r] == m.consumption[t, r])
    return m
mm.create_abstract_model = extended
for regions in (("CAN", "USA"), ("CAN", "USA", "INDIA")):
    with contextlib.redirect_stdout(io.StringIO()):
        mod = MIMOSA(params({"model.emissiontrade module": "emissiontrade", "effort sharing.regime": "equal_mitigation_costs"}, regions=regions))
    m = mod.concrete_model
    from pyomo.core.staleflag import StaleFlagManager
    StaleFlagManager.mark_all_as_stale(delayed=True)
    for i, v in enumerate(m.component_data_objects(pe.Var)):
        if not v.fixed:
            v.set_value(2000.0 + i, skip_validation=True)
    mod.postprocessing()
    bad = []
    for t in m.t:
        for r in m.regions:
            x, y = m.extra_level[t, r].value, m.consumption[t, r].value
            if x is None or y is None or abs(x - y) > 1e-3 or not m.consumption[t, r].fixed and x < 1999:
                bad.append((t, r, x, y))
    expect(not bad, f"{len(regions)} regions: what was merged before the solve has its value after it {bad[:3]}")
''')

add("s32-narrow-range-fixed", "C31",
    [("mimosa/mimosa.py", "        TransformationFactory(\"contrib.detect_fixed_vars\").apply_to(self.concrete_model)", "        TransformationFactory(\"contrib.detect_fixed_vars\").apply_to(\n            self.concrete_model, tolerance=0.05\n        )")],
    "a variable with a range narrower than 0.05, which a component added by the user may have", "A variable with a narrow but real range is fixed at its lower bound before the solve.",
    H + '''
import mimosa.mimosa as mm
real = mm.create_abstract_model
def extended(*a, **k):
    m = real(*a, **k)
    m.extra_rate = pe.Var(m.t, bounds=(0.01, 0.04))
    m.extra_use = pe.Constraint(m.t, rule=lambda m, t: m.extra_rate[t] <= 0.02 + m.temperature[t])
    return m
mm.create_abstract_model = extended
with contextlib.redirect_stdout(io.StringIO()):
    m = MIMOSA(params()).concrete_model
expect(not any(m.extra_rate[t].fixed for t in m.t), "a variable that may be anything from 0.01 to 0.04 stays free")
''')
