"""Configurations under which the model equations are decided.

Every numeric parameter, data value and regional value is symbolic in each of them; what a
configuration fixes is structural: modules, flags, enumerations, number of periods and regions,
the numeric time grid, and which limits are switched off."""

import itertools
import random

R3 = ("CAN", "USA", "INDIA")

F = {  # shorthands
    "trade": {"model.emissiontrade module": "emissiontrade"},
    "pool": {"model.emissiontrade module": "globalcostpool"},
    "dmgpool": {"model.financialtransfer module": "globaldamagepool"},
    "nodmg": {"model.damage module": "nodamage"},
    "cost": {"model.welfare module": "cost_minimising"},
    "ineq": {"model.welfare module": "inequal_aversion_general"},
    "globalcosts": {"model.objective module": "globalcosts"},
    "budget": {"emissions.carbonbudget": "700 GtCO2"},
    "target": {"temperature.target": "2 delta_degC"},
    "ginertia": {"emissions.inertia.global": -0.04},
    "nolimits": {"emissions.inertia.regional": False, "emissions.global min level": False, "emissions.regional min level": False,
                 "emissions.not positive after budget year": False, "emissions.non increasing emissions after 2100": False},
    "nointensity": {"emissions.baseline carbon intensity": False},
    "notrapz": {"emissions.cumulative_emissions_trapz": False},
    "ignoredmg": {"economics.damages.ignore damages": True},
    "noadapt": {"economics.damages.coacch_slr_withadapt": False},
    "combined": {"economics.damages.coacch_combined_slr_nonslr_damages": True},
    "q95": {"economics.damages.quantile": 0.95},
    "kappa": {"economics.MAC.regional calibration factor": "kappa_carbonprice_500_2070"},
    "eqmit": {"effort sharing.regime": "equal_mitigation_costs"},
    "eqtot": {"effort sharing.regime": "equal_total_costs"},
    "percap": {"effort sharing.regime": "per_cap_convergence"},
    "conv2030": {"effort sharing.percapconv_year": 2030},
    "conv2100": {"effort sharing.percapconv_year": 2100},
    "conv2020": {"effort sharing.percapconv_year": 2020},
    "gf": {"effort sharing.percapconv_year": False},
    "loose": {"emissions.not positive after budget year": False},
    "loose2": {"emissions.non increasing emissions after 2100": False},
}


def grid(start, end, dt):
    return {"start": start, "end": end, "dt": dt}


BASE = grid(2020, 2035, 5)
LATE = grid(2090, 2110, 5)       # hits 2100 exactly
LATE10 = grid(2085, 2115, 10)    # steps over 2100
HALF = grid(2098, 2101, 0.5)
ODD = grid(2020, 2037, 7)        # end is not a multiple of dt


# a crash while building a configuration with these features is a violation of that property
TAGS = {"trade": "C05", "pool": "C05", "dmgpool": "C06", "eqmit": "C07", "eqtot": "C07", "percap": "C07", "nodmg": "C10", "combined": "C10",
        "cost": "C11", "ineq": "C11", "globalcosts": "C11", "budget": "C03", "target": "C03", "ginertia": "C03", "nolimits": "C03"}


def cfg(name, *flags, g=BASE, regions=R3, forms=None, conv=None, symgrid=None):
    ov = {}
    for f in flags:
        ov.update(F[f])
    return {"name": name, "overrides": ov, "grid": g, "regions": regions, "forms": forms or {}, "conv": conv, "symgrid": symgrid,
            "tags": sorted({TAGS[f] for f in flags if f in TAGS})}


QUICK = [
    cfg("default"),
    cfg("default-2100", "budget", "target", g=LATE),
    cfg("trade", "trade", "ginertia"),
    cfg("trade-budget-2100", "trade", "budget", "target", "ginertia", "dmgpool", g=LATE),
    cfg("transfer", "dmgpool", "cost"),
    cfg("cost-pool", "pool", "budget", g=ODD),
    cfg("cost-pool-percap", "pool", "percap", "dmgpool", regions=("CAN", "SEAS")),
    cfg("percap-notrade", "percap", "conv2030", regions=("CAN", "SEAS")),
    cfg("nodamage-globalcosts", "nodmg", "globalcosts", "cost", "nolimits"),
    cfg("ineq-combined", "ineq", "combined", "nointensity", "notrapz"),
    cfg("combined-noadapt", "combined", "noadapt", "q95", regions=("CAN", "SEAS")),
    cfg("ignoredmg-noadapt", "ignoredmg", "noadapt", "q95", "kappa", g=ODD),
    cfg("loose-2100", "budget", "loose", "loose2", "target", g=LATE10),
    cfg("nolimits-2100", "nolimits", "notrapz", "target", g=LATE),
    cfg("equal-mitigation", "eqmit", "trade", g=LATE),
    cfg("equal-total", "eqtot", "dmgpool", g=LATE),
    cfg("percap", "percap", "trade"),
    cfg("percap-2030", "percap", "trade", "conv2030"),
    cfg("percap-2100", "percap", "trade", "conv2100", g=LATE),
    cfg("percap-late-start", "percap", "trade", "conv2030", g=LATE, regions=("CAN", "SEAS")),
    cfg("percap-symbolic-time", "percap", "trade", regions=("CAN", "SEAS"), symgrid=3),
    cfg("equal-total-symbolic-time", "eqtot", "dmgpool", "globalcosts", "cost", regions=("CAN", "SEAS"), symgrid=3),
    cfg("percap-2020", "percap", "trade", "conv2020"),
    cfg("grandfathering", "percap", "trade", "gf"),
    cfg("globalcosts", "globalcosts", "ineq", "trade"),
    cfg("logistic", forms={"CAN": {"NoSLR_form": "Robust-Logistic", "SLR-Ad_form": "Robust-Logistic", "NoSLR_b1": 3.0, "NoSLR_b2": 5.0, "NoSLR_b3": 1.5,
                                   "SLR-Ad_b1": 3.0, "SLR-Ad_b2": 5.0, "SLR-Ad_b3": 1.5},
                           "USA": {"NoSLR_form": "Robust-Linear", "SLR-Ad_form": "Robust-Quadratic", "NoSLR_b1": 1.0, "SLR-Ad_b1": 1.0, "SLR-Ad_b2": 2.0},
                           "INDIA": {"NoSLR_form": "Robust-Quadratic", "SLR-Ad_form": "Robust-Linear", "NoSLR_b1": 1.0, "NoSLR_b2": 1.0, "SLR-Ad_b1": 2.0}}),
    cfg("single-region", "budget", g=LATE, regions=("WEU",)),
    cfg("percap-symbolic-year", "percap", "trade", conv="sym", regions=("CAN", "SEAS")),
    cfg("symbolic-time", "budget", "target", "ginertia", regions=("CAN", "USA"), symgrid=4),
    cfg("half-year", "budget", "target", g=HALF, regions=("CAN", "SEAS")),
]

LATE4 = grid(2095, 2105, 5)
FACTORS = [("", "trade", "pool"), ("", "dmgpool"), ("", "nodmg"), ("", "cost", "ineq"), ("", "globalcosts"), ("", "eqmit", "eqtot", "percap"),
           ("", "conv2030", "conv2100", "gf"), ("", "combined"), ("", "noadapt"), ("", "q95"), ("", "ignoredmg"), ("", "kappa"), ("", "budget"), ("", "target"),
           ("", "ginertia", "nolimits"), ("", "loose"), ("", "loose2"), ("", "nointensity"), ("", "notrapz"), (BASE, LATE4, LATE10, ODD, HALF)]


def cover(strength, seed):
    """Configurations in which every `strength` of the structural choices above occur in all combinations."""
    rnd = random.Random(seed)
    groups = list(itertools.combinations(range(len(FACTORS)), strength))
    todo = {(g, v): None for g in groups for v in itertools.product(*[range(len(FACTORS[i])) for i in g])}
    out = []
    while todo:
        g0, v0 = next(iter(todo))
        best = None
        for _ in range(40 if strength == 2 else 12):
            row = [rnd.randrange(len(f)) for f in FACTORS]
            for i, v in zip(g0, v0):
                row[i] = v
            gain = sum((g, tuple(row[i] for i in g)) in todo for g in groups)
            if best is None or gain > best[0]:
                best = (gain, row)
        row = best[1]
        for g in groups:
            todo.pop((g, tuple(row[i] for i in g)), None)
        flags = [f[v] for f, v in zip(FACTORS[:-1], row) if f[v]]
        n = len(out)
        out.append(cfg(f"cover{strength}-{n}", *flags, g=FACTORS[-1][row[-1]], regions=(("CAN", "SEAS"), ("USA", "INDIA"), ("WEU",))[n % 3 if strength > 2 else n % 2]))
    return out


ALL26 = ("CAN", "USA", "MEX", "RCAM", "BRA", "RSAM", "NAF", "WAF", "EAF", "SAF", "WEU", "CEU", "TUR", "UKR", "STAN", "RUS", "ME", "INDIA", "KOR", "CHN", "SEAS", "INDO", "JAP", "OCE", "RSAS", "RSAF")
DEEP = [
    cfg("long", "budget", "target", g=grid(2020, 2150, 10), regions=("CAN", "SEAS")),
    cfg("long-trade", "budget", "trade", "dmgpool", "ginertia", g=grid(2015, 2155, 20), regions=("CAN", "SEAS")),
    cfg("long-percap", "percap", "trade", g=grid(2020, 2120, 10), regions=("CAN", "SEAS")),
    cfg("all-regions", "budget", "target", "trade", g=grid(2095, 2105, 5), regions=ALL26),
    cfg("all-regions-pool", "pool", "percap", "dmgpool", g=grid(2020, 2030, 5), regions=ALL26),
    cfg("all-regions-equal", "eqtot", "ineq", g=grid(2100, 2110, 5), regions=ALL26),
    cfg("default-grid", "percap", "trade", "budget", "target", g=grid(2020, 2110, 5), regions=("CAN", "SEAS")),
    cfg("symbolic-time-6", "budget", "target", "ginertia", "trade", regions=("CAN",), symgrid=6),
]


def for_property(prop, tier):
    return QUICK + cover(2, 1) + DEEP + (cover(3, 1) if tier == 'thorough' else [])
