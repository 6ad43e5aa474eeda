"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mechanism, **kw):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": mechanism, "where": f} for f in files], **kw}})

NOTEST = "No existing test builds a model; the unit tests only cover value parsers, nested dictionaries, the soft minimum and the MAC curve at a few points. "
EQ = "A test evaluates an equation at a few numbers, periods and regions; the statement quantifies over every parameter and data value, every period and every region of every configuration."

p("C01", "Emissions accounting is exact",
  "In every built model each region's emissions are its baseline times one minus its abatement (the baseline following the baseline carbon intensity of net GDP, or the scenario data, as configured), the global emissions are the sum over regions, and cumulative emissions start at zero and grow by the trapezoidal (or plain) step as configured. The reported reductions and relative cumulative emissions are exactly the differences and ratios of these quantities. No other restriction is put on these quantities than the documented ones.",
  ["inputs", "configurations"], "all parameter and data values, all periods and regions, both carbon-intensity modes, both integration modes",
  NOTEST + EQ, ["mimosa/components/emissions.py", "mimosa/abstract_model.py"], "Constraints built by the emissions component for each period and region.")
p("C02", "Temperature and sea-level rise follow cumulative emissions and temperature",
  "Temperature is the initial temperature plus the climate response times cumulative emissions, in every period. Each sea-level component (thermal expansion, glaciers and small ice caps, Greenland) starts at its documented initial value and advances by its documented recursion from the previous period's level and temperature for any time step. Total sea-level rise is the sum of the components and nothing else constrains them.",
  ["inputs", "configurations"], "all parameter values, all periods, any time step", NOTEST + EQ,
  ["mimosa/components/emissions.py", "mimosa/components/sealevelrise.py"], "Temperature and sea-level constraints per period.")
p("C03", "Policy limits bind exactly where and when they are asked for",
  "A carbon budget, a temperature target and the net-zero requirement hold in every period from 2100 on and in no earlier one; regional and global inertia, minimum emission levels and the non-increase rule after 2100 hold in every period they are documented for. A limit that is switched off (false) imposes nothing. No feasible pathway is excluded by any limit the user did not ask for.",
  ["inputs", "configurations"], "all limit values, all emission pathways, all time grids (start, step, horizon), each limit on or off", NOTEST + EQ,
  ["mimosa/components/emissions.py"], "Constraints that are skipped or kept depending on the period's year and the configured limit.")
p("C04", "Mitigation costs are the area under the marginal abatement cost curve",
  "In every period and region the carbon price is the regional marginal abatement cost at the chosen abatement, and mitigation costs are the integral of that curve up to the abatement times the baseline emissions plus the trade balance. The cost level follows the calibrated regional factor and learning by doing and over time as documented. Relative costs and the global averages are the documented ratios and respect the configured minimum level.",
  ["inputs", "configurations"], "all parameter values, abatement levels, periods, regions", NOTEST + EQ,
  ["mimosa/components/mitigation.py"], "MAC / AC / learning constraints per period and region.")
p("C05", "Emission trading conserves money and emission reductions",
  "With emission trading the regional money balances add up to zero in every period and so do the traded emission reductions, all priced at the population-weighted average carbon price; allowances equal baseline minus paid-for reductions. Total mitigation costs therefore equal the total area under the cost curves. Without trading every region pays exactly for its own reductions.",
  ["inputs", "configurations"], "all prices, populations, abatement levels, periods, both trade modules", NOTEST + EQ,
  ["mimosa/components/emissiontrade/emissiontrade.py", "mimosa/components/emissiontrade/notrade.py", "mimosa/components/emissiontrade/globalcostpool.py"], "Trade balance constraints.")
p("C06", "Financial transfers are zero-sum, capped and start at zero",
  "In every period the financial transfers of all regions add up to zero, no region receives more than its damages, and there is no transfer in the first period; with the transfer module off all transfers are zero. Relative transfers are transfers divided by gross GDP.",
  ["inputs", "configurations"], "all damages, GDPs, periods, both transfer modules", NOTEST + EQ,
  ["mimosa/components/financialtransfer/globaldamagepool.py", "mimosa/components/financialtransfer/notransfer.py"], "Transfer constraints.")
p("C07", "Effort sharing gives every region its documented share",
  "Under equal mitigation (or total) costs every region's relative costs lie within half a percent of one common level in every period the regime is documented for. Under per-capita convergence every region's allowances are, to 1 MtCO2/yr, global emissions times the share interpolated linearly from grandfathering in the start year to equal per capita in the convergence year and equal per capita afterwards, and grandfathering throughout if the convergence year is false. Without a regime nothing is imposed.",
  ["inputs", "configurations"], "all populations, emissions, costs, periods, convergence years (including false and years before the start)", NOTEST + EQ,
  ["mimosa/components/effortsharing.py"], "Soft-equality constraints and the share rule.")
p("C08", "Output, investment, consumption and capital follow the documented economy",
  "Gross GDP starts at the data and is then productivity times labour and capital in Cobb-Douglas form; net GDP is gross GDP minus damages (unless ignored), mitigation costs and transfers. Investment and consumption split net GDP by the savings rate, and capital starts at the regional multiple of GDP and accumulates by the documented stock equation for any time step. Nothing else restricts them.",
  ["inputs", "configurations"], "all parameter and data values, periods, regions, time steps", NOTEST + EQ,
  ["mimosa/components/cobbdouglas.py", "mimosa/common/economics.py"], "Economy constraints.")
p("C09", "Productivity is calibrated to reproduce baseline GDP",
  "For every period and region the calibrated productivity times the Cobb-Douglas aggregate of the baseline population and the calibration capital stock equals the baseline GDP, where that capital stock starts at the regional multiple of initial GDP and accumulates the baseline investments with the configured depreciation over each time step. This holds for every savings rate, capital share, depreciation and time step.",
  ["inputs"], "all GDP and population paths, parameters, periods, time steps", NOTEST + EQ,
  ["mimosa/common/economics.py", "mimosa/components/cobbdouglas.py"], "Calibration performed while the model is instantiated.")
p("C10", "Damages follow the regional damage functions",
  "Damages per region are the scale factor times the difference of the region's temperature (or sea-level) damage function at the current and the initial state, in the functional form, adaptation mode, quantile and combined mode that are configured; total damages are the sum of both and sea-level damages are zero at the start. Mortality and its costs follow their documented polynomials. Without the damage module all damages are zero.",
  ["inputs", "configurations"], "all coefficients, temperatures, sea levels, the three functional forms, both adaptation modes, combined mode, all periods and regions", NOTEST + EQ,
  ["mimosa/components/damages/coacch.py", "mimosa/components/damages/nodamage.py"], "Damage constraints per region.")
p("C11", "Welfare and the objective are the documented discounted sums",
  "Utility and yearly welfare follow the chosen welfare module for every elasticity and inequality aversion, and the objective accumulates, from zero in the start year, the discounted yearly welfare (or global mitigation and damage costs) times the time step. The optimiser maximises discounted welfare, or minimises discounted global costs, of the last period's accumulated value and nothing else.",
  ["inputs", "configurations"], "all preference parameters, consumptions, populations, periods, three welfare and two objective modules", NOTEST + EQ,
  ["mimosa/components/welfare/", "mimosa/components/objective/"], "Welfare constraints and the Pyomo objective.")
p("C12", "Smooth approximations stay within their error bounds",
  "The smooth step lies strictly between 0 and 1, is increasing and equals one half at zero; the smooth minimum-with-zero is positive, never below the true value, and exceeds it by at most a fixed small multiple of the scale, for every real argument and positive scale (up to rounding in the last digits). The smooth maximum mirrors it below its ceiling, and soft equalities hold exactly within their stated tolerance.",
  ["inputs"], "all real arguments, scales and ceilings", "The existing tests compare a few sample points.", ["mimosa/common/pyomo_utils.py"], "arctan-based helper functions used in denominators and powers of the model.")
p("C13", "A setting is accepted exactly when it lies in its documented domain",
  "A numeric setting is accepted if and only if it is a number inside the documented closed range (false only where allowed), a choice only if it is one of the listed values, and a flag only if it is one; an accepted value is kept unchanged (a whole-number setting drops the fraction) and anything else, including not-a-number and true/false for a number, raises an error. Values from a quantity string are converted before use and lists and dictionaries check each of their entries.",
  ["inputs"], "all numeric values, all documented settings with their bounds", "The parser tests try a few values for a few parsers, not the whole number line against every documented bound.",
  ["mimosa/common/config/utils/parsers.py", "mimosa/inputdata/config/config_default.yaml"], "One parser object per documented setting.")
p("C14", "Unknown settings are rejected; unspecified ones keep their default",
  "A configuration containing a key that is not a documented setting, at any nesting level, is rejected, and one containing only documented keys is not. Every setting the user does not give takes its documented default and every given one takes effect at its own place only. The user's dictionary is not changed.",
  ["inputs", "configurations"], "all keys at all nesting levels, all settings", "Tests check one or two misspelled keys.",
  ["mimosa/common/config/parseconfig.py", "mimosa/common/config/utils/"], "Comparison of the user's key tree with the default tree.")
p("C15", "References between settings are replaced by the referenced values",
  "Every reference in braces inside a text setting is replaced by the current value of the setting it names, whatever other text or references surround it, and text without a valid reference is left as it is. Changing the referenced setting changes the result accordingly.",
  ["inputs", "configurations"], "all reference strings built from settings, several references per string, all referenced value types", "No test covers more than one reference per value.",
  ["mimosa/common/config/parseconfig.py"], "Substitution pass over the parsed settings.")
p("C16", "Unit conversion is exact and rejects wrong dimensions",
  "Any quantity given in any supported unit of the right dimension enters the model with the same physical value in the model's default units, linearly in the magnitude, including the inflation factor between currency years and the conversion between mass prefixes and time units. A quantity of a different dimension is rejected.",
  ["inputs"], "all magnitudes, supported unit strings", "Tests convert a few constants.", ["mimosa/common/units.py", "mimosa/inputdata/config/default_units.yaml", "mimosa/inputdata/config/extra_units.txt"], "Pint registry wrapped by the quantity helper.")
p("C17", "Every configured value reaches the equations it parameterises",
  "For every setting and regional parameter, the value in the built model is the configured one: in model units, for the region it was given for, with manual regional values taking precedence over the data files and custom mappings over everything. No setting influences another setting's place in the model.",
  ["inputs", "configurations"], "all settings and regional parameters, all values", "No test looks at parameter values of a built model.",
  ["mimosa/concrete_model/instantiate_params.py", "mimosa/common/regional_params/"], "Automatic mapping from declarations to values.")
p("C18", "The time grid covers the requested horizon",
  "The model's periods are the start year and then every time step; the last period is the first one that reaches or passes the requested end year, no period is missing and none is added. This holds for every start, step and end year after the start in their documented ranges; only rounding in the last digits may decide whether an end year counts as reached.",
  ["inputs"], "all start years, end years and time steps", "No test builds a time grid.", ["mimosa/concrete_model/instantiate_params.py"], "Number of periods and year function.")
p("C19", "Scenario data are selected, converted, extended and interpolated faithfully",
  "For every region, variable and scenario the model uses the row of the data file selected by exactly that region, variable, model and scenario, converted to model units and interpolated (cubic spline) so that it passes through the data points; beyond the data (2100) the growth per decade falls linearly to zero within fifty years, after which the decadal values are constant. The result does not depend on which models were built earlier in the same session.",
  ["inputs", "histories"], "all data values, regions, variables, scenarios, model-building histories", "No test reads the data files through the store.",
  ["mimosa/common/data/datastore.py", "mimosa/common/data/utils.py"], "Cached database reads, extrapolation, cubic interpolation.")
p("C20", "Regional parameters are mapped to the model's regions by their group mean",
  "A regional parameter given for other region definitions is, for each model region, the mean over exactly the source regions mapped to it (the first value for text), and is taken unchanged when the region definitions agree. A missing conversion raises an error and a manually given regional value always wins.",
  ["inputs"], "all parameter values, all region mappings", "No test maps regions.", ["mimosa/common/regional_params/region_mappers.py", "mimosa/common/regional_params/regional_param_container.py"], "Merge and group-by on the mapping table.")
p("C21", "Simulation mode imposes exactly the given pathways",
  "In simulation mode every variable with an imposed pathway (given for every model period) equals it to within the tolerance of 0.001 in every period and region, the listed constraints are inactive and all others stay active and unchanged. With simulation mode off neither has any effect.",
  ["inputs", "configurations"], "all imposed values, variables, periods, deactivated constraints", "No test uses simulation mode.", ["mimosa/concrete_model/simulation_mode/"], "Extra constraints and deactivations after instantiation.")
p("C22", "Exported results reproduce the solution",
  "The exported table contains every variable, and every parameter over time and region, exactly once per region (or once as Global) with one value per period: the solution's value to a relative accuracy of 1e-5, under the right variable, region and year. A stated unit is the unit the values are in. The exported settings are those of the run.",
  ["inputs", "configurations"], "all solution values, variables, regions, periods", "No test exports a model.", ["mimosa/export/save.py", "mimosa/export/utils.py"], "Row-by-row conversion of model components.")
p("C23", "A solve is reported as successful only if the solver says so",
  "Solving raises an error for every solver status other than ok, with the status recorded, and does not raise for ok; the status of an earlier solve never remains after a failed one. Before returning, all variables that were merged for the solver are restored to the solver's values. The requested options are passed on to the local solver, the given address to the remote one.",
  ["fault_sequences", "configurations"], "all solver statuses and termination conditions, one or several regions, local or remote solver", "No test solves a model.", ["mimosa/mimosa.py"], "Status handling after the solver returns.")
p("C24", "Every accepted configuration builds a model",
  "Any combination of the documented modules, flags, regimes and settings inside their documented ranges can be turned into a model without an error, for every end year after the start year and every time step that gives at least two periods.",
  ["inputs", "configurations"], "all module and flag combinations, all numeric settings in range, time grids in range", "No test builds a model.", ["mimosa/abstract_model.py", "mimosa/mimosa.py", "mimosa/components/"], "Instantiation of all components.")
p("C25", "A model is determined by its settings alone",
  "Building a model from a set of settings gives the same equations, bounds, objective and parameter values regardless of which models were built before it in the same session (including ones that failed half-way), of the order in which settings and regions are listed, and of what happens afterwards to the dictionary it was given or to other models.",
  ["histories", "inputs"], "all sequences of model constructions, all numeric settings and data", "No test builds two models; shared caches, class-level state and shared default dictionaries only show with a second one.",
  ["mimosa/mimosa.py", "mimosa/abstract_model.py", "mimosa/common/data/datastore.py", "mimosa/common/config/parseconfig.py", "mimosa/common/regional_params/"], "Module-level caches and dictionaries shared between runs.")
p("C26", "An exported run can be imposed on another run",
  "A variable of one model that was saved to a table can be imposed, by naming the table, on another model with other modules, regions, horizon or coarser periods: in every period and region the two have in common the variable must equal the exported value to within the documented tolerance of 0.001 plus the rounding of the table, nothing else about the other model is restricted, and the exported values themselves are admitted.",
  ["inputs", "configurations"], "all values of the imposed variables, many pairs of runs", "No test saves a model and reads the file into another; the file format, the column labels and the reader must agree.",
  ["mimosa/export/save.py", "mimosa/concrete_model/simulation_mode/set_constraints.py", "mimosa/concrete_model/simulation_mode/utils.py"], "Round trip through the exported file.")
p("C27", "A component added as documented takes part in the model like the built-in ones",
  "A component written as the guide to extending the model describes (variables, parameters that name a setting, a column of a regional table or a data series, and the six kinds of constraint objects, named or not) is part of the built model with exactly the equations it declares: every declared equation holds in every period and region for which it is declared (tolerances and exceptions of soft equalities as given), with the values of its settings, table and data in MIMOSA's units; no other restriction on its variables appears, and the equations of all other modules are unchanged.",
  ["inputs", "configurations"], "all values of the component's settings, table cells, data and of all variables", "No test adds a component; the built-in ones use only part of what the constraint classes and parameter links offer.",
  ["mimosa/common/pyomo_utils.py", "mimosa/abstract_model.py", "mimosa/concrete_model/instantiate_params.py", "mimosa/common/regional_params", "docs/extending"], "Guide to extending the model.")
p("C28", "The parameter reference states what is enforced",
  "The generated reference and the parameter descriptions inserted into the documentation have exactly one entry per setting, and what an entry states (type, default, range, unit, allowed values, whether it can be false) is what the parser enforces: a value is accepted if and only if it lies in the stated range or list, False is accepted if and only if stated, the default that applies is the stated one, and links lead to the setting the parameter is filled from.",
  ["inputs"], "all values of each setting; all defaults and bounds a setting may be documented with", "No test generates the documentation.",
  ["docs/scripts/mkdocs_hooks.py", "mimosa/common/config/utils/parsers.py", "mimosa/common/config/parseconfig.py"], "Parameter reference.")
p("C29", "Every equation handed to the solver can be evaluated",
  "For every accepted configuration and every value of the settings and data in their documented ranges, every constraint and the objective is a well-defined real number (no division by zero, no power or root of a negative number, no logarithm of a number that is not positive, no exponential that overflows) at the starting point of the solver, and wherever all variables lie strictly within their bounds and gross GDP is positive. The smooth replacements of minimum and maximum are what guarantees it where a variable has no bounds; it holds for arguments up to a million times their scale.",
  ["inputs", "configurations"], "all values of all variables within their bounds, all values of settings and data", "A solver run that fails with an evaluation error, or starts from a point where the model has no value, depends on the path of the solver; tests follow one path.",
  ["mimosa/components", "mimosa/common/pyomo_utils.py", "mimosa/common/economics.py"], "Comments on avoiding division by zero and exponential overflow; bounds and initial values of the variables.")
p("C30", "All regions are treated alike",
  "No region has a special role: exchanging the data and settings of two regions exchanges their variables in the equations and leaves the objective and everything global unchanged, for any regions, any number of them and any values; and the order in which the regions are listed in the settings changes neither the equations nor the data.",
  ["inputs", "configurations"], "all values of data, settings and variables; all permutations of up to 26 regions", "A test runs one list of regions with one set of data; that a region is treated differently shows only in comparison.",
  ["mimosa/components", "mimosa/common/regional_params/main.py", "mimosa/common/data/datastore.py", "mimosa/concrete_model/instantiate_params.py"], "Regions documentation.")
p("C31", "What is handed to the solver is the model that was built",
  "The preprocessing between building and solving changes no solution: a variable is fixed only at the single value the equations and bounds leave it, variables are merged only when they are equal, every equation, bound and objective of the model as built holds in the solver's problem and nothing is added to it, and after the solve every variable, merged ones included, carries the value the solver found; also for components and variables that a user adds, for any values and any number of regions.",
  ["inputs", "configurations"], "all values of all variables; the listed configurations", "A solve shows one point; a dropped or an added restriction, or a variable left without its value, shows only when it matters there.",
  ["mimosa/mimosa.py"], "README and the documentation of running MIMOSA; the comments of preprocessing and postprocessing.")
with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf8") as fh:
    for d in P:
        fh.write(json.dumps(d) + "\n")
print(len(P))
