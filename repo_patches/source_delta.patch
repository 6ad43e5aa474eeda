From af1888a7889803fa78fe4b92206a9b8bb7bc6c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 01/16] fix: per-capita convergence honours 'false' and
 convergence years not after the start year

---
 mimosa/components/effortsharing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index c9d43c0..7fddadc 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -259,13 +259,13 @@ def percapconv_share_rule(m, t, r):
     """
 
     year_0, year_t = m.year(0), m.year(t)
-    year_conv = m.percapconv_year
+    year_conv = value(m.percapconv_year)
 
     if year_conv is False:
         # If it is false, use grandfathering all the time
         return m.percapconv_share_init[r]
-    if year_conv == year_0:
-        # If it is equal to first year, use immediate per capita convergence
+    if year_conv <= year_0:
+        # If it is not later than the first year, use immediate per capita convergence
         return m.percapconv_share_pop[t, r]
 
     year_linear_part = (year_t - year_0) / (year_conv - year_0)
-- 
2.43.0


From f15bc1bc827c4fd2472f27e93d1cbf572f76a42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 02/16] fix: replace every reference in a setting, also to
 non-text settings

---
 mimosa/common/config/parseconfig.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 2446e14..e876a63 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -120,13 +120,19 @@ def parse_param_values(params):
     def leaf_function(keys, node):
         if not isinstance(node, str):
             return
-        for match in re.findall(r"\{([\w -]+)\}", node):
+
+        def referenced_value(match):
             try:
-                other_value = get_nested(params, match.split(" - "))
-                new_value = node.replace(f"{{{match}}}", other_value)
-                set_nested(params, keys, new_value)
-            except KeyError:
-                pass
+                other_value = get_nested(params, match.group(1).split(" - "))
+            except (KeyError, TypeError):
+                return match.group(0)
+            if isinstance(other_value, dict):
+                return match.group(0)
+            return str(other_value)
+
+        new_value = re.sub(r"\{([\w -]+)\}", referenced_value, node)
+        if new_value != node:
+            set_nested(params, keys, new_value)
 
     recursive_traverse(params, leaf_function, leaf_criterium)
 
-- 
2.43.0


From 4f389d036ce5b4ab56a9d30bd3ea3ceb97fa5979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 03/16] fix: reject not-a-number for numeric and quantity
 settings

---
 mimosa/common/config/utils/parsers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 77df185..677478e 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -172,8 +172,8 @@ class NumParser(GeneralParser):
             self.error(
                 f"Value {value} can not be parsed to a {self.num_type_fct.__name__}"
             )
-        # Check if value within bounds
-        if parsed_value < self.min or parsed_value > self.max:
+        # Check if value within bounds (also false if the value is not a number)
+        if not self.min <= parsed_value <= self.max:
             self.error(
                 f"Value {parsed_value} not within bounds ({self.min}, {self.max})"
             )
@@ -285,6 +285,8 @@ class QuantityParser(GeneralParser):
             UndefinedUnitError,
         ):
             self.error(f"Cannot parse quantity `{value}` to unit `{self.unit}`")
+        if np.isnan(parsed):
+            self.error(f"Quantity `{value}` is not a number")
         return value  # Returns the string, unit will be really converted when instantiating the model
 
     def to_string(self):
-- 
2.43.0


From 4cb884b8ea9b0e8a0713664029a714a963ef3e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 04/16] fix: a numeric setting of zero is not silently turned
 into false

---
 mimosa/common/config/utils/parsers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 677478e..e26921d 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -163,6 +163,12 @@ class NumParser(GeneralParser):
         self.min = node.get("min", -np.inf)
         self.max = node.get("max", np.inf)
 
+    def check_false(self, value):
+        # The number zero is a proper value of a numerical parameter, and doesn't mean false
+        if not isinstance(value, (bool, np.bool_, str)):
+            return False
+        return super().check_false(value)
+
     def parse(self, value):
         if self.check_false(value):
             return False
-- 
2.43.0


From da9012a272395766b389d80dbff055b9cda34efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 05/16] fix: detect unknown settings by their nested position,
 also when empty or containing ' - '

---
 mimosa/common/config/parseconfig.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index e876a63..f92e748 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -66,16 +66,23 @@ def check_obsolete_params(user_yaml, parsed_params, parser_tree):
 
     leaf_criterium = create_leaf_criterium(parser_tree)
 
-    keys_user = set(flatten(user_yaml, leaf_criterium=leaf_criterium))
-    keys_parsed = set(flatten(parsed_params, leaf_criterium=leaf_criterium))
-
     # Check keys which are in user config, but not in parsed file
     # These are obsolete/unused/misspelled parameters
-    num_obsolete = 0
-    for key in set(keys_user) - set(keys_parsed):
-        num_obsolete += 1
-        print(f"Obsolete key: {key}")
-    if num_obsolete > 0:
+    obsolete_keys = []
+
+    def find_obsolete_keys(curr_keys, user_subset, parsed_subset):
+        for key, node in user_subset.items():
+            keys = curr_keys + [key]
+            if key not in parsed_subset:
+                obsolete_keys.append(keys)
+            elif not leaf_criterium(keys, node):
+                find_obsolete_keys(keys, node, parsed_subset[key])
+
+    find_obsolete_keys([], user_yaml, parsed_params)
+
+    for keys in obsolete_keys:
+        print(f"Obsolete key: {' - '.join(map(str, keys))}")
+    if len(obsolete_keys) > 0:
         raise RuntimeWarning("Some config parameters are obsolete.")
 
 
-- 
2.43.0


From a5de25c1a0500fc9c5efe563c6a5b2d8e3a72f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 06/16] fix: the globalcostpool emission trade module can be
 built

The component area_under_MAC and the mitigation cost constraints were moved to the
mitigation module and were redefined here, and the emission allowances needed by
per-capita convergence were missing.
---
 .../emissiontrade/globalcostpool.py           | 33 ++++++++-----------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/mimosa/components/emissiontrade/globalcostpool.py b/mimosa/components/emissiontrade/globalcostpool.py
index d91e013..8719241 100644
--- a/mimosa/components/emissiontrade/globalcostpool.py
+++ b/mimosa/components/emissiontrade/globalcostpool.py
@@ -13,19 +13,17 @@ from mimosa.common import (
     GlobalConstraint,
     RegionalConstraint,
     Constraint,
-    NonNegativeReals,
     quant,
 )
 
-from mimosa.components.mitigation import AC
-
 
 def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """Emission trading equations and constraints
     (global cost pool specification)
 
     Necessary variables:
-        m.mitigation_costs (abatement costs as paid for by this region)
+        m.mitigation_costs (abatement costs as paid for by this region), which are defined in the
+            mitigation module as m.area_under_MAC + m.import_export_mitigation_cost_balance
 
     Returns:
         list of constraints (any of:
@@ -37,22 +35,9 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """
     constraints = []
 
-    m.area_under_MAC = Var(
-        m.t,
-        m.regions,
-        within=NonNegativeReals,
-        initialize=0,
-        units=quant.unit("currency_unit"),
-    )
-
     # The global mitigation cost pool:
     constraints.extend(
         [
-            RegionalConstraint(
-                lambda m, t, r: m.area_under_MAC[t, r]
-                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],
-                "mitigation_costs",
-            ),
             GlobalConstraint(
                 lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)
                 == sum(m.area_under_MAC[t, r] for r in m.regions),
@@ -66,6 +51,9 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     m.paid_for_emission_reductions = Var(
         m.t, m.regions, units=quant.unit("emissionsrate_unit")
     )
+    m.regional_emission_allowances = Var(
+        m.t, m.regions, units=quant.unit("emissionsrate_unit")
+    )
     m.import_export_emission_reduction_balance = Var(
         m.t, m.regions, units=quant.unit("emissionsrate_unit")
     )
@@ -95,10 +83,15 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
                 ),
                 "import_export_emission_reduction_balance",
             ),
+            # Regional emission allowances, equal to baseline minus paid for emission reductions
             RegionalConstraint(
-                lambda m, t, r: m.import_export_mitigation_cost_balance[t, r]
-                == m.mitigation_costs[t, r] - m.area_under_MAC[t, r],
-                "import_export_mitigation_cost_balance",
+                lambda m, t, r: (
+                    m.regional_emission_allowances[t, r]
+                    == m.baseline[t, r] - m.paid_for_emission_reductions[t, r]
+                    if t > 0
+                    else Constraint.Skip
+                ),
+                "regional_emission_allowances",
             ),
         ]
     )
-- 
2.43.0


From 88827d0da8e6132684734e7fee3c2d0ab04698f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 07/16] fix: per-capita convergence builds without emission
 trading

---
 mimosa/components/effortsharing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index 7fddadc..d1b6e78 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -222,10 +222,16 @@ def _get_percapconv_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]
 
     m.percapconv_share = Param(m.t, m.regions, initialize=percapconv_share_rule)
 
+    def regional_allowances(m, t, r):
+        if m.find_component("regional_emission_allowances") is None:
+            # Without emission trading, regions only pay for their own emission reductions
+            return m.regional_emissions[t, r]
+        return m.regional_emission_allowances[t, r]
+
     return [
         RegionalSoftEqualityConstraint(
             lambda m, t, r: m.percapconv_share[t, r] * m.global_emissions[t],
-            lambda m, t, r: m.regional_emission_allowances[t, r],
+            regional_allowances,
             epsilon=None,
             absolute_epsilon=0.001,
             ignore_if=lambda m, t, r: value(m.effort_sharing_regime)
-- 
2.43.0


From d99139d77b5caed36885f53fdc051e371746f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 08/16] fix: scenario data are extended far enough for horizons
 ending after 2200

---
 mimosa/common/data/datastore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/data/datastore.py b/mimosa/common/data/datastore.py
index 8a4082c..00d2bd5 100644
--- a/mimosa/common/data/datastore.py
+++ b/mimosa/common/data/datastore.py
@@ -102,8 +102,8 @@ class DataStore:
             values = quantity.magnitude
             unit = quantity.units
 
-        # 2. Extrapolate this data to beyond 2100
-        extra_years = np.arange(2110, 2260, 10)
+        # 2. Extrapolate this data to beyond 2100 (at least until 2250, or until the end of the horizon)
+        extra_years = np.arange(2110, max(2260, output_years[-1] + 10), 10)
         extended_data = extrapolate(
             values, years, extra_years, [var_info["variable"], region]
         )
-- 
2.43.0


From 4cde58e4da85ef0a0eed47ac66a5072188876882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 09/16] fix: soft-equality constraints can be used without
 ignore_if

---
 mimosa/common/pyomo_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/common/pyomo_utils.py b/mimosa/common/pyomo_utils.py
index fc7760c..6ba3d57 100644
--- a/mimosa/common/pyomo_utils.py
+++ b/mimosa/common/pyomo_utils.py
@@ -147,7 +147,7 @@ class GeneralSoftEqualityConstraint(GeneralConstraint):
         self.absolute_epsilon = absolute_epsilon
 
         if ignore_if is None:
-            ignore_if = lambda m: False  # Never ignore when ignore_if is None
+            ignore_if = lambda *args: False  # Never ignore when ignore_if is None
         self.ignore_if = ignore_if
 
     def rhs_eps(self, rule_rhs, is_upper: bool, *args):
-- 
2.43.0


From dbaeaa3a01b8532b18605dc44017b26628f0e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 10/16] fix: true/false is only accepted for a numeric setting
 where it is documented

---
 mimosa/common/config/utils/parsers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index e26921d..9b82171 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -172,6 +172,8 @@ class NumParser(GeneralParser):
     def parse(self, value):
         if self.check_false(value):
             return False
+        if isinstance(value, (bool, np.bool_)):
+            self.error(f"Value {value} is not a number")
         try:
             parsed_value = self.num_type_fct(value)
         except ValueError:
-- 
2.43.0


From 6e53d77591c0e3e2f8d198c9fd2f3566558abef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 11/16] fix: a quantity setting of zero without unit is not
 silently turned into false

---
 mimosa/common/config/utils/parsers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 9b82171..d170276 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -280,6 +280,12 @@ class QuantityParser(GeneralParser):
         self.unit = node["unit"]
         self.quant = quant
 
+    def check_false(self, value):
+        # The number zero (without unit) is not a valid quantity, and doesn't mean false
+        if not isinstance(value, (bool, np.bool_, str)):
+            return False
+        return super().check_false(value)
+
     def parse(self, value):
         if self.check_false(value):
             return False
-- 
2.43.0


From a7f4764def14ffa87674f422588e131fdafba131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 12/16] fix: parsing settings leaves the user's dictionary
 unchanged

---
 mimosa/common/config/parseconfig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index f92e748..7fc4d5d 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -2,6 +2,7 @@
 Parses the config.yaml file and checks for consistency with the default config template.
 """
 
+import copy
 import re
 
 from mimosa.common.utils import load_yaml
@@ -93,6 +94,9 @@ def load_default_yaml():
 def check_params(input_params, return_parser_tree=False):
     default_yaml = load_default_yaml()
 
+    # Keep the settings independent of the user's own dictionary
+    input_params = copy.deepcopy(input_params)
+
     parsed_params, params_parser_tree = parse_params(
         default_yaml, input_params, return_parser_tree=True
     )
-- 
2.43.0


From cef1ba95229ab2f20f55cae53fbf1a55fa132d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 13/16] fix: custom parameter mappings also apply with combined
 damages

---
 mimosa/concrete_model/instantiate_params.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mimosa/concrete_model/instantiate_params.py b/mimosa/concrete_model/instantiate_params.py
index b1e8b8e..26d40d0 100644
--- a/mimosa/concrete_model/instantiate_params.py
+++ b/mimosa/concrete_model/instantiate_params.py
@@ -49,6 +49,10 @@ class InstantiatedModel:
             # otherwise, the parameter values are set dynamically
             self._set_instance_data_coacch(instance_data)
 
+        ## Custom mapping (overrides all other values)
+        if "custom_mapping" in self.params["simulation"]:
+            instance_data[None].update(self.params["simulation"]["custom_mapping"])
+
         return instance_data
 
     ########################
@@ -121,9 +125,6 @@ class InstantiatedModel:
 
         parameter_mapping.update(parameter_mapping_manual)
 
-        if "custom_mapping" in params["simulation"]:
-            parameter_mapping.update(params["simulation"]["custom_mapping"])
-
         instance_data[None].update(parameter_mapping)
 
     def _set_instance_data_coacch(self, instance_data) -> None:
-- 
2.43.0


From b0ebd8c422dc994bf2eea497ea17db4b0f70ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 14/16] fix: no extra period when rounding makes the number of
 time steps just exceed a whole number

---
 mimosa/concrete_model/instantiate_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mimosa/concrete_model/instantiate_params.py b/mimosa/concrete_model/instantiate_params.py
index 26d40d0..259a973 100644
--- a/mimosa/concrete_model/instantiate_params.py
+++ b/mimosa/concrete_model/instantiate_params.py
@@ -66,7 +66,8 @@ class InstantiatedModel:
         t_start = params["time"]["start"]
         t_end = params["time"]["end"]
         dt = params["time"]["dt"]
-        num_years = int(np.ceil((t_end - t_start) / dt)) + 1
+        # Small tolerance: a rounding error in the division should not add an extra period
+        num_years = int(np.ceil((t_end - t_start) / dt - 1e-9)) + 1
         self.abstract_model.year = lambda t: t_start + t * dt
         year2100 = int((2100 - t_start) / dt)
 
-- 
2.43.0


From 42e2307ee4bff5cf09d64a4bde2b129845f576cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:00 +0000
Subject: [PATCH 15/16] fix: the carbon price states the unit of the MAC curve
 (currency per emissions, not per year)

---
 mimosa/components/mitigation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/components/mitigation.py b/mimosa/components/mitigation.py
index f2c4da7..abd49d4 100644
--- a/mimosa/components/mitigation.py
+++ b/mimosa/components/mitigation.py
@@ -197,7 +197,7 @@ def _get_mac_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
         m.t,
         m.regions,
         bounds=lambda m: (0, 2 * m.MAC_gamma),
-        units=quant.unit("currency_unit/emissions_unit"),
+        units=quant.unit("currency_unit/emissionsrate_unit"),
     )
     constraints.extend(
         [
-- 
2.43.0


From 71f858d9dc08007f716734b8f840f8461b8f2431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:40 +0000
Subject: [PATCH 16/16] fix: unnamed soft-equality constraints no longer share
 one name

---
 mimosa/common/pyomo_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mimosa/common/pyomo_utils.py b/mimosa/common/pyomo_utils.py
index 6ba3d57..862a2a3 100644
--- a/mimosa/common/pyomo_utils.py
+++ b/mimosa/common/pyomo_utils.py
@@ -140,7 +140,9 @@ class GeneralSoftEqualityConstraint(GeneralConstraint):
             epsilon (float, optional): tolerance for upper/lower bounds. Defaults to 0.005.
             ignore_if (typing.Callable): function with parameters m that returns True when constraint should be ignored
         """
-        super().__init__(rule_lhs, [f"{name}_upperbound", f"{name}_lowerbound"])
+        # Without name, add_constraint generates a unique name for each of the two constraints
+        names = [name and f"{name}_{bound}" for bound in ("upperbound", "lowerbound")]
+        super().__init__(rule_lhs, names)
 
         self.rule_rhs = rule_rhs
         self.epsilon = epsilon
-- 
2.43.0

