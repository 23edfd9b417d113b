From 2bff392119cdf77093f491252a735b1e97b74922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:12 +0000
Subject: [PATCH 01/30] fix: register a new attribute key given to
 update_interaction

---
 sawatabi/model/logical_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f528bda..8e318ef 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -255,6 +255,7 @@ class LogicalModel(AbstractModel):
                 attrs_key = f"attributes.{k}"
                 if attrs_key not in self._interactions_array:
                     self._interactions_array[attrs_key] = [np.nan] * self._interactions_length
+                    self._interactions_attrs.append(attrs_key)
                 self._interactions_array[attrs_key][update_idx] = v
         self._interactions_array["timestamp"][update_idx] = timestamp
         self._interactions_array["dirty"][update_idx] = True
-- 
2.43.0


From 15e97c2a5f97808fd0ec4ba6aba3585efb2788fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:12 +0000
Subject: [PATCH 02/30] fix: use the time of the call as the default timestamp
 of update_interaction

---
 sawatabi/model/logical_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 8e318ef..c224af0 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -206,7 +206,7 @@ class LogicalModel(AbstractModel):
         coefficient=None,
         scale=None,
         attributes=None,
-        timestamp=current_time(),
+        timestamp=None,
     ):
         if (not target) and (not name):
             raise ValueError("Either 'target' or 'name' must be specified.")
@@ -219,8 +219,9 @@ class LogicalModel(AbstractModel):
             self._check_argument_type("scale", scale, numbers.Number)
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
-        if timestamp is not None:
-            self._check_argument_type("timestamp", timestamp, (int, float))
+        if timestamp is None:
+            timestamp = current_time()
+        self._check_argument_type("timestamp", timestamp, (int, float))
 
         if target is not None:
             interaction_info = self._get_interaction_info_from_target(target)
-- 
2.43.0


From 102737f4927eb6da5ac4349df9caf23eabe5d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:12 +0000
Subject: [PATCH 03/30] fix: keep attributes when update_interaction falls back
 to adding

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index c224af0..1fa5f27 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -239,7 +239,7 @@ class LogicalModel(AbstractModel):
                 warnings.warn(f"An interaction named '{internal_name}' does not exist yet in the model, but will be added instead of updating it.")
                 _coefficient = 0.0 if coefficient is None else coefficient
                 _scale = 1.0 if scale is None else scale
-                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, timestamp=timestamp)
+                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, attributes=attributes, timestamp=timestamp)
 
         if self._is_removed(internal_name):
             raise ValueError(f"An interaction named '{internal_name}' is already removed.")
-- 
2.43.0


From 20425a57f17c03b8cd373e2a5b52cbebbf2e74f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:12 +0000
Subject: [PATCH 04/30] fix: accept placeholders in update_interaction as
 add_interaction does

---
 sawatabi/model/logical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 1fa5f27..75dd681 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -214,9 +214,9 @@ class LogicalModel(AbstractModel):
             raise ValueError("Both 'target' and 'name' cannot be specified simultaneously.")
 
         if coefficient is not None:
-            self._check_argument_type("coefficient", coefficient, numbers.Number)
+            self._check_argument_type("coefficient", coefficient, (numbers.Number, pyqubo.core.Express, pyqubo.core.Coefficient))
         if scale is not None:
-            self._check_argument_type("scale", scale, numbers.Number)
+            self._check_argument_type("scale", scale, (numbers.Number, pyqubo.core.Express))
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
         if timestamp is None:
-- 
2.43.0


From e269df8637babcaa5f2f15ae681cfebdd84da507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:12 +0000
Subject: [PATCH 05/30] fix: apply the scale of an interaction to every term
 made by a model type conversion

---
 sawatabi/model/logical_model.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 75dd681..b493d11 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -723,7 +723,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
-                self._offset += coeff * 0.5
+                self._offset += coeff * h["scale"] * 0.5
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -731,12 +731,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=coeff * 0.25)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
-                self._offset += coeff * 0.25
+                self._offset += coeff * J["scale"] * 0.25
         else:
             warnings.warn("The model is already an Ising model.")
 
@@ -758,7 +764,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 2.0)
-                self._offset -= coeff
+                self._offset -= coeff * h["scale"]
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -766,12 +772,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
-                self._offset += coeff
+                self._offset += coeff * J["scale"]
         else:
             warnings.warn("The model is already a QUBO model.")
 
-- 
2.43.0


From 6cfca65197aadca47676e14abdd44d9eb3e5cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:12 +0000
Subject: [PATCH 06/30] fix: do not fix already removed interactions in
 fix_variable

---
 sawatabi/model/logical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index b493d11..cb35443 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -390,8 +390,8 @@ class LogicalModel(AbstractModel):
         # TODO: Delete variable physically
         self._fixed[target.label] = True
 
-        # Update related interations
-        selected = self.select_interactions_by_variable(target)
+        # Update related interations (the ones already removed must stay removed)
+        selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]
 
         if len(selected) <= 0:
             warnings.warn("No interactions updated.")
-- 
2.43.0


From f369c5382a273379529f5eb7eae7349b57613975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 07/30] fix: let delete_variable work with any kind of
 constraints in the model

---
 sawatabi/model/constraint/abstract_constraint.py | 6 ++++++
 sawatabi/model/constraint/equality_constraint.py | 4 ++++
 sawatabi/model/logical_model.py                  | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 7197ea2..7c8571d 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -44,6 +44,12 @@ class AbstractConstraint(BaseMixin):
             variables = [variables]
         return set(variables)
 
+    def _discard_variable(self, label):
+        """
+        Removes the variable of the given label if it is in the constraint, and does nothing otherwise.
+        """
+        self._variables = {v for v in self._variables if v.label != label}
+
     def get_constraint_class(self):
         return self._constraint_class
 
diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index 91a13a2..9d84347 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -54,6 +54,10 @@ class EqualityConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables_2 = self._variables_2.difference(variables_set)
 
+    def _discard_variable(self, label):
+        self._variables_1 = {v for v in self._variables_1 if v.label != label}
+        self._variables_2 = {v for v in self._variables_2 if v.label != label}
+
     def get_variables_1(self):
         return self._variables_1
 
diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index cb35443..999b8ef 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -363,7 +363,7 @@ class LogicalModel(AbstractModel):
 
         # Deal with constraints
         for k, v in self.get_constraints().items():
-            v.remove_variable(variables=target)
+            v._discard_variable(target.label)
 
         # Remove related interations
         removed = self.select_interactions_by_variable(target)
-- 
2.43.0


From d8a35af080cef63d5eb2f461f15db0061b811f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 08/30] fix: apply fixed variables to constraints

---
 sawatabi/model/logical_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 999b8ef..167a2d9 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -388,7 +388,7 @@ class LogicalModel(AbstractModel):
                 raise ValueError("'value' must be one of [1, 0] because the model is a QUBO model.")
 
         # TODO: Delete variable physically
-        self._fixed[target.label] = True
+        self._fixed[target.label] = value
 
         # Update related interations (the ones already removed must stay removed)
         selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]
@@ -518,6 +518,10 @@ class LogicalModel(AbstractModel):
         # Resolve constraints, and convert them to the interactions
         for label, constraint in self._constraints.items():
             constraint_model = constraint.to_model()
+            for fixed_label, fixed_value in self._fixed.items():
+                fixed_variable = pyqubo.Binary(fixed_label)
+                if len(constraint_model.select_interactions_by_variable(fixed_variable)) > 0:
+                    constraint_model.fix_variable(fixed_variable, 1 if fixed_value == 1 else 0)
             self.merge(constraint_model)
 
         # group by key
-- 
2.43.0


From 0438d2d7bff35be7e2eb3c06b6eb2c66454a39ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 09/30] fix: restore the logical model when to_physical fails

---
 sawatabi/model/logical_model.py | 68 ++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 167a2d9..f929ede 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -502,9 +502,6 @@ class LogicalModel(AbstractModel):
             placeholder = {}
         physical = PhysicalModel(mtype=self._mtype)
 
-        linear, quadratic = {}, {}
-        will_remove = []
-
         # Save the model before merging constraints to restore it later
         # original_variables = copy.deepcopy(self._variables)  # Variables will not be changed
         original_offset = self._offset
@@ -515,6 +512,42 @@ class LogicalModel(AbstractModel):
         original_interactions_attrs = copy.deepcopy(self._interactions_attrs)
         original_interactions_length = self._interactions_length
 
+        try:
+            will_remove = self._resolve_to_physical(physical, placeholder)
+        finally:
+            # Restore the model before adding constraints
+            # self._variables = original_variables  # Variables were not changed
+            self._offset = original_offset
+            self._deleted = original_deleted
+            self._fixed = original_fixed
+            # self._constraints = original_constraints  # Constraints were not changed
+            self._interactions_array = original_interactions_array
+            self._interactions_attrs = original_interactions_attrs
+            self._interactions_length = original_interactions_length
+
+        # save the last physical model
+        self._previous_physical_model = physical
+
+        # Remove interactions
+        # TODO: Physically remove the logically removed interactions
+        for rm in will_remove:
+            idx = self._interactions_array["name"].index(rm)
+            for k in self._interactions_array.keys():
+                self._interactions_array[k].pop(idx)
+            self._interactions_length -= 1
+
+        # Set dirty flag
+        for i in range(self._interactions_length):
+            # TODO: Calc difference from previous physical model by referencing dirty flags.
+            if self._interactions_array["dirty"][i]:
+                self._interactions_array["dirty"][i] = False
+
+        return physical
+
+    def _resolve_to_physical(self, physical, placeholder):
+        linear, quadratic = {}, {}
+        will_remove = []
+
         # Resolve constraints, and convert them to the interactions
         for label, constraint in self._constraints.items():
             constraint_model = constraint.to_model()
@@ -586,34 +619,7 @@ class LogicalModel(AbstractModel):
                     physical._index_to_label[current_index] = v.label
                     current_index += 1
 
-        # save the last physical model
-        self._previous_physical_model = physical
-
-        # Restore the model before adding constraints
-        # self._variables = original_variables  # Variables were not changed
-        self._offset = original_offset
-        self._deleted = original_deleted
-        self._fixed = original_fixed
-        # self._constraints = original_constraints  # Constraints were not changed
-        self._interactions_array = original_interactions_array
-        self._interactions_attrs = original_interactions_attrs
-        self._interactions_length = original_interactions_length
-
-        # Remove interactions
-        # TODO: Physically remove the logically removed interactions
-        for rm in will_remove:
-            idx = self._interactions_array["name"].index(rm)
-            for k in self._interactions_array.keys():
-                self._interactions_array[k].pop(idx)
-            self._interactions_length -= 1
-
-        # Set dirty flag
-        for i in range(self._interactions_length):
-            # TODO: Calc difference from previous physical model by referencing dirty flags.
-            if self._interactions_array["dirty"][i]:
-                self._interactions_array["dirty"][i] = False
-
-        return physical
+        return will_remove
 
     def merge(self, other):
         self._check_argument_type("other", other, LogicalModel)
-- 
2.43.0


From cb758ada02d394ed7222d7150a4e89b1e67ae647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 10/30] fix: identify removed interactions by position because
 merging constraints may rename them

---
 sawatabi/model/logical_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f929ede..bc777bc 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -530,8 +530,10 @@ class LogicalModel(AbstractModel):
 
         # Remove interactions
         # TODO: Physically remove the logically removed interactions
-        for rm in will_remove:
-            idx = self._interactions_array["name"].index(rm)
+        for idx in reversed(will_remove):
+            if idx >= original_interactions_length:
+                # This comes from a constraint, which has been already restored above
+                continue
             for k in self._interactions_array.keys():
                 self._interactions_array[k].pop(idx)
             self._interactions_length -= 1
@@ -560,7 +562,7 @@ class LogicalModel(AbstractModel):
         # group by key
         for i in range(self._interactions_length):
             if self._interactions_array["removed"][i]:
-                will_remove.append(self._interactions_array["name"][i])
+                will_remove.append(i)
                 continue
 
             # Resolve placeholders for coefficients and scales, using PyQUBO.
-- 
2.43.0


From 929b8a09cd692aab241c7ef805991431b7b5ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:12 +0000
Subject: [PATCH 11/30] fix: do not change models when merge fails, nor the
 given model when it succeeds

---
 sawatabi/model/logical_model.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index bc777bc..0f07568 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -627,7 +627,11 @@ class LogicalModel(AbstractModel):
         self._check_argument_type("other", other, LogicalModel)
 
         # Check type
+        other_id = id(other)
+        other_constraints = other._constraints
         if self._mtype != other._mtype:
+            # Convert a copy so that the given model will not be changed
+            other = copy.deepcopy(other)
             other._convert_mtype()
 
         # Check variables
@@ -636,6 +640,11 @@ class LogicalModel(AbstractModel):
                 if len(value.shape) != len(other._variables[key].shape):
                     raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
 
+        # Check constraints
+        # If both models have a constraint with the same label, cannnot merge currently
+        if len(set(self._constraints.keys()) & set(other_constraints.keys())) > 0:
+            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
+
         # Merge variables
         for key, value in other._variables.items():
             if key not in self._variables:
@@ -666,7 +675,7 @@ class LogicalModel(AbstractModel):
                 if idx < self._interactions_length:
                     model_id = id(self)
                 else:
-                    model_id = id(other)
+                    model_id = other_id
                 merged_interactions_with_duplication["name"][idx] = f"{name} ({model_id})"
 
         self._interactions_array = merged_interactions_with_duplication
@@ -674,10 +683,7 @@ class LogicalModel(AbstractModel):
         self._interactions_length = self._interactions_length + other._interactions_length
 
         # Merge constraints
-        # If both models have a constraint with the same label, cannnot merge currently
-        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
-            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
-        self._constraints.update(other._constraints)
+        self._constraints.update(other_constraints)
 
         # Merge other fields
         self._offset += other._offset
-- 
2.43.0


From 01d788d13752b380039dc0d6811571469948c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 12/30] fix: convert the compiled QUBO to Ising in from_pyqubo
 of an Ising model

---
 sawatabi/model/logical_model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 0f07568..6eea1fb 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -18,6 +18,7 @@ import numbers
 import pprint
 import warnings
 
+import dimod
 import numpy as np
 import pandas as pd
 import pyqubo
@@ -465,7 +466,13 @@ class LogicalModel(AbstractModel):
         compiled_qubo = pyqubo_model.compiled_qubo
         structure = pyqubo_model.structure
 
-        for k, v in compiled_qubo.qubo.items():
+        coefficients, offset = compiled_qubo.qubo, compiled_qubo.offset
+        if self._mtype == constants.MODEL_ISING:
+            # PyQUBO always compiles into a QUBO
+            linear, quadratic, offset = dimod.qubo_to_ising(coefficients, offset)
+            coefficients = {**{(k, k): v for k, v in linear.items()}, **quadratic}
+
+        for k, v in coefficients.items():
             # For the first variable.
             # - structure[k[0]][0] holds the variable name,
             # - structure[k[0]][1:] holds the variable index as tuple.
@@ -491,7 +498,7 @@ class LogicalModel(AbstractModel):
                 # 2-body
                 self.add_interaction(target=(target_0, target_1), coefficient=coeff)
 
-        self._offset = compiled_qubo.offset
+        self._offset = offset
 
     ################################
     # Converts
-- 
2.43.0


From 9bd505ed68cc89ccbf031eb770f452a4e8929833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 13/30] fix: treat zero as a seed in SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 39437be..8cdbd47 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -67,7 +67,7 @@ class SawatabiSolver(AbstractSolver):
                 raise ValueError("reverse_options must contain 'reverse_temperature'")
 
         # Use a rangom generator so that this random sequence is isolated
-        if seed:
+        if seed is not None:
             self._rng = np.random.default_rng(seed)
         else:
             self._rng = np.random.default_rng()
-- 
2.43.0


From 56d953782c2c850728705889f84a90032d5ea5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 14/30] fix: do not overwrite the given initial states in
 SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 8cdbd47..a4e22b1 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -81,10 +81,7 @@ class SawatabiSolver(AbstractSolver):
 
             # Convert initial states as well
             if initial_states:
-                for i, initial_state in enumerate(initial_states):
-                    for k, v in initial_state.items():
-                        if v == 0:
-                            initial_states[i][k] = -1
+                initial_states = [{k: -1 if v == 0 else v for k, v in initial_state.items()} for initial_state in initial_states]
 
         self._model = model
         self._bqm = bqm
-- 
2.43.0


From 87aaec93347192953ad910daf5d71b7560810e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 15/30] fix: take the offset into account in energy_history of
 SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index a4e22b1..fd39a82 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -157,6 +157,8 @@ class SawatabiSolver(AbstractSolver):
         initial_sample = dict(zip(list(self._model._index_to_label.values()), x))
         # logger.info(f"initial_spins: {initial_sample}")
         initial_energy = self._bqm.energy(initial_sample) * -1.0  # Note that the signs of original bqm is opposite from ours
+        # Deal with offset
+        initial_energy += self._original_bqm.offset * 2
         # logger.info(f"initial_energy: {initial_energy}")
 
         if not reverse_options:
@@ -224,9 +226,6 @@ class SawatabiSolver(AbstractSolver):
         # recalc_energy = self._bqm.energy(sample) * -1.0
         # assert math.isclose(energy, recalc_energy, rel_tol=1e-9, abs_tol=1e-9)
 
-        # Deal with offset
-        energy += self._original_bqm.offset * 2
-
         return sample, energy, energy_hist, temperature_hist, acceptance_hist
 
     def calc_energy_diff(self, idx, x):
-- 
2.43.0


From 23a68be59fce665eb78494bcef52806c3953989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 16/30] fix: report the timestamp of the already processed
 event for an outdated event

---
 sawatabi/algorithm/abstract_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 60b28ef..02bb606 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -100,7 +100,7 @@ class AbstractAlgorithm(BaseMixin):
             if float(timestamp) < float(prev_timestamp):
                 yield (
                     f"The received event is outdated: Timestamp is {timestamp.to_utc_datetime()}, "
-                    + f"while an event with timestamp of {timestamp.to_utc_datetime()} has been already processed."
+                    + f"while an event with timestamp of {prev_timestamp.to_utc_datetime()} has been already processed."
                 )
                 return
 
-- 
2.43.0


From d0cd34f50c8b4ca9668137360c920508d3b1d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 17/30] fix: do not take events before the epoch as outdated

---
 sawatabi/algorithm/abstract_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 02bb606..50b1f0c 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -79,7 +79,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Extract the previous timestamp, elements, and model from state
             if len(timestamp_state_as_list) == 0:
-                prev_timestamp = -1.0
+                prev_timestamp = float("-inf")
             else:
                 prev_timestamp = timestamp_state_as_list[-1]
             if len(elements_state_as_list) == 0:
-- 
2.43.0


From 613a16f21c043f1dbc20f818182fad828a06645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 18/30] fix: do not crash the attenuation algorithm on a model
 with no interactions

---
 sawatabi/algorithm/abstract_algorithm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 50b1f0c..91b6986 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -164,9 +164,9 @@ class AbstractAlgorithm(BaseMixin):
             # Attenuation: Update scale based on data timestamp.
             if algorithm == sawatabi.constants.ALGORITHM_ATTENUATION:
                 model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
-                ref_timestamp = model._interactions_array[algorithm_options["attenuation.key"]]
-                min_ts = min(ref_timestamp)
-                max_ts = max(ref_timestamp)
+                ref_timestamp = model._interactions_array.get(algorithm_options["attenuation.key"], [])
+                min_ts = min(ref_timestamp, default=0)
+                max_ts = max(ref_timestamp, default=0)
                 min_scale = algorithm_options["attenuation.min_scale"]
                 if min_ts < max_ts:
                     for i, t in enumerate(ref_timestamp):
-- 
2.43.0


From 727edc5380910e1232599d1248981b4b64a0b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 19/30] fix: do not duplicate elements of overlapping windows
 in the partial algorithm

---
 sawatabi/algorithm/abstract_algorithm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 91b6986..608a1bf 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -112,8 +112,10 @@ class AbstractAlgorithm(BaseMixin):
             # Partial: Merge current window with the specified data.
             elif algorithm == sawatabi.constants.ALGORITHM_PARTIAL:
                 filter_fn = algorithm_options["filter_fn"]
-                filtered = filter(filter_fn, prev_elements)
-                sorted_elements = list(filtered) + sorted_elements
+                # Note: Elements in the overlap of the windows are already in the current window.
+                current_indices = {e[1][0] for e in sorted_elements}
+                filtered = [e for e in filter(filter_fn, prev_elements) if e[1][0] not in current_indices]
+                sorted_elements = filtered + sorted_elements
                 sorted_elements = sorted(sorted_elements)
 
             # Resolve outgoing elements in this iteration
-- 
2.43.0


From 463f4ee67045db78716556438072c8dbffa29fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 20/30] fix: resolve outgoing elements which are filtered out
 in the partial algorithm

---
 sawatabi/algorithm/abstract_algorithm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 608a1bf..881b535 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -119,13 +119,11 @@ class AbstractAlgorithm(BaseMixin):
                 sorted_elements = sorted(sorted_elements)
 
             # Resolve outgoing elements in this iteration
+            # Note: Each element has a unique index. An element kept by filter_fn in the partial algorithm
+            # may be older than the outgoing ones, so timestamps are not enough to tell them.
             def resolve_outgoing(prev_elements, sorted_elements):
-                outgoing = []
-                for p in prev_elements:
-                    if p[0] >= sorted_elements[0][0]:
-                        break
-                    outgoing.append(p)
-                return outgoing
+                current_indices = {e[1][0] for e in sorted_elements}
+                return [p for p in prev_elements if p[1][0] not in current_indices]
 
             outgoing = resolve_outgoing(prev_elements, sorted_elements)
 
-- 
2.43.0


From 971bf3770e1fddeeb6a0bf2c6066c90c76d1efb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:39 +0000
Subject: [PATCH 21/30] fix: enumerate the empty partition in solve_npp_with_dp

---
 sawatabi/utils/npp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/utils/npp.py b/sawatabi/utils/npp.py
index 3012fb4..e383c2b 100644
--- a/sawatabi/utils/npp.py
+++ b/sawatabi/utils/npp.py
@@ -34,7 +34,7 @@ def solve_npp_with_dp(numbers, enumerate_all=False, print_dp_table=False):
 
     # Initialize the top row with True
     for j in range(n + 1):
-        dp[0][j] = (True, [])
+        dp[0][j] = (True, [[]] if enumerate_all else [])
 
     # Initialize the left column with False (except 0)
     for i in range(1, s + 1):
-- 
2.43.0


From 5f775c4c645634bd506a9f2728df24d4bc054344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:49 +0000
Subject: [PATCH 22/30] fix: let a variable in both sets of an equality
 constraint cancel out

---
 sawatabi/model/constraint/equality_constraint.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index 9d84347..0b74ed0 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -65,6 +65,13 @@ class EqualityConstraint(AbstractConstraint):
         return self._variables_2
 
     def to_model(self):
+        common = self._variables_1.intersection(self._variables_2)
+        if common:
+            # A variable in both of the sets cancels out.
+            variables_1 = self._variables_1.difference(common) or None
+            variables_2 = self._variables_2.difference(common) or None
+            return EqualityConstraint(variables_1, variables_2, label=self._label, strength=self._strength).to_model()
+
         model = sawatabi.model.LogicalModel(mtype="qubo")
 
         # Equality constraint:
-- 
2.43.0


From 321762b7f6a2960abecd334d3919cb33b2a99fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:49 +0000
Subject: [PATCH 23/30] fix: keep interaction names unique when merging
 repeatedly

---
 sawatabi/model/logical_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 6eea1fb..f2adcab 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -677,13 +677,19 @@ class LogicalModel(AbstractModel):
         duplicate_names = list(set(self._interactions_array["name"]) & set(other._interactions_array["name"]))
 
         # Rename duplicate interaction names by adding suffix of model id
+        used_names = set(merged_interactions_with_duplication["name"])
         for idx, name in enumerate(merged_interactions_with_duplication["name"]):
             if name in duplicate_names:
                 if idx < self._interactions_length:
                     model_id = id(self)
                 else:
                     model_id = other_id
-                merged_interactions_with_duplication["name"][idx] = f"{name} ({model_id})"
+                unique_name = f"{name} ({model_id})"
+                while unique_name in used_names:
+                    # The name is already taken, for example by a former merge
+                    unique_name = f"{unique_name} ({model_id})"
+                used_names.add(unique_name)
+                merged_interactions_with_duplication["name"][idx] = unique_name
 
         self._interactions_array = merged_interactions_with_duplication
         self._interactions_attrs = merged_attrs
-- 
2.43.0


From 2cbeb01d73c402874b2afef5c69f213e4accef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:55 +0000
Subject: [PATCH 24/30] fix: keep the existing offset when importing a PyQUBO
 expression

---
 sawatabi/model/logical_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f2adcab..6d0eadd 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -498,7 +498,8 @@ class LogicalModel(AbstractModel):
                 # 2-body
                 self.add_interaction(target=(target_0, target_1), coefficient=coeff)
 
-        self._offset = offset
+        # Keep the offset which the model already has
+        self._offset = (self._offset + offset) if self._offset else offset
 
     ################################
     # Converts
-- 
2.43.0


From cf7e0e76b6c68519baefc1383c8eedb837f31b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:51 +0000
Subject: [PATCH 25/30] fix: add nothing when a PyQUBO expression cannot be
 imported

---
 sawatabi/model/logical_model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 6d0eadd..c0252bb 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -472,6 +472,8 @@ class LogicalModel(AbstractModel):
             linear, quadratic, offset = dimod.qubo_to_ising(coefficients, offset)
             coefficients = {**{(k, k): v for k, v in linear.items()}, **quadratic}
 
+        # Resolve all the interactions before adding any of them, so that nothing is added if one is invalid
+        interactions = []
         for k, v in coefficients.items():
             # For the first variable.
             # - structure[k[0]][0] holds the variable name,
@@ -493,10 +495,17 @@ class LogicalModel(AbstractModel):
 
             if k[0] == k[1]:
                 # 1-body
-                self.add_interaction(target=target_0, coefficient=coeff)
+                target = target_0
             else:
                 # 2-body
-                self.add_interaction(target=(target_0, target_1), coefficient=coeff)
+                target = (target_0, target_1)
+            name = self._get_interaction_info_from_target(target)["name"]
+            if self._has_name(name):
+                raise ValueError(f"An interaction named '{name}' already exists or is already removed. Cannot add the same name.")
+            interactions.append((target, coeff))
+
+        for target, coeff in interactions:
+            self.add_interaction(target=target, coefficient=coeff)
 
         # Keep the offset which the model already has
         self._offset = (self._offset + offset) if self._offset else offset
-- 
2.43.0


From 70720fbff0d85998aceac1277102c16ec917844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:51 +0000
Subject: [PATCH 26/30] fix: fix variables also when the name of the remaining
 interaction is taken

---
 sawatabi/model/logical_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index c0252bb..9366d95 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -418,6 +418,9 @@ class LogicalModel(AbstractModel):
                     elif interacts[1].label == target.label:
                         interacts_to = interacts[0]
                     new_name = f"{interacts_to.label} (before fixed: {s})"
+                    while self._has_name(new_name):
+                        # The name is already taken, for example by a former fix
+                        new_name = f"{interacts_to.label} (before fixed: {new_name})"
                     new_coefficient = value * self._interactions_array["coefficient"][idx] * self._interactions_array["scale"][idx]
                     self.add_interaction(target=interacts_to, name=new_name, coefficient=new_coefficient)
                     self.remove_interaction(name=s)
-- 
2.43.0


From be07cd58b00a64a8937bda85fb16c48f7b96fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:59 +0000
Subject: [PATCH 27/30] fix: refuse empty reverse options with the same error
 as incomplete ones

An empty dict passed the check and failed later with a KeyError.
---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index fd39a82..288115a 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -59,7 +59,7 @@ class SawatabiSolver(AbstractSolver):
         if pickup_mode not in allowed_pickup_mode:
             raise ValueError(f"pickup_mode must be one of {allowed_pickup_mode}")
 
-        if reverse_options:
+        if reverse_options is not None:
             self._check_argument_type("reverse_options", reverse_options, dict)
             if "reverse_period" not in reverse_options:
                 raise ValueError("reverse_options must contain 'reverse_period'")
-- 
2.43.0


From 6cb456fcab58c99066ca26cb7d36e91284005cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:35 +0000
Subject: [PATCH 28/30] fix: convert models repeatedly also when the clock has
 not advanced

---
 sawatabi/model/logical_model.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 9366d95..d6f4d87 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -749,6 +749,13 @@ class LogicalModel(AbstractModel):
                 else:
                     self._interactions_array["interacts"][index] = pyqubo.Binary(interaction["interacts"].label)
 
+    def _get_mtype_additional_name(self, key, name):
+        additional_name = f"{key} from {name} (mtype additional {current_time()})"
+        while self._has_name(additional_name):
+            # The name is already taken if the clock has not advanced since a former conversion
+            additional_name = f"{additional_name} (mtype additional)"
+        return additional_name
+
     def to_ising(self):
         """
         For h:
@@ -776,13 +783,13 @@ class LogicalModel(AbstractModel):
                 self.update_interaction(name=J["name"], coefficient=coeff * 0.25)
                 self.add_interaction(
                     target=J["interacts"][0],
-                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_mtype_additional_name(J["key_0"], J["name"]),
                     coefficient=coeff * 0.25,
                     scale=J["scale"],
                 )
                 self.add_interaction(
                     target=J["interacts"][1],
-                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_mtype_additional_name(J["key_1"], J["name"]),
                     coefficient=coeff * 0.25,
                     scale=J["scale"],
                 )
@@ -817,13 +824,13 @@ class LogicalModel(AbstractModel):
                 self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
                 self.add_interaction(
                     target=J["interacts"][0],
-                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_mtype_additional_name(J["key_0"], J["name"]),
                     coefficient=-coeff * 2.0,
                     scale=J["scale"],
                 )
                 self.add_interaction(
                     target=J["interacts"][1],
-                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_mtype_additional_name(J["key_1"], J["name"]),
                     coefficient=-coeff * 2.0,
                     scale=J["scale"],
                 )
-- 
2.43.0


From ff40e3062bb3a710118a0ce5bc4edb9effb1fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:35 +0000
Subject: [PATCH 29/30] fix: report late elements of a sliding window as
 incoming

---
 sawatabi/algorithm/abstract_algorithm.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 881b535..b9c1282 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -128,16 +128,10 @@ class AbstractAlgorithm(BaseMixin):
             outgoing = resolve_outgoing(prev_elements, sorted_elements)
 
             # Resolve incoming elements in this iteration
+            # Note: An element which arrived late may be older than the previous ones.
             def resolve_incoming(prev_elements, sorted_elements):
-                incoming = []
-                if len(prev_elements) == 0:
-                    incoming = sorted_elements
-                else:
-                    for v in reversed(sorted_elements):
-                        if v[0] <= prev_elements[-1][0]:
-                            break
-                        incoming.insert(0, v)
-                return incoming
+                prev_indices = {p[1][0] for p in prev_elements}
+                return [e for e in sorted_elements if e[1][0] not in prev_indices]
 
             incoming = resolve_incoming(prev_elements, sorted_elements)
 
-- 
2.43.0


From 71fe21fa89cdffedda000c0a751e6af775c7c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:35 +0000
Subject: [PATCH 30/30] fix: merge constraints as copies so that the two models
 stay independent

---
 sawatabi/model/logical_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index d6f4d87..edf288d 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -709,7 +709,8 @@ class LogicalModel(AbstractModel):
         self._interactions_length = self._interactions_length + other._interactions_length
 
         # Merge constraints
-        self._constraints.update(other_constraints)
+        # Note: Copy them so that editing them in one of the models (such as deleting a variable) will not change the other.
+        self._constraints.update({k: copy.copy(v) for k, v in other_constraints.items()})
 
         # Merge other fields
         self._offset += other._offset
-- 
2.43.0

