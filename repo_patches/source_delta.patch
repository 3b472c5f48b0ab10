From 178cb4fca2aaa6ecd82c362382709e6aac6bdffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:43 +0000
Subject: [PATCH 01/55] fix: do not treat And and Or conjunctions over the same
 conditions as equivalent

Hyperparameters guarded by an AndConjunction and an OrConjunction with the same
components were grouped under one condition, so one of them got the activity of
the other.
---
 src/ConfigSpace/conditions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index f7bd20d..3e517e5 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -459,7 +459,7 @@ class Conjunction:
 
     def equivalent_condition_on_parent(self, other: ConditionLike) -> bool:
         # Not entirely true but it's a good enough approximation
-        if not isinstance(other, Conjunction):
+        if not isinstance(other, self.__class__):
             return False
 
         if len(self.components) != len(other.components):
@@ -470,6 +470,9 @@ class Conjunction:
         return all(
             any(c.equivalent_condition_on_parent(o) for o in other.components)
             for c in self.components
+        ) and all(
+            any(o.equivalent_condition_on_parent(c) for c in self.components)
+            for o in other.components
         )
 
     @abstractmethod
-- 
2.43.0


From 849fb64a963967fd9784cdf10c49b9fba631f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:43 +0000
Subject: [PATCH 02/55] fix: a not-equals condition on an inactive parent is
 not satisfied

The vector form compared nan with the value, which is always unequal, so the
child became active although its parent was not.
---
 src/ConfigSpace/conditions.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index 3e517e5..6460f61 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -239,6 +239,17 @@ class NotEqualsCondition(BinaryOpCondition):
     _OP = operator.ne
     _VECTOR_OP = operator.ne
 
+    # NOTE: An inactive parent is encoded as nan, which is "not equal" to anything
+    @override
+    def satisfied_by_vector(self, vector: Array[f64]) -> bool:
+        parent_value = vector[self.parent_vector_id]
+        return bool(not np.isnan(parent_value) and parent_value != self.vector_value)
+
+    @override
+    def satisfied_by_vector_array(self, arr: Array[f64]) -> Mask:
+        vector = arr[self.parent_vector_id]
+        return ~np.isnan(vector) & (vector != self.vector_value)
+
 
 class LessThanCondition(BinaryOpCondition):
     """Hyperparameter `child` is conditional on the `parent` hyperparameter
-- 
2.43.0


From 0c99166a8f462a031fabd15a8245cd54111a5be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:43 +0000
Subject: [PATCH 03/55] fix: report a hyperparameter active when an Or
 condition holds through one parent

get_active_hyperparameters declared a hyperparameter inactive as soon as any
parent was inactive, contradicting validation and sampling for disjunctions.
---
 src/ConfigSpace/configuration_space.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index c0c0ecc..a9959e1 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -512,17 +512,6 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             active = True
             for condition in conditions:
-                parent_vector_idx: np.intp | Array[np.intp]
-                if isinstance(condition, Conjunction):
-                    assert condition.parent_vector_ids is not None
-                    parent_vector_idx = condition.parent_vector_ids
-                else:
-                    parent_vector_idx = np.asarray(condition.parent_vector_id)
-
-                if np.isnan(vector[parent_vector_idx]).any():
-                    active = False
-                    break
-
                 if not condition.satisfied_by_vector(vector):
                     active = False
                     break
-- 
2.43.0


From d5cb15e005357ece3f72211e9ee225bc84edd7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:23 +0000
Subject: [PATCH 04/55] fix: evaluate conditions only after those that decide
 on their parents

Conditions were ordered by their shallowest parent, so a conjunction with
parents at different depths was evaluated before its deeper parent got
deactivated. Sampling then returned inactive hyperparameters with values.
---
 src/ConfigSpace/_condition_tree.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 30fbac9..41745e8 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -589,10 +589,12 @@ class DAG:
             if a is not b:
                 assert a.unique_children.keys().isdisjoint(b.unique_children.keys())
 
-        def shallowest_parent(_x: ConditionNode) -> int:
-            return min(self.nodes[_p].maximum_depth for _p in _x.node_parents())
+        # By sorting on the deepest parent, we know that once we evaluate a condition,
+        # the conditions that decide on the activity of its parents came before.
+        def deepest_parent(_x: ConditionNode) -> int:
+            return max(self.nodes[_p].maximum_depth for _p in _x.node_parents())
 
-        self.minimum_conditions = sorted(minimum_conditions, key=shallowest_parent)
+        self.minimum_conditions = sorted(minimum_conditions, key=deepest_parent)
 
         condition_trees = {id(c): c for c in self.minimum_conditions}
         updated = True
@@ -605,12 +607,12 @@ class DAG:
 
                 if b.depends_on(a):
                     a.dependants.append(b)
-                    a.dependants = sorted(a.dependants, key=shallowest_parent)
+                    a.dependants = sorted(a.dependants, key=deepest_parent)
                     if id(b) in condition_trees:
                         condition_trees.pop(id(b))
                     updated = True
 
-        sorted_condition_trees = sorted(condition_trees.values(), key=shallowest_parent)
+        sorted_condition_trees = sorted(condition_trees.values(), key=deepest_parent)
 
         # Now we go through the trees and update the lookup
         # Note that it's possible to have reconverging paths, i.e.
@@ -627,7 +629,7 @@ class DAG:
                     self.change_hp_lookup[parent].extend([tree, *tree.dependants])
                     self.change_hp_lookup[parent] = sorted(
                         self.change_hp_lookup[parent],
-                        key=shallowest_parent,
+                        key=deepest_parent,
                     )
 
             trees.extend(tree.dependants)
-- 
2.43.0


From 18a32f4c2623cadc2c189f3fe4a2e9d557b0c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:23 +0000
Subject: [PATCH 05/55] fix: re-evaluate every condition a changed
 hyperparameter can affect

The lookup used when changing a value missed transitive dependants and did not
order reconverging ones, so setting a legal value could fail or leave
hyperparameters with the wrong activity.
---
 src/ConfigSpace/_condition_tree.py | 52 +++++++++++-------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 41745e8..52238df 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -31,7 +31,6 @@ manage at the time that remains efficient.
 
 from __future__ import annotations
 
-from collections import deque
 from contextlib import contextmanager
 from dataclasses import dataclass, field
 from itertools import chain, product
@@ -596,43 +595,28 @@ class DAG:
 
         self.minimum_conditions = sorted(minimum_conditions, key=deepest_parent)
 
-        condition_trees = {id(c): c for c in self.minimum_conditions}
-        updated = True
-        while updated:
-            updated = False
-            values: list[ConditionNode] = list(condition_trees.values())
-            for a, b in product(values, values):
-                if a is b:
-                    continue
-
+        # Conditions which may change because of another one, directly or transitively.
+        # They come later in the order above.
+        for i, a in enumerate(self.minimum_conditions):
+            for b in self.minimum_conditions[i + 1 :]:
                 if b.depends_on(a):
                     a.dependants.append(b)
-                    a.dependants = sorted(a.dependants, key=deepest_parent)
-                    if id(b) in condition_trees:
-                        condition_trees.pop(id(b))
-                    updated = True
 
-        sorted_condition_trees = sorted(condition_trees.values(), key=deepest_parent)
-
-        # Now we go through the trees and update the lookup
-        # Note that it's possible to have reconverging paths, i.e.
-        # the same condition node might appear when starting from two
-        # different roots.
+        # Now we update the lookup, i.e. all the conditions to evaluate once the value
+        # of a hyperparameter changed. Note that it's possible to have reconverging
+        # paths, i.e. the same condition node might be reached in multiple ways.
         self.change_hp_lookup: dict[str, list[ConditionNode]] = {}
-        trees: deque[ConditionNode] = deque(sorted_condition_trees)
-        while trees:
-            tree = trees.popleft()
-            for parent in tree.node_parents():
-                if parent not in self.change_hp_lookup:
-                    self.change_hp_lookup[parent] = [tree, *tree.dependants]
-                else:
-                    self.change_hp_lookup[parent].extend([tree, *tree.dependants])
-                    self.change_hp_lookup[parent] = sorted(
-                        self.change_hp_lookup[parent],
-                        key=deepest_parent,
-                    )
-
-            trees.extend(tree.dependants)
+        for name in self.nodes:
+            affected = {
+                id(node)
+                for c in self.minimum_conditions
+                if name in c.node_parents()
+                for node in (c, *c.dependants)
+            }
+            if affected:
+                self.change_hp_lookup[name] = [
+                    c for c in self.minimum_conditions if id(c) in affected
+                ]
 
     @property
     def forbiddens(self) -> list[ForbiddenLike]:
-- 
2.43.0


From 659659628095d9a0ab73cf36b0fe183e0d99488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:23 +0000
Subject: [PATCH 06/55] fix: keep the forbidden clauses of a node independent
 of insertion order

Clauses were appended to the nodes on every update and never reset, so two
spaces with the same clauses added in a different order were not equal.
---
 src/ConfigSpace/_condition_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 52238df..ff5753a 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -490,6 +490,10 @@ class DAG:
             dtype=f64,
         )
 
+        # These are populated again below, independent of the order of insertion
+        for node in nodes.values():
+            node.forbiddens = []
+
         # Sort out forbiddens based on whether they are unconditional or conditional
         unconditional_forbiddens = []
         conditional_forbiddens = []
-- 
2.43.0


From 432ba3fb953b9d2c43ff0acf452facc27381f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:23 +0000
Subject: [PATCH 07/55] fix: copy the hyperparameter when copying a forbidden
 clause

Adding a space to another one renames the hyperparameters of the copied
clauses. As these were shared, the hyperparameters of the source got renamed.
---
 src/ConfigSpace/forbidden.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/forbidden.py b/src/ConfigSpace/forbidden.py
index 5eb535d..050b427 100644
--- a/src/ConfigSpace/forbidden.py
+++ b/src/ConfigSpace/forbidden.py
@@ -360,7 +360,10 @@ class ForbiddenEqualsClause(ForbiddenClause):
         return f"Forbidden: {self.hyperparameter.name} == {self.value!r}"
 
     def __copy__(self) -> Self:
-        return self.__class__(hyperparameter=self.hyperparameter, value=self.value)
+        return self.__class__(
+            hyperparameter=copy(self.hyperparameter),
+            value=self.value,
+        )
 
     @override
     def is_forbidden_value(self, values: dict[str, Any]) -> bool:
@@ -452,7 +455,10 @@ class ForbiddenInClause(ForbiddenClause):
         return all(value in other.values for value in self.values)
 
     def __copy__(self) -> Self:
-        return self.__class__(hyperparameter=self.hyperparameter, values=self.values)
+        return self.__class__(
+            hyperparameter=copy(self.hyperparameter),
+            values=self.values,
+        )
 
     @override
     def is_forbidden_value(self, values: dict[str, Any]) -> bool:
-- 
2.43.0


From a9901916f8208c02232e827713e76a8e93d5ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:23 +0000
Subject: [PATCH 08/55] fix: keep nested conjunctions when substituting
 hyperparameters in conditions

Substitution flattened nested conjunctions to the type of the outermost one,
which changed the meaning of the condition.
---
 src/ConfigSpace/configuration_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index a9959e1..ca25f6d 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -711,7 +711,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
         for condition in conditions:
             if isinstance(condition, Conjunction):
                 conjunction_type = type(condition)
-                children = condition.dlcs
+                children = condition.components
                 substituted_children = (
                     ConfigurationSpace.substitute_hyperparameters_in_conditions(
                         children,
-- 
2.43.0


From 3e4412a2b73ef616ac11aadd61c8d769e6f144e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:23 +0000
Subject: [PATCH 09/55] fix: do not modify the serialized dict when creating a
 space from it

Decoding popped the type of each item, so the same dict could not be used
twice.
---
 src/ConfigSpace/configuration_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index ca25f6d..f0c7e61 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -1023,6 +1023,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
                 cs: ConfigurationSpace,
                 _dec: _Decoder,
             ) -> Any:
+                item = dict(item)
                 _type = item.pop("type", None)
                 if _type is None:
                     raise KeyError(
-- 
2.43.0


From ea91bbe3b854f00cbdbf895990837d501b3e449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:49 +0000
Subject: [PATCH 10/55] fix: leave the space unchanged when adding to it fails

A rejected hyperparameter, condition or forbidden clause left everything added
before it in the same call, including links of a cyclic condition and clauses
that forbid the default configuration.
---
 src/ConfigSpace/_condition_tree.py     | 27 +++++++++++++++++++++
 src/ConfigSpace/configuration_space.py | 33 ++++++++++++++++----------
 2 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index ff5753a..382e384 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -622,6 +622,33 @@ class DAG:
                     c for c in self.minimum_conditions if id(c) in affected
                 ]
 
+    def copy(self) -> DAG:
+        """Copy of the structure, without what is cached by an update."""
+        nodes = {
+            name: HPNode(
+                node.hp,
+                idx=node.idx,
+                maximum_depth=node.maximum_depth,
+                parent_condition=node.parent_condition,
+            )
+            for name, node in self.nodes.items()
+        }
+        for name, node in self.nodes.items():
+            nodes[name].children = {
+                child: (nodes[child], cond)
+                for child, (_, cond) in node.children.items()
+            }
+            nodes[name].parents = {
+                parent: (nodes[parent], cond)
+                for parent, (_, cond) in node.parents.items()
+            }
+
+        return DAG(
+            nodes=nodes,
+            unconditional_forbiddens=list(self.unconditional_forbiddens),
+            conditional_forbiddens=list(self.conditional_forbiddens),
+        )
+
     @property
     def forbiddens(self) -> list[ForbiddenLike]:
         """Get all the forbidden clauses in the DAG."""
diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index f0c7e61..febd9bc 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -337,18 +337,27 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
         for a in args:
             _put_to_list(a)
 
-        with self._dag.update():
-            for hp in hps:
-                self._dag.add(hp)
-
-            for condition in conditions:
-                self._dag.add_condition(condition)
-
-            for forbidden in forbiddens:
-                self._dag.add_forbidden(forbidden)
-
-        self._len = len(self._dag.nodes)
-        self._check_default_configuration()
+        previous = self._dag.copy()
+        try:
+            with self._dag.update():
+                for hp in hps:
+                    self._dag.add(hp)
+
+                for condition in conditions:
+                    self._dag.add_condition(condition)
+
+                for forbidden in forbiddens:
+                    self._dag.add_forbidden(forbidden)
+
+            self._len = len(self._dag.nodes)
+            self._check_default_configuration()
+        except Exception:
+            # Nothing of a failed addition should remain
+            with previous.update():
+                pass
+            self._dag = previous
+            self._len = len(previous.nodes)
+            raise
 
     def add_configuration_space(
         self,
-- 
2.43.0


From 9038cb21044b7c5ed251e7967e095b09ef64a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:49 +0000
Subject: [PATCH 11/55] fix: leave the space unchanged when adding a nested
 space fails

The nested hyperparameters stayed in the space when the condition on the parent
hyperparameter was rejected afterwards.
---
 src/ConfigSpace/configuration_space.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index febd9bc..8c48c6f 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -435,24 +435,19 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
                     forb_dlc.hyperparameter.name = _new_name(forb_dlc.hyperparameter)
             forbiddens_to_add.append(new_forbidden)
 
-        self.add(new_parameters, conditions_to_add, forbiddens_to_add)
-
         # Finally, we may need to add conditions to the added search space
-        conditions_to_add = []
         if parent_hyperparameter is not None:
             parent = parent_hyperparameter["parent"]
             value = parent_hyperparameter["value"]
 
             # Only add a condition if the parameter is a top-level parameter of the new
             # configuration space (this will be some kind of tree structure).
-            root_params = [
-                hp for hp in new_parameters if len(self.parents_of[hp.name]) == 0
-            ]
+            conditional = {condition.child.name for condition in conditions_to_add}
+            root_params = [hp for hp in new_parameters if hp.name not in conditional]
             for param in root_params:
                 conditions_to_add.append(EqualsCondition(param, parent, value))
 
-        if len(conditions_to_add) > 0:
-            self.add(conditions_to_add)
+        self.add(new_parameters, conditions_to_add, forbiddens_to_add)
 
         return configuration_space
 
-- 
2.43.0


From ababeb81a99a00bebfdfb9b8c28a395ee70213f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:49 +0000
Subject: [PATCH 12/55] fix: check that vector values of unconditional
 hyperparameters are legal

Validation only looked at the legality of conditional hyperparameters.
---
 src/ConfigSpace/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index f93baab..823f93c 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -580,6 +580,9 @@ def check_configuration(  # noqa: D103
         if not activated[hp_idx]:
             raise ActiveHyperparameterNotSetError(root.hp)
 
+        if not root.hp._transformer.legal_vector_single(vector[hp_idx]):
+            raise IllegalVectorizedValueError(root.hp, vector[hp_idx])
+
     for cnode in space._dag.minimum_conditions:
         # Everything for the condition is satisfied, make sure active
         # hyperparameters are set, legal and not forbidden
-- 
2.43.0


From d850c7ce4425107209c93f5936118277bf71de92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:49 +0000
Subject: [PATCH 13/55] fix: do not generate neighbors that violate forbiddens
 of activated children

Only the forbidden clauses on the changed hyperparameter were checked, while
the change can activate others at a forbidden default value.
---
 src/ConfigSpace/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 823f93c..45a5301 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -326,7 +326,9 @@ def get_one_exchange_neighbourhood(
             )
 
             is_valid = True
-            for forbidden in space._dag.forbidden_lookup.get(hp_name, []):
+            # The change may have activated other hyperparameters, which can violate
+            # forbiddens that do not involve this hyperparameter.
+            for forbidden in space._dag.fast_forbidden_checks:
                 if forbidden.is_forbidden_vector(new_arr):
                     is_valid = False
                     break
-- 
2.43.0


From 101867f0f609a1e039de271b5c8c115094634ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:49 +0000
Subject: [PATCH 14/55] fix: a condition on a parent without a value is not
 satisfied

Evaluating a condition on values raised a KeyError if the inactive parent was
left out, which made generating a grid fail for conjunctions with parents that
are not active at the same time.
---
 src/ConfigSpace/conditions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index 6460f61..7dbd384 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -165,7 +165,7 @@ class BinaryOpCondition(Condition):
         return self._VECTOR_OP(vector, self.vector_value)
 
     def satisfied_by_value(self, values: dict[str, Any]) -> bool:
-        value = values[self.parent.name]
+        value = values.get(self.parent.name, NotSet)
         if value is NotSet:
             return False
 
@@ -370,7 +370,7 @@ class InCondition(Condition):
         return np.isin(vector, self.vector_values)
 
     def satisfied_by_value(self, values: dict[str, Any]) -> bool:
-        value = values[self.parent.name]
+        value = values.get(self.parent.name, NotSet)
         if value is NotSet:
             return False
         return bool(value in self.values)
-- 
2.43.0


From fe4e64453dfa91337b7a10cbe187acded7631cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:49 +0000
Subject: [PATCH 15/55] fix: deactivate all inactive hyperparameters of a
 configuration

Descendants of a hyperparameter without a value were skipped, intermediate
configurations could be rejected because of values that were still to be
removed, and giving both a configuration and a vector raised an error.
---
 src/ConfigSpace/util.py | 68 ++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 48 deletions(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 45a5301..5d8d7b3 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -38,6 +38,7 @@ from ConfigSpace import Configuration
 from ConfigSpace.exceptions import (
     ActiveHyperparameterNotSetError,
     ForbiddenValueError,
+    IllegalValueError,
     IllegalVectorizedValueError,
     InactiveHyperparameterSetError,
     NoPossibleNeighborsError,
@@ -458,58 +459,29 @@ def deactivate_inactive_hyperparameters(
         that inactivate hyperparameters have been removed.
     """
     space = configuration_space
-    hyperparameters = list(space.values())
-    config = Configuration(
-        configuration_space=configuration_space,
-        values=configuration,
-        vector=vector,
-        allow_inactive_with_values=True,
-    )
+    if configuration is None:
+        configuration = dict(Configuration(space, vector=vector))
 
-    hps: deque[Hyperparameter] = deque()
-    hps.extendleft(
-        [
-            space[hp]
-            for hp in space.unconditional_hyperparameters
-            if len(space.children_of[hp]) > 0
-        ],
-    )
+    arr = np.full(len(space), np.nan)
+    for hp_name, value in configuration.items():
+        if hp_name not in space or value is NotSet:
+            continue
+        if not space[hp_name].legal_value(value):
+            raise IllegalValueError(space[hp_name], value)
+        arr[space.index_of[hp_name]] = space[hp_name].to_vector(value)
 
+    # Parents always come before their children
     inactive = set()
+    for hp_name in space:
+        for condition in space.parent_conditions_of[hp_name]:
+            if not condition.satisfied_by_vector(arr):
+                arr[space.index_of[hp_name]] = np.nan
+                inactive.add(hp_name)
 
-    while len(hps) > 0:
-        hp = hps.pop()
-        for child in space.children_of[hp.name]:
-            for condition in space.parent_conditions_of[child.name]:
-                if not condition.satisfied_by_vector(config.get_array()):
-                    dic = dict(config)
-                    try:
-                        del dic[child.name]
-                    except KeyError:
-                        continue
-
-                    config = Configuration(
-                        configuration_space=space,
-                        values=dic,
-                        allow_inactive_with_values=True,
-                    )
-                    inactive.add(child.name)
-                hps.appendleft(child)
-
-    for hp in hyperparameters:
-        if hp.name in inactive:
-            dic = dict(config)
-            try:
-                del dic[hp.name]
-            except KeyError:
-                continue
-            config = Configuration(
-                configuration_space=configuration_space,
-                values=dic,
-                allow_inactive_with_values=True,
-            )
-
-    return Configuration(configuration_space, values=dict(config))
+    return Configuration(
+        space,
+        values={k: v for k, v in configuration.items() if k not in inactive},
+    )
 
 
 def fix_types(
-- 
2.43.0


From 24fe49d89d76f85c95e389b7d6be2a16957952e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:49 +0000
Subject: [PATCH 16/55] fix: raise when all random neighbors of a configuration
 are rejected

The documented limit of 10000 rejections was not implemented, the function did
not return if changing any single value gives an invalid configuration.
---
 src/ConfigSpace/util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 5d8d7b3..94a7d91 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -377,6 +377,7 @@ def get_random_neighbor(configuration: Configuration, seed: int) -> Configuratio
     """
     random = np.random.RandomState(seed)
     rejected = True
+    n_rejected = 0
     values = copy.deepcopy(dict(configuration))
     new_configuration = None
 
@@ -428,6 +429,11 @@ def get_random_neighbor(configuration: Configuration, seed: int) -> Configuratio
             rejected = False
         except ValueError:
             values[hp.name] = previous_value
+            n_rejected += 1
+            if n_rejected > 10000:
+                raise ValueError(
+                    "Rejected more than 10000 neighbors, there is probably none.",
+                ) from None
 
     assert new_configuration is not None
     return new_configuration
-- 
2.43.0


From c215e3b1b648f2efb1d0791791989fa550de74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:49 +0000
Subject: [PATCH 17/55] fix: equal configurations have equal hashes

The hash was taken from the representation, which differs for equal values of
different types, e.g. those of a sampled configuration are numpy scalars.
---
 src/ConfigSpace/configuration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index 1b556f7..c794330 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -245,7 +245,12 @@ class Configuration(Mapping[str, Any]):
         return NotImplemented
 
     def __hash__(self) -> int:
-        return hash(self.__repr__())
+        # Must not depend on the representation of values, e.g. `np.str_("a") == "a"`
+        try:
+            return hash(frozenset(self.items()))
+        except TypeError:
+            # Some value is not hashable
+            return hash(frozenset(self.keys()))
 
     def __str__(self) -> str:
         values = dict(self)
-- 
2.43.0


From 2358915a9fb6fd0b5565988f96b9539dc5648781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:14 +0000
Subject: [PATCH 18/55] fix: all neighbors of a discretized distribution are on
 its steps

When all neighbors were requested, those below the center were spread over one
step too many, i.e. they were no integers for normal and beta hyperparameters.
---
 src/ConfigSpace/hyperparameters/distributions.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 993e72a..c4a1cb4 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -656,16 +656,9 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
 
                 top = self.transformer.to_vector(top_orig)
             else:
-                stepsize = (upper - lower) / (self.steps - 1)
-
-                # Edge case for when qcenter is the lower bound
-                steps_to_take = int((qvector - lower) / stepsize) + 1
-                if steps_to_take == 1:
-                    bottom = np.array([])
-                else:
-                    bottom = np.linspace(lower, qvector, steps_to_take, endpoint=False)
-
-                top = np.linspace(qvector + stepsize, upper, steps - steps_to_take)
+                index = int(np.rint((qvector - lower) / (upper - lower) * n_available))
+                bottom = np.arange(index) / n_available * (upper - lower) + lower
+                top = np.arange(index + 1, steps) / n_available * (upper - lower) + lower
 
             return np.concatenate((bottom, top))
 
-- 
2.43.0


From b6a74c895e8035ade9a5b26efb6795aabd37467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:42 +0000
Subject: [PATCH 19/55] fix: one vector representation for each value of
 log-scaled integers

Sampled and neighboring vectors could differ in the last digits from the vector
of the same integer, so conditions and forbiddens on that integer were missed.
---
 .../hyperparameters/distributions.py          | 37 ++++++-------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index c4a1cb4..273331c 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -532,14 +532,19 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
         if not self.log_scale:
             return quantize(x, bounds=vectorized_bounds, bins=self.steps)
 
+        assert self.transformer is not None
         assert self.original_value_scale
-        return quantize_log(
+        quantized = quantize_log(
             x,
             bounds=vectorized_bounds,
             scale_slice=(self.original_value_scale),
             bins=self.steps,
         )
 
+        # Going through the log scale is not exact, while there should be one
+        # vectorized representation for each value.
+        return self.transformer.to_vector(self.transformer.to_value(quantized))
+
     def pdf_vector(self, vector: Array[f64]) -> Array[f64]:
         """Calculate the probability density function (pdf) of all elements in `vector`.
 
@@ -629,31 +634,13 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
                 qvector_orig: DType = self.transformer.to_value(np.array([qvector]))[0]
 
                 # Now we can calculate the stepsize between the original values
-                # and hence see where qhigh and qlow lie in the original space to
-                # calculate how many intermediate steps we need.
-                stepsize = (orig_high - orig_low) / (self.steps - 1)
-
-                # Edge case for when qcenter is the lower bound
-                steps_to_take = int((qvector_orig - orig_low) / stepsize) + 1
-                if steps_to_take == 1:
-                    bottom = np.array([])
-                else:
-                    bottom_orig = np.linspace(
-                        orig_low,  # type: ignore
-                        qvector_orig,  # type: ignore
-                        steps_to_take - 1,
-                        endpoint=False,
-                        dtype=f64,
-                    )
-                    bottom = self.transformer.to_vector(bottom_orig)
-
-                top_orig = np.linspace(
-                    qvector_orig + stepsize,
-                    orig_high,  # type: ignore
-                    steps - steps_to_take,
-                    dtype=f64,
-                )
+                # and hence see where qvector lies in the original space.
+                stepsize = (orig_high - orig_low) / n_available
+                index = int(np.rint((qvector_orig - orig_low) / stepsize))
+                bottom_orig = np.arange(index) * stepsize + orig_low
+                top_orig = np.arange(index + 1, steps) * stepsize + orig_low
 
+                bottom = self.transformer.to_vector(bottom_orig)
                 top = self.transformer.to_vector(top_orig)
             else:
                 index = int(np.rint((qvector - lower) / (upper - lower) * n_available))
-- 
2.43.0


From 7763e05a5babf9cdc410ec19b67d523592d6dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:42 +0000
Subject: [PATCH 20/55] fix: log-scaled normal and beta integers only give
 vectors of integers

Samples and neighbors were taken at equal steps on the log scale, which do not
correspond to integers.
---
 src/ConfigSpace/hyperparameters/beta_integer.py  |  2 ++
 src/ConfigSpace/hyperparameters/distributions.py | 16 +++++++---------
 .../hyperparameters/normal_integer.py            |  2 ++
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/beta_integer.py b/src/ConfigSpace/hyperparameters/beta_integer.py
index a1495aa..ccb4bb5 100644
--- a/src/ConfigSpace/hyperparameters/beta_integer.py
+++ b/src/ConfigSpace/hyperparameters/beta_integer.py
@@ -145,6 +145,8 @@ class BetaIntegerHyperparameter(IntegerHyperparameter):
             steps=size,
             lower_vectorized=f64(0.0),
             upper_vectorized=f64(1.0),
+            # Steps are between integers, not between vectors on the log scale
+            transformer=scaler if self.log else None,
         )
 
         super().__init__(
diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 273331c..b6fcc06 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -398,12 +398,12 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
         if self.steps < 1:
             raise ValueError("The number of steps must be at least 1.")
 
-        if self.log_scale:
-            if self.transformer is None:
-                raise ValueError(
-                    "A transformer is required for log-scaled distributions.",
-                )
+        if self.log_scale and self.transformer is None:
+            raise ValueError(
+                "A transformer is required for log-scaled distributions.",
+            )
 
+        if self.transformer is not None:
             # TODO: Not a hard requirement but simplifies a lot
             if (
                 self.lower_vectorized != self.transformer.lower_vectorized
@@ -529,10 +529,9 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
 
     def _quantize(self, x: Array[f64]) -> Array[f64]:
         vectorized_bounds = (self.lower_vectorized, self.upper_vectorized)
-        if not self.log_scale:
+        if self.transformer is None:
             return quantize(x, bounds=vectorized_bounds, bins=self.steps)
 
-        assert self.transformer is not None
         assert self.original_value_scale
         quantized = quantize_log(
             x,
@@ -627,8 +626,7 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
         # neighbors, excluding the current value
         n_available = steps - 1
         if n >= n_available:
-            if self.log_scale:
-                assert self.transformer is not None
+            if self.transformer is not None:
                 assert self.original_value_scale is not None
                 orig_low, orig_high = self.original_value_scale
                 qvector_orig: DType = self.transformer.to_value(np.array([qvector]))[0]
diff --git a/src/ConfigSpace/hyperparameters/normal_integer.py b/src/ConfigSpace/hyperparameters/normal_integer.py
index a975068..000b36a 100644
--- a/src/ConfigSpace/hyperparameters/normal_integer.py
+++ b/src/ConfigSpace/hyperparameters/normal_integer.py
@@ -149,6 +149,8 @@ class NormalIntegerHyperparameter(IntegerHyperparameter):
             steps=int(size),
             lower_vectorized=f64(0.0),
             upper_vectorized=f64(1.0),
+            # Steps are between integers, not between vectors on the log scale
+            transformer=scaler if self.log else None,
         )
         super().__init__(
             name=name,
-- 
2.43.0


From a1728e9ac8dc7bb6d432f9c1406230c689910bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:15 +0000
Subject: [PATCH 21/55] fix: large non-integer values are not legal for integer
 hyperparameters

The check for an integer had a relative tolerance, e.g. 500000.3 was accepted
as a value and kept as such in a configuration.
---
 .../hyperparameters/hp_components.py           | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index bafc306..c05eaa0 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -368,7 +368,7 @@ class UnitScaler(Transformer[DType]):
             return (  # type: ignore
                 (rints >= self._lower_value_f64)
                 & (rints <= self._upper_value_f64)
-                & is_close_to_integer(value, atol=ATOL)
+                & is_close_to_integer(value, atol=ATOL, rtol=0)
             )
 
         return (value >= self._lower_value_f64) & (value <= self._upper_value_f64)
@@ -383,7 +383,12 @@ class UnitScaler(Transformer[DType]):
             # not apply generally to a log-scale vector as the non-linear scaling
             # will not give us back integer values when doing the above.
             unchecked_values = self._unsafe_to_value(vector.astype(f64))
-            return self.legal_value(unchecked_values)
+            rints = np.rint(unchecked_values)
+            return (  # type: ignore
+                (rints >= self._lower_value_f64)
+                & (rints <= self._upper_value_f64)
+                & is_close_to_integer(unchecked_values, atol=ATOL)
+            )
 
         return (vector >= self.lower_vectorized) & (vector <= self.upper_vectorized)
 
@@ -397,7 +402,7 @@ class UnitScaler(Transformer[DType]):
             return bool(
                 (self._lower_value_f64 <= rint)
                 & (rint <= self._upper_value_f64)
-                & is_close_to_integer_single(value, atol=ATOL),
+                & is_close_to_integer_single(value, atol=ATOL, rtol=0),
             )
 
         return bool(self._lower_value_f64 <= value <= self._upper_value_f64)
@@ -413,7 +418,12 @@ class UnitScaler(Transformer[DType]):
             return bool(is_close_to_integer_single(scaled, atol=ATOL) and inbounds)
 
         value = self._unsafe_to_value_single(vector)  # type: ignore
-        return self.legal_value_single(value)
+        rint = np.rint(value)
+        return bool(
+            (self._lower_value_f64 <= rint)
+            & (rint <= self._upper_value_f64)
+            & is_close_to_integer_single(value, atol=ATOL),
+        )
 
 
 def ordinal_neighborhood(
-- 
2.43.0


From d358a1661104e312d290432409b1c100bf91d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:15 +0000
Subject: [PATCH 22/55] fix: keep the meta data of a space when serializing it

---
 src/ConfigSpace/configuration_space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index 8c48c6f..12ad15e 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -986,6 +986,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
         return {
             "name": self.name,
+            "meta": self.meta,
             "hyperparameters": [enc(hp, enc) for hp in self.values()],
             "conditions": [enc(c, enc) for c in self.conditions],
             "forbiddens": [enc(f, enc) for f in self.forbidden_clauses],
@@ -1047,7 +1048,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             return dec
 
-        space = ConfigurationSpace(name=d.get("name"))
+        space = ConfigurationSpace(name=d.get("name"), meta=d.get("meta"))
         _hyperparameters = d.get("hyperparameters", [])
         _conditions = d.get("conditions", [])
         _forbiddens = d.get("forbiddens", [])
-- 
2.43.0


From bc5523ea883962969f2ea6c9c7c3c4ce56d1cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:00 +0000
Subject: [PATCH 23/55] fix: return at most the requested number of neighbors
 for small categoricals

Categoricals with few choices always returned all other choices.
---
 src/ConfigSpace/hyperparameters/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index bf39514..b95e759 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -78,7 +78,7 @@ class NeighborhoodCat(Neighborhood):
         if self._cached_neighbors is not None:
             choices = self._cached_neighbors[pivot].copy()
             seed.shuffle(choices)
-            return choices
+            return choices[:n]
 
         if self._cached_arange is not None:
             _range = self._cached_arange
-- 
2.43.0


From 4d405f51d4292bb0ccc48b987aac2810c07ee0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:00 +0000
Subject: [PATCH 24/55] fix: return an empty array as the neighbors of a
 constant

The array had no dimension and one uninitialised entry.
---
 src/ConfigSpace/hyperparameters/constant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/constant.py b/src/ConfigSpace/hyperparameters/constant.py
index 0fe8a58..8468323 100644
--- a/src/ConfigSpace/hyperparameters/constant.py
+++ b/src/ConfigSpace/hyperparameters/constant.py
@@ -20,7 +20,7 @@ CONSTANT_VECTOR_VALUE_NO = f64(0)
 
 
 def _empty_neighborhood(*_: Any, **__: Any) -> Array[f64]:
-    return np.ndarray([], dtype=f64)
+    return np.array([], dtype=f64)
 
 
 @dataclass(init=False)
-- 
2.43.0


From 45b2e303f2d3d695151df7e48d22dc79648771f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:00 +0000
Subject: [PATCH 25/55] fix: reading the density of a hyperparameter does not
 change its equality

The maximum density and normalization of normal and beta integers are cached on
first use and were part of the comparison.
---
 src/ConfigSpace/hyperparameters/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index b6fcc06..374f055 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -426,6 +426,10 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
             return NotImplemented
 
         for key in self.__dict__:
+            # These are only cached once they are required
+            if key in ("_max_density", "_pdf_norm"):
+                continue
+
             if key == "rv":
                 if not _compare_rv(self.__dict__[key], value.__dict__[key]):
                     return False
-- 
2.43.0


From 006ce43e3ec69f79eb04324ed3adada5aba61312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:06 +0000
Subject: [PATCH 26/55] fix: report an illegal vector value of an inactive
 hyperparameter as such

Looking up the value for the message raised an IndexError.
---
 src/ConfigSpace/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 94a7d91..0b9653e 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -588,6 +588,8 @@ def check_configuration(  # noqa: D103
                 idx = children_idxs[active_mask][0]
                 hp_name = space.at[idx]
                 hp = space[hp_name]
+                if not hp._transformer.legal_vector_single(vector[idx]):
+                    raise IllegalVectorizedValueError(hp, vector[idx])
                 raise InactiveHyperparameterSetError(hp, hp.to_value(vector[idx]))
 
     for forbidden in space._dag.fast_forbidden_checks:
-- 
2.43.0


From 483f896f1c8afaa2e935aa70d8adefc91a41be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:06 +0000
Subject: [PATCH 27/55] fix: serialize the values of a forbidden in clause as a
 list

YAML wrote the tuple with a tag that it then refused to read.
---
 src/ConfigSpace/read_and_write/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/read_and_write/dictionary.py b/src/ConfigSpace/read_and_write/dictionary.py
index 360b874..b0a6e1c 100644
--- a/src/ConfigSpace/read_and_write/dictionary.py
+++ b/src/ConfigSpace/read_and_write/dictionary.py
@@ -531,7 +531,7 @@ def _encode_forbidden_in(
     cond: ForbiddenInClause,
     encode: _Encoder,  # noqa: ARG001
 ) -> dict[str, Any]:
-    return {"name": cond.hyperparameter.name, "values": cond.values}
+    return {"name": cond.hyperparameter.name, "values": list(cond.values)}
 
 
 def _encode_forbidden_and(
-- 
2.43.0


From cae692ab27fa9080794f0c73d30836cfbff30e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:06 +0000
Subject: [PATCH 28/55] fix: an in condition does not depend on the kind of
 sequence of its values

A condition created from a tuple was not equal to itself after being
serialized, as it came back with a list.
---
 src/ConfigSpace/conditions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index 7dbd384..058507b 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -336,6 +336,7 @@ class InCondition(Condition):
         parent: Hyperparameter,
         values: list[Any],
     ) -> None:
+        values = list(values)
         super().__init__(child, parent, values)
         for value in values:
             if not parent.legal_value(value):
-- 
2.43.0


From 1092b568c2518af601e57810c2cac35135e029d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:06 +0000
Subject: [PATCH 29/55] fix: hyperparameters with a scipy distribution are
 equal after pickling

---
 src/ConfigSpace/hyperparameters/distributions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 374f055..d824a27 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -57,7 +57,10 @@ def _compare_rv(a: Any, b: Any) -> bool:
     bdict = b.__dict__
     for key in adict:
         if key == "dist":
-            if adict[key]._ctor_param != bdict[key]._ctor_param:
+            # The `badvalue` is nan, which is not equal to itself once pickled
+            aparam = {k: v for k, v in adict[key]._ctor_param.items() if k != "badvalue"}
+            bparam = {k: v for k, v in bdict[key]._ctor_param.items() if k != "badvalue"}
+            if aparam != bparam:
                 return False
 
         elif adict[key] != bdict[key]:
-- 
2.43.0


From 9fecda21e2f97d142ed96cbf4f683ae103383a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:24 +0000
Subject: [PATCH 30/55] fix: grid points at the bound of a log-scaled float
 activate the same hyperparameters

The last grid point of a log-scaled float can differ from its upper bound
in the last digit.  Conditions on the bound then held for the vector of the
configuration but not for the value, and generating the grid failed.
---
 src/ConfigSpace/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 0b9653e..70e2b46 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -51,6 +51,7 @@ from ConfigSpace.hyperparameters import (
     UniformFloatHyperparameter,
     UniformIntegerHyperparameter,
 )
+from ConfigSpace.hyperparameters.hp_components import ROUND_PLACES
 from ConfigSpace.types import NotSet
 
 if TYPE_CHECKING:
@@ -777,6 +778,14 @@ def generate_grid(
             hp_names = []
             new_active_hp_names = []
 
+            # Decide on the vector, just like the check of the configuration does
+            vector = np.full(len(configuration_space), np.nan)
+            for hp_name, value in unchecked_grid_pts[0].items():
+                hp = configuration_space[hp_name]
+                if isinstance(hp, UniformFloatHyperparameter):
+                    value = float(np.round(value, ROUND_PLACES))
+                vector[configuration_space.index_of[hp_name]] = hp.to_vector(value)
+
             # "for" loop over currently active HP names
             for hp_name in unchecked_grid_pts[0]:
                 value_sets.append((unchecked_grid_pts[0][hp_name],))
@@ -793,7 +802,7 @@ def generate_grid(
                         for cond in configuration_space.parent_conditions_of[
                             new_hp_name
                         ]:
-                            if not cond.satisfied_by_value(unchecked_grid_pts[0]):
+                            if not cond.satisfied_by_vector(vector):
                                 all_cond_ = False
                         if all_cond_:
                             new_active_hp_names.append(new_hp_name)
-- 
2.43.0


From 3e10ec5b11621baa58c574e425c0102bbd790137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:15 +0000
Subject: [PATCH 31/55] fix: neighbours of discrete hyperparameters were
 randomly not found although they exist

---
 .../hyperparameters/distributions.py          | 46 +++++++++++++------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index d824a27..f46f0e2 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -193,13 +193,23 @@ def quantized_neighborhood(
             # Ensure we don't include the initial value point
             return neighbors[1 : n + 1]
 
-    raise ValueError(
-        f"Failed to find enough neighbors with {n_retries} retries."
-        f" Given {n=} neighbors to generate, we only found {offset - 1}."
-        f" The normal's for sampling neighbors were Normal({vector}, {list(stds)})"
-        f" which were meant to find neighbors of {vector}. in the range"
-        f" ({lower}, {upper}).",
-    )
+    # Sampling did not find enough of them, although there are
+    index = int(np.rint((qvector - lower) / range_size * n_available))
+    closest = _closest_indices(index, n, bins) / n_available * range_size + lower
+    closest = quantize(closest, bounds=(lower, upper), bins=bins)
+    return _fill_up(neighbors[:offset], closest, n)
+
+
+def _closest_indices(index: int, n: int, size: int) -> Array[i64]:
+    # At least `n` of the indices in `[0, size)` around `index`, closest ones first
+    indices = np.arange(max(index - n, 0), min(index + n, size - 1) + 1)
+    return indices[np.argsort(np.abs(indices - index), kind="stable")]
+
+
+def _fill_up(found: Array[f64], closest: Array[f64], n: int) -> Array[f64]:
+    # The first one of those found is the value to find the neighbors of
+    missing = closest[~np.isin(closest, found)]
+    return np.concatenate((found[1:], missing))[:n]
 
 
 def continuous_neighborhood(
@@ -697,13 +707,21 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
                 # Ensure we don't include the initial value point
                 return neighbors[1 : n + 1]
 
-        raise ValueError(
-            f"Failed to find enough neighbors with {n_retries} retries."
-            f" Given {n=} neighbors to generate, we only found {offset - 1}."
-            f" The normal's for sampling neighbors were Normal({vector}, {list(stds)})"
-            f" which were meant to find neighbors of {vector}. in the range"
-            f" ({self.lower_vectorized}, {self.upper_vectorized}).",
-        )
+        # Sampling did not find enough of them, although there are
+        if self.transformer is not None:
+            assert self.original_value_scale is not None
+            orig_low, orig_high = self.original_value_scale
+            stepsize = (orig_high - orig_low) / n_available
+            qvector_orig = self.transformer.to_value(np.array([qvector]))[0]
+            index = int(np.rint((qvector_orig - orig_low) / stepsize))
+            closest_orig = _closest_indices(index, n, steps) * stepsize + orig_low
+            closest = self.transformer.to_vector(closest_orig)
+        else:
+            index = int(np.rint((qvector - lower) / range_size * n_available))
+            closest = _closest_indices(index, n, steps) / n_available * range_size
+            closest = closest + lower
+
+        return _fill_up(neighbors[:offset], self._quantize(closest), n)
 
 
 @dataclass
-- 
2.43.0


From 3257b788f92d72da02b6e60690642e5bb4a04c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:16 +0000
Subject: [PATCH 32/55] fix: copying a hyperparameter with changed attributes
 raised a TypeError

---
 src/ConfigSpace/hyperparameters/hyperparameter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hyperparameter.py b/src/ConfigSpace/hyperparameters/hyperparameter.py
index 9fb12f9..5ef30f5 100644
--- a/src/ConfigSpace/hyperparameters/hyperparameter.py
+++ b/src/ConfigSpace/hyperparameters/hyperparameter.py
@@ -1,9 +1,10 @@
 from __future__ import annotations
 
+import inspect
 import warnings
 from abc import ABC, abstractmethod
 from collections.abc import Callable, Hashable, Mapping, Sequence
-from dataclasses import dataclass, field, replace
+from dataclasses import dataclass, field
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -534,10 +535,12 @@ class Hyperparameter(ABC, Generic[ValueT, DType]):
         Returns:
             A copy of the hyperparameter with the updated attributes.
         """
-        # HACK: Really the only thing implementing Hyperparameter should be a dataclass
-        # If a hyperparameter is somehow not a dataclass, it will likely need to
-        # overwrite this.
-        return replace(self, **kwargs)  # type: ignore
+        # Only pass what the constructor takes, all other attributes are derived
+        # from it. If the arguments of a hyperparameter are somehow not its
+        # attributes, it will need to overwrite this.
+        arguments = inspect.signature(self.__class__).parameters
+        attributes = {name: getattr(self, name) for name in arguments}
+        return self.__class__(**{**attributes, **kwargs})
 
     def get_num_neighbors(
         self,
-- 
2.43.0


From 4025cc07f67654da8df311b764e6824dc2791edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:57 +0000
Subject: [PATCH 33/55] fix: judge a sequence of values of mixed types like the
 single values

---
 src/ConfigSpace/functional.py                 | 21 +++++++++++++++++--
 .../hyperparameters/categorical.py            |  5 +++--
 src/ConfigSpace/hyperparameters/constant.py   |  5 +++--
 .../hyperparameters/hyperparameter.py         |  5 +++--
 src/ConfigSpace/hyperparameters/ordinal.py    |  5 +++--
 5 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/ConfigSpace/functional.py b/src/ConfigSpace/functional.py
index 02d6438..18c4b2d 100644
--- a/src/ConfigSpace/functional.py
+++ b/src/ConfigSpace/functional.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
-from collections.abc import Iterator
-from typing import TYPE_CHECKING, TypeVar
+from collections.abc import Iterator, Sequence
+from typing import TYPE_CHECKING, Any, TypeVar
 from typing_extensions import overload
 
 import numpy as np
@@ -390,6 +390,23 @@ def is_close_to_integer_single(
     return abs(a - _b) <= (atol + rtol * abs(_b))  # type: ignore
 
 
+def values_to_array(values: Sequence[Any]) -> Array[Any]:
+    """Convert a sequence of values to an array, without changing the values.
+
+    By default, numpy would convert everything to strings if there is one.
+
+    Args:
+        values: The values to convert
+
+    Returns:
+        The array with the values
+    """
+    array = np.asarray(values)
+    if array.dtype.kind in {"U", "S"} and not all(isinstance(v, str) for v in values):
+        return np.array(values, dtype=object)
+    return array
+
+
 T = TypeVar("T")
 
 
diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index b95e759..f2e7449 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -9,6 +9,7 @@ from typing_extensions import deprecated, override
 
 import numpy as np
 
+from ConfigSpace.functional import values_to_array
 from ConfigSpace.hyperparameters.distributions import (
     Distribution,
     UniformIntegerDistribution,
@@ -349,7 +350,7 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.to_vector(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(values_to_array(value))
 
         # Single value that is not a sequence
         return self._transformer.to_vector(np.array([value]))[0]
@@ -374,7 +375,7 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.legal_value(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(values_to_array(value))
 
         # Single value that is not a sequence
         return self._transformer.legal_value(np.array([value]))[0]
diff --git a/src/ConfigSpace/hyperparameters/constant.py b/src/ConfigSpace/hyperparameters/constant.py
index 8468323..409d138 100644
--- a/src/ConfigSpace/hyperparameters/constant.py
+++ b/src/ConfigSpace/hyperparameters/constant.py
@@ -7,6 +7,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from ConfigSpace.functional import values_to_array
 from ConfigSpace.hyperparameters.distributions import ConstantVectorDistribution
 from ConfigSpace.hyperparameters.hp_components import TransformerConstant
 from ConfigSpace.hyperparameters.hyperparameter import Hyperparameter
@@ -124,7 +125,7 @@ class Constant(Hyperparameter[Any, Any]):
                 return self._transformer.legal_value(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(values_to_array(value))
 
         # Single value that is not a sequence
         return self._transformer.legal_value(np.array([value]))[0]
@@ -169,7 +170,7 @@ class Constant(Hyperparameter[Any, Any]):
                 return self._transformer.to_vector(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(values_to_array(value))
 
         # Single value that is not a sequence
         return self._transformer.to_vector(np.array([value]))[0]
diff --git a/src/ConfigSpace/hyperparameters/hyperparameter.py b/src/ConfigSpace/hyperparameters/hyperparameter.py
index 5ef30f5..68ef58d 100644
--- a/src/ConfigSpace/hyperparameters/hyperparameter.py
+++ b/src/ConfigSpace/hyperparameters/hyperparameter.py
@@ -18,6 +18,7 @@ from typing_extensions import Self, deprecated
 
 import numpy as np
 
+from ConfigSpace.functional import values_to_array
 from ConfigSpace.types import DType, NotSet, Number, ValueT, _NotSet, f64, i64
 
 if TYPE_CHECKING:
@@ -283,7 +284,7 @@ class Hyperparameter(ABC, Generic[ValueT, DType]):
             return self._transformer.legal_value(value)
 
         if isinstance(value, Sequence) and not isinstance(value, str):
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(values_to_array(value))
 
         return self._transformer.legal_value_single(value)  # type: ignore
 
@@ -389,7 +390,7 @@ class Hyperparameter(ABC, Generic[ValueT, DType]):
             return self._transformer.to_vector(value)
 
         if isinstance(value, Sequence) and not isinstance(value, str):
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(values_to_array(value))
 
         return self._transformer.to_vector(np.array([value]))[0]  # type: ignore
 
diff --git a/src/ConfigSpace/hyperparameters/ordinal.py b/src/ConfigSpace/hyperparameters/ordinal.py
index b060925..bf1975e 100644
--- a/src/ConfigSpace/hyperparameters/ordinal.py
+++ b/src/ConfigSpace/hyperparameters/ordinal.py
@@ -8,6 +8,7 @@ from typing_extensions import deprecated, override
 
 import numpy as np
 
+from ConfigSpace.functional import values_to_array
 from ConfigSpace.hyperparameters.distributions import UniformIntegerDistribution
 from ConfigSpace.hyperparameters.hp_components import (
     TransformerSeq,
@@ -194,7 +195,7 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.to_vector(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(values_to_array(value))
 
         # Single value that is not a sequence
         return self._transformer.to_vector(np.array([value]))[0]
@@ -219,7 +220,7 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.legal_value(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(values_to_array(value))
 
         # Single value that is not a sequence
         return self._transformer.legal_value(np.array([value]))[0]
-- 
2.43.0


From 3368fa40509c5876fc39883650cc02cc09117e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:34 +0000
Subject: [PATCH 34/55] fix: large non-integer defaults of integer
 hyperparameters are rejected

---
 src/ConfigSpace/hyperparameters/beta_integer.py    | 2 +-
 src/ConfigSpace/hyperparameters/normal_integer.py  | 2 +-
 src/ConfigSpace/hyperparameters/uniform_integer.py | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/beta_integer.py b/src/ConfigSpace/hyperparameters/beta_integer.py
index ccb4bb5..6ad6f92 100644
--- a/src/ConfigSpace/hyperparameters/beta_integer.py
+++ b/src/ConfigSpace/hyperparameters/beta_integer.py
@@ -131,7 +131,7 @@ class BetaIntegerHyperparameter(IntegerHyperparameter):
                 scaler.to_value(np.array([vectorized_mode]))[0],
             ).astype(i64)
         else:
-            if not is_close_to_integer_single(default_value, atol=ATOL):
+            if not is_close_to_integer_single(default_value, atol=ATOL, rtol=0):
                 raise TypeError(
                     f"`default_value` for hyperparameter '{name}' must be an integer."
                     f" Got '{type(default_value).__name__}' for {default_value=}.",
diff --git a/src/ConfigSpace/hyperparameters/normal_integer.py b/src/ConfigSpace/hyperparameters/normal_integer.py
index 000b36a..c6e3c97 100644
--- a/src/ConfigSpace/hyperparameters/normal_integer.py
+++ b/src/ConfigSpace/hyperparameters/normal_integer.py
@@ -124,7 +124,7 @@ class NormalIntegerHyperparameter(IntegerHyperparameter):
         if default_value is None:
             _default_value = int(np.rint(np.clip(self.mu, self.lower, self.upper)))
         else:
-            if not is_close_to_integer(f64(default_value), atol=ATOL):
+            if not is_close_to_integer(f64(default_value), atol=ATOL, rtol=0):
                 raise TypeError(
                     f"`default_value` for hyperparameter '{name}' must be an integer."
                     f" Got '{type(default_value).__name__}' for {default_value=}.",
diff --git a/src/ConfigSpace/hyperparameters/uniform_integer.py b/src/ConfigSpace/hyperparameters/uniform_integer.py
index 3e45406..ea1961e 100644
--- a/src/ConfigSpace/hyperparameters/uniform_integer.py
+++ b/src/ConfigSpace/hyperparameters/uniform_integer.py
@@ -101,6 +101,7 @@ class UniformIntegerHyperparameter(IntegerHyperparameter):
         if default_value is not None and not is_close_to_integer(
             f64(default_value),
             atol=ATOL,
+            rtol=0,
         ):
             raise TypeError(
                 f"`default_value` for hyperparameter '{name}' must be an integer."
@@ -132,7 +133,7 @@ class UniformIntegerHyperparameter(IntegerHyperparameter):
             size=int(size),
             default_value=(
                 int(
-                    default_value
+                    round(default_value)
                     if default_value is not None
                     else np.rint(scaler.to_value(np.array([0.5]))[0]),
                 )
-- 
2.43.0


From 0bd4d51cec9a90b9bb7e8397f75a5a6484014aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:47 +0000
Subject: [PATCH 35/55] fix: ordinals with values of different lengths were
 unequal to their copies

---
 src/ConfigSpace/hyperparameters/hp_components.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index c05eaa0..0d1dcdf 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -163,6 +163,10 @@ class TransformerSeq(Transformer[Any]):
         if not isinstance(value, TransformerSeq):
             return False
 
+        # NOTE: Sequences of different lengths can not be compared as arrays
+        if isinstance(self.seq, list) and isinstance(value.seq, list):
+            return self.seq == value.seq
+
         return (
             np.array_equal(self.seq, value.seq)
             and self.lower_vectorized == value.lower_vectorized
-- 
2.43.0


From 3d90312013aeb83c4b98adbb37f64019fc0dc1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:10 +0000
Subject: [PATCH 36/55] fix: floats whose default rounds out of the bounds
 could not be converted to integers

---
 src/ConfigSpace/hyperparameters/beta_float.py    |  3 ++-
 src/ConfigSpace/hyperparameters/normal_float.py  | 10 +++++++---
 src/ConfigSpace/hyperparameters/uniform_float.py | 10 +++++++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/beta_float.py b/src/ConfigSpace/hyperparameters/beta_float.py
index a285618..9ac551e 100644
--- a/src/ConfigSpace/hyperparameters/beta_float.py
+++ b/src/ConfigSpace/hyperparameters/beta_float.py
@@ -169,7 +169,8 @@ class BetaFloatHyperparameter(FloatHyperparameter):
 
         lower = int(np.ceil(self.lower))
         upper = int(np.floor(self.upper))
-        default_value = int(np.rint(self.default_value))
+        # The rounded default may be out of the rounded bounds
+        default_value = int(np.clip(np.rint(self.default_value), lower, upper))
 
         return BetaIntegerHyperparameter(
             name=self.name,
diff --git a/src/ConfigSpace/hyperparameters/normal_float.py b/src/ConfigSpace/hyperparameters/normal_float.py
index 5c8da56..3719ffa 100644
--- a/src/ConfigSpace/hyperparameters/normal_float.py
+++ b/src/ConfigSpace/hyperparameters/normal_float.py
@@ -163,13 +163,17 @@ class NormalFloatHyperparameter(FloatHyperparameter):
             NormalIntegerHyperparameter,
         )
 
+        lower = np.ceil(self.lower)
+        upper = np.floor(self.upper)
+
         return NormalIntegerHyperparameter(
             name=self.name,
             mu=self.mu,
             sigma=self.sigma,
-            lower=np.ceil(self.lower),
-            upper=np.floor(self.upper),
-            default_value=np.rint(self.default_value),
+            lower=lower,
+            upper=upper,
+            # The rounded default may be out of the rounded bounds
+            default_value=np.clip(np.rint(self.default_value), lower, upper),
             log=self.log,
         )
 
diff --git a/src/ConfigSpace/hyperparameters/uniform_float.py b/src/ConfigSpace/hyperparameters/uniform_float.py
index 255a470..1d38906 100644
--- a/src/ConfigSpace/hyperparameters/uniform_float.py
+++ b/src/ConfigSpace/hyperparameters/uniform_float.py
@@ -134,11 +134,15 @@ class UniformFloatHyperparameter(FloatHyperparameter):
             UniformIntegerHyperparameter,
         )
 
+        lower = math.ceil(self.lower)
+        upper = math.floor(self.upper)
+
         return UniformIntegerHyperparameter(
             name=self.name,
-            lower=math.ceil(self.lower),
-            upper=math.floor(self.upper),
-            default_value=round(self.default_value),
+            lower=lower,
+            upper=upper,
+            # The rounded default may be out of the rounded bounds
+            default_value=min(max(round(self.default_value), lower), upper),
             log=self.log,
             meta=None,
         )
-- 
2.43.0


From a164c2c2f3a2d9d7bfac6eb34e966d3b1c0bb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:24 +0000
Subject: [PATCH 37/55] fix: spread of log-scaled normal hyperparameters did
 not take the lower bound into account

---
 src/ConfigSpace/hyperparameters/hp_components.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index 0d1dcdf..c696317 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -354,9 +354,10 @@ class UnitScaler(Transformer[DType]):
         in vector space.
         """
         if self.log:
+            log_lower = np.log(self._lower_value_f64)
             return np.abs(  # type: ignore
-                np.log(self._lower_value_f64 + size)
-                / (np.log(self._upper_value_f64) - np.log(self._lower_value_f64)),
+                (np.log(self._lower_value_f64 + size) - log_lower)
+                / (np.log(self._upper_value_f64) - log_lower),
             )
 
         return f64(size / self._size)
-- 
2.43.0


From 5a82b1e94190eb2f9afc62f74b8290a3a3d5158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:44 +0000
Subject: [PATCH 38/55] fix: forbidden in clauses with repeated values were
 equal to others in one direction only

---
 src/ConfigSpace/forbidden.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/forbidden.py b/src/ConfigSpace/forbidden.py
index 050b427..8c477be 100644
--- a/src/ConfigSpace/forbidden.py
+++ b/src/ConfigSpace/forbidden.py
@@ -452,7 +452,10 @@ class ForbiddenInClause(ForbiddenClause):
         if not len(self.values) == len(other.values):
             return False
 
-        return all(value in other.values for value in self.values)
+        # Values may be repeated, so check both directions
+        return all(value in other.values for value in self.values) and all(
+            value in self.values for value in other.values
+        )
 
     def __copy__(self) -> Self:
         return self.__class__(
-- 
2.43.0


From f04ab08001b6309e369e1bf0138fcfd4515267e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:58 +0000
Subject: [PATCH 39/55] fix: pcs_new could not read an in condition as part of
 a mixed and/or condition

---
 src/ConfigSpace/read_and_write/pcs_new.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index 318f90d..550605c 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -667,11 +667,7 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                             # now taking care of ands
                             ands = []
                             for and_part in condition:
-                                element_list = [
-                                    element
-                                    for _ in condition
-                                    for element in and_part.split()
-                                ]
+                                element_list = list(and_part.split())
                                 ands.append(
                                     condition_specification(
                                         child_name,
-- 
2.43.0


From e292adb9482ba794f5bccd7ab5482d9fc7683949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:06 +0000
Subject: [PATCH 40/55] fix: pcs_new took the type of a hyperparameter from
 words in its name or values

---
 src/ConfigSpace/read_and_write/pcs_new.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index 550605c..98a88b9 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -540,8 +540,8 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
             pass
 
         try:
-            if "categorical" in line:
-                param_list = pp_cat_param.parseString(line)
+            param_list = pp_cat_param.parseString(line)
+            if param_list[1] == "categorical":
                 name = param_list[0]
                 choices = list(param_list[3:-4:2])
                 default_value = param_list[-2]
@@ -552,7 +552,7 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 )
                 cat_ct += 1
 
-            elif "ordinal" in line:
+            elif param_list[1] == "ordinal":
                 param_list = pp_ord_param.parseString(line)
                 name = param_list[0]
                 sequence = list(param_list[3:-4:2])
-- 
2.43.0


From 1467acabd0a3990a2949e64744523bb8414948b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:14 +0000
Subject: [PATCH 41/55] fix: pcs_new judged the default by forbidden clauses
 before reading the conditions

---
 src/ConfigSpace/read_and_write/pcs_new.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index 98a88b9..54ae8d1 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -632,8 +632,6 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 tmp_list = []
         forbidden_to_add.append(ForbiddenAndConjunction(*clause_list))
 
-    configuration_space.add(forbidden_to_add)
-
     conditions_per_child: dict = OrderedDict()
 
     for condition in conditions:
@@ -717,7 +715,8 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 )
                 conditions_to_add.append(normal_condition)
 
-    configuration_space.add(conditions_to_add)
+    # The default has to be checked with the conditions in place
+    configuration_space.add(conditions_to_add, forbidden_to_add)
 
     return configuration_space
 
-- 
2.43.0


From 296aefde80307327ac63395f6c57a990b0691526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:26 +0000
Subject: [PATCH 42/55] fix: forbidden values starting with a digit could not
 be read from pcs files

---
 src/ConfigSpace/read_and_write/pcs.py     | 2 +-
 src/ConfigSpace/read_and_write/pcs_new.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs.py b/src/ConfigSpace/read_and_write/pcs.py
index 8f357c3..62c3250 100644
--- a/src/ConfigSpace/read_and_write/pcs.py
+++ b/src/ConfigSpace/read_and_write/pcs.py
@@ -86,7 +86,7 @@ pp_eorE = pyparsing.Literal("e") | pyparsing.Literal("E")
 pp_floatorint = pp_float | pp_int
 pp_e_notation = pyparsing.Combine(pp_floatorint + pp_eorE + pp_int)
 pp_number = pp_e_notation | pp_float | pp_int
-pp_numberorname = pp_number | pp_param_name
+pp_numberorname = pp_number ^ pp_param_name
 pp_il = pyparsing.Word("il")
 pp_choices = pp_param_name + pyparsing.Optional(
     pyparsing.OneOrMore("," + pp_param_name),
diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index 54ae8d1..0faf66d 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -116,7 +116,7 @@ pp_param_type = (
 pp_floatorint = pp_float | pp_int
 pp_e_notation = pyparsing.Combine(pp_floatorint + pp_eorE + pp_int)
 pp_number = pp_e_notation | pp_float | pp_int
-pp_numberorname = pp_number | pp_param_name
+pp_numberorname = pp_number ^ pp_param_name
 pp_log = pyparsing.Literal("log")
 # A word matches each character as a set. So && is processed as &
 # https://pythonhosted.org/pyparsing/pyparsing.Word-class.html
-- 
2.43.0


From 8ab745ede84810151d3fa549446b03a93029238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:38 +0000
Subject: [PATCH 43/55] fix: values of conditions and forbidden clauses on
 numbers were not cast by pcs.read

---
 src/ConfigSpace/read_and_write/pcs.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs.py b/src/ConfigSpace/read_and_write/pcs.py
index 62c3250..b8ad625 100644
--- a/src/ConfigSpace/read_and_write/pcs.py
+++ b/src/ConfigSpace/read_and_write/pcs.py
@@ -15,6 +15,7 @@ from collections import OrderedDict
 from collections.abc import Iterable
 from io import StringIO
 from itertools import product
+from typing import Any
 from typing_extensions import deprecated
 
 import pyparsing
@@ -41,6 +42,8 @@ from ConfigSpace.forbidden import (
 from ConfigSpace.hyperparameters import (
     CategoricalHyperparameter,
     Constant,
+    FloatHyperparameter,
+    Hyperparameter,
     IntegerHyperparameter,
     NumericalHyperparameter,
     UniformFloatHyperparameter,
@@ -234,6 +237,14 @@ def build_forbidden(clause: ForbiddenLike) -> str:
     return retval.getvalue()
 
 
+def cast_value(hyperparameter: Hyperparameter, value: str) -> Any:
+    if isinstance(hyperparameter, IntegerHyperparameter):
+        return int(value)
+    if isinstance(hyperparameter, FloatHyperparameter):
+        return float(value)
+    return value
+
+
 @deprecated(
     "pcs.read is has stopped being maintained, please use `space.to_json`"
     " or `space.to_yaml` instead",
@@ -375,11 +386,9 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 if tmp_list[1] == "=":
                     # TODO maybe add a check if the hyperparameter is
                     # actually in the configuration space
+                    hp = configuration_space[tmp_list[0]]
                     clause_list.append(
-                        ForbiddenEqualsClause(
-                            configuration_space[tmp_list[0]],
-                            tmp_list[2],
-                        ),
+                        ForbiddenEqualsClause(hp, cast_value(hp, tmp_list[2])),
                     )
                 else:
                     raise NotImplementedError()
@@ -403,9 +412,8 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
             child = configuration_space[child_name]
             parent_name = condition[2]
             parent = configuration_space[parent_name]
-            restrictions = condition[5:-1:2]
+            restrictions = [cast_value(parent, v) for v in condition[5:-1:2]]
 
-            # TODO: cast the type of the restriction!
             if len(restrictions) == 1:
                 condition = EqualsCondition(child, parent, restrictions[0])
             else:
-- 
2.43.0


From 4b50edfe69474b23b2508b15a5639ace2014e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:50 +0000
Subject: [PATCH 44/55] fix: pcs.write failed for in conditions on anything but
 strings

---
 src/ConfigSpace/read_and_write/pcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/read_and_write/pcs.py b/src/ConfigSpace/read_and_write/pcs.py
index b8ad625..e9448ca 100644
--- a/src/ConfigSpace/read_and_write/pcs.py
+++ b/src/ConfigSpace/read_and_write/pcs.py
@@ -193,7 +193,7 @@ def build_condition(condition: Condition | Conjunction) -> str:
         return condition_template % (
             condition.child.name,
             condition.parent.name,
-            ", ".join(condition.values),
+            ", ".join([str(value) for value in condition.values]),
         )
 
     if isinstance(condition, EqualsCondition):
-- 
2.43.0


From f4b89c996b19e73f0e2bb582e9a9fa40dddcbe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:19 +0000
Subject: [PATCH 45/55] fix: refusing a forbidden clause on an unknown
 hyperparameter could take forever

---
 src/ConfigSpace/_condition_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 382e384..e3284f6 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -755,7 +755,7 @@ class DAG:
             if hp.name not in self.nodes:
                 raise HyperparameterNotFoundError(
                     f"Cannot add '{tmp_clause}' because it references '{hp.name}'"
-                    f"\nHyperparameter {hp.name} not found in space.\n{self}",
+                    f"\nHyperparameter {hp.name} not found in space.\n{list(self.nodes)}",
                 )
 
         if isinstance(forbidden, ForbiddenClause):
-- 
2.43.0


From abcf70cc235981f7ff01a37ed5d5f0b8b73136f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:11 +0000
Subject: [PATCH 46/55] fix: fix_types refused normal and beta hyperparameters

---
 src/ConfigSpace/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 70e2b46..8c8720f 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -46,7 +46,9 @@ from ConfigSpace.exceptions import (
 from ConfigSpace.hyperparameters import (
     CategoricalHyperparameter,
     Constant,
+    FloatHyperparameter,
     Hyperparameter,
+    IntegerHyperparameter,
     OrdinalHyperparameter,
     UniformFloatHyperparameter,
     UniformIntegerHyperparameter,
@@ -539,9 +541,9 @@ def fix_types(
                     configuration[param_name],
                     [param.value],
                 )
-            elif isinstance(param, UniformFloatHyperparameter):
+            elif isinstance(param, FloatHyperparameter):
                 configuration[param_name] = float(configuration[param_name])
-            elif isinstance(param, UniformIntegerHyperparameter):
+            elif isinstance(param, IntegerHyperparameter):
                 configuration[param_name] = int(configuration[param_name])
             else:
                 raise TypeError(f"Unknown hyperparameter type {type(param)}")
-- 
2.43.0


From bebd225004775bcef0a9706e657fea583f4c9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:27 +0000
Subject: [PATCH 47/55] fix: vectors of several choices that can not be hashed
 came out in the wrong order

---
 src/ConfigSpace/hyperparameters/hp_components.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index c696317..cce66bf 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -200,10 +200,8 @@ class TransformerSeq(Transformer[Any]):
         if self._lookup is not None:
             return np.array([self._lookup[v] for v in value], dtype=f64)
 
-        if isinstance(self.seq, np.ndarray):
-            return np.flatnonzero(np.isin(self.seq, value)).astype(f64)
-
-        return np.array([self.seq.index(v) for v in value], dtype=f64)
+        items = list(self.seq)
+        return np.array([items.index(v) for v in value], dtype=f64)
 
     @override
     def legal_value(self, value: Array[Any]) -> Mask:
-- 
2.43.0


From 2b3b6b6edde2453b6cfd73a0d5500dd77581f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:27 +0000
Subject: [PATCH 48/55] fix: a vector just below the number of choices was
 legal but had no value

---
 src/ConfigSpace/hyperparameters/hp_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index cce66bf..5a05c34 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -217,7 +217,7 @@ class TransformerSeq(Transformer[Any]):
     def legal_vector(self, vector: Array[f64]) -> Mask:
         return (
             (vector >= 0)
-            & (vector < len(self.seq))
+            & (np.rint(vector) < len(self.seq))
             & is_close_to_integer(vector, atol=ATOL)
         )
 
@@ -231,7 +231,7 @@ class TransformerSeq(Transformer[Any]):
     def legal_vector_single(self, vector: np.number) -> bool:
         return bool(
             vector >= 0
-            and vector < len(self.seq)
+            and np.rint(vector) < len(self.seq)
             and is_close_to_integer_single(vector, atol=ATOL),
         )
 
-- 
2.43.0


From ce91f9e84b828284f04eef2f89419d72703e4620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:28 +0000
Subject: [PATCH 49/55] fix: comparing a number with choices that are lists
 raised instead of being illegal

---
 src/ConfigSpace/hyperparameters/hp_components.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index 5a05c34..055d5fc 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -201,7 +201,7 @@ class TransformerSeq(Transformer[Any]):
             return np.array([self._lookup[v] for v in value], dtype=f64)
 
         items = list(self.seq)
-        return np.array([items.index(v) for v in value], dtype=f64)
+        return np.array([items.index(v) for v in value.tolist()], dtype=f64)
 
     @override
     def legal_value(self, value: Array[Any]) -> Mask:
@@ -211,7 +211,7 @@ class TransformerSeq(Transformer[Any]):
         if isinstance(self.seq, np.ndarray):
             return np.isin(value, self.seq)
 
-        return np.array([v in self.seq for v in value], dtype=np.bool_)
+        return np.array([v in self.seq for v in value.tolist()], dtype=np.bool_)
 
     @override
     def legal_vector(self, vector: Array[f64]) -> Mask:
@@ -523,7 +523,7 @@ class TransformerConstant(Transformer[Any]):
         if isinstance(self.value, np.ndarray):
             return np.flatnonzero(np.equal(self.value, value)).astype(f64)
 
-        return np.array([v == self.value for v in value], dtype=f64)
+        return np.array([v == self.value for v in value.tolist()], dtype=f64)
 
     @override
     def to_value(self, vector: Array[f64]) -> ObjectArray:
@@ -537,7 +537,7 @@ class TransformerConstant(Transformer[Any]):
 
     @override
     def legal_value(self, value: ObjectArray) -> Mask:
-        return np.array([v == self.value for v in value], dtype=np.bool_)
+        return np.array([v == self.value for v in value.tolist()], dtype=np.bool_)
 
     @override
     def legal_vector(self, vector: Array[f64]) -> Mask:
-- 
2.43.0


From a745010c1e68decd509c23f2e886b83a5bafae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:28 +0000
Subject: [PATCH 50/55] fix: values that can not be hashed raised instead of
 being illegal

---
 src/ConfigSpace/hyperparameters/hp_components.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index 055d5fc..17e3117 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -206,7 +206,7 @@ class TransformerSeq(Transformer[Any]):
     @override
     def legal_value(self, value: Array[Any]) -> Mask:
         if self._lookup is not None:
-            return np.array([v in self._lookup for v in value], dtype=np.bool_)
+            return np.array([self._in_lookup(v) for v in value], dtype=np.bool_)
 
         if isinstance(self.seq, np.ndarray):
             return np.isin(value, self.seq)
@@ -224,9 +224,16 @@ class TransformerSeq(Transformer[Any]):
     @override
     def legal_value_single(self, value: Any) -> bool:
         if self._lookup is not None:
-            return value in self._lookup
+            return self._in_lookup(value)
         return value in self.seq
 
+    def _in_lookup(self, value: Any) -> bool:
+        try:
+            return value in self._lookup
+        except TypeError:
+            # Can not be hashed, unlike everything in the sequence
+            return False
+
     @override
     def legal_vector_single(self, vector: np.number) -> bool:
         return bool(
-- 
2.43.0


From da5958c1c2aab756c8d5db0fadb93b23fe535f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:33 +0000
Subject: [PATCH 51/55] fix: choices of different number types were given back
 as values of another type

---
 src/ConfigSpace/hyperparameters/categorical.py | 11 +++++++----
 src/ConfigSpace/hyperparameters/ordinal.py     | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index f2e7449..b863271 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -257,10 +257,13 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                 raise ValueError
 
             # NOTE: Unfortunatly, numpy will promote number types to str
-            # if there are string types in the array, where we'd rather
-            # stick to object type in that case. Hence the manual...
-            if seq_choices.dtype.kind in {"U", "S"} and not all(
-                isinstance(choice, str) for choice in choices
+            # if there are string types in the array, or integers and booleans to
+            # another number type, where we'd rather stick to object type in that
+            # case. Hence the manual...
+            if any(
+                type(promoted) is not type(choice) or promoted != choice
+                for promoted, choice in zip(seq_choices.tolist(), choices)
+                if promoted is not choice
             ):
                 seq_choices = np.array(choices, dtype=object)
 
diff --git a/src/ConfigSpace/hyperparameters/ordinal.py b/src/ConfigSpace/hyperparameters/ordinal.py
index bf1975e..a3a4618 100644
--- a/src/ConfigSpace/hyperparameters/ordinal.py
+++ b/src/ConfigSpace/hyperparameters/ordinal.py
@@ -99,10 +99,13 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
                 raise ValueError
 
             # NOTE: Unfortunatly, numpy will promote number types to str
-            # if there are string types in the array, where we'd rather
-            # stick to object type in that case. Hence the manual...
-            if seq_choices.dtype.kind in {"U", "S"} and not all(
-                isinstance(item, str) for item in sequence
+            # if there are string types in the array, or integers and booleans to
+            # another number type, where we'd rather stick to object type in that
+            # case. Hence the manual...
+            if any(
+                type(promoted) is not type(item) or promoted != item
+                for promoted, item in zip(seq_choices.tolist(), sequence)
+                if promoted is not item
             ):
                 seq_choices = np.array(sequence, dtype=object)
 
-- 
2.43.0


From 2a14528359ce39f17ac9d54c0c87382a4e3b53bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:44 +0000
Subject: [PATCH 52/55] fix: a choice given twice was accepted if some choice
 can not be hashed

---
 src/ConfigSpace/hyperparameters/categorical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index b863271..cadc164 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from collections import Counter
 from collections.abc import Hashable, Mapping, Sequence
 from dataclasses import dataclass, field
-from itertools import product
+from itertools import combinations
 from typing import TYPE_CHECKING, Any, ClassVar, Set
 from typing_extensions import deprecated, override
 
@@ -178,8 +178,8 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                         " occurence is allowed.",
                     )
         except TypeError:
-            for a, b in product(choices, choices):
-                if a is not b and a == b:
+            for a, b in combinations(choices, 2):
+                if a == b:
                     raise ValueError(  # noqa: B904
                         f"Choices for categorical hyperparameters {name} contain"
                         f" choice `{a}` multiple times, while only a single occurence"
-- 
2.43.0


From 4aef1c30900a363ad72d23af2a474e2ea5508b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:20 +0000
Subject: [PATCH 53/55] fix: a grid contained points repeatedly if more steps
 than values were asked for

---
 src/ConfigSpace/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 8c8720f..ccca56b 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -723,7 +723,8 @@ def generate_grid(
             if grid_points[-1] > param.upper:
                 grid_points[-1] = param.upper
 
-            return tuple(grid_points)
+            # There may be less values than steps
+            return tuple(np.unique(grid_points))
 
         raise TypeError(f"Unknown hyperparameter type {type(param)}")
 
-- 
2.43.0


From 426d70839dd5671ef95289935f30b6485110bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:48 +0000
Subject: [PATCH 54/55] fix: comparing spaces took exponentially long in the
 depth of their conditions

---
 src/ConfigSpace/_condition_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index e3284f6..6cda622 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -175,7 +175,12 @@ class HPNode:
     the parents.
     """
 
-    children: dict[str, tuple[HPNode, ConditionLike]] = field(default_factory=dict)
+    children: dict[str, tuple[HPNode, ConditionLike]] = field(
+        default_factory=dict,
+        # The children compare their conditions, comparing them here once more for
+        # each parent takes exponentially long
+        compare=False,
+    )
     """A dictionary of children hyperparameters and the conditions to activate them."""
 
     forbiddens: list[ForbiddenLike] = field(default_factory=list)
-- 
2.43.0


From a7c4b479f31aadfaeaae1bedb73e8b8670e7fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:40:11 +0000
Subject: [PATCH 55/55] fix: refuse values for an unknown hyperparameter whose
 name is the empty text

---
 src/ConfigSpace/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index c794330..36625b4 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -96,7 +96,7 @@ class Configuration(Mapping[str, Any]):
 
         if values is not None:
             unknown_keys = values.keys() - self.config_space.keys()
-            if any(unknown_keys):
+            if len(unknown_keys) > 0:
                 raise ValueError(f"Unknown hyperparameter(s) {unknown_keys}")
 
             # Using cs._hyperparameters to iterate makes sure that the hyperparameters
-- 
2.43.0

