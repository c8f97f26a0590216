From e70e201ab5952018af7c1bf3e275a13efbcc0c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:39 +0000
Subject: [PATCH 01/79] fix: evaluate conditions after all of their parents

Conditions were ordered by their shallowest parent. With parents at
different depths a child could be evaluated before a deeper parent was
switched off, so sampling returned invalid configurations and changing
a value raised InactiveHyperparameterSetError.

The lookup of conditions affected by a change is now built directly from
this order. The previous construction took exponential time in the length
of a chain of conditions (16 levels took over 30 seconds).
---
 src/ConfigSpace/_condition_tree.py | 80 ++++++++----------------------
 1 file changed, 20 insertions(+), 60 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 30fbac9..6eef307 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -31,7 +31,6 @@ manage at the time that remains efficient.
 
 from __future__ import annotations
 
-from collections import deque
 from contextlib import contextmanager
 from dataclasses import dataclass, field
 from itertools import chain, product
@@ -88,9 +87,6 @@ class ConditionNode:
     condition: ConditionLike
     """The condition that this node represents."""
 
-    dependants: list[ConditionNode]
-    """A list of conditions that depend on this node being active."""
-
     unique_children: dict[int, HPNode]
     """A dictionary of children hyperparameters that are activated by this node."""
 
@@ -112,24 +108,12 @@ class ConditionNode:
             return [self.condition.parent.name]
         return [dlc.parent.name for dlc in self.condition.dlcs]
 
-    def depends_on(self, other: ConditionNode) -> bool:
-        """Check if this node depends on another node."""
-        return any(parent in other.dependant_names() for parent in self.node_parents())
-
-    def dependant_names(self) -> set[str]:
-        """Get the names of all the dependant nodes."""
-        _dep = {node.name for node in self.unique_children.values()}
-        for dep in self.dependants:
-            _dep.update(dep.dependant_names())
-        return _dep
-
     @classmethod
     def from_node(cls, node: HPNode) -> ConditionNode:
         """Create a condition node from a hyperparameter node."""
         assert node.parent_condition is not None
         return cls(
             condition=node.parent_condition,
-            dependants=[],
             unique_children={node.idx: node},
             children_indices=np.array([node.idx], dtype=np.int64),
         )
@@ -145,8 +129,6 @@ class ConditionNode:
         parts = ["  " * indent + "*" + str(self.condition)]
         for child in self.unique_children.values():
             parts.append("  " * (indent + 1) + f"Activates: {child.name}")
-        for dominated in self.dependants:
-            parts.append(dominated.__str__(indent + 1))
         return "\n".join(parts)
 
 
@@ -589,48 +571,26 @@ class DAG:
             if a is not b:
                 assert a.unique_children.keys().isdisjoint(b.unique_children.keys())
 
-        def shallowest_parent(_x: ConditionNode) -> int:
-            return min(self.nodes[_p].maximum_depth for _p in _x.node_parents())
-
-        self.minimum_conditions = sorted(minimum_conditions, key=shallowest_parent)
-
-        condition_trees = {id(c): c for c in self.minimum_conditions}
-        updated = True
-        while updated:
-            updated = False
-            values: list[ConditionNode] = list(condition_trees.values())
-            for a, b in product(values, values):
-                if a is b:
-                    continue
-
-                if b.depends_on(a):
-                    a.dependants.append(b)
-                    a.dependants = sorted(a.dependants, key=shallowest_parent)
-                    if id(b) in condition_trees:
-                        condition_trees.pop(id(b))
-                    updated = True
-
-        sorted_condition_trees = sorted(condition_trees.values(), key=shallowest_parent)
-
-        # Now we go through the trees and update the lookup
-        # Note that it's possible to have reconverging paths, i.e.
-        # the same condition node might appear when starting from two
-        # different roots.
-        self.change_hp_lookup: dict[str, list[ConditionNode]] = {}
-        trees: deque[ConditionNode] = deque(sorted_condition_trees)
-        while trees:
-            tree = trees.popleft()
-            for parent in tree.node_parents():
-                if parent not in self.change_hp_lookup:
-                    self.change_hp_lookup[parent] = [tree, *tree.dependants]
-                else:
-                    self.change_hp_lookup[parent].extend([tree, *tree.dependants])
-                    self.change_hp_lookup[parent] = sorted(
-                        self.change_hp_lookup[parent],
-                        key=shallowest_parent,
-                    )
-
-            trees.extend(tree.dependants)
+        # A condition can only be evaluated once it is known which of its parents are
+        # active, hence the conditions are ordered by their **deepest** parent.
+        def deepest_parent(_x: ConditionNode) -> int:
+            return max(self.nodes[_p].maximum_depth for _p in _x.node_parents())
+
+        self.minimum_conditions = sorted(minimum_conditions, key=deepest_parent)
+
+        # For each hyperparameter, collect every condition which directly or
+        # transitively depends on it, in the order they should be evaluated.
+        self.change_hp_lookup = {}
+        for name in self.nodes:
+            affected = {name}
+            dependants: list[ConditionNode] = []
+            for cnode in self.minimum_conditions:
+                if not affected.isdisjoint(cnode.node_parents()):
+                    dependants.append(cnode)
+                    affected.update(n.name for n in cnode.unique_children.values())
+
+            if len(dependants) > 0:
+                self.change_hp_lookup[name] = dependants
 
     @property
     def forbiddens(self) -> list[ForbiddenLike]:
-- 
2.43.0


From 3bdf52677958d4e76cb7a18b6f4539f523ce45d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:22 +0000
Subject: [PATCH 02/79] fix: an inactive parent does not satisfy a not-equals
 condition

In vector form an inactive parent is NaN, which compares as not equal to
any value. Evaluating the same condition on values said the opposite, so
sampling, validation and the default configuration disagreed.
---
 src/ConfigSpace/conditions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index f7bd20d..2a8eb62 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -239,6 +239,18 @@ class NotEqualsCondition(BinaryOpCondition):
     _OP = operator.ne
     _VECTOR_OP = operator.ne
 
+    # An inactive parent is represented as NaN which, unlike with all other operators,
+    # would compare as "not equal" to the value.
+    @override
+    def satisfied_by_vector(self, vector: Array[f64]) -> bool:
+        parent_value = vector[self.parent_vector_id]
+        return not np.isnan(parent_value) and super().satisfied_by_vector(vector)
+
+    @override
+    def satisfied_by_vector_array(self, arr: Array[f64]) -> Mask:
+        vector = arr[self.parent_vector_id]
+        return ~np.isnan(vector) & super().satisfied_by_vector_array(arr)
+
 
 class LessThanCondition(BinaryOpCondition):
     """Hyperparameter `child` is conditional on the `parent` hyperparameter
-- 
2.43.0


From 12437f0e7da7d47d63b1a141729bef195b67349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:33 +0000
Subject: [PATCH 03/79] fix: one inactive parent does not deactivate an
 or-condition

get_active_hyperparameters reported a hyperparameter as inactive as soon
as any parent was inactive, although another branch of the or-conjunction
was satisfied. Valid configurations were then rejected.
---
 src/ConfigSpace/configuration_space.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index c0c0ecc..a9959e1 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -512,17 +512,6 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             active = True
             for condition in conditions:
-                parent_vector_idx: np.intp | Array[np.intp]
-                if isinstance(condition, Conjunction):
-                    assert condition.parent_vector_ids is not None
-                    parent_vector_idx = condition.parent_vector_ids
-                else:
-                    parent_vector_idx = np.asarray(condition.parent_vector_id)
-
-                if np.isnan(vector[parent_vector_idx]).any():
-                    active = False
-                    break
-
                 if not condition.satisfied_by_vector(vector):
                     active = False
                     break
-- 
2.43.0


From 84440386e4ef42fa0d0d44c0abf9074cbc7d5c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:56 +0000
Subject: [PATCH 04/79] fix: do not treat an and- and an or-conjunction as the
 same condition

Hyperparameters with equivalent conditions share one evaluation. An
and-conjunction and an or-conjunction over the same parts were considered
equivalent, so one of the two hyperparameters was activated by the wrong
rule.
---
 src/ConfigSpace/conditions.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index 2a8eb62..c2f62f3 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -470,18 +470,16 @@ class Conjunction:
         return self.parents
 
     def equivalent_condition_on_parent(self, other: ConditionLike) -> bool:
-        # Not entirely true but it's a good enough approximation
-        if not isinstance(other, Conjunction):
+        if type(self) is not type(other):
             return False
 
-        if len(self.components) != len(other.components):
-            return False
-
-        # Each condition must match at one of the other conditions, which is of the same
-        # conjunction type and has equal amount of components
+        # Each condition must match one of the other conditions and vice versa
         return all(
             any(c.equivalent_condition_on_parent(o) for o in other.components)
             for c in self.components
+        ) and all(
+            any(o.equivalent_condition_on_parent(c) for c in self.components)
+            for o in other.components
         )
 
     @abstractmethod
-- 
2.43.0


From 7963473074bf1a2ac2f238d13b725b49f0230244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:25 +0000
Subject: [PATCH 05/79] fix: check forbiddens of newly activated children of a
 neighbor

Changing a hyperparameter can activate children with their default value.
Only forbidden clauses that mention the changed hyperparameter were
checked, so the one-exchange neighbourhood could yield a configuration
that violates a clause on the activated children.
---
 src/ConfigSpace/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index f93baab..8040c33 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -325,8 +325,17 @@ def get_one_exchange_neighbourhood(
                 index=hp_idx,
             )
 
+            # If the change activated or deactivated other hyperparameters, a forbidden
+            # that does not mention this hp may be violated as well.
+            dag = space._dag
+            forbiddens = (
+                dag.fast_forbidden_checks
+                if hp_name in dag.change_hp_lookup
+                else dag.forbidden_lookup.get(hp_name, [])
+            )
+
             is_valid = True
-            for forbidden in space._dag.forbidden_lookup.get(hp_name, []):
+            for forbidden in forbiddens:
                 if forbidden.is_forbidden_vector(new_arr):
                     is_valid = False
                     break
-- 
2.43.0


From f40b99e7b7f5e484bb90300c430c63dc74f388e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:33 +0000
Subject: [PATCH 06/79] fix: get_random_neighbor gives up after 10000 rejected
 neighbors

The documentation promises a ValueError after 10000 rejections. Without a
counter the function never returned when every neighbor was rejected.
---
 src/ConfigSpace/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 8040c33..4443755 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -383,6 +383,7 @@ def get_random_neighbor(configuration: Configuration, seed: int) -> Configuratio
     """
     random = np.random.RandomState(seed)
     rejected = True
+    n_rejected = 0
     values = copy.deepcopy(dict(configuration))
     new_configuration = None
 
@@ -432,8 +433,13 @@ def get_random_neighbor(configuration: Configuration, seed: int) -> Configuratio
         try:
             new_configuration = Configuration(configuration.config_space, values=values)
             rejected = False
-        except ValueError:
+        except ValueError as e:
             values[hp.name] = previous_value
+            n_rejected += 1
+            if n_rejected > 10000:
+                raise ValueError(
+                    "Rejected more than 10000 neighbors of the configuration.",
+                ) from e
 
     assert new_configuration is not None
     return new_configuration
-- 
2.43.0


From 4f7da4eaafbdaf566cb8ed119e0c30117528226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:09 +0000
Subject: [PATCH 07/79] fix: a failed add leaves the configuration space
 unchanged

When add() raised, whatever had been inserted before the error stayed in
the space. A cyclic condition or a duplicate name left it in a state where
later calls failed, and a forbidden clause that excludes the default
configuration was kept.
---
 src/ConfigSpace/_condition_tree.py     | 25 ++++++++++++++++++++-
 src/ConfigSpace/configuration_space.py | 31 ++++++++++++++++----------
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 6eef307..364e603 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -32,9 +32,10 @@ manage at the time that remains efficient.
 from __future__ import annotations
 
 from contextlib import contextmanager
+from copy import copy
 from dataclasses import dataclass, field
 from itertools import chain, product
-from typing import TYPE_CHECKING, ClassVar, Iterator
+from typing import TYPE_CHECKING, Any, Callable, ClassVar, Iterator
 from typing_extensions import Self
 
 import numpy as np
@@ -592,6 +593,28 @@ class DAG:
             if len(dependants) > 0:
                 self.change_hp_lookup[name] = dependants
 
+    def snapshot(self) -> Callable[[], None]:
+        """Remember the current state, returning a function to restore it."""
+
+        def _state(item: DAG | HPNode) -> dict[str, Any]:
+            return {
+                key: copy(value) if isinstance(value, (dict, list)) else value
+                for key, value in item.__dict__.items()
+            }
+
+        dag_state = _state(self)
+        node_states = [(node, _state(node)) for node in self.nodes.values()]
+
+        def _restore() -> None:
+            self.__dict__.update(dag_state)
+            for node, node_state in node_states:
+                node.__dict__.update(node_state)
+
+            for item in (*self.forbiddens, *self.conditions):
+                item.set_vector_idx(self.index_of)
+
+        return _restore
+
     @property
     def forbiddens(self) -> list[ForbiddenLike]:
         """Get all the forbidden clauses in the DAG."""
diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index a9959e1..dc4f614 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -337,18 +337,25 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
         for a in args:
             _put_to_list(a)
 
-        with self._dag.update():
-            for hp in hps:
-                self._dag.add(hp)
-
-            for condition in conditions:
-                self._dag.add_condition(condition)
-
-            for forbidden in forbiddens:
-                self._dag.add_forbidden(forbidden)
-
-        self._len = len(self._dag.nodes)
-        self._check_default_configuration()
+        # If something can not be added, the space stays as it was
+        restore = self._dag.snapshot()
+        try:
+            with self._dag.update():
+                for hp in hps:
+                    self._dag.add(hp)
+
+                for condition in conditions:
+                    self._dag.add_condition(condition)
+
+                for forbidden in forbiddens:
+                    self._dag.add_forbidden(forbidden)
+
+            self._len = len(self._dag.nodes)
+            self._check_default_configuration()
+        except Exception:
+            restore()
+            self._len = len(self._dag.nodes)
+            raise
 
     def add_configuration_space(
         self,
-- 
2.43.0


From dd0d9f0349dd672977a97058e61f8d7e4f060e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:42 +0000
Subject: [PATCH 08/79] fix: copy the hyperparameter of a copied forbidden
 clause

Copies of equals and in clauses shared their hyperparameter with the
original. add_configuration_space renames the hyperparameters of copied
clauses, which renamed hyperparameters of the source space as well.
---
 src/ConfigSpace/forbidden.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/forbidden.py b/src/ConfigSpace/forbidden.py
index 5eb535d..050b427 100644
--- a/src/ConfigSpace/forbidden.py
+++ b/src/ConfigSpace/forbidden.py
@@ -360,7 +360,10 @@ class ForbiddenEqualsClause(ForbiddenClause):
         return f"Forbidden: {self.hyperparameter.name} == {self.value!r}"
 
     def __copy__(self) -> Self:
-        return self.__class__(hyperparameter=self.hyperparameter, value=self.value)
+        return self.__class__(
+            hyperparameter=copy(self.hyperparameter),
+            value=self.value,
+        )
 
     @override
     def is_forbidden_value(self, values: dict[str, Any]) -> bool:
@@ -452,7 +455,10 @@ class ForbiddenInClause(ForbiddenClause):
         return all(value in other.values for value in self.values)
 
     def __copy__(self) -> Self:
-        return self.__class__(hyperparameter=self.hyperparameter, values=self.values)
+        return self.__class__(
+            hyperparameter=copy(self.hyperparameter),
+            values=self.values,
+        )
 
     @override
     def is_forbidden_value(self, values: dict[str, Any]) -> bool:
-- 
2.43.0


From 115674800926775f5f4e66b338e2a78d230ab8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:53 +0000
Subject: [PATCH 09/79] fix: keep nested conjunctions when removing priors

Substituting hyperparameters flattened a nested conjunction to its literal
conditions, turning (a or b) and c into a and b and c.
---
 src/ConfigSpace/configuration_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index dc4f614..f95da61 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -718,7 +718,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
         for condition in conditions:
             if isinstance(condition, Conjunction):
                 conjunction_type = type(condition)
-                children = condition.dlcs
+                children = condition.components
                 substituted_children = (
                     ConfigurationSpace.substitute_hyperparameters_in_conditions(
                         children,
-- 
2.43.0


From 400bbd806e268ced25880133782b849e8c04f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:09 +0000
Subject: [PATCH 10/79] fix: decoding a serialized space does not modify the
 input

Decoding removed keys from the given dictionary, so decoding the same
dictionary a second time failed.
---
 src/ConfigSpace/configuration_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index f95da61..edad8b6 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -1030,6 +1030,8 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
                 cs: ConfigurationSpace,
                 _dec: _Decoder,
             ) -> Any:
+                # Decoders may modify the item, do not touch what the user gave us
+                item = dict(item)
                 _type = item.pop("type", None)
                 if _type is None:
                     raise KeyError(
-- 
2.43.0


From a24e1257b88d6733fe7128ef51ea5f039d375b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:02 +0000
Subject: [PATCH 11/79] fix: enumerate all neighbors of normal and beta
 integers

When asked for at least as many neighbors as there are other values, the
step below the centre was computed with one point too many. The result
had vectors which belong to no integer, duplicates and the wrong length.
---
 src/ConfigSpace/hyperparameters/distributions.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 993e72a..79be547 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -656,16 +656,9 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
 
                 top = self.transformer.to_vector(top_orig)
             else:
-                stepsize = (upper - lower) / (self.steps - 1)
-
-                # Edge case for when qcenter is the lower bound
-                steps_to_take = int((qvector - lower) / stepsize) + 1
-                if steps_to_take == 1:
-                    bottom = np.array([])
-                else:
-                    bottom = np.linspace(lower, qvector, steps_to_take, endpoint=False)
-
-                top = np.linspace(qvector + stepsize, upper, steps - steps_to_take)
+                pivot = np.rint((qvector - lower) / (upper - lower) * (steps - 1))
+                levels = np.delete(np.arange(steps), int(pivot)) / (steps - 1)
+                return levels * (upper - lower) + lower
 
             return np.concatenate((bottom, top))
 
-- 
2.43.0


From f7307629202aa382809f47b08ee321f389b8ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:17 +0000
Subject: [PATCH 12/79] fix: sample the exact vector of log-scaled integers

A sampled vector could differ in the last bit from the vector of its own
value. Equality conditions and forbidden clauses compare vectors, so they
missed such samples.
---
 src/ConfigSpace/hyperparameters/distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 79be547..d2553fb 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -532,13 +532,17 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
         if not self.log_scale:
             return quantize(x, bounds=vectorized_bounds, bins=self.steps)
 
+        assert self.transformer is not None
         assert self.original_value_scale
-        return quantize_log(
+        quantized = quantize_log(
             x,
             bounds=vectorized_bounds,
             scale_slice=(self.original_value_scale),
             bins=self.steps,
         )
+        # Going through the value ensures that this is exactly the vector
+        # representation of the value and not off by a rounding error.
+        return self.transformer.to_vector(self.transformer.to_value(quantized))
 
     def pdf_vector(self, vector: Array[f64]) -> Array[f64]:
         """Calculate the probability density function (pdf) of all elements in `vector`.
-- 
2.43.0


From 3d78c03f39d635357a93e0d9d19fdb2b0492c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:45 +0000
Subject: [PATCH 13/79] fix: sample legal values for log-scaled normal and beta
 integers

Samples and neighbors were quantized to equally spaced vectors, although
the integers are not equally spaced on a log scale. Most sampled vectors
belonged to no integer and were rejected by validation. The density is
left as is.
---
 .../hyperparameters/beta_integer.py           |  1 +
 .../hyperparameters/distributions.py          | 19 +++++++++----------
 .../hyperparameters/normal_integer.py         |  1 +
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/beta_integer.py b/src/ConfigSpace/hyperparameters/beta_integer.py
index a1495aa..3bfee4c 100644
--- a/src/ConfigSpace/hyperparameters/beta_integer.py
+++ b/src/ConfigSpace/hyperparameters/beta_integer.py
@@ -145,6 +145,7 @@ class BetaIntegerHyperparameter(IntegerHyperparameter):
             steps=size,
             lower_vectorized=f64(0.0),
             upper_vectorized=f64(1.0),
+            transformer=scaler if self.log else None,
         )
 
         super().__init__(
diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index d2553fb..b6a0cda 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -373,7 +373,8 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
     transformer: Transformer[DType] | None = None
     """The transformer to use for log-scaled distributions.
 
-    Only required if `log_scale=True`.
+    Required if `log_scale=True`. If given, the steps are those of the values on the
+    log scale, otherwise the steps are equally spaced.
     """
 
     _max_density: float | None = None
@@ -398,12 +399,12 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
         if self.steps < 1:
             raise ValueError("The number of steps must be at least 1.")
 
-        if self.log_scale:
-            if self.transformer is None:
-                raise ValueError(
-                    "A transformer is required for log-scaled distributions.",
-                )
+        if self.log_scale and self.transformer is None:
+            raise ValueError(
+                "A transformer is required for log-scaled distributions.",
+            )
 
+        if self.transformer is not None:
             # TODO: Not a hard requirement but simplifies a lot
             if (
                 self.lower_vectorized != self.transformer.lower_vectorized
@@ -529,10 +530,9 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
 
     def _quantize(self, x: Array[f64]) -> Array[f64]:
         vectorized_bounds = (self.lower_vectorized, self.upper_vectorized)
-        if not self.log_scale:
+        if self.transformer is None:
             return quantize(x, bounds=vectorized_bounds, bins=self.steps)
 
-        assert self.transformer is not None
         assert self.original_value_scale
         quantized = quantize_log(
             x,
@@ -626,8 +626,7 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
         # neighbors, excluding the current value
         n_available = steps - 1
         if n >= n_available:
-            if self.log_scale:
-                assert self.transformer is not None
+            if self.transformer is not None:
                 assert self.original_value_scale is not None
                 orig_low, orig_high = self.original_value_scale
                 qvector_orig: DType = self.transformer.to_value(np.array([qvector]))[0]
diff --git a/src/ConfigSpace/hyperparameters/normal_integer.py b/src/ConfigSpace/hyperparameters/normal_integer.py
index a975068..790e790 100644
--- a/src/ConfigSpace/hyperparameters/normal_integer.py
+++ b/src/ConfigSpace/hyperparameters/normal_integer.py
@@ -149,6 +149,7 @@ class NormalIntegerHyperparameter(IntegerHyperparameter):
             steps=int(size),
             lower_vectorized=f64(0.0),
             upper_vectorized=f64(1.0),
+            transformer=scaler if self.log else None,
         )
         super().__init__(
             name=name,
-- 
2.43.0


From acb1ba5b4064f279de485ec383330d2b16ebe852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:06 +0000
Subject: [PATCH 14/79] fix: reject illegal vector values of unconditional
 hyperparameters

Validation only checked the legality of values of conditional
hyperparameters. A vector with an out of range or non-integer value for an
unconditional one was accepted.
---
 src/ConfigSpace/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 4443755..0f08c99 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -595,6 +595,9 @@ def check_configuration(  # noqa: D103
         if not activated[hp_idx]:
             raise ActiveHyperparameterNotSetError(root.hp)
 
+        if not root.hp._transformer.legal_vector_single(vector[hp_idx]):
+            raise IllegalVectorizedValueError(root.hp, vector[hp_idx])
+
     for cnode in space._dag.minimum_conditions:
         # Everything for the condition is satisfied, make sure active
         # hyperparameters are set, legal and not forbidden
-- 
2.43.0


From ec7e4a667eed0d4526c1db7ac8a961a462ef2a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:47 +0000
Subject: [PATCH 15/79] fix: equal configurations have the same hash

The hash was taken from the printed form. A sampled configuration holds
numpy strings and prints differently from an equal one built from a plain
dictionary, so the two were not found in each others sets.
---
 src/ConfigSpace/configuration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index 1b556f7..b3ecff8 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -245,7 +245,13 @@ class Configuration(Mapping[str, Any]):
         return NotImplemented
 
     def __hash__(self) -> int:
-        return hash(self.__repr__())
+        # NOTE: Equal values must hash the same, even if their representation differs,
+        # e.g. `1` and `1.0` or `"a"` and `np.str_("a")`
+        values = dict(self)
+        try:
+            return hash(tuple(values.items()))
+        except TypeError:  # Some value is not hashable, e.g. a list
+            return hash(tuple(values))
 
     def __str__(self) -> str:
         values = dict(self)
-- 
2.43.0


From 199b8d8ed886456fc1ea903bb4f6a72a850fcf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:53 +0000
Subject: [PATCH 16/79] fix: len of a configuration counts its active
 hyperparameters

Iterating a configuration yields only active hyperparameters, while len()
returned the size of the space. A mapping has to agree on both.
---
 src/ConfigSpace/configuration.py | 2 +-
 src/ConfigSpace/util.py          | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index b3ecff8..3062183 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -273,7 +273,7 @@ class Configuration(Mapping[str, Any]):
                 yield key
 
     def __len__(self) -> int:
-        return len(self.config_space)
+        return int(np.count_nonzero(~np.isnan(self._vector)))
 
     # ------------ Marked Deprecated --------------------
     # Probably best to only remove these once we actually
diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 0f08c99..e291fc7 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -402,11 +402,10 @@ def get_random_neighbor(configuration: Configuration, seed: int) -> Configuratio
         value = None
         while not active:
             iteration += 1
-            rand_idx = (
-                random.randint(0, len(configuration)) if len(configuration) > 1 else 0
-            )
+            vector = configuration.get_array()
+            rand_idx = random.randint(0, len(vector)) if len(vector) > 1 else 0
 
-            value = configuration.get_array()[rand_idx]
+            value = vector[rand_idx]
             if np.isfinite(value):
                 active = True
 
-- 
2.43.0


From 9092cd1e0a720af58ca04cb6dfaa6697dcaf7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:03 +0000
Subject: [PATCH 17/79] fix: store the vector of a configuration as floats

A configuration created from an integer array kept that type. Setting a
value afterwards truncated its vector representation.
---
 src/ConfigSpace/configuration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index 3062183..dcb6893 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -126,10 +126,7 @@ class Configuration(Mapping[str, Any]):
             self.check_valid_configuration()
 
         elif vector is not None:
-            if not isinstance(vector, np.ndarray):
-                _vector = np.asarray(vector, dtype=f64)
-            else:
-                _vector = vector
+            _vector = np.asarray(vector, dtype=f64)
 
             if _vector.ndim != 1:
                 # If we have a 2d array with shape (n, 1), flatten it
-- 
2.43.0


From 309d86d2491e76db3bf66f2031d6c7ff1f6e799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:25 +0000
Subject: [PATCH 18/79] fix: generate grids for conditions with an inactive
 parent

A grid point only holds active hyperparameters. Evaluating a conjunction
with a parent missing from the point raised a KeyError.
---
 src/ConfigSpace/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index e291fc7..5c6e6de 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -809,6 +809,12 @@ def generate_grid(
             hp_names = []
             new_active_hp_names = []
 
+            # Parents which are not part of the grid point do not satisfy a condition
+            values = {
+                name: unchecked_grid_pts[0].get(name, NotSet)
+                for name in configuration_space
+            }
+
             # "for" loop over currently active HP names
             for hp_name in unchecked_grid_pts[0]:
                 value_sets.append((unchecked_grid_pts[0][hp_name],))
@@ -825,7 +831,7 @@ def generate_grid(
                         for cond in configuration_space.parent_conditions_of[
                             new_hp_name
                         ]:
-                            if not cond.satisfied_by_value(unchecked_grid_pts[0]):
+                            if not cond.satisfied_by_value(values):
                                 all_cond_ = False
                         if all_cond_:
                             new_active_hp_names.append(new_hp_name)
-- 
2.43.0


From 6c6fbc4a753335869d8f736012a9f362f3077917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:59 +0000
Subject: [PATCH 19/79] fix: deactivate hyperparameters below a missing parent

Removing inactive hyperparameters failed if the inactive ones were not
given completely, e.g. for a grandchild without its parent.
---
 src/ConfigSpace/util.py | 72 +++++++++++++----------------------------
 1 file changed, 22 insertions(+), 50 deletions(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 5c6e6de..065fa8f 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -38,6 +38,7 @@ from ConfigSpace import Configuration
 from ConfigSpace.exceptions import (
     ActiveHyperparameterNotSetError,
     ForbiddenValueError,
+    IllegalValueError,
     IllegalVectorizedValueError,
     InactiveHyperparameterSetError,
     NoPossibleNeighborsError,
@@ -469,59 +470,30 @@ def deactivate_inactive_hyperparameters(
         A configuration that is equivalent to the given configuration, except
         that inactivate hyperparameters have been removed.
     """
-    space = configuration_space
-    hyperparameters = list(space.values())
-    config = Configuration(
-        configuration_space=configuration_space,
-        values=configuration,
-        vector=vector,
-        allow_inactive_with_values=True,
-    )
+    if configuration is not None:
+        values = dict(configuration)
+    else:
+        values = dict(Configuration(configuration_space, vector=vector))
+
+    # The hyperparameters of a space are ordered such that parents come first, i.e. when
+    # getting to a child, it is known which of its parents are active.
+    active = {name: NotSet for name in configuration_space}
+    for name, hp in configuration_space.items():
+        if name not in values:
+            continue
 
-    hps: deque[Hyperparameter] = deque()
-    hps.extendleft(
-        [
-            space[hp]
-            for hp in space.unconditional_hyperparameters
-            if len(space.children_of[hp]) > 0
-        ],
-    )
+        if not hp.legal_value(values[name]):
+            raise IllegalValueError(hp, values[name])
 
-    inactive = set()
-
-    while len(hps) > 0:
-        hp = hps.pop()
-        for child in space.children_of[hp.name]:
-            for condition in space.parent_conditions_of[child.name]:
-                if not condition.satisfied_by_vector(config.get_array()):
-                    dic = dict(config)
-                    try:
-                        del dic[child.name]
-                    except KeyError:
-                        continue
-
-                    config = Configuration(
-                        configuration_space=space,
-                        values=dic,
-                        allow_inactive_with_values=True,
-                    )
-                    inactive.add(child.name)
-                hps.appendleft(child)
-
-    for hp in hyperparameters:
-        if hp.name in inactive:
-            dic = dict(config)
-            try:
-                del dic[hp.name]
-            except KeyError:
-                continue
-            config = Configuration(
-                configuration_space=configuration_space,
-                values=dic,
-                allow_inactive_with_values=True,
-            )
+        if all(
+            condition.satisfied_by_value(active)
+            for condition in configuration_space.parent_conditions_of[name]
+        ):
+            active[name] = values[name]
+        else:
+            del values[name]
 
-    return Configuration(configuration_space, values=dict(config))
+    return Configuration(configuration_space, values=values)
 
 
 def fix_types(
-- 
2.43.0


From 77d48d6539a0ea86c27ed8cc29986aacc1b22169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:21 +0000
Subject: [PATCH 20/79] fix: fix_types handles normal and beta hyperparameters

It raised a TypeError for every numerical hyperparameter which is not
uniform.
---
 src/ConfigSpace/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 065fa8f..49afd0a 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -46,7 +46,9 @@ from ConfigSpace.exceptions import (
 from ConfigSpace.hyperparameters import (
     CategoricalHyperparameter,
     Constant,
+    FloatHyperparameter,
     Hyperparameter,
+    IntegerHyperparameter,
     OrdinalHyperparameter,
     UniformFloatHyperparameter,
     UniformIntegerHyperparameter,
@@ -544,9 +546,9 @@ def fix_types(
                     configuration[param_name],
                     [param.value],
                 )
-            elif isinstance(param, UniformFloatHyperparameter):
+            elif isinstance(param, FloatHyperparameter):
                 configuration[param_name] = float(configuration[param_name])
-            elif isinstance(param, UniformIntegerHyperparameter):
+            elif isinstance(param, IntegerHyperparameter):
                 configuration[param_name] = int(configuration[param_name])
             else:
                 raise TypeError(f"Unknown hyperparameter type {type(param)}")
-- 
2.43.0


From 82c000f1f7f589ac533b452552467365b3d6bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:32 +0000
Subject: [PATCH 21/79] fix: arange_chunked respects the step size

The start of a chunk did not take the step into account, so the chunks
overlapped and did not cover the range for any step other than one.
---
 src/ConfigSpace/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/functional.py b/src/ConfigSpace/functional.py
index 02d6438..783c760 100644
--- a/src/ConfigSpace/functional.py
+++ b/src/ConfigSpace/functional.py
@@ -74,8 +74,8 @@ def arange_chunked(
     n_chunks = int(np.ceil(n_items / chunk_size))
 
     for chunk in range(n_chunks):
-        chunk_start = start + (chunk * chunk_size)
-        chunk_stop = min(chunk_start + chunk_size, stop)
+        chunk_start = start + (chunk * chunk_size * step)
+        chunk_stop = min(chunk_start + chunk_size * step, stop)
         yield np.arange(chunk_start, chunk_stop, step)
 
 
-- 
2.43.0


From 700e4808bf20224d17d0838491d602c3b7f9f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:44 +0000
Subject: [PATCH 22/79] fix: a constant has no neighbors

Asking for neighbors returned a zero-dimensional array with uninitialized
memory instead of an empty one.
---
 src/ConfigSpace/hyperparameters/constant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/constant.py b/src/ConfigSpace/hyperparameters/constant.py
index 0fe8a58..8468323 100644
--- a/src/ConfigSpace/hyperparameters/constant.py
+++ b/src/ConfigSpace/hyperparameters/constant.py
@@ -20,7 +20,7 @@ CONSTANT_VECTOR_VALUE_NO = f64(0)
 
 
 def _empty_neighborhood(*_: Any, **__: Any) -> Array[f64]:
-    return np.ndarray([], dtype=f64)
+    return np.array([], dtype=f64)
 
 
 @dataclass(init=False)
-- 
2.43.0


From 84a8cca2781cd954623d90d38db4151d1103cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:55 +0000
Subject: [PATCH 23/79] fix: return at most n neighbors for small categoricals

Categoricals with few choices always returned all other choices,
regardless of the requested number of neighbors.
---
 src/ConfigSpace/hyperparameters/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index bf39514..b95e759 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -78,7 +78,7 @@ class NeighborhoodCat(Neighborhood):
         if self._cached_neighbors is not None:
             choices = self._cached_neighbors[pivot].copy()
             seed.shuffle(choices)
-            return choices
+            return choices[:n]
 
         if self._cached_arange is not None:
             _range = self._cached_arange
-- 
2.43.0


From 0733d23c11834ede5d999b3b7d7963d73af6027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:35 +0000
Subject: [PATCH 24/79] fix: refuse an unknown hyperparameter with an empty
 name in a configuration

---
 src/ConfigSpace/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index dcb6893..e6227c2 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -96,7 +96,7 @@ class Configuration(Mapping[str, Any]):
 
         if values is not None:
             unknown_keys = values.keys() - self.config_space.keys()
-            if any(unknown_keys):
+            if len(unknown_keys) > 0:
                 raise ValueError(f"Unknown hyperparameter(s) {unknown_keys}")
 
             # Using cs._hyperparameters to iterate makes sure that the hyperparameters
-- 
2.43.0


From 1645de4a200f72e01189e429ad98f0581820c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:49 +0000
Subject: [PATCH 25/79] fix: compare the values of forbidden in-clauses in both
 directions

---
 src/ConfigSpace/forbidden.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/forbidden.py b/src/ConfigSpace/forbidden.py
index 050b427..ff3bf6c 100644
--- a/src/ConfigSpace/forbidden.py
+++ b/src/ConfigSpace/forbidden.py
@@ -452,7 +452,9 @@ class ForbiddenInClause(ForbiddenClause):
         if not len(self.values) == len(other.values):
             return False
 
-        return all(value in other.values for value in self.values)
+        return all(value in other.values for value in self.values) and all(
+            value in self.values for value in other.values
+        )
 
     def __copy__(self) -> Self:
         return self.__class__(
-- 
2.43.0


From 001f7ac714a060872e724685069d4137bf6955ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:02 +0000
Subject: [PATCH 26/79] fix: equality of spaces does not depend on the order of
 adding forbidden clauses

---
 src/ConfigSpace/_condition_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 364e603..0012b28 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -451,6 +451,10 @@ class DAG:
 
         nodes_sorted_by_depth_and_name = sorted(self.nodes.values())
         for i, n in enumerate(nodes_sorted_by_depth_and_name):
+            # Filled again below, such that their order is independent of the order
+            # in which forbidden clauses were added
+            n.forbiddens = []
+
             if n.maximum_depth == 1:
                 roots[n.name] = n
             else:
-- 
2.43.0


From a84a68ddf978efecb51fb3233b7d928701ef955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:15 +0000
Subject: [PATCH 27/79] fix: a refused nested space leaves the outer space
 unchanged

---
 src/ConfigSpace/configuration_space.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index edad8b6..c24f1df 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -433,10 +433,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
                     forb_dlc.hyperparameter.name = _new_name(forb_dlc.hyperparameter)
             forbiddens_to_add.append(new_forbidden)
 
-        self.add(new_parameters, conditions_to_add, forbiddens_to_add)
-
         # Finally, we may need to add conditions to the added search space
-        conditions_to_add = []
         if parent_hyperparameter is not None:
             parent = parent_hyperparameter["parent"]
             value = parent_hyperparameter["value"]
@@ -444,13 +441,14 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
             # Only add a condition if the parameter is a top-level parameter of the new
             # configuration space (this will be some kind of tree structure).
             root_params = [
-                hp for hp in new_parameters if len(self.parents_of[hp.name]) == 0
+                new_hp
+                for hp, new_hp in zip(configuration_space.values(), new_parameters)
+                if len(configuration_space.parents_of[hp.name]) == 0
             ]
             for param in root_params:
                 conditions_to_add.append(EqualsCondition(param, parent, value))
 
-        if len(conditions_to_add) > 0:
-            self.add(conditions_to_add)
+        self.add(new_parameters, conditions_to_add, forbiddens_to_add)
 
         return configuration_space
 
-- 
2.43.0


From 831ff2da1faf698530c15ee59b0f725edb0a1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:24 +0000
Subject: [PATCH 28/79] fix: refuse infinite vector entries of inactive
 hyperparameters

---
 src/ConfigSpace/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 49afd0a..523b7e1 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -560,7 +560,7 @@ def check_configuration(  # noqa: D103
     vector: np.ndarray,
     allow_inactive_with_values: bool = False,
 ) -> None:
-    activated = np.isfinite(vector)
+    activated = ~np.isnan(vector)
 
     # Make sure the roots are all good
     for root in space._dag.roots.values():
-- 
2.43.0


From 0132b4ab639bb580d96083bfaa00ed99d5d5aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:55 +0000
Subject: [PATCH 29/79] fix: report illegal vector entries of inactive
 hyperparameters as such

---
 src/ConfigSpace/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 523b7e1..487e8f3 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -596,7 +596,10 @@ def check_configuration(  # noqa: D103
                 idx = children_idxs[active_mask][0]
                 hp_name = space.at[idx]
                 hp = space[hp_name]
-                raise InactiveHyperparameterSetError(hp, hp.to_value(vector[idx]))
+                # The vector entry is not necessarily one of a legal value
+                if hp.legal_vector(vector[idx]):
+                    raise InactiveHyperparameterSetError(hp, hp.to_value(vector[idx]))
+                raise IllegalVectorizedValueError(hp, vector[idx])
 
     for forbidden in space._dag.fast_forbidden_checks:
         if forbidden.is_forbidden_vector(vector):
-- 
2.43.0


From 3cb1ca995b57ea907178e8ff3aa1d98e67d6a6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:08 +0000
Subject: [PATCH 30/79] fix: compare layered spaces in polynomial time

---
 src/ConfigSpace/_condition_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 0012b28..337e940 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -159,7 +159,12 @@ class HPNode:
     the parents.
     """
 
-    children: dict[str, tuple[HPNode, ConditionLike]] = field(default_factory=dict)
+    # NOTE: Not compared, each child is compared on its own with the condition leading
+    # to it and comparing it once for each path to it takes exponentially long.
+    children: dict[str, tuple[HPNode, ConditionLike]] = field(
+        default_factory=dict,
+        compare=False,
+    )
     """A dictionary of children hyperparameters and the conditions to activate them."""
 
     forbiddens: list[ForbiddenLike] = field(default_factory=list)
-- 
2.43.0


From ced1e43eb106c9fa204a551f1849837980b30cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:07 +0000
Subject: [PATCH 31/79] fix: unhashable values are not legal for categoricals
 and ordinals

---
 src/ConfigSpace/hyperparameters/hp_components.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index bafc306..e5c54a4 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -204,7 +204,7 @@ class TransformerSeq(Transformer[Any]):
     @override
     def legal_value(self, value: Array[Any]) -> Mask:
         if self._lookup is not None:
-            return np.array([v in self._lookup for v in value], dtype=np.bool_)
+            return np.array([self.legal_value_single(v) for v in value], dtype=np.bool_)
 
         if isinstance(self.seq, np.ndarray):
             return np.isin(value, self.seq)
@@ -222,7 +222,10 @@ class TransformerSeq(Transformer[Any]):
     @override
     def legal_value_single(self, value: Any) -> bool:
         if self._lookup is not None:
-            return value in self._lookup
+            try:
+                return value in self._lookup
+            except TypeError:  # Not hashable, hence none of the (hashable) values
+                return False
         return value in self.seq
 
     @override
-- 
2.43.0


From 011784eae8ffbdc7bc226a79b6ba8ac1e551127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:18 +0000
Subject: [PATCH 32/79] fix: a sequence is an illegal value of a configuration

---
 src/ConfigSpace/configuration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index e6227c2..c9e2c22 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -113,7 +113,9 @@ class Configuration(Mapping[str, Any]):
                     self._vector[i] = np.nan
                     continue
 
-                if not hp.legal_value(value):
+                # A sequence is checked item by item but is not a single legal value
+                legal = hp.legal_value(value)
+                if np.ndim(legal) > 0 or not legal:
                     raise IllegalValueError(hp, value)
 
                 # Truncate the float to be of constant lengt
@@ -182,7 +184,8 @@ class Configuration(Mapping[str, Any]):
 
     def __setitem__(self, key: str, value: Any) -> None:
         param = self.config_space[key]
-        if not param.legal_value(value):
+        legal = param.legal_value(value)
+        if np.ndim(legal) > 0 or not legal:
             raise IllegalValueError(param, value)
 
         idx = self.config_space.index_of[key]
-- 
2.43.0


From c38e9a8c65f1652a50c780aca699b9520e625fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:49 +0000
Subject: [PATCH 33/79] fix: round the default of a uniform integer instead of
 truncating it

---
 src/ConfigSpace/hyperparameters/uniform_integer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/uniform_integer.py b/src/ConfigSpace/hyperparameters/uniform_integer.py
index 3e45406..b3a9763 100644
--- a/src/ConfigSpace/hyperparameters/uniform_integer.py
+++ b/src/ConfigSpace/hyperparameters/uniform_integer.py
@@ -132,9 +132,11 @@ class UniformIntegerHyperparameter(IntegerHyperparameter):
             size=int(size),
             default_value=(
                 int(
-                    default_value
-                    if default_value is not None
-                    else np.rint(scaler.to_value(np.array([0.5]))[0]),
+                    np.rint(
+                        default_value
+                        if default_value is not None
+                        else scaler.to_value(np.array([0.5]))[0],
+                    ),
                 )
             ),
             meta=meta,
-- 
2.43.0


From e9832b9d651f46aa142517c565339f7259c9bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:19 +0000
Subject: [PATCH 34/79] fix: hyperparameters are equal to their unpickled
 copies

---
 src/ConfigSpace/hyperparameters/distributions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index b6a0cda..60e6309 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -57,7 +57,15 @@ def _compare_rv(a: Any, b: Any) -> bool:
     bdict = b.__dict__
     for key in adict:
         if key == "dist":
-            if adict[key]._ctor_param != bdict[key]._ctor_param:
+            aparam = adict[key]._ctor_param
+            bparam = bdict[key]._ctor_param
+            # NOTE: One of the parameters is a NaN, the same one only for as long
+            # as it has not been through a pickle.
+            if aparam.keys() != bparam.keys() or any(
+                aparam[k] != bparam[k]
+                and not (aparam[k] != aparam[k] and bparam[k] != bparam[k])
+                for k in aparam
+            ):
                 return False
 
         elif adict[key] != bdict[key]:
-- 
2.43.0


From 87ba0404777bf8c6254ad5bbbb579692c626a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:30 +0000
Subject: [PATCH 35/79] fix: asking for a density does not change what a
 hyperparameter is equal to

---
 src/ConfigSpace/hyperparameters/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 60e6309..6eebf58 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -435,6 +435,10 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
             return NotImplemented
 
         for key in self.__dict__:
+            # Computed from the others when first asked for
+            if key in ("_max_density", "_pdf_norm"):
+                continue
+
             if key == "rv":
                 if not _compare_rv(self.__dict__[key], value.__dict__[key]):
                     return False
-- 
2.43.0


From 66ba22184f320e80f64ba2ec5c0e6bb6ccc56791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:40 +0000
Subject: [PATCH 36/79] fix: a sequence is an illegal value when deactivating
 hyperparameters

---
 src/ConfigSpace/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 487e8f3..133ac3b 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -484,7 +484,8 @@ def deactivate_inactive_hyperparameters(
         if name not in values:
             continue
 
-        if not hp.legal_value(values[name]):
+        legal = hp.legal_value(values[name])
+        if np.ndim(legal) > 0 or not legal:
             raise IllegalValueError(hp, values[name])
 
         if all(
-- 
2.43.0


From 10b4cfae2d6fd3e6dfab96aa9566bd0771f589e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:50 +0000
Subject: [PATCH 37/79] fix: lists of mixed values are checked and converted
 one by one

---
 src/ConfigSpace/hyperparameters/categorical.py | 4 ++--
 src/ConfigSpace/hyperparameters/constant.py    | 4 ++--
 src/ConfigSpace/hyperparameters/ordinal.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index b95e759..11502aa 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -349,7 +349,7 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.to_vector(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.to_vector(np.array([value]))[0]
@@ -374,7 +374,7 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.legal_value(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.legal_value(np.array([value]))[0]
diff --git a/src/ConfigSpace/hyperparameters/constant.py b/src/ConfigSpace/hyperparameters/constant.py
index 8468323..914ab3e 100644
--- a/src/ConfigSpace/hyperparameters/constant.py
+++ b/src/ConfigSpace/hyperparameters/constant.py
@@ -124,7 +124,7 @@ class Constant(Hyperparameter[Any, Any]):
                 return self._transformer.legal_value(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.legal_value(np.array([value]))[0]
@@ -169,7 +169,7 @@ class Constant(Hyperparameter[Any, Any]):
                 return self._transformer.to_vector(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.to_vector(np.array([value]))[0]
diff --git a/src/ConfigSpace/hyperparameters/ordinal.py b/src/ConfigSpace/hyperparameters/ordinal.py
index b060925..a422c5a 100644
--- a/src/ConfigSpace/hyperparameters/ordinal.py
+++ b/src/ConfigSpace/hyperparameters/ordinal.py
@@ -194,7 +194,7 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.to_vector(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.to_vector(np.array([value]))[0]
@@ -219,7 +219,7 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.legal_value(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.legal_value(np.array([value]))[0]
-- 
2.43.0


From 5e27f955aec011c930b48dcc82badd72aeb9691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:01 +0000
Subject: [PATCH 38/79] fix: numbers listed together with strings can be legal
 values

---
 src/ConfigSpace/hyperparameters/hyperparameter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/hyperparameter.py b/src/ConfigSpace/hyperparameters/hyperparameter.py
index 9fb12f9..b1dc60f 100644
--- a/src/ConfigSpace/hyperparameters/hyperparameter.py
+++ b/src/ConfigSpace/hyperparameters/hyperparameter.py
@@ -282,7 +282,11 @@ class Hyperparameter(ABC, Generic[ValueT, DType]):
             return self._transformer.legal_value(value)
 
         if isinstance(value, Sequence) and not isinstance(value, str):
-            return self._transformer.legal_value(np.asarray(value))
+            values = np.asarray(value)
+            if values.dtype.kind in {"U", "S"}:
+                # Numbers among strings would have become strings
+                values = np.asarray(value, dtype=object)
+            return self._transformer.legal_value(values)
 
         return self._transformer.legal_value_single(value)  # type: ignore
 
-- 
2.43.0


From 8c549d0a9a0e66463a2a5da1ac933712da51dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:11 +0000
Subject: [PATCH 39/79] fix: legality and order of values that cannot be hashed

---
 src/ConfigSpace/hyperparameters/hp_components.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index e5c54a4..de97756 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -196,20 +196,18 @@ class TransformerSeq(Transformer[Any]):
         if self._lookup is not None:
             return np.array([self._lookup[v] for v in value], dtype=f64)
 
-        if isinstance(self.seq, np.ndarray):
-            return np.flatnonzero(np.isin(self.seq, value)).astype(f64)
-
-        return np.array([self.seq.index(v) for v in value], dtype=f64)
+        # Unhashable, hence compared one by one, as plain objects such that
+        # numpy does not try to compare them elementwise
+        seq = list(self.seq)
+        return np.array([seq.index(v) for v in value.tolist()], dtype=f64)
 
     @override
     def legal_value(self, value: Array[Any]) -> Mask:
         if self._lookup is not None:
             return np.array([self.legal_value_single(v) for v in value], dtype=np.bool_)
 
-        if isinstance(self.seq, np.ndarray):
-            return np.isin(value, self.seq)
-
-        return np.array([v in self.seq for v in value], dtype=np.bool_)
+        seq = list(self.seq)
+        return np.array([v in seq for v in value.tolist()], dtype=np.bool_)
 
     @override
     def legal_vector(self, vector: Array[f64]) -> Mask:
-- 
2.43.0


From 0e3311fc3208ba1683986c892f5dc6633d9bbb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:28 +0000
Subject: [PATCH 40/79] fix: a vector entry that rounds past the last choice is
 illegal

---
 src/ConfigSpace/hyperparameters/hp_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index de97756..0cf1c5b 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -213,7 +213,7 @@ class TransformerSeq(Transformer[Any]):
     def legal_vector(self, vector: Array[f64]) -> Mask:
         return (
             (vector >= 0)
-            & (vector < len(self.seq))
+            & (np.rint(vector) < len(self.seq))
             & is_close_to_integer(vector, atol=ATOL)
         )
 
@@ -230,7 +230,7 @@ class TransformerSeq(Transformer[Any]):
     def legal_vector_single(self, vector: np.number) -> bool:
         return bool(
             vector >= 0
-            and vector < len(self.seq)
+            and np.rint(vector) < len(self.seq)
             and is_close_to_integer_single(vector, atol=ATOL),
         )
 
-- 
2.43.0


From 236880d3865ab39bf20f64fc761a675972ec268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:58 +0000
Subject: [PATCH 41/79] fix: integer neighbors are found even if nearly all
 values are asked for

---
 .../hyperparameters/distributions.py          | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 6eebf58..dc259a1 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -198,13 +198,15 @@ def quantized_neighborhood(
             # Ensure we don't include the initial value point
             return neighbors[1 : n + 1]
 
-    raise ValueError(
-        f"Failed to find enough neighbors with {n_retries} retries."
-        f" Given {n=} neighbors to generate, we only found {offset - 1}."
-        f" The normal's for sampling neighbors were Normal({vector}, {list(stds)})"
-        f" which were meant to find neighbors of {vector}. in the range"
-        f" ({lower}, {upper}).",
+    # We kept missing some of them, so take the rest from those which are left
+    levels = quantize(
+        np.linspace(lower, upper, bins),
+        bounds=(lower, upper),
+        bins=bins,
     )
+    left = np.setdiff1d(levels, neighbors[:offset])
+    neighbors[offset : n + 1] = seed.permutation(left)[: n + 1 - offset]
+    return neighbors[1 : n + 1]
 
 
 def continuous_neighborhood(
@@ -720,13 +722,18 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
                 # Ensure we don't include the initial value point
                 return neighbors[1 : n + 1]
 
-        raise ValueError(
-            f"Failed to find enough neighbors with {n_retries} retries."
-            f" Given {n=} neighbors to generate, we only found {offset - 1}."
-            f" The normal's for sampling neighbors were Normal({vector}, {list(stds)})"
-            f" which were meant to find neighbors of {vector}. in the range"
-            f" ({self.lower_vectorized}, {self.upper_vectorized}).",
-        )
+        # We kept missing some of them, so take the rest from those which are left
+        if self.transformer is not None:
+            assert self.original_value_scale is not None
+            levels = self.transformer.to_vector(
+                np.linspace(*self.original_value_scale, steps),
+            )
+        else:
+            levels = np.linspace(lower, upper, steps)
+
+        left = np.setdiff1d(self._quantize(levels), neighbors[:offset])
+        neighbors[offset : n + 1] = seed.permutation(left)[: n + 1 - offset]
+        return neighbors[1 : n + 1]
 
 
 @dataclass
-- 
2.43.0


From 795bce99275ad0a07794d3ecb0cda565256cc7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:44 +0000
Subject: [PATCH 42/79] fix: Write the values of in-conditions and in-clauses
 as lists of their own

The tuples of forbidden in-clauses could not be read back from YAML, and the
list of an in-condition was shared between the space and the dictionary.
---
 src/ConfigSpace/read_and_write/dictionary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/dictionary.py b/src/ConfigSpace/read_and_write/dictionary.py
index 360b874..379050b 100644
--- a/src/ConfigSpace/read_and_write/dictionary.py
+++ b/src/ConfigSpace/read_and_write/dictionary.py
@@ -208,7 +208,7 @@ def _decode_in_condition_condition(
     return InCondition(
         child=cs[item["child"]],
         parent=cs[item["parent"]],
-        values=item["values"],
+        values=list(item["values"]),
     )
 
 
@@ -496,7 +496,7 @@ def _encode_in_condition(
     return {
         "child": cond.child.name,
         "parent": cond.parent.name,
-        "values": cond.values,
+        "values": list(cond.values),
     }
 
 
@@ -531,7 +531,7 @@ def _encode_forbidden_in(
     cond: ForbiddenInClause,
     encode: _Encoder,  # noqa: ARG001
 ) -> dict[str, Any]:
-    return {"name": cond.hyperparameter.name, "values": cond.values}
+    return {"name": cond.hyperparameter.name, "values": list(cond.values)}
 
 
 def _encode_forbidden_and(
-- 
2.43.0


From 89602cffcabe06b6fdb05502808499f98cb1f295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:00 +0000
Subject: [PATCH 43/79] fix: Keep the meta data of a space when serializing it

---
 src/ConfigSpace/configuration_space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index c24f1df..5fbefd4 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -987,6 +987,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
         return {
             "name": self.name,
+            "meta": self.meta,
             "hyperparameters": [enc(hp, enc) for hp in self.values()],
             "conditions": [enc(c, enc) for c in self.conditions],
             "forbiddens": [enc(f, enc) for f in self.forbidden_clauses],
@@ -1049,7 +1050,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             return dec
 
-        space = ConfigurationSpace(name=d.get("name"))
+        space = ConfigurationSpace(name=d.get("name"), meta=d.get("meta"))
         _hyperparameters = d.get("hyperparameters", [])
         _conditions = d.get("conditions", [])
         _forbiddens = d.get("forbiddens", [])
-- 
2.43.0


From 9d4f5d43d9c6863b749a742110599beba204900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:33 +0000
Subject: [PATCH 44/79] fix: keep numeric values of conditions and clauses in
 pcs files

Writing an in-condition on a numeric parent raised a TypeError, and
reading a condition or forbidden clause on a numeric hyperparameter
raised an error because the value was kept as text.
---
 src/ConfigSpace/read_and_write/pcs.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs.py b/src/ConfigSpace/read_and_write/pcs.py
index 8f357c3..fddaf76 100644
--- a/src/ConfigSpace/read_and_write/pcs.py
+++ b/src/ConfigSpace/read_and_write/pcs.py
@@ -41,6 +41,8 @@ from ConfigSpace.forbidden import (
 from ConfigSpace.hyperparameters import (
     CategoricalHyperparameter,
     Constant,
+    FloatHyperparameter,
+    Hyperparameter,
     IntegerHyperparameter,
     NumericalHyperparameter,
     UniformFloatHyperparameter,
@@ -190,7 +192,7 @@ def build_condition(condition: Condition | Conjunction) -> str:
         return condition_template % (
             condition.child.name,
             condition.parent.name,
-            ", ".join(condition.values),
+            ", ".join([str(value) for value in condition.values]),
         )
 
     if isinstance(condition, EqualsCondition):
@@ -234,6 +236,14 @@ def build_forbidden(clause: ForbiddenLike) -> str:
     return retval.getvalue()
 
 
+def _cast_value(hyperparameter: Hyperparameter, value: str) -> str | int | float:
+    if isinstance(hyperparameter, FloatHyperparameter):
+        return float(value)
+    if isinstance(hyperparameter, IntegerHyperparameter):
+        return int(value)
+    return value
+
+
 @deprecated(
     "pcs.read is has stopped being maintained, please use `space.to_json`"
     " or `space.to_yaml` instead",
@@ -375,11 +385,9 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 if tmp_list[1] == "=":
                     # TODO maybe add a check if the hyperparameter is
                     # actually in the configuration space
+                    hp = configuration_space[tmp_list[0]]
                     clause_list.append(
-                        ForbiddenEqualsClause(
-                            configuration_space[tmp_list[0]],
-                            tmp_list[2],
-                        ),
+                        ForbiddenEqualsClause(hp, _cast_value(hp, tmp_list[2])),
                     )
                 else:
                     raise NotImplementedError()
@@ -403,9 +411,8 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
             child = configuration_space[child_name]
             parent_name = condition[2]
             parent = configuration_space[parent_name]
-            restrictions = condition[5:-1:2]
+            restrictions = [_cast_value(parent, val) for val in condition[5:-1:2]]
 
-            # TODO: cast the type of the restriction!
             if len(restrictions) == 1:
                 condition = EqualsCondition(child, parent, restrictions[0])
             else:
-- 
2.43.0


From 0d4740fd165b1a3984bd5f1d1c988a9677f0fbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:00 +0000
Subject: [PATCH 45/79] fix: add clauses and conditions of a pcs_new file
 together

Forbidden clauses were checked against the default configuration before
the conditions were in place, so files in which the conditions switch
off part of a clause could not be read back.
---
 src/ConfigSpace/read_and_write/pcs_new.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index 318f90d..2fc7d13 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -632,8 +632,6 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 tmp_list = []
         forbidden_to_add.append(ForbiddenAndConjunction(*clause_list))
 
-    configuration_space.add(forbidden_to_add)
-
     conditions_per_child: dict = OrderedDict()
 
     for condition in conditions:
@@ -721,7 +719,7 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 )
                 conditions_to_add.append(normal_condition)
 
-    configuration_space.add(conditions_to_add)
+    configuration_space.add(conditions_to_add, forbidden_to_add)
 
     return configuration_space
 
-- 
2.43.0


From 5ddd8624fcd252c0388a7af9e552d09e3b63c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:12 +0000
Subject: [PATCH 46/79] fix: read in-conditions that are part of a mixed
 pcs_new condition

The words of each condition were repeated once per part of the
conjunction, which gave an in-condition extra values.
---
 src/ConfigSpace/read_and_write/pcs_new.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index 2fc7d13..a64e425 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -665,11 +665,7 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                             # now taking care of ands
                             ands = []
                             for and_part in condition:
-                                element_list = [
-                                    element
-                                    for _ in condition
-                                    for element in and_part.split()
-                                ]
+                                element_list = and_part.split()
                                 ands.append(
                                     condition_specification(
                                         child_name,
-- 
2.43.0


From 00d5a7af1310fc55f099ef0bfed7658b61613474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:23 +0000
Subject: [PATCH 47/79] fix: tell ordinals from categoricals by their declared
 type in pcs_new

An ordinal whose name or choices contain the word categorical was read
as a categorical.
---
 src/ConfigSpace/read_and_write/pcs_new.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index a64e425..dc35f5d 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -540,7 +540,8 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
             pass
 
         try:
-            if "categorical" in line:
+            param_type = (pp_param_name + pp_param_type).parseString(line)[1]
+            if param_type == "categorical":
                 param_list = pp_cat_param.parseString(line)
                 name = param_list[0]
                 choices = list(param_list[3:-4:2])
@@ -552,7 +553,7 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 )
                 cat_ct += 1
 
-            elif "ordinal" in line:
+            elif param_type == "ordinal":
                 param_list = pp_ord_param.parseString(line)
                 name = param_list[0]
                 sequence = list(param_list[3:-4:2])
-- 
2.43.0


From 2ceb3dd136ae5d5a6abfa1d714a0c9e41ab5cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:31 +0000
Subject: [PATCH 48/79] fix: accept the written text of a space in pcs_new.read

A string was read character by character, unlike in pcs.read.
---
 src/ConfigSpace/read_and_write/pcs_new.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index dc35f5d..2586bf5 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -453,6 +453,9 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
     Returns:
         The deserialized ConfigurationSpace object
     """
+    if isinstance(pcs_string, str):
+        pcs_string = pcs_string.split("\n")
+
     configuration_space = ConfigurationSpace()
     forbidden_to_add = []
     conditions_to_add = []
-- 
2.43.0


From 25f52e087fef2a419cfe12cb44482c113b01b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:46 +0000
Subject: [PATCH 49/79] fix: keep the default within the bounds when converting
 to integer

The bounds are rounded inwards but the default to the nearest integer,
which could lie outside of them, so the conversion was refused.
---
 src/ConfigSpace/hyperparameters/beta_float.py    | 2 +-
 src/ConfigSpace/hyperparameters/normal_float.py  | 9 ++++++---
 src/ConfigSpace/hyperparameters/uniform_float.py | 9 ++++++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/beta_float.py b/src/ConfigSpace/hyperparameters/beta_float.py
index a285618..fc1051b 100644
--- a/src/ConfigSpace/hyperparameters/beta_float.py
+++ b/src/ConfigSpace/hyperparameters/beta_float.py
@@ -169,7 +169,7 @@ class BetaFloatHyperparameter(FloatHyperparameter):
 
         lower = int(np.ceil(self.lower))
         upper = int(np.floor(self.upper))
-        default_value = int(np.rint(self.default_value))
+        default_value = min(max(int(np.rint(self.default_value)), lower), upper)
 
         return BetaIntegerHyperparameter(
             name=self.name,
diff --git a/src/ConfigSpace/hyperparameters/normal_float.py b/src/ConfigSpace/hyperparameters/normal_float.py
index 5c8da56..ea57f5f 100644
--- a/src/ConfigSpace/hyperparameters/normal_float.py
+++ b/src/ConfigSpace/hyperparameters/normal_float.py
@@ -163,13 +163,16 @@ class NormalFloatHyperparameter(FloatHyperparameter):
             NormalIntegerHyperparameter,
         )
 
+        lower = np.ceil(self.lower)
+        upper = np.floor(self.upper)
+
         return NormalIntegerHyperparameter(
             name=self.name,
             mu=self.mu,
             sigma=self.sigma,
-            lower=np.ceil(self.lower),
-            upper=np.floor(self.upper),
-            default_value=np.rint(self.default_value),
+            lower=lower,
+            upper=upper,
+            default_value=np.clip(np.rint(self.default_value), lower, upper),
             log=self.log,
         )
 
diff --git a/src/ConfigSpace/hyperparameters/uniform_float.py b/src/ConfigSpace/hyperparameters/uniform_float.py
index 255a470..24b5a78 100644
--- a/src/ConfigSpace/hyperparameters/uniform_float.py
+++ b/src/ConfigSpace/hyperparameters/uniform_float.py
@@ -134,11 +134,14 @@ class UniformFloatHyperparameter(FloatHyperparameter):
             UniformIntegerHyperparameter,
         )
 
+        lower = math.ceil(self.lower)
+        upper = math.floor(self.upper)
+
         return UniformIntegerHyperparameter(
             name=self.name,
-            lower=math.ceil(self.lower),
-            upper=math.floor(self.upper),
-            default_value=round(self.default_value),
+            lower=lower,
+            upper=upper,
+            default_value=min(max(round(self.default_value), lower), upper),
             log=self.log,
             meta=None,
         )
-- 
2.43.0


From e3d0368a642248066c9f1024941dd1dfccc4d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:35 +0000
Subject: [PATCH 50/79] fix: keep the type of choices that mix numbers of
 different types

A categorical or ordinal with choices such as [1, 2.5] or [True, 3] gave
the values 1.0 and 1 for its first choice, which are not the choice that
was defined and whose text fix_types could not match.
---
 src/ConfigSpace/hyperparameters/categorical.py | 9 ++++-----
 src/ConfigSpace/hyperparameters/ordinal.py     | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index 11502aa..5c4b1eb 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -256,11 +256,10 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                 raise ValueError
 
             # NOTE: Unfortunatly, numpy will promote number types to str
-            # if there are string types in the array, where we'd rather
-            # stick to object type in that case. Hence the manual...
-            if seq_choices.dtype.kind in {"U", "S"} and not all(
-                isinstance(choice, str) for choice in choices
-            ):
+            # if there are string types in the array, and integers or booleans to
+            # floats if there are floats, where we'd rather stick to object type
+            # in that case. Hence the manual...
+            if len({type(choice) for choice in choices}) > 1:
                 seq_choices = np.array(choices, dtype=object)
 
         except ValueError:
diff --git a/src/ConfigSpace/hyperparameters/ordinal.py b/src/ConfigSpace/hyperparameters/ordinal.py
index a422c5a..68f2f6a 100644
--- a/src/ConfigSpace/hyperparameters/ordinal.py
+++ b/src/ConfigSpace/hyperparameters/ordinal.py
@@ -98,11 +98,10 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
                 raise ValueError
 
             # NOTE: Unfortunatly, numpy will promote number types to str
-            # if there are string types in the array, where we'd rather
-            # stick to object type in that case. Hence the manual...
-            if seq_choices.dtype.kind in {"U", "S"} and not all(
-                isinstance(item, str) for item in sequence
-            ):
+            # if there are string types in the array, and integers or booleans to
+            # floats if there are floats, where we'd rather stick to object type
+            # in that case. Hence the manual...
+            if len({type(item) for item in sequence}) > 1:
                 seq_choices = np.array(sequence, dtype=object)
 
         except ValueError:
-- 
2.43.0


From 3642feee342e8936c6aa2d56051f7633567f7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:45 +0000
Subject: [PATCH 51/79] fix: compare nested conjunctions without repeating work

Each component was compared in both directions, so the work to compare
two conjunctions doubled with each level of nesting. Twenty levels took
minutes.
---
 src/ConfigSpace/conditions.py | 19 +++++++++++++++----
 src/ConfigSpace/forbidden.py  | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index c2f62f3..e64b2a9 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -425,10 +425,21 @@ class Conjunction:
         if len(self.components) != len(other.components):
             return False
 
-        # We need to check that all of this components exist in the other
-        # and vice versa...
-        return all(c in other.components for c in self.components) and all(
-            oc in self.components for oc in other.components
+        # Each of our components must exist in the other one and vice versa. The ones
+        # already found equal are not compared a second time, as this would double the
+        # work with each level of nesting.
+        matched = set()
+        for c in self.components:
+            for i, oc in enumerate(other.components):
+                if c == oc:
+                    matched.add(i)
+                    break
+            else:
+                return False
+
+        return all(
+            i in matched or oc in self.components
+            for i, oc in enumerate(other.components)
         )
 
     def __copy__(self) -> Self:
diff --git a/src/ConfigSpace/forbidden.py b/src/ConfigSpace/forbidden.py
index ff3bf6c..f75c57a 100644
--- a/src/ConfigSpace/forbidden.py
+++ b/src/ConfigSpace/forbidden.py
@@ -260,8 +260,21 @@ class ForbiddenConjunction(ABC):
         if len(self.components) != len(other.components):
             return False
 
-        return all(c in other.components for c in self.components) and all(
-            oc in self.components for oc in other.components
+        # Each of our components must exist in the other one and vice versa. The ones
+        # already found equal are not compared a second time, as this would double the
+        # work with each level of nesting.
+        matched = set()
+        for c in self.components:
+            for i, oc in enumerate(other.components):
+                if c == oc:
+                    matched.add(i)
+                    break
+            else:
+                return False
+
+        return all(
+            i in matched or oc in self.components
+            for i, oc in enumerate(other.components)
         )
 
     def set_vector_idx(self, hyperparameter_to_idx: Mapping[str, int]) -> None:
-- 
2.43.0


From b82226d74e2cd1bc507456dfc93411fb48482e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:57 +0000
Subject: [PATCH 52/79] fix: refuse normal hyperparameters without a positive
 sigma

---
 src/ConfigSpace/hyperparameters/normal_float.py   | 6 ++++++
 src/ConfigSpace/hyperparameters/normal_integer.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/normal_float.py b/src/ConfigSpace/hyperparameters/normal_float.py
index ea57f5f..1346a83 100644
--- a/src/ConfigSpace/hyperparameters/normal_float.py
+++ b/src/ConfigSpace/hyperparameters/normal_float.py
@@ -96,6 +96,12 @@ class NormalFloatHyperparameter(FloatHyperparameter):
             meta:
                 Field for meta data provided by the user. Not used by ConfigSpace.
         """
+        if not sigma > 0:
+            raise ValueError(
+                f"Hyperparameter '{name}' has illegal settings: "
+                f"sigma={sigma} must be positive.",
+            )
+
         if mu <= 0 and log:
             raise ValueError(
                 f"Hyperparameter '{name}' has illegal settings: "
diff --git a/src/ConfigSpace/hyperparameters/normal_integer.py b/src/ConfigSpace/hyperparameters/normal_integer.py
index 790e790..f1f82cd 100644
--- a/src/ConfigSpace/hyperparameters/normal_integer.py
+++ b/src/ConfigSpace/hyperparameters/normal_integer.py
@@ -99,6 +99,12 @@ class NormalIntegerHyperparameter(IntegerHyperparameter):
                 Field for holding meta data provided by the user. Not used by
                 ConfigSpace.
         """
+        if not sigma > 0:
+            raise ValueError(
+                f"Hyperparameter '{name}' has illegal settings: "
+                f"sigma={sigma} must be positive.",
+            )
+
         if mu <= 0 and log:
             raise ValueError(
                 f"Hyperparameter '{name}' has illegal settings: "
-- 
2.43.0


From 9fb00755ddc3d08219f1ef32b0834110d0720f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:11 +0000
Subject: [PATCH 53/79] fix: refuse categorical weights that are not finite

---
 src/ConfigSpace/hyperparameters/categorical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index 5c4b1eb..1ba7c35 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -202,6 +202,10 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                 raise ValueError(
                     f"Negative weights are not allowed. Got {weights}.",
                 )
+            if not all(np.isfinite(weight) for weight in weights):
+                raise ValueError(
+                    f"All weights must be finite. Got {weights}.",
+                )
             if all(weight == 0 for weight in weights):
                 raise ValueError(
                     "All weights are zero, at least one weight has to be strictly"
-- 
2.43.0


From 1fa00d2def230fb628662fdff80f3dfaf7fe9a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:24 +0000
Subject: [PATCH 54/79] fix: refuse float hyperparameters with infinite bounds

---
 src/ConfigSpace/hyperparameters/hp_components.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index 0cf1c5b..b40cfd1 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -279,6 +279,12 @@ class UnitScaler(Transformer[DType]):
     _upper_value_f64: f64 = field(init=False)
 
     def __post_init__(self) -> None:
+        if not (np.isfinite(self.lower_value) and np.isfinite(self.upper_value)):
+            raise ValueError(
+                f"Bounds must be finite, got lower {self.lower_value} and upper"
+                f" {self.upper_value}",
+            )
+
         if self.lower_value >= self.upper_value:
             raise ValueError(
                 f"Upper bound {self.upper_value:f} must be larger than"
-- 
2.43.0


From ce01b091241c3a55985020ad09b407289c689209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:05 +0000
Subject: [PATCH 55/79] fix: a sequence is not a legal value of a condition or
 a clause

---
 src/ConfigSpace/conditions.py | 7 +++++--
 src/ConfigSpace/forbidden.py  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index e64b2a9..2a7d366 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -129,7 +129,9 @@ class BinaryOpCondition(Condition):
                 f"The parent hyperparameter must be orderable to use "
                 f"{_clsname}, however {self.parent} is not.",
             )
-        if check_condition_legality and not parent.legal_value(value):
+        # A sequence is checked item by item but is not a single legal value
+        legal = parent.legal_value(value)
+        if check_condition_legality and (np.ndim(legal) > 0 or not legal):
             raise ValueError(
                 f"Hyperparameter '{child.name}' is "
                 f"conditional on the illegal value '{value}' of "
@@ -339,7 +341,8 @@ class InCondition(Condition):
     ) -> None:
         super().__init__(child, parent, values)
         for value in values:
-            if not parent.legal_value(value):
+            legal = parent.legal_value(value)
+            if np.ndim(legal) > 0 or not legal:
                 raise ValueError(
                     f"Hyperparameter '{child.name}' is "
                     f"conditional on the illegal value '{value}' of "
diff --git a/src/ConfigSpace/forbidden.py b/src/ConfigSpace/forbidden.py
index f75c57a..4f2f1a8 100644
--- a/src/ConfigSpace/forbidden.py
+++ b/src/ConfigSpace/forbidden.py
@@ -350,7 +350,9 @@ class ForbiddenEqualsClause(ForbiddenClause):
             hyperparameter: Hyperparameter on which a restriction will be made
             value: forbidden value
         """
-        if not hyperparameter.legal_value(value):
+        # A sequence is checked item by item but is not a single legal value
+        legal = hyperparameter.legal_value(value)
+        if np.ndim(legal) > 0 or not legal:
             raise ValueError(
                 "Forbidden clause must be instantiated with a "
                 f"legal hyperparameter value for '{hyperparameter}', but got "
@@ -439,7 +441,8 @@ class ForbiddenInClause(ForbiddenClause):
         """
         values = tuple(values)
         for v in values:
-            if not hyperparameter.legal_value(v):
+            legal = hyperparameter.legal_value(v)
+            if np.ndim(legal) > 0 or not legal:
                 raise ValueError(
                     "Forbidden clause must be instantiated with a "
                     f"legal hyperparameter value for '{hyperparameter}', but got "
-- 
2.43.0


From 9a67aa6628952917a47f56aff12ef5bf104ce016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:13 +0000
Subject: [PATCH 56/79] fix: refuse beta hyperparameters with a NaN parameter

---
 src/ConfigSpace/hyperparameters/beta_float.py   | 2 +-
 src/ConfigSpace/hyperparameters/beta_integer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/beta_float.py b/src/ConfigSpace/hyperparameters/beta_float.py
index fc1051b..ca463a9 100644
--- a/src/ConfigSpace/hyperparameters/beta_float.py
+++ b/src/ConfigSpace/hyperparameters/beta_float.py
@@ -102,7 +102,7 @@ class BetaFloatHyperparameter(FloatHyperparameter):
                 Field for holding meta data provided by the user.
                 Not used by the configuration space.
         """
-        if (alpha < 1) or (beta < 1):
+        if not (alpha >= 1 and beta >= 1):
             raise ValueError(
                 "Please provide values of alpha and beta larger than or equal to"
                 " 1 so that the probability density is finite.",
diff --git a/src/ConfigSpace/hyperparameters/beta_integer.py b/src/ConfigSpace/hyperparameters/beta_integer.py
index 3bfee4c..a4e7697 100644
--- a/src/ConfigSpace/hyperparameters/beta_integer.py
+++ b/src/ConfigSpace/hyperparameters/beta_integer.py
@@ -104,7 +104,7 @@ class BetaIntegerHyperparameter(IntegerHyperparameter):
                 Field for holding meta data provided by the user.
                 Not used by the configuration space.
         """
-        if (alpha < 1) or (beta < 1):
+        if not (alpha >= 1 and beta >= 1):
             raise ValueError(
                 "Please provide values of alpha and beta larger than or equal to"
                 "1 so that the probability density is finite.",
-- 
2.43.0


From b3138a6fa3679dd859d79b8c58acb688003d77ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:03 +0000
Subject: [PATCH 57/79] fix: make Hyperparameter.copy usable

---
 src/ConfigSpace/hyperparameters/hyperparameter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hyperparameter.py b/src/ConfigSpace/hyperparameters/hyperparameter.py
index b1dc60f..1afaa94 100644
--- a/src/ConfigSpace/hyperparameters/hyperparameter.py
+++ b/src/ConfigSpace/hyperparameters/hyperparameter.py
@@ -1,9 +1,10 @@
 from __future__ import annotations
 
+import inspect
 import warnings
 from abc import ABC, abstractmethod
 from collections.abc import Callable, Hashable, Mapping, Sequence
-from dataclasses import dataclass, field, replace
+from dataclasses import dataclass, field
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -538,10 +539,10 @@ class Hyperparameter(ABC, Generic[ValueT, DType]):
         Returns:
             A copy of the hyperparameter with the updated attributes.
         """
-        # HACK: Really the only thing implementing Hyperparameter should be a dataclass
-        # If a hyperparameter is somehow not a dataclass, it will likely need to
-        # overwrite this.
-        return replace(self, **kwargs)  # type: ignore
+        # NOTE: The parameters of `__init__` are all attributes, if this is not the case
+        # for some hyperparameter, it will need to overwrite this.
+        params = inspect.signature(type(self)).parameters
+        return type(self)(**{**{p: getattr(self, p) for p in params}, **kwargs})
 
     def get_num_neighbors(
         self,
-- 
2.43.0


From 57d43031dec2617e34e394694a2ee6387aed2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:21 +0000
Subject: [PATCH 58/79] fix: treat nearly whole vector entries alike when
 looking for neighbors

---
 src/ConfigSpace/hyperparameters/categorical.py   | 2 +-
 src/ConfigSpace/hyperparameters/hp_components.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index 1ba7c35..f13e209 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -74,7 +74,7 @@ class NeighborhoodCat(Neighborhood):
         seed: np.random.RandomState | None = None,
     ) -> Array[f64]:
         seed = np.random.RandomState() if seed is None else seed
-        pivot = int(vector)
+        pivot = int(np.rint(vector))
         if self._cached_neighbors is not None:
             choices = self._cached_neighbors[pivot].copy()
             seed.shuffle(choices)
diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index b40cfd1..ca39bb1 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -452,6 +452,7 @@ def ordinal_neighborhood(
         The neighborhood of the vectorized value.
     """
     end_index = size - 1
+    vector = np.rint(vector)
     assert 0 <= vector <= end_index
 
     # No neighbors if it's the only element
-- 
2.43.0


From e3429c15e4da714c675808476454840e12b0f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:30 +0000
Subject: [PATCH 59/79] fix: report the density of the choice a nearly whole
 vector entry stands for

---
 src/ConfigSpace/hyperparameters/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index dc259a1..16c4280 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -979,7 +979,7 @@ class UniformIntegerDistribution(Distribution):
         # By definition, we don't allow NaNs in the pdf
         valid_mask = (
             (vector >= self.lower_vectorized)
-            & (vector <= self.upper_vectorized)
+            & (np.rint(vector) <= self.upper_vectorized)
             & is_close_to_integer(vector, atol=ATOL)
         )
         return np.where(valid_mask, self.max_density(), 0)
@@ -1174,13 +1174,13 @@ class WeightedIntegerDiscreteDistribution(Distribution):
         # By definition, we don't allow NaNs in the pdf
         valid_mask = (
             (vector >= self.lower_vectorized)
-            & (vector <= self.upper_vectorized)
+            & (np.rint(vector) <= self.upper_vectorized)
             & is_close_to_integer(vector, atol=ATOL)
         )
 
         # Bring it all into range to index by
         nan_filled: Array[f64] = np.nan_to_num(vector, nan=0)
-        xx: Array[i64] = np.clip(nan_filled, 0, self.size - 1).astype(np.intp)
+        xx: Array[i64] = np.clip(np.rint(nan_filled), 0, self.size - 1).astype(np.intp)
         pdf = self.probabilities[xx]
         return np.where(valid_mask, pdf, 0)
 
-- 
2.43.0


From 0a19a36a49d5b0f34c22e289a0b596045d135753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:17 +0000
Subject: [PATCH 60/79] fix: keep a space intact when its conditions or clauses
 are added to another one

---
 src/ConfigSpace/configuration_space.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index 5fbefd4..8bcfdbc 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -83,6 +83,17 @@ if TYPE_CHECKING:
     from ConfigSpace.read_and_write.dictionary import _Decoder, _Encoder
 
 
+def _is_bound(item: ConditionLike | ForbiddenLike) -> bool:
+    """Whether a condition or forbidden already belongs to some space."""
+    if isinstance(item, (Conjunction, ForbiddenConjunction)):
+        return any(_is_bound(dlc) for dlc in item.dlcs)
+    if isinstance(item, Condition):
+        return item.parent_vector_id is not None
+    if isinstance(item, ForbiddenRelation):
+        return item.vector_ids[0] is not None
+    return item.vector_id is not None
+
+
 def _parse_hyperparameters_from_dict(
     items: Mapping[str, Any],
 ) -> Iterator[Hyperparameter]:
@@ -337,6 +348,12 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
         for a in args:
             _put_to_list(a)
 
+        # Conditions and forbiddens remember where in the vector their hyperparameters
+        # are. If they already belong to a space, we take copies of them, such that
+        # this other space is not affected.
+        conditions = [copy.copy(c) if _is_bound(c) else c for c in conditions]
+        forbiddens = [copy.copy(f) if _is_bound(f) else f for f in forbiddens]
+
         # If something can not be added, the space stays as it was
         restore = self._dag.snapshot()
         try:
-- 
2.43.0


From 535acc55c807197d2e9e4e7fb4578be119b52008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:13 +0000
Subject: [PATCH 61/79] fix: exact and complete neighbors of evenly distributed
 integers

---
 .../hyperparameters/distributions.py            | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 16c4280..7f27533 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -1084,10 +1084,8 @@ class UniformIntegerDistribution(Distribution):
             valid_candidates = candidates[(candidates >= lower) & (candidates <= upper)]
 
             # Transform to quantized space
-            candidates_quantized = quantize(
-                valid_candidates,
-                bounds=(lower, upper),
-                bins=steps,
+            candidates_quantized = np.rint(
+                quantize(valid_candidates, bounds=(lower, upper), bins=steps),
             )
 
             uniq = np.unique(candidates_quantized)
@@ -1102,13 +1100,10 @@ class UniformIntegerDistribution(Distribution):
                 # Ensure we don't include the initial value point
                 return neighbors[1 : n + 1]
 
-        raise ValueError(
-            f"Failed to find enough neighbors with {n_retries} retries."
-            f" Given {n=} neighbors to generate, we only found {offset - 1}."
-            f" The normal's for sampling neighbors were Normal({vector}, {list(stds)})"
-            f" which were meant to find neighbors of {vector}. in the range"
-            f" ({self.lower_vectorized}, {self.upper_vectorized}).",
-        )
+        # We kept missing some of them, so take the rest from those which are left
+        left = np.setdiff1d(np.arange(steps, dtype=f64), neighbors[:offset])
+        neighbors[offset : n + 1] = seed.permutation(left)[: n + 1 - offset]
+        return neighbors[1 : n + 1]
 
 
 @dataclass
-- 
2.43.0


From e70f8822b255ff75ea6cea2599ab9eac16932808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:53 +0000
Subject: [PATCH 62/79] fix: compare weighted distributions instead of failing

---
 src/ConfigSpace/hyperparameters/distributions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 7f27533..9ee91a7 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -1179,6 +1179,15 @@ class WeightedIntegerDiscreteDistribution(Distribution):
         pdf = self.probabilities[xx]
         return np.where(valid_mask, pdf, 0)
 
+    def __eq__(self, value: object, /) -> bool:
+        if not isinstance(value, self.__class__):
+            return NotImplemented
+
+        return self.size == value.size and np.array_equal(
+            self.probabilities,
+            value.probabilities,
+        )
+
 
 @dataclass
 class ScipyContinuousDistribution(Distribution):
-- 
2.43.0


From 8ba500fd4e617f1e3f6c0ae048e3d9a287b633f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:37 +0000
Subject: [PATCH 63/79] fix: all neighbors in the asked for range and not in
 the unit interval

---
 src/ConfigSpace/hyperparameters/distributions.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 9ee91a7..c7ddfb9 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -137,17 +137,9 @@ def quantized_neighborhood(
     # neighbors, excluding the current value
     n_available = bins - 1
     if n >= n_available:
-        if qvector == 0:
-            return np.arange(1, bins) / (bins - 1)
-        if qvector == bins - 1:
-            return np.arange(0, bins - 1) / (bins - 1)
-
-        qint = i64(np.rint(vector * (bins - 1)))
-
-        _range: Array[f64] = np.arange(0, bins, dtype=np.float64)
-        bot = _range[:qint]
-        top = _range[qint + 1 :]
-        return np.concatenate((bot, top)) / (bins - 1)  # type: ignore
+        pivot = np.rint((qvector - lower) / (upper - lower) * (bins - 1))
+        levels = np.delete(np.arange(bins), int(pivot)) / (bins - 1)
+        return levels * (upper - lower) + lower
 
     # Otherwise, we use a repeated sampling strategy where we slowly increase the
     # std of a normal, centered on `center`, slowly expanding `std` such that
-- 
2.43.0


From 4e61644cfee2fc0d4edc26bf22342ed732e6a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:47 +0000
Subject: [PATCH 64/79] fix: changing the list an in condition was made from or
 gave out changes it

---
 src/ConfigSpace/conditions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index 2a7d366..f620ebc 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -339,6 +339,9 @@ class InCondition(Condition):
         parent: Hyperparameter,
         values: list[Any],
     ) -> None:
+        # NOTE: The caller may go on to use its collection for something else
+        if isinstance(values, (list, set, np.ndarray)):
+            values = values.copy()  # type: ignore
         super().__init__(child, parent, values)
         for value in values:
             legal = parent.legal_value(value)
@@ -383,7 +386,7 @@ class InCondition(Condition):
         return {
             "child": self.child.name,
             "parent": self.parent.name,
-            "values": self.values,
+            "values": copy.copy(self.values),
         }
 
 
-- 
2.43.0


From a51c76f00751a42c511a9ac9f9cfb012bddcbbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:16 +0000
Subject: [PATCH 65/79] fix: grid over a float whose grid points switch on
 other hyperparameters

---
 src/ConfigSpace/util.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 133ac3b..cc49b6d 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -53,6 +53,7 @@ from ConfigSpace.hyperparameters import (
     UniformFloatHyperparameter,
     UniformIntegerHyperparameter,
 )
+from ConfigSpace.hyperparameters.hp_components import ROUND_PLACES
 from ConfigSpace.types import NotSet
 
 if TYPE_CHECKING:
@@ -696,7 +697,8 @@ def generate_grid(
             if param.log:
                 grid_points = np.exp(grid_points)
 
-            # Avoiding rounding off issues
+            # Avoiding rounding off issues, these are the values of a configuration
+            grid_points = np.round(grid_points, ROUND_PLACES)
             if grid_points[0] < param.lower:
                 grid_points[0] = param.lower
             if grid_points[-1] > param.upper:
@@ -787,11 +789,12 @@ def generate_grid(
             hp_names = []
             new_active_hp_names = []
 
-            # Parents which are not part of the grid point do not satisfy a condition
-            values = {
-                name: unchecked_grid_pts[0].get(name, NotSet)
-                for name in configuration_space
-            }
+            # Conditions are checked just like for the configuration above. Parents
+            # which are not part of the grid point do not satisfy a condition.
+            vector = np.full(len(configuration_space), np.nan)
+            for name, value in unchecked_grid_pts[0].items():
+                hp = configuration_space[name]
+                vector[configuration_space.index_of[name]] = hp.to_vector(value)
 
             # "for" loop over currently active HP names
             for hp_name in unchecked_grid_pts[0]:
@@ -809,7 +812,7 @@ def generate_grid(
                         for cond in configuration_space.parent_conditions_of[
                             new_hp_name
                         ]:
-                            if not cond.satisfied_by_value(values):
+                            if not cond.satisfied_by_vector(vector):
                                 all_cond_ = False
                         if all_cond_:
                             new_active_hp_names.append(new_hp_name)
-- 
2.43.0


From 6851703e868e4be76d778bc2b71f16f7f184a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:07:41 +0000
Subject: [PATCH 66/79] fix: interrupting an addition left the space half
 changed

---
 src/ConfigSpace/configuration_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index 8bcfdbc..454f1fc 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -369,7 +369,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             self._len = len(self._dag.nodes)
             self._check_default_configuration()
-        except Exception:
+        except BaseException:  # Also if interrupted
             restore()
             self._len = len(self._dag.nodes)
             raise
-- 
2.43.0


From 9982449664095c31660fa7c382a6bf0205d862fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:17 +0000
Subject: [PATCH 67/79] fix: default configuration where a condition value
 equals a default up to rounding

---
 src/ConfigSpace/configuration_space.py | 34 +++++++++++---------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index 454f1fc..1ebca64 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -46,7 +46,7 @@ from ConfigSpace.conditions import (
     Conjunction,
     EqualsCondition,
 )
-from ConfigSpace.configuration import Configuration, NotSet
+from ConfigSpace.configuration import Configuration
 from ConfigSpace.exceptions import (
     ActiveHyperparameterNotSetError,
     ForbiddenValueError,
@@ -64,10 +64,12 @@ from ConfigSpace.forbidden import (
 from ConfigSpace.hyperparameters import (
     CategoricalHyperparameter,
     Constant,
+    FloatHyperparameter,
     Hyperparameter,
     UniformFloatHyperparameter,
     UniformIntegerHyperparameter,
 )
+from ConfigSpace.hyperparameters.hp_components import ROUND_PLACES
 from ConfigSpace.hyperparameters.hyperparameter import NumericalHyperparameter
 from ConfigSpace.read_and_write.dictionary import (
     CONDITION_DECODERS,
@@ -899,29 +901,21 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
     # TODO: Move these into a single validate function
     def _check_default_configuration(self) -> Configuration:
         # Check if adding that hyperparameter leads to an illegal default configuration
+        # NOTE: Conditions are evaluated the same way as when checking a configuration,
+        # i.e. on the vector of the (rounded) values.
         values: dict[str, Any] = {}
+        vector = np.full(len(self), np.nan)
         for hp_name, hp in self.items():
-            active: bool = True
-            for condition in self.parent_conditions_of[hp_name]:
-                if isinstance(condition, Conjunction):
-                    parent_names = [c.parent.name for c in condition.dlcs]
-                else:
-                    parent_names = [condition.parent.name]
+            conditions = self.parent_conditions_of[hp_name]
+            if not all(cond.satisfied_by_vector(vector) for cond in conditions):
+                continue
 
-                parents = {
-                    parent_name: values[parent_name] for parent_name in parent_names
-                }
+            value = hp.default_value
+            if isinstance(hp, FloatHyperparameter):
+                value = float(np.round(value, ROUND_PLACES))
 
-                # OPTIM: Can speed up things here by just breaking early?
-                if not condition.satisfied_by_value(parents):
-                    active = False
-
-            if not active:
-                # the evaluate above will use compares so we need
-                # to use NotSet and replace later....
-                values[hp_name] = NotSet
-            else:
-                values[hp_name] = hp.default_value
+            values[hp_name] = value
+            vector[self.index_of[hp_name]] = hp.to_vector(value)
 
         return Configuration(self, values=values)
 
-- 
2.43.0


From 3d7ceb8f7e0641e4cf5138079b0f3c3120be60cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:26 +0000
Subject: [PATCH 68/79] fix: deactivating where a condition value equals a
 value up to rounding

---
 src/ConfigSpace/util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index cc49b6d..13821a7 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -480,7 +480,8 @@ def deactivate_inactive_hyperparameters(
 
     # The hyperparameters of a space are ordered such that parents come first, i.e. when
     # getting to a child, it is known which of its parents are active.
-    active = {name: NotSet for name in configuration_space}
+    # Conditions are evaluated on the vector, as they are for a configuration.
+    active = np.full(len(configuration_space), np.nan)
     for name, hp in configuration_space.items():
         if name not in values:
             continue
@@ -490,10 +491,13 @@ def deactivate_inactive_hyperparameters(
             raise IllegalValueError(hp, values[name])
 
         if all(
-            condition.satisfied_by_value(active)
+            condition.satisfied_by_vector(active)
             for condition in configuration_space.parent_conditions_of[name]
         ):
-            active[name] = values[name]
+            value = values[name]
+            if isinstance(hp, FloatHyperparameter):
+                value = float(np.round(value, ROUND_PLACES))
+            active[configuration_space.index_of[name]] = hp.to_vector(value)
         else:
             del values[name]
 
-- 
2.43.0


From 06c10dab0e8fb16f301f62dbd540b66e128ab5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:47 +0000
Subject: [PATCH 69/79] fix: conditions whose text is the same were taken for
 the same condition

---
 src/ConfigSpace/_condition_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 337e940..c898bb6 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -552,7 +552,7 @@ class DAG:
             if node.parent_condition is not None:
                 conditions.append(node.parent_condition)
 
-        self.conditions = list(unique_everseen(conditions, key=str))
+        self.conditions = conditions
 
         # Update indices of conditions and forbiddens
         for forbidden in self.forbiddens:
-- 
2.43.0


From cbfcee669dcfe064a3c2a0586977b6bafd9fc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:44:55 +0000
Subject: [PATCH 70/79] fix: in conditions given a tuple, set or array differ
 from what is read back

---
 src/ConfigSpace/conditions.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index f620ebc..429cfb0 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -340,8 +340,7 @@ class InCondition(Condition):
         values: list[Any],
     ) -> None:
         # NOTE: The caller may go on to use its collection for something else
-        if isinstance(values, (list, set, np.ndarray)):
-            values = values.copy()  # type: ignore
+        values = list(values)
         super().__init__(child, parent, values)
         for value in values:
             legal = parent.legal_value(value)
@@ -369,6 +368,19 @@ class InCondition(Condition):
             values=copy.copy(self.values),
         )
 
+    def __eq__(self, other: Any) -> bool:
+        if not isinstance(other, self.__class__):
+            return NotImplemented
+
+        if self.child != other.child or self.parent != other.parent:
+            return False
+
+        # Their order, e.g. the one of a set, has no meaning
+        return len(self.values) == len(other.values) and (
+            all(value in other.values for value in self.values)
+            and all(value in self.values for value in other.values)
+        )
+
     def satisfied_by_vector(self, vector: Array[f64]) -> bool:
         return vector[self.parent_vector_id] in self.vector_values
 
-- 
2.43.0


From 837432afd1e276d4b45bcefc57c09633bd65e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:45:27 +0000
Subject: [PATCH 71/79] fix: spaces with numpy numbers as choices or values can
 be written as JSON

---
 src/ConfigSpace/configuration_space.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index 1ebca64..888fcb2 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -85,6 +85,17 @@ if TYPE_CHECKING:
     from ConfigSpace.read_and_write.dictionary import _Decoder, _Encoder
 
 
+def _without_numpy(value: Any) -> Any:
+    """Turn numpy scalars into the python ones, which can be written to a file."""
+    if isinstance(value, np.generic):
+        return value.item()
+    if isinstance(value, list):
+        return [_without_numpy(v) for v in value]
+    if isinstance(value, tuple):
+        return tuple(_without_numpy(v) for v in value)
+    return value
+
+
 def _is_bound(item: ConditionLike | ForbiddenLike) -> bool:
     """Whether a condition or forbidden already belongs to some space."""
     if isinstance(item, (Conjunction, ForbiddenConjunction)):
@@ -992,7 +1003,10 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             type_name, encoder = res
             encoding = encoder(item, _enc)
-            return {"type": type_name, **encoding}
+            return {
+                "type": type_name,
+                **{k: _without_numpy(v) for k, v in encoding.items()},
+            }
 
         from ConfigSpace import __version__
 
-- 
2.43.0


From a61f5d4d780d9a41481ebf60cd0e183ddbcd6909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:50:07 +0000
Subject: [PATCH 72/79] fix: names and choices the PCS formats cannot express
 were written all the same

---
 src/ConfigSpace/read_and_write/pcs.py     | 27 +++++++++++++++++----
 src/ConfigSpace/read_and_write/pcs_new.py | 29 +++++++++++++++++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs.py b/src/ConfigSpace/read_and_write/pcs.py
index fddaf76..0937677 100644
--- a/src/ConfigSpace/read_and_write/pcs.py
+++ b/src/ConfigSpace/read_and_write/pcs.py
@@ -120,6 +120,14 @@ pp_forbidden_clause = (
 )
 
 
+def _is_word(text: str) -> bool:
+    """Whether a name or choice is read again exactly as it was written."""
+    try:
+        return pp_param_name.parseString(text)[0] == text
+    except pyparsing.ParseException:
+        return False
+
+
 def build_categorical(param: CategoricalHyperparameter) -> str:
     if param.weights is not None:
         raise ValueError(
@@ -470,12 +478,23 @@ def write(configuration_space: ConfigurationSpace) -> str:
     forbidden_lines = []
     for hyperparameter in configuration_space.values():
         # Check if the hyperparameter names are valid ConfigSpace names!
-        try:
-            pp_param_name.parseString(hyperparameter.name)
-        except pyparsing.ParseException as e:
+        if not _is_word(hyperparameter.name):
             raise ValueError(
                 f"Illegal hyperparameter name for ConfigSpace: {hyperparameter.name}",
-            ) from e
+            )
+
+        # Same for what is written between the braces
+        choices: Iterable = ()
+        if isinstance(hyperparameter, CategoricalHyperparameter):
+            choices = hyperparameter.choices
+        elif isinstance(hyperparameter, Constant):
+            choices = (hyperparameter.value,)
+
+        for choice in choices:
+            if not _is_word(str(choice)):
+                raise ValueError(
+                    f"Illegal choice for ConfigSpace: {choice} ({hyperparameter.name})",
+                )
 
         # First build params
         if param_lines.tell() > 0:
diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index 2586bf5..21bef30 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -178,6 +178,14 @@ pp_forbidden_clause = (
 )
 
 
+def _is_word(text: str) -> bool:
+    """Whether a name or choice is read again exactly as it was written."""
+    try:
+        return pp_param_name.parseString(text)[0] == text
+    except pyparsing.ParseException:
+        return False
+
+
 def build_categorical(param: CategoricalHyperparameter) -> str:
     if param.weights is not None:
         raise ValueError(
@@ -759,12 +767,25 @@ def write(configuration_space: ConfigurationSpace) -> str:
     forbidden_lines = []
     for hyperparameter in configuration_space.values():
         # Check if the hyperparameter names are valid ConfigSpace names!
-        try:
-            pp_param_name.parseString(hyperparameter.name)
-        except pyparsing.ParseException as e:
+        if not _is_word(hyperparameter.name):
             raise ValueError(
                 f"Illegal hyperparameter name for ConfigSpace: {hyperparameter.name}",
-            ) from e
+            )
+
+        # Same for what is written between the braces
+        choices: Iterable = ()
+        if isinstance(hyperparameter, CategoricalHyperparameter):
+            choices = hyperparameter.choices
+        elif isinstance(hyperparameter, OrdinalHyperparameter):
+            choices = hyperparameter.sequence
+        elif isinstance(hyperparameter, Constant):
+            choices = (hyperparameter.value,)
+
+        for choice in choices:
+            if not _is_word(str(choice)):
+                raise ValueError(
+                    f"Illegal choice for ConfigSpace: {choice} ({hyperparameter.name})",
+                )
 
         # First build params
         if param_lines.tell() > 0:
-- 
2.43.0


From 61034215b4c02f848693fe673e77bdc5621d5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:08:11 +0000
Subject: [PATCH 73/79] fix: spaces with the same clauses in another order or
 form were not equal

---
 src/ConfigSpace/_condition_tree.py | 33 +++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index c898bb6..f045716 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -167,7 +167,8 @@ class HPNode:
     )
     """A dictionary of children hyperparameters and the conditions to activate them."""
 
-    forbiddens: list[ForbiddenLike] = field(default_factory=list)
+    # NOTE: Not compared, these are the forbidden clauses of the DAG by hyperparameter
+    forbiddens: list[ForbiddenLike] = field(default_factory=list, compare=False)
     """A list of forbidden clauses that prevent this hyperparameter from being active."""
 
     # NOTE: We have the restriction that a hyperparameter can only have **one** parent,
@@ -253,6 +254,20 @@ class HPNode:
             child.propogate_new_depth(depth + 1)
 
 
+def _same_forbiddens(a: list[ForbiddenLike], b: list[ForbiddenLike]) -> bool:
+    """Whether both are the same forbidden clauses, in whichever order."""
+    if len(a) != len(b):
+        return False
+
+    remaining = list(b)
+    for forbidden in a:
+        try:
+            remaining.remove(forbidden)
+        except ValueError:
+            return False
+    return True
+
+
 @dataclass
 class DAG:
     """This class represents a Directed Acyclic Graph (DAG) that is used to
@@ -425,6 +440,22 @@ class DAG:
     # Internal flag to keep track of whether we are currently in a transaction
     _updating: bool = False
 
+    def __eq__(self, other: Any) -> bool:
+        if not isinstance(other, self.__class__):
+            return NotImplemented
+
+        return (
+            self.nodes == other.nodes
+            and _same_forbiddens(
+                self.unconditional_forbiddens,
+                other.unconditional_forbiddens,
+            )
+            and _same_forbiddens(
+                self.conditional_forbiddens,
+                other.conditional_forbiddens,
+            )
+        )
+
     @contextmanager
     def update(self) -> Iterator[Self]:
         """A context manager to allow for adding multiple items to the DAG
-- 
2.43.0


From b9765156c991911933b44a8619a57b64758f8da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:08:23 +0000
Subject: [PATCH 74/79] fix: numbers given in less than double precision were
 changed by rounding and scaling

---
 src/ConfigSpace/configuration.py                 |  2 +-
 src/ConfigSpace/configuration_space.py           |  2 +-
 src/ConfigSpace/hyperparameters/beta_float.py    | 10 +++++-----
 src/ConfigSpace/hyperparameters/hp_components.py |  4 ++++
 src/ConfigSpace/hyperparameters/normal_float.py  | 10 +++++-----
 src/ConfigSpace/hyperparameters/uniform_float.py |  6 +++---
 src/ConfigSpace/util.py                          |  2 +-
 7 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index c9e2c22..33ae37e 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -120,7 +120,7 @@ class Configuration(Mapping[str, Any]):
 
                 # Truncate the float to be of constant lengt
                 if isinstance(hp, FloatHyperparameter):
-                    value = float(np.round(value, ROUND_PLACES))  # type: ignore
+                    value = float(np.round(float(value), ROUND_PLACES))  # type: ignore
 
                 self._values[key] = value
                 self._vector[i] = hp.to_vector(value)  # type: ignore
diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index 888fcb2..ff1dafa 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -923,7 +923,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             value = hp.default_value
             if isinstance(hp, FloatHyperparameter):
-                value = float(np.round(value, ROUND_PLACES))
+                value = float(np.round(float(value), ROUND_PLACES))
 
             values[hp_name] = value
             vector[self.index_of[hp_name]] = hp.to_vector(value)
diff --git a/src/ConfigSpace/hyperparameters/beta_float.py b/src/ConfigSpace/hyperparameters/beta_float.py
index ca463a9..c584bb7 100644
--- a/src/ConfigSpace/hyperparameters/beta_float.py
+++ b/src/ConfigSpace/hyperparameters/beta_float.py
@@ -108,10 +108,10 @@ class BetaFloatHyperparameter(FloatHyperparameter):
                 " 1 so that the probability density is finite.",
             )
 
-        self.alpha = float(np.round(alpha, ROUND_PLACES))
-        self.beta = float(np.round(beta, ROUND_PLACES))
-        self.lower = float(np.round(lower, ROUND_PLACES))
-        self.upper = float(np.round(upper, ROUND_PLACES))
+        self.alpha = float(np.round(float(alpha), ROUND_PLACES))
+        self.beta = float(np.round(float(beta), ROUND_PLACES))
+        self.lower = float(np.round(float(lower), ROUND_PLACES))
+        self.upper = float(np.round(float(upper), ROUND_PLACES))
         self.log = bool(log)
 
         try:
@@ -142,7 +142,7 @@ class BetaFloatHyperparameter(FloatHyperparameter):
         super().__init__(
             name=name,
             size=np.inf,
-            default_value=float(np.round(_default_value, ROUND_PLACES)),
+            default_value=float(np.round(float(_default_value), ROUND_PLACES)),
             meta=meta,
             transformer=scaler,
             vector_dist=vector_dist,
diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index ca39bb1..6725ef9 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -342,6 +342,10 @@ class UnitScaler(Transformer[DType]):
 
     @override
     def to_vector(self, value: Array[DType]) -> Array[f64]:
+        # Numbers of less precision, e.g. float32, are not to be calculated with
+        if value.dtype.kind in "iuf":
+            value = value.astype(f64)
+
         if self.log:
             return normalize(
                 np.log(value),
diff --git a/src/ConfigSpace/hyperparameters/normal_float.py b/src/ConfigSpace/hyperparameters/normal_float.py
index 1346a83..768e492 100644
--- a/src/ConfigSpace/hyperparameters/normal_float.py
+++ b/src/ConfigSpace/hyperparameters/normal_float.py
@@ -108,10 +108,10 @@ class NormalFloatHyperparameter(FloatHyperparameter):
                 f"mu={mu} must be positive for log-scale.",
             )
 
-        self.lower = float(np.round(lower, ROUND_PLACES))
-        self.upper = float(np.round(upper, ROUND_PLACES))
-        self.mu = float(np.round(mu, ROUND_PLACES))
-        self.sigma = float(np.round(sigma, ROUND_PLACES))
+        self.lower = float(np.round(float(lower), ROUND_PLACES))
+        self.upper = float(np.round(float(upper), ROUND_PLACES))
+        self.mu = float(np.round(float(mu), ROUND_PLACES))
+        self.sigma = float(np.round(float(sigma), ROUND_PLACES))
         self.log = bool(log)
 
         try:
@@ -124,7 +124,7 @@ class NormalFloatHyperparameter(FloatHyperparameter):
         else:
             _default_value = default_value
 
-        _default_value = float(np.round(_default_value, ROUND_PLACES))
+        _default_value = float(np.round(float(_default_value), ROUND_PLACES))
 
         vectorized_mu = scaler.to_vector(np.array([self.mu]))[0]
         vectorized_sigma = scaler.vectorize_size(f64(self.sigma))
diff --git a/src/ConfigSpace/hyperparameters/uniform_float.py b/src/ConfigSpace/hyperparameters/uniform_float.py
index 24b5a78..6c762dc 100644
--- a/src/ConfigSpace/hyperparameters/uniform_float.py
+++ b/src/ConfigSpace/hyperparameters/uniform_float.py
@@ -90,8 +90,8 @@ class UniformFloatHyperparameter(FloatHyperparameter):
                 Field for holding meta data provided by the user. Not used by
                 ConfigSpace.
         """
-        self.lower = float(np.round(lower, ROUND_PLACES))
-        self.upper = float(np.round(upper, ROUND_PLACES))
+        self.lower = float(np.round(float(lower), ROUND_PLACES))
+        self.upper = float(np.round(float(upper), ROUND_PLACES))
         self.log = log
 
         try:
@@ -107,7 +107,7 @@ class UniformFloatHyperparameter(FloatHyperparameter):
             size=np.inf,
             default_value=float(
                 np.round(
-                    default_value
+                    float(default_value)
                     if default_value is not None
                     else scaler.to_value(np.array([0.5]))[0],
                     ROUND_PLACES,
diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 13821a7..1897ed7 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -496,7 +496,7 @@ def deactivate_inactive_hyperparameters(
         ):
             value = values[name]
             if isinstance(hp, FloatHyperparameter):
-                value = float(np.round(value, ROUND_PLACES))
+                value = float(np.round(float(value), ROUND_PLACES))
             active[configuration_space.index_of[name]] = hp.to_vector(value)
         else:
             del values[name]
-- 
2.43.0


From 611abf7a25fc4b0919c3b6d86a78229372dc8cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:09 +0000
Subject: [PATCH 75/79] fix: refusing a clause on an unknown hyperparameter
 took exponentially long in large spaces

---
 src/ConfigSpace/_condition_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index f045716..ceb4fa9 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -761,7 +761,8 @@ class DAG:
             if hp.name not in self.nodes:
                 raise HyperparameterNotFoundError(
                     f"Cannot add '{tmp_clause}' because it references '{hp.name}'"
-                    f"\nHyperparameter {hp.name} not found in space.\n{self}",
+                    f"\nHyperparameter {hp.name} not found in space."
+                    f"\nAvailable hyperparameters: {list(self.nodes)}",
                 )
 
         if isinstance(forbidden, ForbiddenClause):
-- 
2.43.0


From 9ec8c5fff6ecba90d977b3085fddf74687b91183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:43:58 +0000
Subject: [PATCH 76/79] fix: rounding to 13 decimals moved large whole numbers

---
 src/ConfigSpace/configuration.py                 |  4 ++--
 src/ConfigSpace/configuration_space.py           |  2 +-
 src/ConfigSpace/hyperparameters/beta_float.py    | 10 +++++-----
 src/ConfigSpace/hyperparameters/normal_float.py  | 10 +++++-----
 src/ConfigSpace/hyperparameters/uniform_float.py | 16 +++++++---------
 src/ConfigSpace/util.py                          |  4 ++--
 6 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index 33ae37e..5693e34 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -120,7 +120,7 @@ class Configuration(Mapping[str, Any]):
 
                 # Truncate the float to be of constant lengt
                 if isinstance(hp, FloatHyperparameter):
-                    value = float(np.round(float(value), ROUND_PLACES))  # type: ignore
+                    value = round(float(value), ROUND_PLACES)
 
                 self._values[key] = value
                 self._vector[i] = hp.to_vector(value)  # type: ignore
@@ -231,7 +231,7 @@ class Configuration(Mapping[str, Any]):
 
         # Truncate float to be of constant length for a python version
         if isinstance(hyperparameter, FloatHyperparameter):
-            value = float(np.round(value, ROUND_PLACES))  # type: ignore
+            value = round(float(value), ROUND_PLACES)
 
         if self._values is None:
             self._values = {}
diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index ff1dafa..b3134f4 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -923,7 +923,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             value = hp.default_value
             if isinstance(hp, FloatHyperparameter):
-                value = float(np.round(float(value), ROUND_PLACES))
+                value = round(float(value), ROUND_PLACES)
 
             values[hp_name] = value
             vector[self.index_of[hp_name]] = hp.to_vector(value)
diff --git a/src/ConfigSpace/hyperparameters/beta_float.py b/src/ConfigSpace/hyperparameters/beta_float.py
index c584bb7..3f883e6 100644
--- a/src/ConfigSpace/hyperparameters/beta_float.py
+++ b/src/ConfigSpace/hyperparameters/beta_float.py
@@ -108,10 +108,10 @@ class BetaFloatHyperparameter(FloatHyperparameter):
                 " 1 so that the probability density is finite.",
             )
 
-        self.alpha = float(np.round(float(alpha), ROUND_PLACES))
-        self.beta = float(np.round(float(beta), ROUND_PLACES))
-        self.lower = float(np.round(float(lower), ROUND_PLACES))
-        self.upper = float(np.round(float(upper), ROUND_PLACES))
+        self.alpha = round(float(alpha), ROUND_PLACES)
+        self.beta = round(float(beta), ROUND_PLACES)
+        self.lower = round(float(lower), ROUND_PLACES)
+        self.upper = round(float(upper), ROUND_PLACES)
         self.log = bool(log)
 
         try:
@@ -142,7 +142,7 @@ class BetaFloatHyperparameter(FloatHyperparameter):
         super().__init__(
             name=name,
             size=np.inf,
-            default_value=float(np.round(float(_default_value), ROUND_PLACES)),
+            default_value=round(float(_default_value), ROUND_PLACES),
             meta=meta,
             transformer=scaler,
             vector_dist=vector_dist,
diff --git a/src/ConfigSpace/hyperparameters/normal_float.py b/src/ConfigSpace/hyperparameters/normal_float.py
index 768e492..34819ae 100644
--- a/src/ConfigSpace/hyperparameters/normal_float.py
+++ b/src/ConfigSpace/hyperparameters/normal_float.py
@@ -108,10 +108,10 @@ class NormalFloatHyperparameter(FloatHyperparameter):
                 f"mu={mu} must be positive for log-scale.",
             )
 
-        self.lower = float(np.round(float(lower), ROUND_PLACES))
-        self.upper = float(np.round(float(upper), ROUND_PLACES))
-        self.mu = float(np.round(float(mu), ROUND_PLACES))
-        self.sigma = float(np.round(float(sigma), ROUND_PLACES))
+        self.lower = round(float(lower), ROUND_PLACES)
+        self.upper = round(float(upper), ROUND_PLACES)
+        self.mu = round(float(mu), ROUND_PLACES)
+        self.sigma = round(float(sigma), ROUND_PLACES)
         self.log = bool(log)
 
         try:
@@ -124,7 +124,7 @@ class NormalFloatHyperparameter(FloatHyperparameter):
         else:
             _default_value = default_value
 
-        _default_value = float(np.round(float(_default_value), ROUND_PLACES))
+        _default_value = round(float(_default_value), ROUND_PLACES)
 
         vectorized_mu = scaler.to_vector(np.array([self.mu]))[0]
         vectorized_sigma = scaler.vectorize_size(f64(self.sigma))
diff --git a/src/ConfigSpace/hyperparameters/uniform_float.py b/src/ConfigSpace/hyperparameters/uniform_float.py
index 6c762dc..3c42372 100644
--- a/src/ConfigSpace/hyperparameters/uniform_float.py
+++ b/src/ConfigSpace/hyperparameters/uniform_float.py
@@ -90,8 +90,8 @@ class UniformFloatHyperparameter(FloatHyperparameter):
                 Field for holding meta data provided by the user. Not used by
                 ConfigSpace.
         """
-        self.lower = float(np.round(float(lower), ROUND_PLACES))
-        self.upper = float(np.round(float(upper), ROUND_PLACES))
+        self.lower = round(float(lower), ROUND_PLACES)
+        self.upper = round(float(upper), ROUND_PLACES)
         self.log = log
 
         try:
@@ -105,13 +105,11 @@ class UniformFloatHyperparameter(FloatHyperparameter):
         super().__init__(
             name=name,
             size=np.inf,
-            default_value=float(
-                np.round(
-                    float(default_value)
-                    if default_value is not None
-                    else scaler.to_value(np.array([0.5]))[0],
-                    ROUND_PLACES,
-                ),
+            default_value=round(
+                float(default_value)
+                if default_value is not None
+                else float(scaler.to_value(np.array([0.5]))[0]),
+                ROUND_PLACES,
             ),
             meta=meta,
             transformer=scaler,
diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 1897ed7..abfe106 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -496,7 +496,7 @@ def deactivate_inactive_hyperparameters(
         ):
             value = values[name]
             if isinstance(hp, FloatHyperparameter):
-                value = float(np.round(float(value), ROUND_PLACES))
+                value = round(float(value), ROUND_PLACES)
             active[configuration_space.index_of[name]] = hp.to_vector(value)
         else:
             del values[name]
@@ -702,7 +702,7 @@ def generate_grid(
                 grid_points = np.exp(grid_points)
 
             # Avoiding rounding off issues, these are the values of a configuration
-            grid_points = np.round(grid_points, ROUND_PLACES)
+            grid_points = [round(float(p), ROUND_PLACES) for p in grid_points]
             if grid_points[0] < param.lower:
                 grid_points[0] = param.lower
             if grid_points[-1] > param.upper:
-- 
2.43.0


From d024ab85db055f4158322192f963cf2970732162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:50:47 +0000
Subject: [PATCH 77/79] fix: large integer hyperparameters accepted fractions
 such as 1000000.5 as values

---
 src/ConfigSpace/hyperparameters/beta_integer.py    |  2 +-
 src/ConfigSpace/hyperparameters/hp_components.py   | 14 ++++++++++----
 src/ConfigSpace/hyperparameters/normal_integer.py  |  2 +-
 src/ConfigSpace/hyperparameters/uniform_integer.py |  1 +
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/beta_integer.py b/src/ConfigSpace/hyperparameters/beta_integer.py
index a4e7697..c766816 100644
--- a/src/ConfigSpace/hyperparameters/beta_integer.py
+++ b/src/ConfigSpace/hyperparameters/beta_integer.py
@@ -131,7 +131,7 @@ class BetaIntegerHyperparameter(IntegerHyperparameter):
                 scaler.to_value(np.array([vectorized_mode]))[0],
             ).astype(i64)
         else:
-            if not is_close_to_integer_single(default_value, atol=ATOL):
+            if not is_close_to_integer_single(default_value, atol=ATOL, rtol=ATOL):
                 raise TypeError(
                     f"`default_value` for hyperparameter '{name}' must be an integer."
                     f" Got '{type(default_value).__name__}' for {default_value=}.",
diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index 6725ef9..41e25ab 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -379,7 +379,7 @@ class UnitScaler(Transformer[DType]):
             return (  # type: ignore
                 (rints >= self._lower_value_f64)
                 & (rints <= self._upper_value_f64)
-                & is_close_to_integer(value, atol=ATOL)
+                & is_close_to_integer(value, atol=ATOL, rtol=ATOL)
             )
 
         return (value >= self._lower_value_f64) & (value <= self._upper_value_f64)
@@ -394,7 +394,10 @@ class UnitScaler(Transformer[DType]):
             # not apply generally to a log-scale vector as the non-linear scaling
             # will not give us back integer values when doing the above.
             unchecked_values = self._unsafe_to_value(vector.astype(f64))
-            return self.legal_value(unchecked_values)
+            return self.legal_value(np.rint(unchecked_values)) & is_close_to_integer(
+                unchecked_values,
+                atol=ATOL,
+            )
 
         return (vector >= self.lower_vectorized) & (vector <= self.upper_vectorized)
 
@@ -408,7 +411,7 @@ class UnitScaler(Transformer[DType]):
             return bool(
                 (self._lower_value_f64 <= rint)
                 & (rint <= self._upper_value_f64)
-                & is_close_to_integer_single(value, atol=ATOL),
+                & is_close_to_integer_single(value, atol=ATOL, rtol=ATOL),
             )
 
         return bool(self._lower_value_f64 <= value <= self._upper_value_f64)
@@ -424,7 +427,10 @@ class UnitScaler(Transformer[DType]):
             return bool(is_close_to_integer_single(scaled, atol=ATOL) and inbounds)
 
         value = self._unsafe_to_value_single(vector)  # type: ignore
-        return self.legal_value_single(value)
+        return bool(
+            is_close_to_integer_single(value, atol=ATOL)
+            and self.legal_value_single(np.rint(value)),
+        )
 
 
 def ordinal_neighborhood(
diff --git a/src/ConfigSpace/hyperparameters/normal_integer.py b/src/ConfigSpace/hyperparameters/normal_integer.py
index f1f82cd..5f76139 100644
--- a/src/ConfigSpace/hyperparameters/normal_integer.py
+++ b/src/ConfigSpace/hyperparameters/normal_integer.py
@@ -130,7 +130,7 @@ class NormalIntegerHyperparameter(IntegerHyperparameter):
         if default_value is None:
             _default_value = int(np.rint(np.clip(self.mu, self.lower, self.upper)))
         else:
-            if not is_close_to_integer(f64(default_value), atol=ATOL):
+            if not is_close_to_integer(f64(default_value), atol=ATOL, rtol=ATOL):
                 raise TypeError(
                     f"`default_value` for hyperparameter '{name}' must be an integer."
                     f" Got '{type(default_value).__name__}' for {default_value=}.",
diff --git a/src/ConfigSpace/hyperparameters/uniform_integer.py b/src/ConfigSpace/hyperparameters/uniform_integer.py
index b3a9763..c12f5d8 100644
--- a/src/ConfigSpace/hyperparameters/uniform_integer.py
+++ b/src/ConfigSpace/hyperparameters/uniform_integer.py
@@ -101,6 +101,7 @@ class UniformIntegerHyperparameter(IntegerHyperparameter):
         if default_value is not None and not is_close_to_integer(
             f64(default_value),
             atol=ATOL,
+            rtol=ATOL,
         ):
             raise TypeError(
                 f"`default_value` for hyperparameter '{name}' must be an integer."
-- 
2.43.0


From b7b0bc72788bed2a5843d4d29fd5838a49df015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:18:38 +0000
Subject: [PATCH 78/79] fix: choices which numpy cannot hold exactly came back
 changed

---
 src/ConfigSpace/hyperparameters/categorical.py | 13 +++++++++----
 src/ConfigSpace/hyperparameters/constant.py    |  4 ++--
 src/ConfigSpace/hyperparameters/ordinal.py     | 13 +++++++++----
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index f13e209..3257aa8 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -262,8 +262,13 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
             # NOTE: Unfortunatly, numpy will promote number types to str
             # if there are string types in the array, and integers or booleans to
             # floats if there are floats, where we'd rather stick to object type
-            # in that case. Hence the manual...
-            if len({type(choice) for choice in choices}) > 1:
+            # in that case. Nor can it keep trailing NUL characters or integers of
+            # very different size. Hence the manual...
+            if (
+                len({type(choice) for choice in choices}) > 1
+                or seq_choices.tolist() != list(choices)
+                or (seq_choices.dtype.kind == "f" and isinstance(choices[0], int))
+            ):
                 seq_choices = np.array(choices, dtype=object)
 
         except ValueError:
@@ -338,7 +343,7 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
             return self._transformer.to_vector(value)
 
         if isinstance(value, str):
-            return self._transformer.to_vector(np.array([value]))[0]
+            return self._transformer.to_vector(np.array([value], dtype=object))[0]
 
         # Got a sequence of things, could be a list of stuff or a single value which is
         # itself a list, e.g. a tuple (1, 2) indicating a single value
@@ -363,7 +368,7 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
             return self._transformer.legal_value(value)
 
         if isinstance(value, str):
-            return self._transformer.legal_value(np.array([value]))[0]
+            return self._transformer.legal_value(np.array([value], dtype=object))[0]
 
         # Got a sequence of things, could be a list of stuff or a single value which is
         # itself a list, e.g. a tuple (1, 2) indicating a single value
diff --git a/src/ConfigSpace/hyperparameters/constant.py b/src/ConfigSpace/hyperparameters/constant.py
index 914ab3e..fba7a29 100644
--- a/src/ConfigSpace/hyperparameters/constant.py
+++ b/src/ConfigSpace/hyperparameters/constant.py
@@ -110,7 +110,7 @@ class Constant(Hyperparameter[Any, Any]):
             return self._transformer.legal_value(value)
 
         if isinstance(value, str):
-            return self._transformer.legal_value(np.array([value]))[0]
+            return self._transformer.legal_value(np.array([value], dtype=object))[0]
 
         # Got a sequence of things, could be a list of stuff or a single value which is
         # itself a list, e.g. a tuple (1, 2) indicating a single value
@@ -155,7 +155,7 @@ class Constant(Hyperparameter[Any, Any]):
             return self._transformer.to_vector(value)
 
         if isinstance(value, str):
-            return self._transformer.to_vector(np.array([value]))[0]
+            return self._transformer.to_vector(np.array([value], dtype=object))[0]
 
         # Got a sequence of things, could be a list of stuff or a single value which is
         # itself a list, e.g. a tuple (1, 2) indicating a single value
diff --git a/src/ConfigSpace/hyperparameters/ordinal.py b/src/ConfigSpace/hyperparameters/ordinal.py
index 68f2f6a..72f6898 100644
--- a/src/ConfigSpace/hyperparameters/ordinal.py
+++ b/src/ConfigSpace/hyperparameters/ordinal.py
@@ -100,8 +100,13 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
             # NOTE: Unfortunatly, numpy will promote number types to str
             # if there are string types in the array, and integers or booleans to
             # floats if there are floats, where we'd rather stick to object type
-            # in that case. Hence the manual...
-            if len({type(item) for item in sequence}) > 1:
+            # in that case. Nor can it keep trailing NUL characters or integers of
+            # very different size. Hence the manual...
+            if (
+                len({type(item) for item in sequence}) > 1
+                or seq_choices.tolist() != list(sequence)
+                or (seq_choices.dtype.kind == "f" and isinstance(sequence[0], int))
+            ):
                 seq_choices = np.array(sequence, dtype=object)
 
         except ValueError:
@@ -179,7 +184,7 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
             return self._transformer.to_vector(value)
 
         if isinstance(value, str):
-            return self._transformer.to_vector(np.array([value]))[0]
+            return self._transformer.to_vector(np.array([value], dtype=object))[0]
 
         # Got a sequence of things, could be a list of stuff or a single value which is
         # itself a list, e.g. a tuple (1, 2) indicating a single value
@@ -204,7 +209,7 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
             return self._transformer.legal_value(value)
 
         if isinstance(value, str):
-            return self._transformer.legal_value(np.array([value]))[0]
+            return self._transformer.legal_value(np.array([value], dtype=object))[0]
 
         # Got a sequence of things, could be a list of stuff or a single value which is
         # itself a list, e.g. a tuple (1, 2) indicating a single value
-- 
2.43.0


From fd88e954231e16eb03c28db6950baea51f403485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:20:24 +0000
Subject: [PATCH 79/79] fix: the maximum density of some beta floats was
 reported as zero

---
 src/ConfigSpace/hyperparameters/beta_float.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/beta_float.py b/src/ConfigSpace/hyperparameters/beta_float.py
index 3f883e6..f22dfe7 100644
--- a/src/ConfigSpace/hyperparameters/beta_float.py
+++ b/src/ConfigSpace/hyperparameters/beta_float.py
@@ -121,6 +121,8 @@ class BetaFloatHyperparameter(FloatHyperparameter):
 
         if (self.alpha > 1) or (self.beta > 1):
             normalized_mode = (self.alpha - 1) / (self.alpha + self.beta - 2)
+            # A rounding error could put it above 1, where the density is zero
+            normalized_mode = min(normalized_mode, 1.0)
         else:
             # If both alpha and beta are 1, we have a uniform distribution.
             normalized_mode = 0.5
-- 
2.43.0

