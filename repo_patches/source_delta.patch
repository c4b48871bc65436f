From 6e0e6e2b1346c3f867bc7bca7c029f4ea99de795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:19 +0000
Subject: [PATCH 01/39] fix: constrain every storage of a node, not only the
 first one

StorageBuilder.add_node returned from inside its loop, so the level equation
of the second and following storages of a node was never given to the solver
and these storages created energy from nothing.
---
 hadar/optimizer/lp/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index e2eb4bd..406e01b 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -295,6 +295,7 @@ class StorageBuilder:
     def add_node(
         self, name_network: str, name_node: str, node: LPNode, t: int
     ) -> Constraint:
+        const = None
         for stor in node.storages:
             self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity
             if t == 0:
@@ -302,7 +303,6 @@ class StorageBuilder:
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
                 const.SetCoefficient(stor.var_flow_out, 1)
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
             else:
                 const = self.solver.Constraint(0, 0)
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
@@ -311,7 +311,7 @@ class StorageBuilder:
                     self.capacities[(t - 1, name_network, name_node, stor.name)], -1
                 )
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
+        return const
 
     def build(self):
         pass  # Currently nothing are need at the end. But we keep builder pattern syntax
-- 
2.43.0


From c1fb48089f562aba860e67f14d239a39917f980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:24 +0000
Subject: [PATCH 02/39] fix: a link from a node to itself must not create
 energy

SetCoefficient overwrites the export coefficient (-1) by the import one (+1)
when source and destination are the same node.
---
 hadar/optimizer/lp/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 406e01b..2780fe9 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -279,7 +279,10 @@ class AdequacyBuilder:
         """
         # Apply import link in adequacy
         for (t, net, src, dest), var in self.importations.items():
-            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
+            # a link from a node to itself cancels out (SetCoefficient overwrites)
+            self.constraints[(t, net, dest)].SetCoefficient(
+                var, 1 if src != dest else 0
+            )
 
 
 class StorageBuilder:
-- 
2.43.0


From 59affdb1611d1ec5935f800ba8d22c45e69f9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:28 +0000
Subject: [PATCH 03/39] fix: raise instead of returning a bogus result on an
 infeasible study

The solver status was ignored: an infeasible scenario (e.g. a storage whose
initial level exceeds its capacity) gave a Result full of zeros claiming all
the load was served.
---
 hadar/optimizer/lp/optimizer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 2780fe9..403cdfa 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -407,7 +407,15 @@ def _solve_batch(params) -> bytes:
 
     logger.info("Problem build. Start solver")
     solver.EnableOutput()
-    solver.Solve()
+    status = solver.Solve()
+    if status in (
+        Solver.INFEASIBLE,
+        Solver.UNBOUNDED,
+        Solver.ABNORMAL,
+        Solver.MODEL_INVALID,
+        Solver.NOT_SOLVED,
+    ):
+        raise ValueError("Study has no solution for scenario %d" % i_scn)
 
     problem_solved = time.time()
     logger.info("Solver finish cost=%d", solver.Objective().Value())
-- 
2.43.0


From a8c958b28f25d4f7594c9a3b48d43900d933d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:55 +0000
Subject: [PATCH 04/39] fix: study arrays of any numeric dtype can be solved

Element access returned raw numpy scalars: a cost given as a list of int made
ortools raise TypeError, int32/float32 quantities could not be serialized.
---
 hadar/optimizer/domain/numeric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 18291f9..b515c71 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -102,7 +102,7 @@ class MatrixNumericalValue(NumpyNumericalValue):
 
     def __getitem__(self, item) -> float:
         i, j = item
-        return self.value[i, j]
+        return float(self.value[i, j])
 
     def flatten(self) -> np.ndarray:
         return self.value.flatten()
@@ -123,7 +123,7 @@ class RowNumericValue(NumpyNumericalValue):
             raise IndexError(
                 "There are %d scenario you ask the %dth" % (self.nb_scn, i)
             )
-        return self.value[j]
+        return float(self.value[j])
 
     def flatten(self) -> np.ndarray:
         return np.tile(self.value, self.nb_scn)
@@ -144,7 +144,7 @@ class ColumnNumericValue(NumpyNumericalValue):
             raise IndexError(
                 "There are %d time step you ask the %dth" % (self.horizon, j)
             )
-        return self.value[i, 0]
+        return float(self.value[i, 0])
 
     def flatten(self) -> np.ndarray:
         return np.repeat(self.value.flatten(), self.horizon)
-- 
2.43.0


From cb1db4e181e9f05f8275dd22bfb514ecb555c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:00 +0000
Subject: [PATCH 05/39] fix: reject arrays holding at least one invalid value

Numerical values compare with np.all, so quantities, flows, capacities and
efficiencies given as arrays were refused only when every entry was invalid.
---
 hadar/optimizer/domain/input.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 035fc2b..6bcbc0e 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -342,7 +342,7 @@ class Study(JSON):
             raise ValueError("link destination must be unique on a node")
 
         quantity = self.factory.create(quantity)
-        if quantity < 0:
+        if np.any(quantity.flatten() < 0):
             raise ValueError("Link quantity must be positive")
 
         cost = self.factory.create(cost)
@@ -369,7 +369,7 @@ class Study(JSON):
             raise ValueError("production name must be unique on a node")
 
         prod.quantity = self.factory.create(prod.quantity)
-        if prod.quantity < 0:
+        if np.any(prod.quantity.flatten() < 0):
             raise ValueError("Production quantity must be positive")
 
         prod.cost = self.factory.create(prod.cost)
@@ -382,7 +382,7 @@ class Study(JSON):
             raise ValueError("consumption name must be unique on a node")
 
         cons.quantity = self.factory.create(cons.quantity)
-        if cons.quantity < 0:
+        if np.any(cons.quantity.flatten() < 0):
             raise ValueError("Consumption quantity must be positive")
 
         cons.cost = self.factory.create(cons.cost)
@@ -394,15 +394,15 @@ class Study(JSON):
 
         store.flow_in = self.factory.create(store.flow_in)
         store.flow_out = self.factory.create(store.flow_out)
-        if store.flow_in < 0 or store.flow_out < 0:
+        if np.any(store.flow_in.flatten() < 0) or np.any(store.flow_out.flatten() < 0):
             raise ValueError("storage flow must be positive")
 
         store.capacity = self.factory.create(store.capacity)
-        if store.capacity < 0 or store.init_capacity < 0:
+        if np.any(store.capacity.flatten() < 0) or store.init_capacity < 0:
             raise ValueError("storage capacities must be positive")
 
         store.eff = self.factory.create(store.eff)
-        if store.eff < 0 or store.eff > 1:
+        if np.any(store.eff.flatten() < 0) or np.any(store.eff.flatten() > 1):
             raise ValueError("storage efficiency must be in ]0, 1[")
 
         store.cost = self.factory.create(store.cost)
-- 
2.43.0


From 2003999abee2279e4bad4d23961135499e64e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:15 +0000
Subject: [PATCH 06/39] fix: a node selector keeps pointing at its own node

Every node selector of a network shared one mutable dictionary, so elements
added through a selector kept in a variable landed on the last node selected.
---
 hadar/optimizer/domain/input.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 6bcbc0e..9cd504e 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -464,9 +464,8 @@ class NetworkFluentAPISelector:
         :param name: node to select when changing level
         :return: NodeFluentAPISelector initialized
         """
-        self.selector["node"] = name
         self.study.add_node(network=self.selector["network"], node=name)
-        return NodeFluentAPISelector(self.study, self.selector)
+        return NodeFluentAPISelector(self.study, {**self.selector, "node": name})
 
     def link(
         self,
-- 
2.43.0


From 7b3f361eeaaafd6b859ec9f54cba102e961857d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:40 +0000
Subject: [PATCH 07/39] fix: keep the current network after converter() in the
 fluent API

converter() returned a selector without network, so link() or node() chained
after it raised KeyError.
---
 hadar/optimizer/domain/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 9cd504e..f4c65cb 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -525,7 +525,7 @@ class NetworkFluentAPISelector:
         self.study._set_converter_dest(
             name=name, network=to_network, node=to_node, cost=cost, max=max
         )
-        return NetworkFluentAPISelector(selector={}, study=self.study)
+        return NetworkFluentAPISelector(selector=self.selector, study=self.study)
 
     def build(self):
         """
@@ -667,7 +667,7 @@ class NodeFluentAPISelector:
         :param cost: cost for each quantity produce by converter
         :return:
         """
-        return NetworkFluentAPISelector(selector={}, study=self.study).converter(
+        return NetworkFluentAPISelector(self.study, self.selector).converter(
             name=name, to_network=to_network, to_node=to_node, max=max, cost=cost
         )
 
-- 
2.43.0


From 70824af1dd8765b62182a410a8b6335f2d9652b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:45 +0000
Subject: [PATCH 08/39] fix: a refused converter leaves the study unchanged

An unknown destination node or a value of wrong shape raised ValueError but
left a phantom or half set converter inside the study.
---
 hadar/optimizer/domain/input.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index f4c65cb..1ef1a4a 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -418,12 +418,16 @@ class Study(JSON):
     def _add_converter_src(
         self, name: str, network: str, node: str, ratio: NumericalValueType
     ):
-        if (network, node) in self.converters[name].src_ratios:
+        if (
+            name in self.converters
+            and (network, node) in self.converters[name].src_ratios
+        ):
             raise ValueError(
                 "converter input already has node %s on network %s" % (node, network)
             )
 
         ratio = self.factory.create(ratio)
+        self._add_converter(name=name)
         self.converters[name].src_ratios[(network, node)] = ratio
 
     def _set_converter_dest(
@@ -434,7 +438,11 @@ class Study(JSON):
         cost: NumericalValueType,
         max: NumericalValueType,
     ):
-        if self.converters[name].dest_network and self.converters[name].dest_node:
+        if (
+            name in self.converters
+            and self.converters[name].dest_network
+            and self.converters[name].dest_node
+        ):
             raise ValueError("converter has already output set")
         if (
             network not in self.networks
@@ -442,10 +450,13 @@ class Study(JSON):
         ):
             raise ValueError("Node %s is not present in network %s" % (node, network))
 
+        cost = self.factory.create(cost)
+        max = self.factory.create(max)
+        self._add_converter(name=name)
         self.converters[name].dest_network = network
         self.converters[name].dest_node = node
-        self.converters[name].cost = self.factory.create(cost)
-        self.converters[name].max = self.factory.create(max)
+        self.converters[name].cost = cost
+        self.converters[name].max = max
 
 
 class NetworkFluentAPISelector:
@@ -521,7 +532,6 @@ class NetworkFluentAPISelector:
         :param cost: cost for each quantity produce by converter
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._set_converter_dest(
             name=name, network=to_network, node=to_node, cost=cost, max=max
         )
@@ -679,7 +689,6 @@ class NodeFluentAPISelector:
         :param ratio: ratio for output
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._add_converter_src(
             name=name,
             network=self.selector["network"],
-- 
2.43.0


From e1202245033fbec54c8f383c204c4fabf25d05a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:51 +0000
Subject: [PATCH 09/39] fix: analyzer keeps every storage of the study

The storage table offset was never incremented: each storage overwrote the
previous one and the remaining rows held uninitialised memory.
---
 hadar/analyzer/result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 01c33e8..adb5653 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -331,6 +331,8 @@ class ResultAnalyzer:
                     stor.loc[slices, "t"] = np.tile(np.arange(h), scn)
                     stor.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
 
+                    n_stor += 1
+
         return stor
 
     @staticmethod
-- 
2.43.0


From 736736c5c614bafa5f2083d8a3e0b421ffa1f132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:56 +0000
Subject: [PATCH 10/39] fix: scenario of converter sources in analyzer

Rows are ordered by source then scenario then time, but scenarios were
numbered as if ordered by scenario first: with several sources and scenarios
flows were attributed to the wrong scenario.
---
 hadar/analyzer/result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index adb5653..29868be 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -436,7 +436,9 @@ class ResultAnalyzer:
             slices = src_conv.index[s:e]
             src_conv.loc[slices, "name"] = v.name
             src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn * src_size)
-            src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h * src_size)
+            src_conv.loc[slices, "scn"] = np.tile(
+                np.repeat(np.arange(scn), h), src_size
+            )
 
             for i_src, (net, node) in enumerate(v.src_ratios.keys()):
                 e = s + h * scn * (i_src + 1)
-- 
2.43.0


From c135784c8ef4878a6f2a1d00a5475a8cc152d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:01 +0000
Subject: [PATCH 11/39] fix: one destination row per converter, scenario and
 time step

The destination table was sized by the number of sources: it had garbage rows
when a converter has several sources.
---
 hadar/analyzer/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 29868be..1d5c93f 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -386,7 +386,7 @@ class ResultAnalyzer:
     def _build_dest_converter(study: Study, result: Result):
         h = study.horizon
         scn = study.nb_scn
-        elements = sum([len(v.src_ratios) for v in study.converters.values()])
+        elements = len(study.converters)
         size = h * scn * elements
 
         dest_conv = {
-- 
2.43.0


From 896e02e1e1755ae6d885cf082e3a11d53da0f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:25 +0000
Subject: [PATCH 12/39] fix: open ended slices on time and scenario indexes

slice(None, k) selected nothing and slice(k, None) raised TypeError.
---
 hadar/analyzer/result.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 1d5c93f..d670dde 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -131,13 +131,23 @@ class IntIndex(Index[int]):
         :param start: start datetime to filter (to use instead of index)
         :param end: end datetime to filter (to use instead of index)
         """
+        self.slice = None
         if isinstance(index, slice):
             start = 0 if index.start is None else index.start
-            stop = -1 if index.start is None else index.stop
             step = 1 if index.step is None else index.step
-            index = tuple(range(start, stop, step))
+            if index.stop is None:  # end is known only when data are filtered
+                self.slice = slice(start, None, step)
+                index = None
+            else:
+                index = tuple(range(start, index.stop, step))
         Index.__init__(self, column=column, index=index)
 
+    def filter(self, df: pd.DataFrame) -> pd.Series:
+        if self.slice is None:
+            return Index.filter(self, df)
+        shift = df[self.column] - self.slice.start
+        return (shift >= 0) & (shift % self.slice.step == 0)
+
 
 class TimeIndex(IntIndex):
     """Index implementation to filter by time step"""
-- 
2.43.0


From 88e7799d41b98b68e6a55dc3971089acb36c58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:31 +0000
Subject: [PATCH 13/39] fix: query with a single value on each level returns
 its row

It raised IndexError because index levels were removed until none was left.
---
 hadar/analyzer/result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index d670dde..079c3c4 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -481,7 +481,12 @@ class ResultAnalyzer:
         :return: dataframe trimed with useless index(es) level
         """
         # TODO refactor without the help of indexes
-        if indexes[0].is_alone() and indexes[0].index[0] in df.index:
+        # keep last level, otherwise result is not a dataframe any more
+        if (
+            len(indexes) > 1
+            and indexes[0].is_alone()
+            and indexes[0].index[0] in df.index
+        ):
             df = df.loc[indexes[0].index[0]].copy()
             return ResultAnalyzer._remove_useless_index_level(df, indexes[1:])
         else:
-- 
2.43.0


From a28306ce18bf8c8cc5fd25c1f6f28ed4b901cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:36 +0000
Subject: [PATCH 14/39] fix: an analyzer selector can be reused for several
 queries

Each call appended its index to the selector itself, so a second query from
the same selector mixed the indexes of both.
---
 hadar/analyzer/result.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 079c3c4..484f082 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -820,8 +820,8 @@ class NetworkFluentAPISelector:
         :param index:
         :return:
         """
-        self.indexes.append(index)
-        if len(self.indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
-            return self.analyzer.filter(self.indexes)
+        indexes = self.indexes + [index]
+        if len(indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
+            return self.analyzer.filter(indexes)
         else:
-            return NetworkFluentAPISelector(deepcopy(self.indexes), self.analyzer)
+            return NetworkFluentAPISelector(deepcopy(indexes), self.analyzer)
-- 
2.43.0


From 20be7439727abe05d63902ea7aa2877e544c910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:42 +0000
Subject: [PATCH 15/39] fix: Result.from_json does not consume its input

It replaced parts of the given dictionary by objects, so reading the same
JSON twice failed. Study.from_json already copies.
---
 hadar/optimizer/domain/output.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/optimizer/domain/output.py b/hadar/optimizer/domain/output.py
index be26482..7045f43 100644
--- a/hadar/optimizer/domain/output.py
+++ b/hadar/optimizer/domain/output.py
@@ -273,6 +273,7 @@ class Result(JSON):
 
     @staticmethod
     def from_json(dict, factory=None):
+        dict = deepcopy(dict)
         return Result(
             networks={
                 k: OutputNetwork.from_json(v) for k, v in dict["networks"].items()
-- 
2.43.0


From 5a5532804adf34b867e2b962ecd3853f736c6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:08 +0000
Subject: [PATCH 16/39] fix: studies and results holding arrays can be compared

Comparing two distinct arrays of more than one entry inside a dictionary
raised 'truth value of an array is ambiguous'.
---
 hadar/optimizer/utils.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index eed3aca..af06593 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -8,6 +8,19 @@ from abc import ABC, abstractmethod
 import numpy as np
 
 
+def _equals(a, b) -> bool:
+    """
+    Compare two attributes by value, numpy arrays included.
+    """
+    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+        return np.array_equal(a, b)
+    if isinstance(a, dict) and isinstance(b, dict):
+        return a.keys() == b.keys() and all(_equals(a[k], b[k]) for k in a)
+    if isinstance(a, (list, tuple)) and type(a) == type(b):
+        return len(a) == len(b) and all(_equals(i, j) for i, j in zip(a, b))
+    return a == b
+
+
 class DTO:
     """
     Implement basic method for DTO objects
@@ -17,7 +30,9 @@ class DTO:
         return hash(tuple(sorted(self.__dict__.items())))
 
     def __eq__(self, other):
-        return isinstance(other, type(self)) and self.__dict__ == other.__dict__
+        return isinstance(other, type(self)) and _equals(
+            self.__dict__, other.__dict__
+        )
 
     def __str__(self):
         return "{}({})".format(
-- 
2.43.0


From 79734e4d34e6b2cf858ddde792f2a75d1d53e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:14 +0000
Subject: [PATCH 17/39] fix: pipelines and shuffler do not rename columns of
 caller's dataframe

---
 hadar/workflow/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index bdc32e6..f8de7dd 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -309,6 +309,7 @@ class Stage(ABC):
         # Add 0th scenarios column if not present.
         if not isinstance(timeline.columns, MultiIndex):
             columns = timeline.columns.values
+            timeline = timeline.copy()
             timeline.columns = MultiIndex.from_arrays([np.zeros_like(columns), columns])
 
         return timeline
-- 
2.43.0


From 3cf98ebf4c03a7685053bac33b438666fde4b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:19 +0000
Subject: [PATCH 18/39] fix: FocusStage keeps time index and columns it does
 not know

A timeline indexed by dates became NaN, and columns other than the declared
outputs raised 'Columns must be same length as key'.
---
 hadar/workflow/pipeline.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index f8de7dd..1ca7956 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -382,16 +382,27 @@ class FocusStage(Stage, ABC):
         :return:
         """
         scenarios = timeline.columns.get_level_values(0).unique()
+        results = [
+            self._process_scenarios(scn, timeline[scn].copy()) for scn in scenarios
+        ]
+
+        # Columns generated by stage first, then columns which pass through it
+        names = list(self.plug.outputs)
+        names += [c for c in results[0].columns if c not in names]
 
         n_scn = len(scenarios)
         n_time = timeline.shape[0]
-        n_type = len(self.plug.outputs)
+        n_type = len(names)
 
-        index = FocusStage.build_multi_index(scenarios, names=self.plug.outputs)
+        index = FocusStage.build_multi_index(scenarios, names=names)
 
-        output = pd.DataFrame(data=np.zeros((n_time, n_type * n_scn)), columns=index)
-        for scn in timeline.columns.get_level_values(0).unique():
-            output[scn] = self._process_scenarios(scn, timeline[scn].copy())
+        output = pd.DataFrame(
+            data=np.zeros((n_time, n_type * n_scn)),
+            index=timeline.index,
+            columns=index,
+        )
+        for scn, res in zip(scenarios, results):
+            output[scn] = res
         return output
 
 
-- 
2.43.0


From a446273f9689f64a0e63a7e62508b7ee433b39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:45 +0000
Subject: [PATCH 19/39] fix: plug addition does not alter its operands

Linking two restricted stages extended the outputs of the second one in
place, so a stage used in a pipeline could not be used alone or in another
pipeline any more. Pipeline now checks each stage against plug of all
previous stages: with a free stage in between, a missing column was not
detected.
---
 hadar/workflow/pipeline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 1ca7956..e608326 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -146,11 +146,11 @@ class RestrictedPlug(Plug):
         :return: new plug with same input as current plug and merged output
         """
         if isinstance(next, FreePlug):
-            return self
+            return deepcopy(self)
 
         # keep output not used by next pipeline and add next outputs
-        next.outputs += [e for e in self.outputs if e not in next.inputs]
-        return RestrictedPlug(inputs=self.inputs, outputs=next.outputs)
+        outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]
+        return RestrictedPlug(inputs=list(self.inputs), outputs=outputs)
 
 
 class Pipeline:
@@ -171,7 +171,7 @@ class Pipeline:
         # Verify stage linkable capacity
         for i in range(0, len(stages) - 1):
             curr, next = stages[i], stages[i + 1]
-            if not curr.plug.linkable_to(next.plug):
+            if not self.plug.linkable_to(next.plug):
                 raise ValueError(
                     "Pipeline can't be added current outputs are %s and %s has input %s"
                     % (self.plug.outputs, curr.__class__.__name__, next.plug.inputs)
-- 
2.43.0


From 3de4c13024b427f451b51040c07c9a935c90406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:51 +0000
Subject: [PATCH 20/39] fix: adding a stage to a pipeline returns a new
 pipeline

It changed the left operand (and the list of stages given by the caller).
---
 hadar/workflow/pipeline.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index e608326..243bdfd 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -195,9 +195,7 @@ class Pipeline:
                 % (self.plug.outputs, other.__class__.__name__, other.plug.inputs)
             )
 
-        self.plug += other.plug
-        self.stages.append(other)
-        return self
+        return Pipeline(stages=self.stages + [other])
 
     def __call__(self, timeline):
         """
-- 
2.43.0


From 3c960f346095116e49f476817bda3683de22ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:57 +0000
Subject: [PATCH 21/39] fix: RepeatScenario keeps time index and labels each
 column by its own name

Time index was lost, and values were put under the wrong name when columns
are not in the same order for every scenario.
---
 hadar/workflow/pipeline.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 243bdfd..ad59b5a 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -559,10 +559,13 @@ class RepeatScenario(Stage):
     def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:
         data = np.tile(timeline.values, self.n)
 
-        n_scn = Stage.get_scenarios(timeline).size
-        names = Stage.get_names(timeline)
-        index = Stage.build_multi_index(
-            scenarios=np.arange(0, n_scn * self.n), names=names
+        scenarios = list(Stage.get_scenarios(timeline))
+        columns = MultiIndex.from_tuples(
+            [
+                (i * len(scenarios) + scenarios.index(scn), name)
+                for i in range(self.n)
+                for scn, name in timeline.columns
+            ]
         )
 
-        return pd.DataFrame(data=data, columns=index)
+        return pd.DataFrame(data=data, index=timeline.index, columns=columns)
-- 
2.43.0


From c62d0c5c575ed08db94f557683b5cde9559e379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:03 +0000
Subject: [PATCH 22/39] fix: Fault honours seed=0

---
 hadar/workflow/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index ad59b5a..db0dcbc 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -522,7 +522,7 @@ class Fault(FocusStage):
         self.seed = seed
 
     def _process_scenarios(self, n_scn: int, scenario: pd.DataFrame) -> pd.DataFrame:
-        if self.seed:
+        if self.seed is not None:
             np.random.seed(self.seed)
 
         horizon = scenario.shape[0]
-- 
2.43.0


From 9d04b000ef5baef8c1793f927c8d64ae6bfd5583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:09 +0000
Subject: [PATCH 23/39] fix: Shuffler.add_pipeline returns self as documented

---
 hadar/workflow/shuffler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 76ee6f8..9fccac7 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -134,6 +134,7 @@ class Shuffler:
         pipeline.assert_to_shuffler()
 
         self.timelines[name] = TimelinePipeline(data, pipeline, sampler=self.sampler)
+        return self
 
     def shuffle(self, nb_scn):
         """
-- 
2.43.0


From 0274c29209f3b3d5ee26665e65103928510c091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:54 +0000
Subject: [PATCH 24/39] fix: Shuffler samples timelines independently

The default sampler was pickled with its state and run inside workers: every
timeline drew the same scenario indexes, and each call to shuffle returned the
same sampling.
---
 hadar/workflow/shuffler.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 9fccac7..7a2fd78 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -85,13 +85,13 @@ class TimelinePipeline(Timeline):
 
 def compute(params):
     """
-    Wrapper method to call Timeline.sample used by multiprocessing.Pool.
+    Wrapper method to call Timeline.compute used by multiprocessing.Pool.
 
-    :param params: (timeline, number of scenarios, timeline name)
-    :return: (name, sampling)
+    :param params: (timeline, timeline name)
+    :return: (name, data to sample)
     """
-    tl, nb, name = params
-    return name, tl.sample(nb)
+    tl, name = params
+    return name, tl.compute()
 
 
 class Shuffler:
@@ -146,6 +146,12 @@ class Shuffler:
         # Compute pipelines
         pool = multiprocessing.Pool()
         res = pool.map(
-            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
+            compute, ((tl, name) for name, tl in self.timelines.items())
         )
-        return dict(res)
+
+        # Sample here: workers all receive a copy of the same random generator,
+        # they would draw the same scenarios for every timeline and every shuffle
+        return {
+            name: Timeline(data, sampler=self.sampler).sample(nb_scn)
+            for name, data in res
+        }
-- 
2.43.0


From a03582289a7cec2a97d6ccd9548de3d16ade9c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:00 +0000
Subject: [PATCH 25/39] fix: gaussian of a converter for one scenario

It mixed flows of all scenarios (and failed as soon as there are several).
---
 hadar/viewer/abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/viewer/abc.py b/hadar/viewer/abc.py
index 5154d47..24e01bf 100644
--- a/hadar/viewer/abc.py
+++ b/hadar/viewer/abc.py
@@ -644,8 +644,8 @@ class SrcConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .to_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
@@ -762,8 +762,8 @@ class DestConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .from_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
-- 
2.43.0


From 7df471972ea8176007ebb3598f6a32b296e04e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:06 +0000
Subject: [PATCH 26/39] fix: RAC matrix without negative or without positive
 value

np.min / np.max raised ValueError on the empty selection.
---
 hadar/viewer/html.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hadar/viewer/html.py b/hadar/viewer/html.py
index e791890..1b4df1f 100644
--- a/hadar/viewer/html.py
+++ b/hadar/viewer/html.py
@@ -231,8 +231,10 @@ class HTMLElementPlotting(ABCElementPlotting):
 
     def matrix(self, data: np.ndarray, title):
         def sdt(x):
-            x[x > 0] /= np.max(x[x > 0])
-            x[x < 0] /= -np.min(x[x < 0])
+            if (x > 0).any():
+                x[x > 0] /= np.max(x[x > 0])
+            if (x < 0).any():
+                x[x < 0] /= -np.min(x[x < 0])
             return x
 
         fig = go.Figure(
-- 
2.43.0


From 4725468f50d1153f92067f514e2377cae053841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:38 +0000
Subject: [PATCH 27/39] fix: analysis of a converter with many sources followed
 by an other converter

---
 hadar/analyzer/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 484f082..7bb1a59 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -450,8 +450,8 @@ class ResultAnalyzer:
                 np.repeat(np.arange(scn), h), src_size
             )
 
-            for i_src, (net, node) in enumerate(v.src_ratios.keys()):
-                e = s + h * scn * (i_src + 1)
+            for net, node in v.src_ratios.keys():
+                e = s + h * scn
                 slices = src_conv.index[s:e]
                 src_conv.loc[slices, "network"] = net
                 src_conv.loc[slices, "node"] = node
-- 
2.43.0


From 35e61d1e2bb75c9c3e2b4a77323bd6a677ec091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:58 +0000
Subject: [PATCH 28/39] fix: numpy numbers are accepted wherever a number is

---
 hadar/optimizer/domain/numeric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index b515c71..908afca 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -174,6 +174,10 @@ class NumericalValueFactory:
         if isinstance(value, dict) and "value" in value:
             value = value["value"]
 
+        # If data is a number from numpy, use the same python number
+        if isinstance(value, (np.number, np.ndarray)) and value.ndim == 0:
+            value = value.item()
+
         # If data is just a scalar
         if type(value) in [float, int, complex]:
             return ScalarNumericalValue(
-- 
2.43.0


From 49307be7d8ab71a7e8f5a7e19998cdb2903b4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:16 +0000
Subject: [PATCH 29/39] fix: Shuffler keeps only data to shuffle whatever the
 labels of other columns

---
 hadar/workflow/shuffler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 7a2fd78..afacfe6 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -78,7 +78,7 @@ class TimelinePipeline(Timeline):
         """
         res = self.pipeline(self.df)
         drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)
-        if drop_columns.any():
+        if drop_columns.size > 0:
             res = res.drop(drop_columns, axis=1, level=1)
         return res.values.T
 
-- 
2.43.0


From f280b22f8740cef85b2ffcda5b3a1356b98e6943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:04 +0000
Subject: [PATCH 30/39] fix: FocusStage keeps labels which are not strings

---
 hadar/workflow/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index db0dcbc..ef90974 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -331,7 +331,7 @@ class Stage(ABC):
 
         # Create an index for type like
         # [a, b, c, d, e, f, a, b, c, d, e, f, ..... x n_scn]
-        index_name = np.tile(names, n_scn)
+        index_name = list(names) * n_scn
 
         # Merge index for MultiIndex
         # [[0, a], [0, b], [0, c], ..., [1, a], [1, b], [1, c], ... ]
-- 
2.43.0


From c2e2f7263bbd8f9db22374734e78d413b823072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:06 +0000
Subject: [PATCH 31/39] fix: array values are <= or >= a number only when each
 value is

---
 hadar/optimizer/domain/numeric.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 908afca..bdc5213 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -94,6 +94,12 @@ class NumpyNumericalValue(NumericalValue[np.ndarray], ABC):
     def __gt__(self, other) -> bool:
         return np.all(self.value > other)
 
+    def __le__(self, other) -> bool:
+        return np.all(self.value <= other)
+
+    def __ge__(self, other) -> bool:
+        return np.all(self.value >= other)
+
 
 class MatrixNumericalValue(NumpyNumericalValue):
     """
-- 
2.43.0


From bae12abe8e12e1c607c78753daff444fd37c7083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:16 +0000
Subject: [PATCH 32/39] fix: initial level of a storage can be a numpy number

---
 hadar/optimizer/domain/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 1ef1a4a..3d542fc 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -398,6 +398,8 @@ class Study(JSON):
             raise ValueError("storage flow must be positive")
 
         store.capacity = self.factory.create(store.capacity)
+        if isinstance(store.init_capacity, np.number):
+            store.init_capacity = store.init_capacity.item()
         if np.any(store.capacity.flatten() < 0) or store.init_capacity < 0:
             raise ValueError("storage capacities must be positive")
 
-- 
2.43.0


From 89b603fea269d0c3cb44957012fec097e50996f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:30 +0000
Subject: [PATCH 33/39] fix: numpy numbers of any size are serialized

---
 hadar/optimizer/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index af06593..bfb9d5f 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -62,9 +62,9 @@ class JSON(DTO, ABC):
             return {k: JSON.convert(v) for k, v in value.items()}
         elif isinstance(value, list) or isinstance(value, tuple):
             return [JSON.convert(v) for v in value]
-        elif isinstance(value, np.int64):
+        elif isinstance(value, np.integer):
             return int(value)
-        elif isinstance(value, np.float64):
+        elif isinstance(value, np.floating):
             return float(value)
         elif isinstance(value, np.ndarray):
             return value.tolist()
-- 
2.43.0


From e0f8efa906c367e145be780d9cfac540ab95d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:37 +0000
Subject: [PATCH 34/39] fix: values of an other study must have the size of the
 study

---
 hadar/optimizer/domain/numeric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index bdc5213..2f8b784 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -173,8 +173,9 @@ class NumericalValueFactory:
     def create(
         self, value: Union[float, List[float], str, np.ndarray, NumericalValue]
     ) -> NumericalValue:
+        # If data come from an other element (maybe of an other study) check its size too
         if isinstance(value, NumericalValue):
-            return value
+            value = value.value
 
         # If data come from json serialized dictionary, use 'value' key as input
         if isinstance(value, dict) and "value" in value:
-- 
2.43.0


From 79ba96bd842f1b30c85dc3ff2ce64ce0a2306bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 35/39] fix: Shuffler accepts samplers which can not be pickled

---
 hadar/workflow/shuffler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index afacfe6..5fd9f39 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -117,7 +117,7 @@ class Shuffler:
         :param data: numpy array with shape as (scenario, horizon)
         :return: self
         """
-        self.timelines[name] = Timeline(data, sampler=self.sampler)
+        self.timelines[name] = Timeline(data)
         return self
 
     def add_pipeline(self, name: str, data: pd.DataFrame, pipeline: Pipeline):
@@ -133,7 +133,7 @@ class Shuffler:
         pipeline.assert_computable(data)
         pipeline.assert_to_shuffler()
 
-        self.timelines[name] = TimelinePipeline(data, pipeline, sampler=self.sampler)
+        self.timelines[name] = TimelinePipeline(data, pipeline)
         return self
 
     def shuffle(self, nb_scn):
-- 
2.43.0


From 2f4746306534455081be2ead548fd6b7fc7dc58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:57 +0000
Subject: [PATCH 36/39] fix: costs of networks and nodes whose name is empty

---
 hadar/analyzer/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 7bb1a59..dfbe2ad 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -581,13 +581,13 @@ class ResultAnalyzer:
             return size
 
         # Compute cost over network
-        if network and node is None:
+        if network is not None and node is None:
             for node in self.study.networks[network].nodes.keys():
                 size += self.get_elements_inside(network=network, node=node)
             return size
 
         # If node is provided but no network set network as 'default'
-        if node and network is None:
+        if node is not None and network is None:
             network = "default"
 
         n = self.study.networks[network].nodes[node]
@@ -643,7 +643,7 @@ class ResultAnalyzer:
         """
         cost = np.zeros((self.nb_scn, self.horizon))
         c, p, s, l, _, v = self.get_elements_inside(node, network)
-        network = "default" if node and network is None else network
+        network = "default" if node is not None and network is None else network
         if c:
             cons = self.network(network).node(node).scn().time().consumption()
             cost += (
-- 
2.43.0


From 9fd7428344e8d25b1fcd4ad9a3ea4bc28dbd0785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:28 +0000
Subject: [PATCH 37/39] fix: study keeps data as given even if caller changes
 its array afterwards

---
 hadar/optimizer/domain/numeric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 2f8b784..0140ed6 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -196,6 +196,9 @@ class NumericalValueFactory:
             value = np.array(value)
 
         if isinstance(value, np.ndarray):
+            # Caller can change its array afterwards
+            value = value.copy()
+
             # If scenario are not provided copy timeseries for each scenario
             if value.shape == (self.horizon,):
                 return RowNumericValue(
-- 
2.43.0


From e3ec360782185c59af8b887394b49ac383b1a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:29 +0000
Subject: [PATCH 38/39] fix: second output of a converter is refused even if
 its node name is empty

---
 hadar/optimizer/domain/input.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 3d542fc..3550d27 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -414,7 +414,12 @@ class Study(JSON):
     def _add_converter(self, name: str):
         if name not in [v for v in self.converters]:
             self.converters[name] = Converter(
-                name=name, src_ratios={}, dest_network="", dest_node="", cost=0, max=0
+                name=name,
+                src_ratios={},
+                dest_network=None,
+                dest_node=None,
+                cost=0,
+                max=0,
             )
 
     def _add_converter_src(
@@ -440,11 +445,7 @@ class Study(JSON):
         cost: NumericalValueType,
         max: NumericalValueType,
     ):
-        if (
-            name in self.converters
-            and self.converters[name].dest_network
-            and self.converters[name].dest_node
-        ):
+        if name in self.converters and self.converters[name].dest_node is not None:
             raise ValueError("converter has already output set")
         if (
             network not in self.networks
-- 
2.43.0


From aa51b1c89afd79365886a3a031a5d1ce02cb830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:20 +0000
Subject: [PATCH 39/39] fix: names with '::' in sources of converters survive
 JSON and solving

---
 hadar/optimizer/domain/input.py  |  6 +++---
 hadar/optimizer/domain/output.py |  5 +++--
 hadar/optimizer/lp/domain.py     |  8 ++++----
 hadar/optimizer/utils.py         | 19 +++++++++++++++++++
 4 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 3550d27..ea19db0 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -25,7 +25,7 @@ __all__ = [
 
 import hadar
 from hadar.optimizer.domain.numeric import NumericalValue, NumericalValueFactory
-from hadar.optimizer.utils import JSON
+from hadar.optimizer.utils import JSON, join_key, split_key
 
 NumericalValueType: Type = Union[List, np.ndarray, float]
 
@@ -186,7 +186,7 @@ class Converter(JSON):
         # Therefore when serialized we join these two strings with '::' to create on string as key
         # Ex: ('elec', 'a') --> 'elec::a'
         dict["src_ratios"] = {
-            "::".join(k): v.to_json() for k, v in self.src_ratios.items()
+            join_key(k): v.to_json() for k, v in self.src_ratios.items()
         }
         return {k: JSON.convert(v) for k, v in dict.items()}
 
@@ -198,7 +198,7 @@ class Converter(JSON):
         dict["cost"] = factory.create(dict["cost"])
         dict["max"] = factory.create(dict["max"])
         dict["src_ratios"] = {
-            tuple(k.split("::")): factory.create(v)
+            split_key(k): factory.create(v)
             for k, v in dict["src_ratios"].items()
         }
         return Converter(**dict)
diff --git a/hadar/optimizer/domain/output.py b/hadar/optimizer/domain/output.py
index 7045f43..6d18d16 100644
--- a/hadar/optimizer/domain/output.py
+++ b/hadar/optimizer/domain/output.py
@@ -10,6 +10,7 @@ from typing import Union, List, Dict, Tuple
 import numpy as np
 
 from hadar.optimizer.domain.input import InputNode, JSON
+from hadar.optimizer.utils import join_key, split_key
 
 __all__ = [
     "OutputProduction",
@@ -140,7 +141,7 @@ class OutputConverter(JSON):
         # flow_src has a tuple of two string as key. These forbidden by JSON.
         # Therefore when serialized we join these two strings with '::' to create on string as key
         # Ex: ('elec', 'a') --> 'elec::a'
-        dict["flow_src"] = {"::".join(k): v.tolist() for k, v in self.flow_src.items()}
+        dict["flow_src"] = {join_key(k): v.tolist() for k, v in self.flow_src.items()}
         dict["flow_dest"] = self.flow_dest.tolist()
         return dict
 
@@ -150,7 +151,7 @@ class OutputConverter(JSON):
         # JSON doesn't accept tuple as key, so two string was joined for serialization
         # Ex: 'elec::a' -> ('elec', 'a')
         dict["flow_src"] = {
-            tuple(k.split("::")): v for k, v in dict["flow_src"].items()
+            split_key(k): v for k, v in dict["flow_src"].items()
         }
         return OutputConverter(**dict)
 
diff --git a/hadar/optimizer/lp/domain.py b/hadar/optimizer/lp/domain.py
index b82e168..5f76ec9 100644
--- a/hadar/optimizer/lp/domain.py
+++ b/hadar/optimizer/lp/domain.py
@@ -12,7 +12,7 @@ from typing import List, Union, Dict, Tuple
 from ortools.linear_solver.pywraplp import Variable
 
 from hadar import Study
-from hadar.optimizer.utils import JSON
+from hadar.optimizer.utils import JSON, join_key, split_key
 
 
 class JSONLP(JSON, ABC):
@@ -23,7 +23,7 @@ class JSONLP(JSON, ABC):
             elif isinstance(v, dict):
                 # Json can't serialize tuple key, therefore join items with ::
                 return {
-                    "::".join(k) if isinstance(k, tuple) else k: copy(v)
+                    join_key(k) if isinstance(k, tuple) else k: copy(v)
                     for k, v in v.items()
                 }
             elif isinstance(v, np.int64):
@@ -223,10 +223,10 @@ class LPConverter(JSONLP):
     def from_json(dict, factory=None):
         # Json can't serialize tuple as key. tuple is concatained before serialized, we need to extract it now
         dict["src_ratios"] = {
-            tuple(k.split("::")): v for k, v in dict["src_ratios"].items()
+            split_key(k): v for k, v in dict["src_ratios"].items()
         }
         dict["var_flow_src"] = {
-            tuple(k.split("::")): v for k, v in dict["var_flow_src"].items()
+            split_key(k): v for k, v in dict["var_flow_src"].items()
         }
         return LPConverter(**dict)
 
diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index bfb9d5f..1fc882d 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -4,10 +4,29 @@
 #  If a copy of the Apache License, version 2.0 was not distributed with this file, you can obtain one at http://www.apache.org/licenses/LICENSE-2.0.
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
+import json
 from abc import ABC, abstractmethod
 import numpy as np
 
 
+def join_key(key) -> str:
+    """
+    Join tuple of strings used as key, JSON doesn't accept tuple as key.
+    Ex: ('elec', 'a') --> 'elec::a'. Strings which can't be split back are written as a JSON array.
+    """
+    text = "::".join(key)
+    if tuple(text.split("::")) == tuple(key) and not text.startswith('["'):
+        return text
+    return json.dumps(key)
+
+
+def split_key(text: str) -> tuple:
+    """
+    Split string created by join_key. Ex: 'elec::a' -> ('elec', 'a')
+    """
+    return tuple(json.loads(text) if text.startswith('["') else text.split("::"))
+
+
 def _equals(a, b) -> bool:
     """
     Compare two attributes by value, numpy arrays included.
-- 
2.43.0

