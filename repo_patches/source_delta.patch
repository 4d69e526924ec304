From b894075e5c92e1a280cd7b7147be1fdda0004f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:06 +0000
Subject: [PATCH 01/38] fix: build the level constraint of every storage of a
 node, not only the first

---
 hadar/optimizer/lp/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index e2eb4bd..406e01b 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -295,6 +295,7 @@ class StorageBuilder:
     def add_node(
         self, name_network: str, name_node: str, node: LPNode, t: int
     ) -> Constraint:
+        const = None
         for stor in node.storages:
             self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity
             if t == 0:
@@ -302,7 +303,6 @@ class StorageBuilder:
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
                 const.SetCoefficient(stor.var_flow_out, 1)
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
             else:
                 const = self.solver.Constraint(0, 0)
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
@@ -311,7 +311,7 @@ class StorageBuilder:
                     self.capacities[(t - 1, name_network, name_node, stor.name)], -1
                 )
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
+        return const
 
     def build(self):
         pass  # Currently nothing are need at the end. But we keep builder pattern syntax
-- 
2.43.0


From d015837f35a39b6ad1a8a937ad65210d8f10a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:26 +0000
Subject: [PATCH 02/38] fix: a link from a node to itself must not create
 energy

---
 hadar/optimizer/lp/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 406e01b..4eace9f 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -279,7 +279,10 @@ class AdequacyBuilder:
         """
         # Apply import link in adequacy
         for (t, net, src, dest), var in self.importations.items():
-            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
+            # what leaves a node by a link to itself comes back on this node
+            self.constraints[(t, net, dest)].SetCoefficient(
+                var, 1 if src != dest else 0
+            )
 
 
 class StorageBuilder:
-- 
2.43.0


From 8f1aa7b73f09fe0d79b769b3279834aeda11e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:31 +0000
Subject: [PATCH 03/38] fix: raise when the solver finds no solution instead of
 returning garbage

---
 hadar/optimizer/lp/optimizer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 4eace9f..8dc2de8 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -407,7 +407,17 @@ def _solve_batch(params) -> bytes:
 
     logger.info("Problem build. Start solver")
     solver.EnableOutput()
-    solver.Solve()
+    status = solver.Solve()
+    if status in (
+        Solver.INFEASIBLE,
+        Solver.UNBOUNDED,
+        Solver.ABNORMAL,
+        Solver.NOT_SOLVED,
+    ):
+        raise RuntimeError(
+            "Solver can't find an optimal solution for scenario %d (status %d)"
+            % (i_scn, status)
+        )
 
     problem_solved = time.time()
     logger.info("Solver finish cost=%d", solver.Objective().Value())
-- 
2.43.0


From 1274125ae33d9419063f6b92741aa4bcff6e81a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:38 +0000
Subject: [PATCH 04/38] fix: accept any numpy numeric dtype (integer costs
 crashed the solver)

---
 hadar/optimizer/domain/numeric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 18291f9..0228d37 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -185,6 +185,9 @@ class NumericalValueFactory:
             value = np.array(value)
 
         if isinstance(value, np.ndarray):
+            # ortools and json accept only float, whatever numpy type is given
+            value = value.astype(float)
+
             # If scenario are not provided copy timeseries for each scenario
             if value.shape == (self.horizon,):
                 return RowNumericValue(
-- 
2.43.0


From 59eea593858bd3db65aa91d794e98167a4545908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:09 +0000
Subject: [PATCH 05/38] fix: reject arrays with only some negative quantities
 or out of range efficiencies

---
 hadar/optimizer/domain/input.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 035fc2b..a895df1 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -30,6 +30,13 @@ from hadar.optimizer.utils import JSON
 NumericalValueType: Type = Union[List, np.ndarray, float]
 
 
+def _all_positive(value: NumericalValue) -> bool:
+    """
+    Check every value, for all scenarios and all time steps, is positive.
+    """
+    return bool((value.flatten() >= 0).all())
+
+
 class Consumption(JSON):
     """
     Consumption element.
@@ -342,7 +349,7 @@ class Study(JSON):
             raise ValueError("link destination must be unique on a node")
 
         quantity = self.factory.create(quantity)
-        if quantity < 0:
+        if not _all_positive(quantity):
             raise ValueError("Link quantity must be positive")
 
         cost = self.factory.create(cost)
@@ -369,7 +376,7 @@ class Study(JSON):
             raise ValueError("production name must be unique on a node")
 
         prod.quantity = self.factory.create(prod.quantity)
-        if prod.quantity < 0:
+        if not _all_positive(prod.quantity):
             raise ValueError("Production quantity must be positive")
 
         prod.cost = self.factory.create(prod.cost)
@@ -382,7 +389,7 @@ class Study(JSON):
             raise ValueError("consumption name must be unique on a node")
 
         cons.quantity = self.factory.create(cons.quantity)
-        if cons.quantity < 0:
+        if not _all_positive(cons.quantity):
             raise ValueError("Consumption quantity must be positive")
 
         cons.cost = self.factory.create(cons.cost)
@@ -394,15 +401,15 @@ class Study(JSON):
 
         store.flow_in = self.factory.create(store.flow_in)
         store.flow_out = self.factory.create(store.flow_out)
-        if store.flow_in < 0 or store.flow_out < 0:
+        if not _all_positive(store.flow_in) or not _all_positive(store.flow_out):
             raise ValueError("storage flow must be positive")
 
         store.capacity = self.factory.create(store.capacity)
-        if store.capacity < 0 or store.init_capacity < 0:
+        if not _all_positive(store.capacity) or store.init_capacity < 0:
             raise ValueError("storage capacities must be positive")
 
         store.eff = self.factory.create(store.eff)
-        if store.eff < 0 or store.eff > 1:
+        if not _all_positive(store.eff) or (store.eff.flatten() > 1).any():
             raise ValueError("storage efficiency must be in ]0, 1[")
 
         store.cost = self.factory.create(store.cost)
-- 
2.43.0


From 68084ab468036bdd3c95ec213eb08b7818993c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:15 +0000
Subject: [PATCH 06/38] fix: a node handle of the study fluent api stays on its
 own node

---
 hadar/optimizer/domain/input.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index a895df1..8ad1f1f 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -471,9 +471,8 @@ class NetworkFluentAPISelector:
         :param name: node to select when changing level
         :return: NodeFluentAPISelector initialized
         """
-        self.selector["node"] = name
         self.study.add_node(network=self.selector["network"], node=name)
-        return NodeFluentAPISelector(self.study, self.selector)
+        return NodeFluentAPISelector(self.study, dict(self.selector, node=name))
 
     def link(
         self,
-- 
2.43.0


From 99d367dec15d324d5615fa78425f146a5d0e190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:22 +0000
Subject: [PATCH 07/38] fix: a rejected converter call must not leave a half
 made converter in the study

---
 hadar/optimizer/domain/input.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 8ad1f1f..0b73996 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -425,12 +425,13 @@ class Study(JSON):
     def _add_converter_src(
         self, name: str, network: str, node: str, ratio: NumericalValueType
     ):
+        ratio = self.factory.create(ratio)
+        self._add_converter(name=name)
         if (network, node) in self.converters[name].src_ratios:
             raise ValueError(
                 "converter input already has node %s on network %s" % (node, network)
             )
 
-        ratio = self.factory.create(ratio)
         self.converters[name].src_ratios[(network, node)] = ratio
 
     def _set_converter_dest(
@@ -441,18 +442,22 @@ class Study(JSON):
         cost: NumericalValueType,
         max: NumericalValueType,
     ):
-        if self.converters[name].dest_network and self.converters[name].dest_node:
-            raise ValueError("converter has already output set")
         if (
             network not in self.networks
             or node not in self.networks[network].nodes.keys()
         ):
             raise ValueError("Node %s is not present in network %s" % (node, network))
 
+        cost = self.factory.create(cost)
+        max = self.factory.create(max)
+        self._add_converter(name=name)
+        if self.converters[name].dest_network and self.converters[name].dest_node:
+            raise ValueError("converter has already output set")
+
         self.converters[name].dest_network = network
         self.converters[name].dest_node = node
-        self.converters[name].cost = self.factory.create(cost)
-        self.converters[name].max = self.factory.create(max)
+        self.converters[name].cost = cost
+        self.converters[name].max = max
 
 
 class NetworkFluentAPISelector:
@@ -528,7 +533,6 @@ class NetworkFluentAPISelector:
         :param cost: cost for each quantity produce by converter
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._set_converter_dest(
             name=name, network=to_network, node=to_node, cost=cost, max=max
         )
@@ -686,7 +690,6 @@ class NodeFluentAPISelector:
         :param ratio: ratio for output
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._add_converter_src(
             name=name,
             network=self.selector["network"],
-- 
2.43.0


From e7c96921e7f360703d3e68caa499b2699160988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:27 +0000
Subject: [PATCH 08/38] fix: compare studies and results holding arrays (==
 raised ValueError)

---
 hadar/optimizer/utils.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index eed3aca..f817476 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -17,7 +17,23 @@ class DTO:
         return hash(tuple(sorted(self.__dict__.items())))
 
     def __eq__(self, other):
-        return isinstance(other, type(self)) and self.__dict__ == other.__dict__
+        return isinstance(other, type(self)) and DTO._equals(
+            self.__dict__, other.__dict__
+        )
+
+    @staticmethod
+    def _equals(a, b) -> bool:
+        """
+        Compare two attributes. Comparison between arrays by == is not a boolean, so walk
+        through containers to compare arrays by numpy.
+        """
+        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+            return np.array_equal(a, b)
+        if isinstance(a, dict) and isinstance(b, dict):
+            return a.keys() == b.keys() and all(DTO._equals(a[k], b[k]) for k in a)
+        if isinstance(a, (list, tuple)) and type(a) is type(b):
+            return len(a) == len(b) and all(DTO._equals(i, j) for i, j in zip(a, b))
+        return bool(a == b)
 
     def __str__(self):
         return "{}({})".format(
-- 
2.43.0


From f892cdca61187470b465e1bee62c79d82e6a6d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:33 +0000
Subject: [PATCH 09/38] fix: Result.from_json must not modify its argument

---
 hadar/optimizer/domain/output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/optimizer/domain/output.py b/hadar/optimizer/domain/output.py
index be26482..1c6b937 100644
--- a/hadar/optimizer/domain/output.py
+++ b/hadar/optimizer/domain/output.py
@@ -273,6 +273,8 @@ class Result(JSON):
 
     @staticmethod
     def from_json(dict, factory=None):
+        # nested elements are deserialized in place, don't alter what caller gives
+        dict = deepcopy(dict)
         return Result(
             networks={
                 k: OutputNetwork.from_json(v) for k, v in dict["networks"].items()
-- 
2.43.0


From c8c2c287b680a00c26454ec5c010588aec6d18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:59 +0000
Subject: [PATCH 10/38] fix: flatten every storage in the analyzer table (rows
 were overwritten)

---
 hadar/analyzer/result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 01c33e8..adb5653 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -331,6 +331,8 @@ class ResultAnalyzer:
                     stor.loc[slices, "t"] = np.tile(np.arange(h), scn)
                     stor.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
 
+                    n_stor += 1
+
         return stor
 
     @staticmethod
-- 
2.43.0


From e1ef52247faf2dbf5e4d17feb57cb13026d79b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:05 +0000
Subject: [PATCH 11/38] fix: flatten converters with many sources in the
 analyzer table

---
 hadar/analyzer/result.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index adb5653..b3871de 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -431,16 +431,12 @@ class ResultAnalyzer:
 
         s = 0
         for name, v in study.converters.items():
-            src_size = len(v.src_ratios)
-            e = s + h * scn * src_size
-            slices = src_conv.index[s:e]
-            src_conv.loc[slices, "name"] = v.name
-            src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn * src_size)
-            src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h * src_size)
-
-            for i_src, (net, node) in enumerate(v.src_ratios.keys()):
-                e = s + h * scn * (i_src + 1)
+            for net, node in v.src_ratios.keys():
+                e = s + h * scn
                 slices = src_conv.index[s:e]
+                src_conv.loc[slices, "name"] = v.name
+                src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
+                src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
                 src_conv.loc[slices, "network"] = net
                 src_conv.loc[slices, "node"] = node
                 src_conv.loc[slices, "max"] = v.max.flatten()
@@ -449,7 +445,6 @@ class ResultAnalyzer:
                     result.converters[name].flow_src[(net, node)].flatten()
                 )
                 s = e
-            s = e
 
         src_conv.loc[:, "max"] /= src_conv[
             "ratio"
-- 
2.43.0


From 76108836e7305ddf3d0bf6ce052c9401d88572ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:12 +0000
Subject: [PATCH 12/38] fix: one destination row by converter in the analyzer
 table, whatever its number of sources

---
 hadar/analyzer/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index b3871de..8839a61 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -386,7 +386,7 @@ class ResultAnalyzer:
     def _build_dest_converter(study: Study, result: Result):
         h = study.horizon
         scn = study.nb_scn
-        elements = sum([len(v.src_ratios) for v in study.converters.values()])
+        elements = len(study.converters)
         size = h * scn * elements
 
         dest_conv = {
-- 
2.43.0


From faa5d8ee08378828cfacc515e9a1c18244cafb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:18 +0000
Subject: [PATCH 13/38] fix: continuing an analyzer query must not modify the
 query it starts from

---
 hadar/analyzer/result.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 8839a61..0efeb87 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -798,8 +798,8 @@ class NetworkFluentAPISelector:
         :param index:
         :return:
         """
-        self.indexes.append(index)
-        if len(self.indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
-            return self.analyzer.filter(self.indexes)
+        indexes = self.indexes + [index]
+        if len(indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
+            return self.analyzer.filter(indexes)
         else:
-            return NetworkFluentAPISelector(deepcopy(self.indexes), self.analyzer)
+            return NetworkFluentAPISelector(deepcopy(indexes), self.analyzer)
-- 
2.43.0


From 7d58ac7f49a20260d2aa0be4bc889f25ca856af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:24 +0000
Subject: [PATCH 14/38] fix: analyzer query with a single value for each index
 raised IndexError

---
 hadar/analyzer/result.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 0efeb87..1435940 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -464,7 +464,11 @@ class ResultAnalyzer:
         :return: dataframe trimed with useless index(es) level
         """
         # TODO refactor without the help of indexes
-        if indexes[0].is_alone() and indexes[0].index[0] in df.index:
+        if (
+            len(indexes) > 1
+            and indexes[0].is_alone()
+            and indexes[0].index[0] in df.index
+        ):
             df = df.loc[indexes[0].index[0]].copy()
             return ResultAnalyzer._remove_useless_index_level(df, indexes[1:])
         else:
-- 
2.43.0


From 414072ce63694202d4685d0a16a8241092523978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:54 +0000
Subject: [PATCH 15/38] fix: converter query on a study without converter is
 empty (raised KeyError)

---
 hadar/analyzer/result.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 1435940..c8f43b2 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -396,6 +396,8 @@ class ResultAnalyzer:
             "flow": np.empty(size, dtype=float),
             "cost": np.empty(size, dtype=float),
             "max": np.empty(size, dtype=float),
+            "t": np.empty(size, dtype=float),
+            "scn": np.empty(size, dtype=float),
         }
         dest_conv = pd.DataFrame(data=dest_conv)
 
@@ -407,8 +409,8 @@ class ResultAnalyzer:
             dest_conv.loc[slices, "network"] = v.dest_network
             dest_conv.loc[slices, "node"] = v.dest_node
             dest_conv.loc[slices, "flow"] = result.converters[name].flow_dest.flatten()
-            dest_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
-            dest_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
+            dest_conv.loc[slices, "t"] = np.tile(np.arange(h, dtype=float), scn)
+            dest_conv.loc[slices, "scn"] = np.repeat(np.arange(scn, dtype=float), h)
 
         return dest_conv
 
@@ -426,6 +428,8 @@ class ResultAnalyzer:
             "ratio": np.empty(size, dtype=float),
             "flow": np.empty(size, dtype=float),
             "max": np.empty(size, dtype=float),
+            "t": np.empty(size, dtype=float),
+            "scn": np.empty(size, dtype=float),
         }
         src_conv = pd.DataFrame(data=src_conv)
 
@@ -435,8 +439,8 @@ class ResultAnalyzer:
                 e = s + h * scn
                 slices = src_conv.index[s:e]
                 src_conv.loc[slices, "name"] = v.name
-                src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
-                src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
+                src_conv.loc[slices, "t"] = np.tile(np.arange(h, dtype=float), scn)
+                src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn, dtype=float), h)
                 src_conv.loc[slices, "network"] = net
                 src_conv.loc[slices, "node"] = node
                 src_conv.loc[slices, "max"] = v.max.flatten()
-- 
2.43.0


From be0194ee572052a0a1b352666f6628aecef88925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:00 +0000
Subject: [PATCH 16/38] fix: analyzer slices with open or negative bounds

---
 hadar/analyzer/result.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index c8f43b2..bdff7e9 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -131,13 +131,18 @@ class IntIndex(Index[int]):
         :param start: start datetime to filter (to use instead of index)
         :param end: end datetime to filter (to use instead of index)
         """
-        if isinstance(index, slice):
-            start = 0 if index.start is None else index.start
-            stop = -1 if index.start is None else index.stop
-            step = 1 if index.step is None else index.step
-            index = tuple(range(start, stop, step))
+        self.slice = index if isinstance(index, slice) else None
+        if self.slice is not None:
+            index = tuple(range(*self.slice.indices(max(0, self.slice.stop or 0))))
         Index.__init__(self, column=column, index=index)
 
+    def filter(self, df: pd.DataFrame) -> pd.Series:
+        # Open or negative bounds of slice depend on data size
+        if self.slice is not None:
+            size = 0 if df.empty else int(df[self.column].max()) + 1
+            self.index = tuple(range(*self.slice.indices(size)))
+        return Index.filter(self, df)
+
 
 class TimeIndex(IntIndex):
     """Index implementation to filter by time step"""
-- 
2.43.0


From 31fa8c450391b1c0b3ff864c0240789dd2ac2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:07 +0000
Subject: [PATCH 17/38] fix: plot RAC matrix when all values have the same sign

---
 hadar/viewer/html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/viewer/html.py b/hadar/viewer/html.py
index e791890..1e20a06 100644
--- a/hadar/viewer/html.py
+++ b/hadar/viewer/html.py
@@ -231,8 +231,8 @@ class HTMLElementPlotting(ABCElementPlotting):
 
     def matrix(self, data: np.ndarray, title):
         def sdt(x):
-            x[x > 0] /= np.max(x[x > 0])
-            x[x < 0] /= -np.min(x[x < 0])
+            x[x > 0] /= np.max(x[x > 0], initial=0)
+            x[x < 0] /= -np.min(x[x < 0], initial=0)
             return x
 
         fig = go.Figure(
-- 
2.43.0


From 65d5c59a1eba9a52ca1c0514aa3c5f946fd31b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:13 +0000
Subject: [PATCH 18/38] fix: gaussian of a converter for a scenario uses this
 scenario only

---
 hadar/viewer/abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/viewer/abc.py b/hadar/viewer/abc.py
index 5154d47..24e01bf 100644
--- a/hadar/viewer/abc.py
+++ b/hadar/viewer/abc.py
@@ -644,8 +644,8 @@ class SrcConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .to_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
@@ -762,8 +762,8 @@ class DestConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .from_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
-- 
2.43.0


From 43148fdb4ede4129eff7f8790fdee2d6ac832c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 19/38] fix: running a stage or a pipeline must not modify the
 dataframe given by user

---
 hadar/workflow/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index bdc32e6..8ad49be 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -308,6 +308,7 @@ class Stage(ABC):
         """
         # Add 0th scenarios column if not present.
         if not isinstance(timeline.columns, MultiIndex):
+            timeline = timeline.copy()  # don't modify data given by user
             columns = timeline.columns.values
             timeline.columns = MultiIndex.from_arrays([np.zeros_like(columns), columns])
 
-- 
2.43.0


From 85e30004d5d79b1a2249401c2a4cd09b2d3d6a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:03 +0000
Subject: [PATCH 20/38] fix: focus stages keep time index and columns they
 don't use

---
 hadar/workflow/pipeline.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 8ad49be..a761de8 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -381,18 +381,20 @@ class FocusStage(Stage, ABC):
         :param timeline:
         :return:
         """
-        scenarios = timeline.columns.get_level_values(0).unique()
-
-        n_scn = len(scenarios)
-        n_time = timeline.shape[0]
-        n_type = len(self.plug.outputs)
-
-        index = FocusStage.build_multi_index(scenarios, names=self.plug.outputs)
-
-        output = pd.DataFrame(data=np.zeros((n_time, n_type * n_scn)), columns=index)
-        for scn in timeline.columns.get_level_values(0).unique():
-            output[scn] = self._process_scenarios(scn, timeline[scn].copy())
-        return output
+        outputs = self.plug.outputs
+
+        # Columns generated by stage come first, followed by columns not used by stage.
+        def sort_columns(df: pd.DataFrame) -> pd.DataFrame:
+            names = [n for n in outputs if n in df.columns]
+            return df[names + [n for n in df.columns if n not in outputs]]
+
+        return pd.concat(
+            {
+                scn: sort_columns(self._process_scenarios(scn, timeline[scn].copy()))
+                for scn in Stage.get_scenarios(timeline)
+            },
+            axis=1,
+        )
 
 
 class Clip(Stage):
-- 
2.43.0


From a8127fc30c1f14db3c8bdfd1c1d9a3aed8239d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:09 +0000
Subject: [PATCH 21/38] fix: linking a stage must not modify its plug, stages
 can be used in many pipelines

---
 hadar/workflow/pipeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index a761de8..e0f65eb 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -149,8 +149,8 @@ class RestrictedPlug(Plug):
             return self
 
         # keep output not used by next pipeline and add next outputs
-        next.outputs += [e for e in self.outputs if e not in next.inputs]
-        return RestrictedPlug(inputs=self.inputs, outputs=next.outputs)
+        outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]
+        return RestrictedPlug(inputs=self.inputs, outputs=outputs)
 
 
 class Pipeline:
-- 
2.43.0


From 3e0f6ba3df4793b168e1e2ff7b8b8c5d3b68163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:16 +0000
Subject: [PATCH 22/38] fix: adding a stage returns a new pipeline and keeps
 the original one unchanged

---
 hadar/workflow/pipeline.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index e0f65eb..3b56276 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -195,9 +195,7 @@ class Pipeline:
                 % (self.plug.outputs, other.__class__.__name__, other.plug.inputs)
             )
 
-        self.plug += other.plug
-        self.stages.append(other)
-        return self
+        return Pipeline(stages=self.stages + [other])
 
     def __call__(self, timeline):
         """
-- 
2.43.0


From d084f4b4af6bbf9842ad8213146a43ada882a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:22 +0000
Subject: [PATCH 23/38] fix: check each stage against the whole pipeline before
 it, not only the previous stage

---
 hadar/workflow/pipeline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 3b56276..9ff710f 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -170,11 +170,11 @@ class Pipeline:
 
         # Verify stage linkable capacity
         for i in range(0, len(stages) - 1):
-            curr, next = stages[i], stages[i + 1]
-            if not curr.plug.linkable_to(next.plug):
+            next = stages[i + 1]
+            if not self.plug.linkable_to(next.plug):
                 raise ValueError(
                     "Pipeline can't be added current outputs are %s and %s has input %s"
-                    % (self.plug.outputs, curr.__class__.__name__, next.plug.inputs)
+                    % (self.plug.outputs, next.__class__.__name__, next.plug.inputs)
                 )
 
             self.plug += next.plug
-- 
2.43.0


From d73f6e6269cd96dd683e26f5101e490398f0819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:27 +0000
Subject: [PATCH 24/38] fix: Fault ignored seed 0

---
 hadar/workflow/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 9ff710f..1f81bad 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -513,7 +513,7 @@ class Fault(FocusStage):
         self.seed = seed
 
     def _process_scenarios(self, n_scn: int, scenario: pd.DataFrame) -> pd.DataFrame:
-        if self.seed:
+        if self.seed is not None:
             np.random.seed(self.seed)
 
         horizon = scenario.shape[0]
-- 
2.43.0


From 1fd7c110e9426f2e99db83ee88ac5ceab3520612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:32 +0000
Subject: [PATCH 25/38] fix: maximal downtime of Fault can be reached, and be
 equal to minimal downtime

---
 hadar/workflow/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 1f81bad..b4b97fc 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -523,7 +523,7 @@ class Fault(FocusStage):
         loss_qt = np.zeros(horizon)
         faults_begin = np.random.randint(low=0, high=horizon, size=nb_faults)
         faults_duration = np.random.randint(
-            low=self.downtime_min, high=self.downtime_max, size=nb_faults
+            low=self.downtime_min, high=self.downtime_max + 1, size=nb_faults
         )
         for begin, duration in zip(faults_begin, faults_duration):
             loss_qt[begin : (begin + duration)] += self.loss
-- 
2.43.0


From ecde80ea3440d4525e1a1d5262d4de9167153f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:38 +0000
Subject: [PATCH 26/38] fix: RepeatScenario keeps time index and column names
 whatever columns order

---
 hadar/workflow/pipeline.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index b4b97fc..8183214 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -548,12 +548,12 @@ class RepeatScenario(Stage):
         self.n = n
 
     def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:
-        data = np.tile(timeline.values, self.n)
-
-        n_scn = Stage.get_scenarios(timeline).size
-        names = Stage.get_names(timeline)
-        index = Stage.build_multi_index(
-            scenarios=np.arange(0, n_scn * self.n), names=names
+        scenarios = Stage.get_scenarios(timeline)
+        return pd.concat(
+            {
+                i * scenarios.size + j: timeline[scn]
+                for i in range(self.n)
+                for j, scn in enumerate(scenarios)
+            },
+            axis=1,
         )
-
-        return pd.DataFrame(data=data, columns=index)
-- 
2.43.0


From 168949226362f3357143f500a8ff7b8c95a5162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:21 +0000
Subject: [PATCH 27/38] fix: sample each timeline independently in shuffler
 (all had the same sampling)

---
 hadar/workflow/shuffler.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 76ee6f8..4cf57f0 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -8,13 +8,19 @@ import multiprocessing
 
 import numpy as np
 import pandas as pd
-from numpy.random import randint
 
 from hadar.workflow.pipeline import Pipeline, TO_SHUFFLER, Stage
 
 __all__ = ["Shuffler", "Timeline"]
 
 
+def randint(low: int, high: int, size: int) -> np.ndarray:
+    """
+    Default sampler. Unlike np.random.randint, it doesn't carry a copy of random state when it's sent to a process.
+    """
+    return np.random.randint(low, high, size)
+
+
 class Timeline:
     """
     Manage data used to generate timeline. Perform sampling too.
@@ -87,10 +93,12 @@ def compute(params):
     """
     Wrapper method to call Timeline.sample used by multiprocessing.Pool.
 
-    :param params: (timeline, number of scenarios, timeline name)
+    :param params: (timeline, number of scenarios, timeline name, random seed)
     :return: (name, sampling)
     """
-    tl, nb, name = params
+    tl, nb, name, seed = params
+    # Processes start with the same random state, without its own seed each timeline has the same sampling
+    np.random.seed(seed)
     return name, tl.sample(nb)
 
 
@@ -144,7 +152,12 @@ class Shuffler:
         """
         # Compute pipelines
         pool = multiprocessing.Pool()
+        seeds = np.random.randint(0, 2 ** 32, size=len(self.timelines), dtype=np.uint32)
         res = pool.map(
-            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
+            compute,
+            (
+                (tl, nb_scn, name, seed)
+                for (name, tl), seed in zip(self.timelines.items(), seeds)
+            ),
         )
         return dict(res)
-- 
2.43.0


From 3fa4ab806380c1269737ecdb630af47819577e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 28/38] fix: array without dimension is rejected by ValueError
 like other wrong shapes (IndexError before)

---
 hadar/optimizer/domain/numeric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 0228d37..54081eb 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -207,8 +207,8 @@ class NumericalValueFactory:
                 )
 
             # If any size pattern matches, raise error on quantity size given
-            horizon_given = value.shape[0] if len(value.shape) == 1 else value.shape[1]
-            sc_given = 1 if len(value.shape) == 1 else value.shape[0]
+            horizon_given = value.shape[min(1, value.ndim - 1)] if value.ndim else 1
+            sc_given = value.shape[0] if value.ndim > 1 else 1
             raise ValueError(
                 "Array must be: a number, an array like (horizon, ) or (nb_scn, 1) or (nb_scn, horizon). "
                 "In your case horizon specified is %d and actual is %d. "
-- 
2.43.0


From e5def544e955418f2aefd24a9ea9e1894126f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:34 +0000
Subject: [PATCH 29/38] fix: end worker processes when a solve or a shuffle
 ends, failed or not (were left to garbage collector)

---
 hadar/optimizer/lp/optimizer.py |  8 ++++----
 hadar/workflow/shuffler.py      | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 8dc2de8..c3827be 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -460,10 +460,10 @@ def solve_lp(study: Study, out_mapper=None) -> Result:
 
     out_mapper = out_mapper or OutputMapper(study)
 
-    pool = multiprocessing.Pool()
-    serialized_out = pool.map(
-        _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
-    )
+    with multiprocessing.Pool() as pool:
+        serialized_out = pool.map(
+            _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
+        )
 
     compute_finished = time.time()
     for scn in range(0, study.nb_scn):
diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 4cf57f0..e1f7fe1 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -151,13 +151,13 @@ class Shuffler:
         :return:
         """
         # Compute pipelines
-        pool = multiprocessing.Pool()
         seeds = np.random.randint(0, 2 ** 32, size=len(self.timelines), dtype=np.uint32)
-        res = pool.map(
-            compute,
-            (
-                (tl, nb_scn, name, seed)
-                for (name, tl), seed in zip(self.timelines.items(), seeds)
-            ),
-        )
+        with multiprocessing.Pool() as pool:
+            res = pool.map(
+                compute,
+                (
+                    (tl, nb_scn, name, seed)
+                    for (name, tl), seed in zip(self.timelines.items(), seeds)
+                ),
+            )
         return dict(res)
-- 
2.43.0


From f954c30007ffeb8696de844e422b3d12753befb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:09 +0000
Subject: [PATCH 30/38] fix: storage with initial level given as numpy number
 can be solved (TypeError of solver before)

---
 hadar/optimizer/lp/domain.py    | 4 ++--
 hadar/optimizer/lp/optimizer.py | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/hadar/optimizer/lp/domain.py b/hadar/optimizer/lp/domain.py
index b82e168..8371f69 100644
--- a/hadar/optimizer/lp/domain.py
+++ b/hadar/optimizer/lp/domain.py
@@ -26,9 +26,9 @@ class JSONLP(JSON, ABC):
                     "::".join(k) if isinstance(k, tuple) else k: copy(v)
                     for k, v in v.items()
                 }
-            elif isinstance(v, np.int64):
+            elif isinstance(v, np.integer):
                 return int(v)
-            elif isinstance(v, np.float64):
+            elif isinstance(v, np.floating):
                 return float(v)
             else:
                 return v
diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index c3827be..1a98f9a 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -302,7 +302,9 @@ class StorageBuilder:
         for stor in node.storages:
             self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity
             if t == 0:
-                const = self.solver.Constraint(stor.init_capacity, stor.init_capacity)
+                # solver doesn't take numpy numbers
+                level = float(stor.init_capacity)
+                const = self.solver.Constraint(level, level)
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
                 const.SetCoefficient(stor.var_flow_out, 1)
                 const.SetCoefficient(stor.var_capacity, 1)
-- 
2.43.0


From 8ad16353716f8fe769d6a9ea5c0449ae51af4203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:23 +0000
Subject: [PATCH 31/38] fix: numpy numbers of any size are written to JSON
 (only int64 and float64 were)

---
 hadar/optimizer/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index f817476..8577a26 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -63,9 +63,9 @@ class JSON(DTO, ABC):
             return {k: JSON.convert(v) for k, v in value.items()}
         elif isinstance(value, list) or isinstance(value, tuple):
             return [JSON.convert(v) for v in value]
-        elif isinstance(value, np.int64):
+        elif isinstance(value, np.integer):
             return int(value)
-        elif isinstance(value, np.float64):
+        elif isinstance(value, np.floating):
             return float(value)
         elif isinstance(value, np.ndarray):
             return value.tolist()
-- 
2.43.0


From 1017f50286db5c8e9af0aff6f71d6dd4749b9833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:24 +0000
Subject: [PATCH 32/38] fix: names of converter sources may contain '::' (solve
 raised KeyError, study was not read back from JSON)

---
 hadar/optimizer/domain/input.py  |  4 ++--
 hadar/optimizer/domain/output.py |  6 ++++--
 hadar/optimizer/lp/domain.py     |  6 +++---
 hadar/optimizer/utils.py         | 20 ++++++++++++++++++++
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 0b73996..db5820b 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -193,7 +193,7 @@ class Converter(JSON):
         # Therefore when serialized we join these two strings with '::' to create on string as key
         # Ex: ('elec', 'a') --> 'elec::a'
         dict["src_ratios"] = {
-            "::".join(k): v.to_json() for k, v in self.src_ratios.items()
+            JSON.join_key(k): v.to_json() for k, v in self.src_ratios.items()
         }
         return {k: JSON.convert(v) for k, v in dict.items()}
 
@@ -205,7 +205,7 @@ class Converter(JSON):
         dict["cost"] = factory.create(dict["cost"])
         dict["max"] = factory.create(dict["max"])
         dict["src_ratios"] = {
-            tuple(k.split("::")): factory.create(v)
+            JSON.split_key(k): factory.create(v)
             for k, v in dict["src_ratios"].items()
         }
         return Converter(**dict)
diff --git a/hadar/optimizer/domain/output.py b/hadar/optimizer/domain/output.py
index 1c6b937..a16203a 100644
--- a/hadar/optimizer/domain/output.py
+++ b/hadar/optimizer/domain/output.py
@@ -140,7 +140,9 @@ class OutputConverter(JSON):
         # flow_src has a tuple of two string as key. These forbidden by JSON.
         # Therefore when serialized we join these two strings with '::' to create on string as key
         # Ex: ('elec', 'a') --> 'elec::a'
-        dict["flow_src"] = {"::".join(k): v.tolist() for k, v in self.flow_src.items()}
+        dict["flow_src"] = {
+            JSON.join_key(k): v.tolist() for k, v in self.flow_src.items()
+        }
         dict["flow_dest"] = self.flow_dest.tolist()
         return dict
 
@@ -150,7 +152,7 @@ class OutputConverter(JSON):
         # JSON doesn't accept tuple as key, so two string was joined for serialization
         # Ex: 'elec::a' -> ('elec', 'a')
         dict["flow_src"] = {
-            tuple(k.split("::")): v for k, v in dict["flow_src"].items()
+            JSON.split_key(k): v for k, v in dict["flow_src"].items()
         }
         return OutputConverter(**dict)
 
diff --git a/hadar/optimizer/lp/domain.py b/hadar/optimizer/lp/domain.py
index 8371f69..f5c25c6 100644
--- a/hadar/optimizer/lp/domain.py
+++ b/hadar/optimizer/lp/domain.py
@@ -23,7 +23,7 @@ class JSONLP(JSON, ABC):
             elif isinstance(v, dict):
                 # Json can't serialize tuple key, therefore join items with ::
                 return {
-                    "::".join(k) if isinstance(k, tuple) else k: copy(v)
+                    JSON.join_key(k) if isinstance(k, tuple) else k: copy(v)
                     for k, v in v.items()
                 }
             elif isinstance(v, np.integer):
@@ -223,10 +223,10 @@ class LPConverter(JSONLP):
     def from_json(dict, factory=None):
         # Json can't serialize tuple as key. tuple is concatained before serialized, we need to extract it now
         dict["src_ratios"] = {
-            tuple(k.split("::")): v for k, v in dict["src_ratios"].items()
+            JSON.split_key(k): v for k, v in dict["src_ratios"].items()
         }
         dict["var_flow_src"] = {
-            tuple(k.split("::")): v for k, v in dict["var_flow_src"].items()
+            JSON.split_key(k): v for k, v in dict["var_flow_src"].items()
         }
         return LPConverter(**dict)
 
diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index 8577a26..30674df 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -55,6 +55,26 @@ class JSON(DTO, ABC):
     Object to be serializer by json
     """
 
+    @staticmethod
+    def join_key(key: tuple) -> str:
+        """
+        JSON can't serialize tuple as key, therefore join items with '::'.
+        Items are escaped only if they can't be read back, because they contain separator.
+        """
+        text = "::".join(key)
+        if JSON.split_key(text) == key:
+            return text
+        return "::".join(k.replace("%", "%25").replace(":", "%3A") for k in key)
+
+    @staticmethod
+    def split_key(text: str) -> tuple:
+        """
+        Retrieve tuple joined by join_key.
+        """
+        return tuple(
+            k.replace("%3A", ":").replace("%25", "%") for k in text.split("::")
+        )
+
     @staticmethod
     def convert(value):
         if isinstance(value, JSON):
-- 
2.43.0


From 1cc9af9f75d860a610069474895d71d8b5458b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:11 +0000
Subject: [PATCH 33/38] fix: columns named '' or 0 beside the shuffled one are
 not taken as scenarios

---
 hadar/workflow/shuffler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index e1f7fe1..cd4e3b5 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -84,7 +84,7 @@ class TimelinePipeline(Timeline):
         """
         res = self.pipeline(self.df)
         drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)
-        if drop_columns.any():
+        if drop_columns.size > 0:
             res = res.drop(drop_columns, axis=1, level=1)
         return res.values.T
 
-- 
2.43.0


From 79f7762b730aa3855ae0bc700628d26cd5131f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:11 +0000
Subject: [PATCH 34/38] fix: network or node with empty name can be analysed
 (KeyError before)

---
 hadar/analyzer/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index bdff7e9..5134658 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -572,13 +572,13 @@ class ResultAnalyzer:
             return size
 
         # Compute cost over network
-        if network and node is None:
+        if network is not None and node is None:
             for node in self.study.networks[network].nodes.keys():
                 size += self.get_elements_inside(network=network, node=node)
             return size
 
         # If node is provided but no network set network as 'default'
-        if node and network is None:
+        if node is not None and network is None:
             network = "default"
 
         n = self.study.networks[network].nodes[node]
@@ -634,7 +634,7 @@ class ResultAnalyzer:
         """
         cost = np.zeros((self.nb_scn, self.horizon))
         c, p, s, l, _, v = self.get_elements_inside(node, network)
-        network = "default" if node and network is None else network
+        network = "default" if node is not None and network is None else network
         if c:
             cons = self.network(network).node(node).scn().time().consumption()
             cost += (
-- 
2.43.0


From 13365644f78d15f5c81428095e94563ef4f87b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:11 +0000
Subject: [PATCH 35/38] fix: converter without destination yet is read back
 equal from JSON, destination on empty name is set once

---
 hadar/optimizer/domain/input.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index db5820b..4d68735 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -419,7 +419,12 @@ class Study(JSON):
     def _add_converter(self, name: str):
         if name not in [v for v in self.converters]:
             self.converters[name] = Converter(
-                name=name, src_ratios={}, dest_network="", dest_node="", cost=0, max=0
+                name=name,
+                src_ratios={},
+                dest_network=None,
+                dest_node=None,
+                cost=self.factory.create(0),
+                max=self.factory.create(0),
             )
 
     def _add_converter_src(
@@ -451,7 +456,7 @@ class Study(JSON):
         cost = self.factory.create(cost)
         max = self.factory.create(max)
         self._add_converter(name=name)
-        if self.converters[name].dest_network and self.converters[name].dest_node:
+        if self.converters[name].dest_network is not None:
             raise ValueError("converter has already output set")
 
         self.converters[name].dest_network = network
-- 
2.43.0


From 14c8cc39b55b7a9be4a06f3fb2aa87dc366c0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:33 +0000
Subject: [PATCH 36/38] fix: solve and shuffle raise when a worker process dies
 or its error can't be sent back, instead of waiting forever

---
 hadar/optimizer/lp/optimizer.py | 14 ++++++++++----
 hadar/workflow/shuffler.py      |  7 ++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 1a98f9a..32a0a48 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -6,8 +6,9 @@
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
 import cProfile
 import logging
-import multiprocessing
+import os
 import time
+from concurrent.futures import ProcessPoolExecutor
 from typing import List
 
 import msgpack
@@ -462,9 +463,14 @@ def solve_lp(study: Study, out_mapper=None) -> Result:
 
     out_mapper = out_mapper or OutputMapper(study)
 
-    with multiprocessing.Pool() as pool:
-        serialized_out = pool.map(
-            _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
+    # Unlike multiprocessing.Pool, executor doesn't wait forever for a dead process
+    with ProcessPoolExecutor() as pool:
+        serialized_out = list(
+            pool.map(
+                _solve_batch,
+                ((study, i_scn) for i_scn in range(study.nb_scn)),
+                chunksize=1 + study.nb_scn // (4 * (os.cpu_count() or 1)),
+            )
         )
 
     compute_finished = time.time()
diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index cd4e3b5..8fe4cac 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -4,7 +4,7 @@
 #  If a copy of the Apache License, version 2.0 was not distributed with this file, you can obtain one at http://www.apache.org/licenses/LICENSE-2.0.
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
-import multiprocessing
+from concurrent.futures import ProcessPoolExecutor
 
 import numpy as np
 import pandas as pd
@@ -152,7 +152,8 @@ class Shuffler:
         """
         # Compute pipelines
         seeds = np.random.randint(0, 2 ** 32, size=len(self.timelines), dtype=np.uint32)
-        with multiprocessing.Pool() as pool:
+        # Unlike multiprocessing.Pool, executor doesn't wait forever for a dead process
+        with ProcessPoolExecutor() as pool:
             res = pool.map(
                 compute,
                 (
@@ -160,4 +161,4 @@ class Shuffler:
                     for (name, tl), seed in zip(self.timelines.items(), seeds)
                 ),
             )
-        return dict(res)
+            return dict(res)
-- 
2.43.0


From 7fb23a1164ed0f1a9ea9a584b1907c4f952c23ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:15 +0000
Subject: [PATCH 37/38] fix: add_pipeline returns the shuffler as documented,
 like add_data

---
 hadar/workflow/shuffler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 8fe4cac..99ad370 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -142,6 +142,7 @@ class Shuffler:
         pipeline.assert_to_shuffler()
 
         self.timelines[name] = TimelinePipeline(data, pipeline, sampler=self.sampler)
+        return self
 
     def shuffle(self, nb_scn):
         """
-- 
2.43.0


From 1fed35df8a47648d66cbf78c29dfe9c938d080f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:56 +0000
Subject: [PATCH 38/38] fix: shuffles in several threads don't wait forever for
 a process started with the random generator locked

---
 hadar/workflow/shuffler.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 99ad370..d34578c 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -4,6 +4,7 @@
 #  If a copy of the Apache License, version 2.0 was not distributed with this file, you can obtain one at http://www.apache.org/licenses/LICENSE-2.0.
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
+import threading
 from concurrent.futures import ProcessPoolExecutor
 
 import numpy as np
@@ -13,6 +14,10 @@ from hadar.workflow.pipeline import Pipeline, TO_SHUFFLER, Stage
 
 __all__ = ["Shuffler", "Timeline"]
 
+# A process started while another thread is drawing keeps the numpy random generator locked forever.
+# Reentrant, so that the process started can shuffle too.
+_starting = threading.RLock()
+
 
 def randint(low: int, high: int, size: int) -> np.ndarray:
     """
@@ -152,14 +157,17 @@ class Shuffler:
         :return:
         """
         # Compute pipelines
-        seeds = np.random.randint(0, 2 ** 32, size=len(self.timelines), dtype=np.uint32)
         # Unlike multiprocessing.Pool, executor doesn't wait forever for a dead process
         with ProcessPoolExecutor() as pool:
-            res = pool.map(
-                compute,
-                (
-                    (tl, nb_scn, name, seed)
-                    for (name, tl), seed in zip(self.timelines.items(), seeds)
-                ),
-            )
+            with _starting:
+                seeds = np.random.randint(
+                    0, 2 ** 32, size=len(self.timelines), dtype=np.uint32
+                )
+                res = pool.map(
+                    compute,
+                    (
+                        (tl, nb_scn, name, seed)
+                        for (name, tl), seed in zip(self.timelines.items(), seeds)
+                    ),
+                )
             return dict(res)
-- 
2.43.0

