From 4796df1682e4815626bd4aa8dfd92a5efcec4a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:39 +0000
Subject: [PATCH 01/27] fix: propagate evidence in every component of a
 disconnected network

Propagation started from one clique only, so cliques of the other components never
exchanged messages and their nodes had wrong posteriors.
---
 pybbn/pptc/propagator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybbn/pptc/propagator.py b/pybbn/pptc/propagator.py
index 773b188..1cdf874 100644
--- a/pybbn/pptc/propagator.py
+++ b/pybbn/pptc/propagator.py
@@ -18,13 +18,17 @@ class Propagator(object):
         cliques = join_tree.get_cliques()
         cliques = sorted(cliques, key=lambda c: c.id)
         # cliques = sorted(cliques, key=lambda c: c.get_sid())
-        x = cliques[0]
 
+        # a disconnected BBN induces a forest: propagate once in every tree of it
         join_tree.unmark_cliques()
-        Propagator.collect_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                Propagator.collect_evidence(join_tree, x)
 
         join_tree.unmark_cliques()
-        Propagator.distribute_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                Propagator.distribute_evidence(join_tree, x)
 
         return join_tree
 
-- 
2.43.0


From dfa738ce71cc4e64ae3924a0ee4d39885e0d8c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:39 +0000
Subject: [PATCH 02/27] fix: keep isolated cliques when deserializing a join
 tree

A clique without a separation set was dropped when any other clique had one, so the
nodes in it were missing from the deserialized join tree.
---
 pybbn/graph/jointree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index a67e2f9..c6b4307 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -492,11 +492,10 @@ class JoinTree(Ug):
         edges = [JtEdge(sepsets[e]) for e in d["jt"]["edges"]]
 
         jt = JoinTree()
-        if len(edges) > 0:
-            for e in edges:
-                jt.add_edge(e)
-        else:
-            jt.nodes = cliques
+        for c in cliques.values():
+            jt.add_node(c)
+        for e in edges:
+            jt.add_edge(e)
 
         jt.parent_info = {int(k): v for k, v in d["jt"]["parent_info"].items()}
         return jt
-- 
2.43.0


From 13a56f84d5735afe55f162d7368d6e8f0b080845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 03/27] fix: do not mistake virtual evidence for an observation

Virtual evidence with one likelihood of 1.0, e.g. {on: 1.0, off: 0.5}, counted as an
observation of that value. A later observation of the same value was then taken for no
change (update_evidences) or for a repeat to be undone (set_observation).
---
 pybbn/graph/jointree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index c6b4307..a887249 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -399,7 +399,7 @@ class JoinTree(Ug):
             if 1.0 == likelihood:
                 cvalues.append(v)
 
-        if 1 == len(pvalues):
+        if Evidence.__is_observed__(Evidence.__convert__(potentials)):
             last_value = pvalues[0]
             curr_value = cvalues[0]
             if last_value == curr_value:
@@ -795,7 +795,7 @@ class Evidence(object):
         for k, v in values.items():
             if 1.0 == v:
                 one += 1
-            else:
+            elif 0.0 == v:
                 zero += 1
 
         return 1 == one and len(values) - 1 == zero
-- 
2.43.0


From 2c728a1cd187c79d412108817089cf05c5986706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:10 +0000
Subject: [PATCH 04/27] fix: make evidence updates all or nothing

---
 pybbn/graph/jointree.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index a887249..6a8abe3 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -368,14 +368,29 @@ class JoinTree(Ug):
         for evidence in evidences:
             evidence.validate()
         change = self.get_change_type(evidences)
-        for evidence in evidences:
-            node = evidence.node
-            potentials = self.evidences[node.id]
 
-            for k, v in evidence.values.items():
-                potential = potentials[k]
-                potential.entries[0].value = v
-        self.__notify_listener__(change)
+        old_potentials = dict(self.potentials)
+        old_values = [
+            (potential.entries[0], potential.entries[0].value)
+            for evidence in evidences
+            for potential in self.evidences[evidence.node.id].values()
+        ]
+        try:
+            for evidence in evidences:
+                node = evidence.node
+                potentials = self.evidences[node.id]
+
+                for k, v in evidence.values.items():
+                    potential = potentials[k]
+                    potential.entries[0].value = v
+            self.__notify_listener__(change)
+        except BaseException:
+            # all or nothing: a failed or interrupted update must not leave the
+            # evidence and the potentials out of step with each other
+            self.potentials = old_potentials
+            for entry, value in old_values:
+                entry.value = value
+            raise
         return self
 
     def set_observation(self, evidence):
-- 
2.43.0


From 4baf0c14462281ae0958a94723f11a8c9333de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 05/27] fix: do not reuse a parent clique of another join tree

---
 pybbn/graph/jointree.py   |  3 +++
 pybbn/pptc/initializer.py | 11 ++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 6a8abe3..daa21c0 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -75,6 +75,9 @@ class JoinTree(Ug):
         :return: Potential.
         """
         clique = node.metadata["parent.clique"]
+        if clique.id not in self.potentials:
+            # the node was last initialized for another join tree
+            clique = next(c for c in self.get_cliques() if c.contains(node.id))
         potential = PotentialUtil.normalize(
             PotentialUtil.marginalize_for(self, clique, [node])
         )
diff --git a/pybbn/pptc/initializer.py b/pybbn/pptc/initializer.py
index b21c1f0..84e7ed7 100644
--- a/pybbn/pptc/initializer.py
+++ b/pybbn/pptc/initializer.py
@@ -38,7 +38,7 @@ class Initializer(object):
 
         for node in nodes:
             for value in node.variable.values:
-                clique = node.metadata["parent.clique"]
+                clique = Initializer.get_clique(node, join_tree)
                 clique_potential = join_tree.potentials[clique.id]
                 node_potential = join_tree.get_evidence(node, value)
                 PotentialUtil.multiply(clique_potential, node_potential)
@@ -55,13 +55,14 @@ class Initializer(object):
         :param join_tree: Join tree.
         :return: Parent clique.
         """
-        if "parent.clique" not in node.metadata:
+        clique = node.metadata.get("parent.clique")
+        # a clique remembered from another join tree (e.g. one built before the
+        # network was changed) says nothing about this one
+        if clique is None or join_tree.nodes.get(clique.id) is not clique:
             cliques = sorted(
                 join_tree.find_cliques_with_node_and_parents(node.id),
                 key=lambda x: x.id,
             )
             clique = cliques[0]
             node.add_metadata("parent.clique", clique)
-            return clique
-        else:
-            return node.metadata["parent.clique"]
+        return clique
-- 
2.43.0


From f0a90b855cfda4d56e54ae457b698d4ae1d1ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:28 +0000
Subject: [PATCH 06/27] fix: reject samples that contradict evidence on the
 last sampled node

---
 pybbn/sampling/sampling.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 7793a81..9a0d75a 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -145,7 +145,7 @@ class LogicSampler(object):
         np.random.seed(seed)
         n = len(self.nodes)
         samples = []
-        while True:
+        while len(samples) < n_samples:
             sample = copy.deepcopy(evidence)
 
             probs = np.random.uniform(0.0, 1.0, size=n)
@@ -156,11 +156,7 @@ class LogicSampler(object):
                 if node_id in evidence and val != evidence[node_id]:
                     break
                 sample[node_id] = val
-
-            if len(sample) == n:
+            else:
                 samples.append(sample)
 
-            if len(samples) == n_samples:
-                break
-
         return samples
-- 
2.43.0


From 2c47e999658d3fe15fbbcb85ae6c4ffb3456646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 07/27] fix: sort the nodes topologically before sampling

---
 pybbn/sampling/sampling.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 9a0d75a..60eb391 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -1,7 +1,6 @@
 import bisect
 import copy
 import itertools
-from functools import cmp_to_key
 
 import numpy as np
 
@@ -123,13 +122,16 @@ class LogicSampler(object):
             SortableNode(node.id, set(self.bbn.get_parents_ordered(node.id)))
             for node in self.bbn.get_nodes()
         ]
-        id_sorter = lambda x, y: -1 if x < y else 1 if x > y else 0
-        pa_sorter = lambda x, y: (
-            -1
-            if x.node_id in y.parent_ids
-            else 1 if y.node_id in x.parent_ids else id_sorter(x.node_id, y.node_id)
-        )
-        nodes = sorted(nodes, key=cmp_to_key(pa_sorter))
+        # being an ancestor is not a transitive comparison of pairs, so repeatedly
+        # take the smallest id whose parents have all been placed
+        pending = sorted(nodes, key=lambda n: n.node_id)
+        placed = set()
+        nodes = []
+        while pending:
+            node = next(n for n in pending if n.parent_ids <= placed)
+            pending.remove(node)
+            placed.add(node.node_id)
+            nodes.append(node)
         nodes = [n.node_id for n in nodes]
         return nodes
 
-- 
2.43.0


From f086cd8328919ee71f82bc5ff71ba854a26957ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 08/27] fix: sample from the CPT whatever order the parents
 were added in

---
 pybbn/sampling/sampling.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 60eb391..bf33951 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -36,7 +36,7 @@ class Table(object):
         """
         self.node = node
         self.parents = sorted(parents, key=lambda n: n.id)
-        self.parent_ids = [p.id for p in parents]
+        self.parent_ids = [p.id for p in self.parents]
 
         if len(parents) == 0:
             self.probs = np.array([node.probs]).cumsum()
@@ -106,12 +106,36 @@ class LogicSampler(object):
         tables = [node for node in self.bbn.get_nodes()]
         tables = [(node, self.bbn.get_parents_ordered(node.id)) for node in tables]
         tables = [
-            (node, [self.bbn.get_node(pa_id) for pa_id in parents])
+            (
+                self.__sort_cpt__(node, parents),
+                [self.bbn.get_node(pa_id) for pa_id in parents],
+            )
             for node, parents in tables
         ]
         tables = {node.id: Table(node, parents) for node, parents in tables}
         return tables
 
+    def __sort_cpt__(self, node, parent_ids):
+        """
+        Rearranges the CPT of a node, whose rows follow the order in which the
+        parents were added to the BBN, to follow the specified order.
+
+        :param node: BBN node.
+        :param parent_ids: Sorted parent IDs.
+        :return: The node or, if the order differs, a copy having the rearranged CPT.
+        """
+        ids = self.bbn.parents[node.id] if len(parent_ids) > 1 else parent_ids
+        if ids == parent_ids:
+            return node
+
+        shape = [len(self.bbn.get_node(i).variable.values) for i in ids]
+        probs = np.array(node.probs).reshape(shape + [len(node.variable.values)])
+        probs = np.moveaxis(probs, [ids.index(i) for i in parent_ids], range(len(ids)))
+
+        node = copy.copy(node)
+        node.probs = probs.flatten()
+        return node
+
     def __topological_sort__(self):
         """
         Performs topological sort of nodes.
-- 
2.43.0


From 50ab15ab8960756dba4d64affaac5520e70fe1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 09/27] fix: sample when the probabilities add up to slightly
 less than one

---
 pybbn/sampling/sampling.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index bf33951..c57d1f6 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -39,7 +39,7 @@ class Table(object):
         self.parent_ids = [p.id for p in self.parents]
 
         if len(parents) == 0:
-            self.probs = np.array([node.probs]).cumsum()
+            self.probs = self.__cumulate__(node.probs)
         else:
             cartesian = list(
                 itertools.product(*[node.variable.values for node in self.parents])
@@ -54,9 +54,21 @@ class Table(object):
             n = len(node.variable.values)
 
             probs = [node.probs[i : i + n] for i in range(0, len(node.probs), n)]
-            probs = [np.array(p).cumsum() for p in probs]
+            probs = [self.__cumulate__(p) for p in probs]
             self.probs = {k: p for k, p in zip(keys, probs)}
 
+    @staticmethod
+    def __cumulate__(probs):
+        """
+        Gets the cumulative distribution. Rounding may leave the sum of the
+        probabilities short of 1.0, so the last value is made to be exactly 1.0.
+
+        :param probs: Probabilities.
+        :return: Cumulative distribution.
+        """
+        cdf = np.array(probs).cumsum()
+        return cdf / cdf[-1]
+
     def get_value(self, prob, sample=None):
         """
         Gets the value associated with the specified probability.
-- 
2.43.0


From a51c96d554804af2ab98ee51b6c877eb48459300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 10/27] fix: seed each sampling run by itself

---
 pybbn/sampling/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index c57d1f6..df0b83f 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -180,13 +180,13 @@ class LogicSampler(object):
         :param seed: Seed (default=37).
         :return: Samples.
         """
-        np.random.seed(seed)
+        rng = np.random.RandomState(seed)
         n = len(self.nodes)
         samples = []
         while len(samples) < n_samples:
             sample = copy.deepcopy(evidence)
 
-            probs = np.random.uniform(0.0, 1.0, size=n)
+            probs = rng.uniform(0.0, 1.0, size=n)
             for p, node_id in zip(probs, self.nodes):
                 table = self.tables[node_id]
                 val = table.get_value(p, sample=sample)
-- 
2.43.0


From c0af07c298f29f793d824c833afd61c72e3c07f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 11/27] fix: do not modify a graph by querying it

---
 pybbn/graph/dag.py   | 4 ++--
 pybbn/graph/graph.py | 2 +-
 pybbn/graph/pdag.py  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 7b12247..8b8d60c 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -54,7 +54,7 @@ class Dag(Graph):
         :param node_id: Node id.
         :return: Array of children ids.
         """
-        return [x for x in self.edge_map[node_id]]
+        return [x for x in self.edge_map.get(node_id, ())]
 
     def __shouldadd__(self, edge):
         """
@@ -89,7 +89,7 @@ class Dag(Graph):
         :param id2: Node id.
         :return: A boolean indicating if a directed edge id1 -> id2 exists.
         """
-        if id2 in self.edge_map[id1] and id1 not in self.edge_map[id2]:
+        if id2 in self.edge_map.get(id1, ()) and id1 not in self.edge_map.get(id2, ()):
             return True
         return False
 
diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 49b1d6f..70a0195 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -25,7 +25,7 @@ class Graph(object):
         :param id: Node id.
         :return: Set of neighbors of the specified node.
         """
-        return self.neighbors[id]
+        return self.neighbors.get(id, set())
 
     def get_node(self, id):
         """
diff --git a/pybbn/graph/pdag.py b/pybbn/graph/pdag.py
index c51fe21..0250d6b 100644
--- a/pybbn/graph/pdag.py
+++ b/pybbn/graph/pdag.py
@@ -66,7 +66,7 @@ class Pdag(Graph):
         :param id2: Node id.
         :return: A boolean indicating if the edge exists.
         """
-        if id2 in self.edge_map[id1] or id1 in self.edge_map[id2]:
+        if id2 in self.edge_map.get(id1, ()) or id1 in self.edge_map.get(id2, ()):
             return True
         return False
 
@@ -78,7 +78,7 @@ class Pdag(Graph):
         :param id2: Node id.
         :return: A boolean indicating if the edge exists.
         """
-        if id2 in self.edge_map[id1] and id1 not in self.edge_map[id2]:
+        if id2 in self.edge_map.get(id1, ()) and id1 not in self.edge_map.get(id2, ()):
             return True
         return False
 
-- 
2.43.0


From 57746057713ff0b5b9043771cd21fd0104ef1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 12/27] fix: weigh ACE by the joint probability of the parents

---
 pybbn/causality/ace.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pybbn/causality/ace.py b/pybbn/causality/ace.py
index 08cf8d7..29d6729 100644
--- a/pybbn/causality/ace.py
+++ b/pybbn/causality/ace.py
@@ -1,6 +1,4 @@
 import itertools
-import operator
-from functools import reduce
 
 from pybbn.graph.jointree import EvidenceBuilder
 from pybbn.pptc.inferencecontroller import InferenceController
@@ -49,11 +47,15 @@ class Ace(object):
             return posteriors[y][y_val]
 
         def get_z_prob(z):
+            # the parents of X may depend on each other: P(z1) P(z2|z1) ...
             self.jt.unobserve_all()
-            posteriors = self.jt.get_posteriors()
-            probs = [posteriors[n][v] for n, v in z]
-            probs = reduce(operator.mul, probs, 1)
-            return probs
+            prob = 1.0
+            for n, v in z:
+                prob *= self.jt.get_posteriors()[n][v]
+                if prob == 0.0:
+                    break
+                self.jt.update_evidences([get_evidence(n, v)])
+            return prob
 
         n2i = self.bbn.get_n2i()
         i2n = self.bbn.get_i2n()
-- 
2.43.0


From ae23e444113403ff5c8b139939a9165a1a28b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:55 +0000
Subject: [PATCH 13/27] fix: pick minimal adjustment sets in path order

---
 pybbn/causality/do.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pybbn/causality/do.py b/pybbn/causality/do.py
index 82d5743..d51e377 100644
--- a/pybbn/causality/do.py
+++ b/pybbn/causality/do.py
@@ -109,7 +109,7 @@ def get_paths(g: Graph, x: Any, y: Any) -> List[Dict[str, Any]]:
     def get_path_metadata(p):
         xy = {x, y}
         colliders = get_colliders(g, p)
-        confounders = list(set(p) - xy - set(colliders))
+        confounders = [n for n in p if n not in xy and n not in colliders]
 
         return {
             "x": x,
@@ -177,8 +177,7 @@ def get_minimal_confounders(g: Graph, x: Any, y: Any) -> List[Any]:
 
     confounders = [find_minimal_confounders(g, p["path"], x, y, p["z"]) for p in paths]
     confounders = itertools.chain(*confounders)
-    confounders = set(confounders)
-    return list(confounders)
+    return list(dict.fromkeys(confounders))
 
 
 def find_minimal_mediator(
@@ -186,7 +185,7 @@ def find_minimal_mediator(
 ) -> List[Any]:
     colliders = get_colliders(g, path)
     exclude = {x, y} | set(colliders)
-    candidates = set(path) - exclude
+    candidates = [n for n in path if n not in exclude]
 
     keep = []
     for _i, _c in enumerate(candidates):
@@ -210,10 +209,10 @@ def get_minimal_mediators(g: Graph, x: Any, y: Any) -> List[Any]:
         find_minimal_mediator(g, p["path"], x, y, p["z"]) for p in fontdoor_paths
     ]
     mediators = itertools.chain(*mediators)
-    mediators = set(mediators)
+    mediators = dict.fromkeys(mediators)
 
     colliders = [p["colliders"] for p in all_paths]
     colliders = itertools.chain(*colliders)
     colliders = set(colliders)
 
-    return list(mediators - colliders)
+    return [m for m in mediators if m not in colliders]
-- 
2.43.0


From e266dc7d37b1a44f9395bbaec7ebc9468c7a5b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:52 +0000
Subject: [PATCH 14/27] fix: let an interrupted addition of an edge be repeated

---
 pybbn/graph/graph.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 70a0195..9c1da99 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -74,13 +74,20 @@ class Graph(object):
         self.add_node(edge.j)
 
         if self.__shouldadd__(edge):
+            i, j = edge.i.id, edge.j.id
+
             self.edges[edge.key] = edge
-            self.edge_map[edge.i.id].add(edge.j.id)
-            if EdgeType.UNDIRECTED == edge.type:
-                self.edge_map[edge.j.id].add(edge.i.id)
+            self.neighbors[i].add(j)
+            self.neighbors[j].add(i)
 
-            self.neighbors[edge.i.id].add(edge.j.id)
-            self.neighbors[edge.j.id].add(edge.i.id)
+            # this is what tells that an edge is there already: it goes last and at
+            # once, so that a call that was interrupted can be repeated
+            if EdgeType.UNDIRECTED == edge.type:
+                self.edge_map.update(
+                    {i: self.edge_map[i] | {j}, j: self.edge_map[j] | {i}}
+                )
+            else:
+                self.edge_map[i].add(j)
 
             self.__edge_added__(edge)
 
-- 
2.43.0


From 789c403d6d83324bb13dc5eabf99b0f819355bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 15/27] fix: remove the edges of a removed node

---
 pybbn/graph/dag.py   | 13 +++++++++++++
 pybbn/graph/graph.py |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 8b8d60c..414d3e9 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -136,6 +136,19 @@ class Bbn(Dag):
         """
         return sorted(self.parents[id]) if id in self.parents else []
 
+    def remove_node(self, id):
+        """
+        Removes a node from the BBN.
+
+        :param id: Node id.
+        """
+        Dag.remove_node(self, id)
+
+        self.parents.pop(id, None)
+        for parents in self.parents.values():
+            if id in parents:
+                parents.remove(id)
+
     def __edge_added__(self, edge):
         if edge.j.id not in self.parents:
             self.parents[edge.j.id] = []
diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 9c1da99..96cc3b0 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -147,6 +147,10 @@ class Graph(object):
 
         :param id: Node id.
         """
+        for k, edge in list(self.edges.items()):
+            if id in (edge.i.id, edge.j.id):
+                self.edges.pop(k)
+
         self.nodes.pop(id, None)
         self.edge_map.pop(id, None)
         self.neighbors.pop(id, None)
-- 
2.43.0


From 0ce35c7c71274101d95c5792aa0fe4deeec42a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 16/27] fix: generate networks of a single node

---
 pybbn/generator/bbngenerator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 9632457..5b307e7 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -155,6 +155,9 @@ def __generate_multi_connected_structure__(n, max_iter=10):
     :return: Graph structure (networkx).
     """
     g = __get_simple_ordered_tree__(n)
+    if n < 2:
+        return g
+
     for it in range(max_iter):
         i, j = __get_random_node_pair__(n)
         if g.has_edge(i, j) is True:
@@ -173,6 +176,8 @@ def __generate_singly_structure__(n, max_iter=10):
     :return: Graph structure (networkx).
     """
     g = __get_simple_ordered_tree__(n)
+    if n < 2:
+        return g
 
     for it in range(max_iter):
         i, j = __get_random_node_pair__(n)
-- 
2.43.0


From 698aa1997da19ddd2b5562f6da21c9bae447d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 17/27] fix: do not share the lists of parents between a
 network and its join trees

---
 pybbn/graph/jointree.py           | 2 +-
 pybbn/pptc/inferencecontroller.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index daa21c0..9fc7ad0 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -460,7 +460,7 @@ class JoinTree(Ug):
             "jt": {
                 "nodes": jt_nodes,
                 "edges": jt_edges,
-                "parent_info": {str(k): v for k, v in bbn.parents.items()},
+                "parent_info": {str(k): list(v) for k, v in bbn.parents.items()},
             },
         }
 
diff --git a/pybbn/pptc/inferencecontroller.py b/pybbn/pptc/inferencecontroller.py
index c32813b..49f1279 100644
--- a/pybbn/pptc/inferencecontroller.py
+++ b/pybbn/pptc/inferencecontroller.py
@@ -28,7 +28,7 @@ class InferenceController(JoinTreeListener):
         cliques = Triangulator.triangulate(ug)
         join_tree = Transformer.transform(cliques)
         join_tree.parent_info = {
-            node.id: bbn.parents[node.id]
+            node.id: list(bbn.parents[node.id])
             for node in bbn.get_nodes()
             if node.id in bbn.parents
         }
-- 
2.43.0


From 8b1cb16f21984980ee8176b3f9a8db4df063b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 18/27] fix: match the means with the observations in Gaussian
 inference

---
 pybbn/gaussian/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/gaussian/inference.py b/pybbn/gaussian/inference.py
index 4e40de0..90a8a64 100644
--- a/pybbn/gaussian/inference.py
+++ b/pybbn/gaussian/inference.py
@@ -121,7 +121,7 @@ class GaussianInference(object):
         z_index = [self.I[name] for name, _ in observations]
         y_index = [i for i in range(self.E.shape[1]) if i not in z_index]
 
-        m_Z = np.array([m for i, m in enumerate(self.M) if i in z_index])
+        m_Z = np.array([self.M[i] for i in z_index])
         m_Y = np.array([m for i, m in enumerate(self.M) if i in y_index])
 
         z = np.array([o for _, o in observations])
-- 
2.43.0


From 7c6a7fbff6b43e89d79173211dbe1cab9d87084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:36 +0000
Subject: [PATCH 19/27] fix: add the parents in the order of the CPTs learned
 from data

---
 pybbn/graph/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 0e1c453..17432d4 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -223,7 +223,8 @@ class Factory(object):
 
         for ch, parents in structure.items():
             ch_node = nodes[ch]
-            for pa in parents:
+            # the CPTs above are laid out with the parents sorted
+            for pa in sorted(parents):
                 pa_node = nodes[pa]
 
                 edge = Edge(pa_node, ch_node, EdgeType.DIRECTED)
-- 
2.43.0


From 34e08df178b7f7d3a4e4a08cf255902c28732d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 20/27] fix: let a copy of a join tree react to evidence

---
 pybbn/graph/jointree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 9fc7ad0..ec2acec 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -33,6 +33,7 @@ class JoinTree(Ug):
         potentials = deepcopy(self.potentials, memodict)
         evidences = deepcopy(self.evidences, memodict)
         parent_info = deepcopy(self.parent_info, memodict)
+        listener = deepcopy(self.listener, memodict)
 
         jt = JoinTree()
         jt.nodes = nodes
@@ -42,6 +43,7 @@ class JoinTree(Ug):
         jt.potentials = potentials
         jt.evidences = evidences
         jt.parent_info = parent_info
+        jt.listener = listener
         return jt
 
     def get_posteriors(self):
-- 
2.43.0


From 5cd8a83ecbacab85c58e9d150a229183bd3fff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 21/27] fix: serialize generated networks, which contain numpy
 integers

---
 pybbn/generator/bbngenerator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 5b307e7..36936ec 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -324,9 +324,13 @@ def to_json(g, params, pretty=False):
     """
     j = {
         "nodes": list(g.nodes),
-        "edges": [{"pa": e[0], "ch": e[1]} for e in g.edges],
+        "edges": [{"pa": int(e[0]), "ch": int(e[1])} for e in g.edges],
         "parameters": [
-            {"node": k, "params": list(v["params"].flatten()), "shape": v["shape"]}
+            {
+                "node": k,
+                "params": list(v["params"].flatten()),
+                "shape": [int(s) for s in v["shape"]],
+            }
             for k, v in params.items()
         ],
     }
-- 
2.43.0


From d05a4ba86f86734786d4c99e4bb993fce2635553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:19 +0000
Subject: [PATCH 22/27] fix: complete an edge whose addition was interrupted,
 in every kind of graph

---
 pybbn/graph/graph.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 96cc3b0..c83273e 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -73,21 +73,16 @@ class Graph(object):
         self.add_node(edge.i)
         self.add_node(edge.j)
 
-        if self.__shouldadd__(edge):
-            i, j = edge.i.id, edge.j.id
-
+        # an edge that is registered already was accepted: if the call that added it was
+        # interrupted, what is missing is completed
+        if edge.key in self.edges or self.__shouldadd__(edge):
             self.edges[edge.key] = edge
-            self.neighbors[i].add(j)
-            self.neighbors[j].add(i)
-
-            # this is what tells that an edge is there already: it goes last and at
-            # once, so that a call that was interrupted can be repeated
+            self.edge_map[edge.i.id].add(edge.j.id)
             if EdgeType.UNDIRECTED == edge.type:
-                self.edge_map.update(
-                    {i: self.edge_map[i] | {j}, j: self.edge_map[j] | {i}}
-                )
-            else:
-                self.edge_map[i].add(j)
+                self.edge_map[edge.j.id].add(edge.i.id)
+
+            self.neighbors[edge.i.id].add(edge.j.id)
+            self.neighbors[edge.j.id].add(edge.i.id)
 
             self.__edge_added__(edge)
 
-- 
2.43.0


From 12bb7a5240c80aebf1816810ee616aad50d21004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:04 +0000
Subject: [PATCH 23/27] fix: refuse edges that close a directed cycle in a Bbn

---
 pybbn/graph/dag.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 414d3e9..6731b8e 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -163,9 +163,7 @@ class Bbn(Dag):
         :param edge: Directed edge.
         :return: A boolean indicating if the directed edge should be added.
         """
-        if isinstance(edge.i, BbnNode) and isinstance(edge.j, BbnNode):
-            return True
-        return Dag.__shouldadd__(edge)
+        return Dag.__shouldadd__(self, edge)
 
     @staticmethod
     def to_csv(bbn, path):
@@ -400,15 +398,17 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        children = self.graph.get_children(i)
-        if self.stop in children:
-            return True
-
-        self.seen.add(i)
-        for child in children:
-            if child not in self.seen and self.__find__(child):
+        stack = [i]
+        while stack:
+            children = self.graph.get_children(stack.pop())
+            if self.stop in children:
                 return True
 
+            for child in children:
+                if child not in self.seen:
+                    self.seen.add(child)
+                    stack.append(child)
+
         return False
 
 
-- 
2.43.0


From 81f3d4cc93a13924f9e79f07875c144de04ad6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 24/27] fix: refuse to save names and values that CSV cannot
 hold

---
 pybbn/graph/dag.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 6731b8e..05a66f7 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -174,6 +174,12 @@ class Bbn(Dag):
         :param path: Path to file.
         :return: None.
         """
+        # the format has no quoting: what would be read back differently is not written
+        for node in bbn.get_nodes():
+            for s in map(str, [node.variable.name, *node.variable.values]):
+                if s == "" or s != s.strip() or any(c in s for c in ",|\r\n"):
+                    raise ValueError(f"cannot be saved as CSV: {s!r}")
+
         with open(path, "w") as f:
             for node in bbn.get_nodes():
                 v = node.variable
-- 
2.43.0


From ba4754fa139d263d80aecc8d96cab4833e28b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:22 +0000
Subject: [PATCH 25/27] fix: tell apart instantiations whose values contain
 commas when sampling

---
 pybbn/sampling/sampling.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index df0b83f..d7e4f5f 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -44,19 +44,26 @@ class Table(object):
             cartesian = list(
                 itertools.product(*[node.variable.values for node in self.parents])
             )
-            get_kv = lambda i, v: f"{i}={v}"
-            keys = [
-                ",".join(
-                    [get_kv(node.id, val) for node, val in zip(self.parents, values)]
-                )
-                for values in cartesian
-            ]
+            keys = [self.__get_key__(self.parent_ids, values) for values in cartesian]
             n = len(node.variable.values)
 
             probs = [node.probs[i : i + n] for i in range(0, len(node.probs), n)]
             probs = [self.__cumulate__(p) for p in probs]
             self.probs = {k: p for k, p in zip(keys, probs)}
 
+    @staticmethod
+    def __get_key__(ids, values):
+        """
+        Gets the key of an instantiation. Commas in values are escaped, lest two
+        instantiations have the same key.
+
+        :param ids: IDs.
+        :param values: Values.
+        :return: Key.
+        """
+        values = [f"{v}".replace("\\", "\\\\").replace(",", "\\,") for v in values]
+        return ",".join([f"{i}={v}" for i, v in zip(ids, values)])
+
     @staticmethod
     def __cumulate__(probs):
         """
@@ -80,7 +87,7 @@ class Table(object):
         if not self.has_parents():
             index = bisect.bisect(self.probs, prob)
         else:
-            k = ",".join([f"{i}={sample[i]}" for i in self.parent_ids])
+            k = self.__get_key__(self.parent_ids, [sample[i] for i in self.parent_ids])
             probs = self.probs[k]
             index = bisect.bisect(probs, prob)
         return self.node.variable.values[index]
-- 
2.43.0


From 0938da1952c2c9485cb34ebb185f745d6698a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:10 +0000
Subject: [PATCH 26/27] fix: accept observations whose largest likelihood is
 not 1.0 when the node is observed already

---
 pybbn/graph/jointree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index ec2acec..2ddc035 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -405,6 +405,7 @@ class JoinTree(Ug):
         :param evidence: Evidence.
         :return: This join tree.
         """
+        evidence.validate()
         potentials = self.evidences[evidence.node.id]
 
         pvalues = []
@@ -419,7 +420,9 @@ class JoinTree(Ug):
             if 1.0 == likelihood:
                 cvalues.append(v)
 
-        if Evidence.__is_observed__(Evidence.__convert__(potentials)):
+        if Evidence.__is_observed__(
+            Evidence.__convert__(potentials)
+        ) and Evidence.__is_observed__(evidence.values):
             last_value = pvalues[0]
             curr_value = cvalues[0]
             if last_value == curr_value:
-- 
2.43.0


From a1f2080ddb4abe6ac0e4ba2387c58e12d75cb66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:38 +0000
Subject: [PATCH 27/27] fix: validate evidence all or nothing

---
 pybbn/graph/jointree.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 2ddc035..39a6538 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -872,37 +872,41 @@ class Evidence(object):
         * finding evidence: all likelihoods must be exactly 1.0 or 0.0.
         * observation evidence: exactly one likelihood is 1.0 and all others must be 0.0.
         """
+        # all or nothing: evidence validated halfway would mean something else
+        values = dict(self.values)
         for value in self.node.variable.values:
-            if value not in self.values:
-                self.values[value] = 0.0
+            if value not in values:
+                values[value] = 0.0
 
         if EvidenceType.VIRTUAL == self.type:
             for value in self.node.variable.values:
-                self.values[value] = Evidence.__normalize_value_between_zero_one__(
-                    self.values[value]
+                values[value] = Evidence.__normalize_value_between_zero_one__(
+                    values[value]
                 )
         elif EvidenceType.FINDING == self.type:
             for value in self.node.variable.values:
-                self.values[value] = Evidence.__normalize_value_zero_or_one__(
-                    self.values[value]
+                values[value] = Evidence.__normalize_value_zero_or_one__(
+                    values[value]
                 )
 
-            count = sum([x for x in self.values.values()])
+            count = sum([x for x in values.values()])
             if 0.0 == count:
                 for value in self.node.variable.values:
-                    self.values[value] = 1.0
+                    values[value] = 1.0
         elif EvidenceType.OBSERVATION == self.type:
             tuples = []
-            for k, v in self.values.items():
+            for k, v in values.items():
                 pair = (k, v)
                 tuples.append(pair)
             tuples = sorted(tuples, key=lambda x: (x[1]), reverse=True)
             key = tuples[0][0]
             for value in self.node.variable.values:
                 if key == value:
-                    self.values[value] = 1.0
+                    values[value] = 1.0
                 else:
-                    self.values[value] = 0.0
+                    values[value] = 0.0
         elif EvidenceType.UNOBSERVE == self.type:
             for value in self.node.variable.values:
-                self.values[value] = 1.0
+                values[value] = 1.0
+
+        self.values = values
-- 
2.43.0

