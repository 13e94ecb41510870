From b4930d170a190a951867a65cd6edf39815a4a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 01/25] fix: propagate evidence in every component of the join
 tree, not only the first clique's

---
 pybbn/pptc/propagator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybbn/pptc/propagator.py b/pybbn/pptc/propagator.py
index 773b188..27d94dc 100644
--- a/pybbn/pptc/propagator.py
+++ b/pybbn/pptc/propagator.py
@@ -18,13 +18,17 @@ class Propagator(object):
         cliques = join_tree.get_cliques()
         cliques = sorted(cliques, key=lambda c: c.id)
         # cliques = sorted(cliques, key=lambda c: c.get_sid())
-        x = cliques[0]
 
+        # the join tree is a forest; propagate from one clique of each component
         join_tree.unmark_cliques()
-        Propagator.collect_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                Propagator.collect_evidence(join_tree, x)
 
         join_tree.unmark_cliques()
-        Propagator.distribute_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                Propagator.distribute_evidence(join_tree, x)
 
         return join_tree
 
-- 
2.43.0


From a70cd3f44d15b27e2f4a4e7708b2f23df6171c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 02/25] fix: keep isolated cliques when a join tree is read
 back from a dictionary

---
 pybbn/graph/jointree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index a67e2f9..c6b4307 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -492,11 +492,10 @@ class JoinTree(Ug):
         edges = [JtEdge(sepsets[e]) for e in d["jt"]["edges"]]
 
         jt = JoinTree()
-        if len(edges) > 0:
-            for e in edges:
-                jt.add_edge(e)
-        else:
-            jt.nodes = cliques
+        for c in cliques.values():
+            jt.add_node(c)
+        for e in edges:
+            jt.add_edge(e)
 
         jt.parent_info = {int(k): v for k, v in d["jt"]["parent_info"].items()}
         return jt
-- 
2.43.0


From 4390c02930770c154fa7a21b12fa68b4267f6a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 03/25] fix: soft evidence with one likelihood of 1.0 is not an
 observation

---
 pybbn/graph/jointree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index c6b4307..189cad8 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -795,7 +795,7 @@ class Evidence(object):
         for k, v in values.items():
             if 1.0 == v:
                 one += 1
-            else:
+            elif 0.0 == v:
                 zero += 1
 
         return 1 == one and len(values) - 1 == zero
-- 
2.43.0


From 8de29d91b0114021ff20924fddbe6065d8f75831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 04/25] fix: set_observation compares the normalised evidence
 with the observation in force

---
 pybbn/graph/jointree.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 189cad8..71a928a 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -385,27 +385,17 @@ class JoinTree(Ug):
         :param evidence: Evidence.
         :return: This join tree.
         """
-        potentials = self.evidences[evidence.node.id]
-
-        pvalues = []
-        for v, potential in potentials.items():
-            entry = potential.entries[0]
-            p = entry.value
-            if 1.0 == p:
-                pvalues.append(v)
-
-        cvalues = []
-        for v, likelihood in evidence.values.items():
-            if 1.0 == likelihood:
-                cvalues.append(v)
-
-        if 1 == len(pvalues):
-            last_value = pvalues[0]
-            curr_value = cvalues[0]
-            if last_value == curr_value:
-                self.unobserve([evidence.node])
-            else:
-                self.update_evidences([evidence])
+        evidence.validate()
+        previous = Evidence.__convert__(self.evidences[evidence.node.id])
+        current = evidence.values
+
+        if (
+            Evidence.__is_observed__(previous)
+            and Evidence.__is_observed__(current)
+            and Evidence.__get_observed_value__(previous)
+            == Evidence.__get_observed_value__(current)
+        ):
+            self.unobserve([evidence.node])
         else:
             self.update_evidences([evidence])
 
-- 
2.43.0


From f2306161a49f19ca4058a1b71d5e56c30a2ced92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 05/25] fix: an evidence update with an unknown value leaves
 the join tree as it was

---
 pybbn/graph/jointree.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 71a928a..aff0b99 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -368,13 +368,14 @@ class JoinTree(Ug):
         for evidence in evidences:
             evidence.validate()
         change = self.get_change_type(evidences)
-        for evidence in evidences:
-            node = evidence.node
-            potentials = self.evidences[node.id]
-
-            for k, v in evidence.values.items():
-                potential = potentials[k]
-                potential.entries[0].value = v
+        # look up everything first, so that an unknown value changes nothing
+        updates = [
+            (self.evidences[evidence.node.id][k], v)
+            for evidence in evidences
+            for k, v in evidence.values.items()
+        ]
+        for potential, v in updates:
+            potential.entries[0].value = v
         self.__notify_listener__(change)
         return self
 
-- 
2.43.0


From 698e782fbc6ed3e539760f58d2a0b942172d8e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 06/25] fix: a BBN refuses cycles, self-loops and undirected
 edges as a DAG does

---
 pybbn/graph/dag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 7b12247..6beb27a 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -151,8 +151,8 @@ class Bbn(Dag):
         :return: A boolean indicating if the directed edge should be added.
         """
         if isinstance(edge.i, BbnNode) and isinstance(edge.j, BbnNode):
-            return True
-        return Dag.__shouldadd__(edge)
+            return Dag.__shouldadd__(self, edge)
+        return False
 
     @staticmethod
     def to_csv(bbn, path):
-- 
2.43.0


From c8e72bb2a800b71bf4e93d4ea6396b0370a18b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 07/25] fix: removing a node also removes the edges and parent
 entries that refer to it

---
 pybbn/graph/dag.py   | 15 +++++++++++++++
 pybbn/graph/graph.py |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 6beb27a..0472b05 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -127,6 +127,21 @@ class Bbn(Dag):
         Dag.__init__(self)
         self.parents = {}
 
+    def remove_node(self, id):
+        """
+        Removes a node from the graph.
+
+        :param id: Node id.
+        """
+        Dag.remove_node(self, id)
+
+        self.parents.pop(id, None)
+        for ch in list(self.parents):
+            if id in self.parents[ch]:
+                self.parents[ch].remove(id)
+            if len(self.parents[ch]) == 0:
+                self.parents.pop(ch)
+
     def get_parents_ordered(self, id):
         """
         Gets the IDs of the specified node ordered.
diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 49b1d6f..9377a13 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -144,6 +144,12 @@ class Graph(object):
         self.edge_map.pop(id, None)
         self.neighbors.pop(id, None)
 
+        self.edges = {
+            k: edge
+            for k, edge in self.edges.items()
+            if id != edge.i.id and id != edge.j.id
+        }
+
         for k, v in self.edge_map.items():
             if id in v:
                 v.remove(id)
-- 
2.43.0


From 52540cb6b4c6faadf9c79d9cb4c31b085137f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 08/25] fix: assign nodes to cliques of the join tree at hand,
 not of one compiled earlier

---
 pybbn/pptc/initializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybbn/pptc/initializer.py b/pybbn/pptc/initializer.py
index b21c1f0..d3edbde 100644
--- a/pybbn/pptc/initializer.py
+++ b/pybbn/pptc/initializer.py
@@ -55,7 +55,8 @@ class Initializer(object):
         :param join_tree: Join tree.
         :return: Parent clique.
         """
-        if "parent.clique" not in node.metadata:
+        clique = node.metadata.get("parent.clique")
+        if clique is None or join_tree.nodes.get(clique.id) is not clique:
             cliques = sorted(
                 join_tree.find_cliques_with_node_and_parents(node.id),
                 key=lambda x: x.id,
@@ -64,4 +65,4 @@ class Initializer(object):
             node.add_metadata("parent.clique", clique)
             return clique
         else:
-            return node.metadata["parent.clique"]
+            return clique
-- 
2.43.0


From 2c7fece574a66fc0c5752ec6809a4ab22896451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 09/25] fix: a deep copy of a join tree keeps its listener, so
 that its evidence is propagated

---
 pybbn/graph/jointree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index aff0b99..51cce92 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -42,6 +42,7 @@ class JoinTree(Ug):
         jt.potentials = potentials
         jt.evidences = evidences
         jt.parent_info = parent_info
+        jt.listener = self.listener
         return jt
 
     def get_posteriors(self):
-- 
2.43.0


From aec825a14e1870aedddcb3e8e2bcc0fa9b523733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 10/25] fix: the sampler orders nodes after all of their
 parents for any ids

---
 pybbn/sampling/sampling.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 7793a81..196be2c 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -1,7 +1,6 @@
 import bisect
 import copy
 import itertools
-from functools import cmp_to_key
 
 import numpy as np
 
@@ -123,15 +122,16 @@ class LogicSampler(object):
             SortableNode(node.id, set(self.bbn.get_parents_ordered(node.id)))
             for node in self.bbn.get_nodes()
         ]
-        id_sorter = lambda x, y: -1 if x < y else 1 if x > y else 0
-        pa_sorter = lambda x, y: (
-            -1
-            if x.node_id in y.parent_ids
-            else 1 if y.node_id in x.parent_ids else id_sorter(x.node_id, y.node_id)
-        )
-        nodes = sorted(nodes, key=cmp_to_key(pa_sorter))
-        nodes = [n.node_id for n in nodes]
-        return nodes
+        # repeatedly take the node with the smallest id whose parents are all taken
+        nodes = sorted(nodes, key=lambda n: n.node_id)
+        taken = []
+        seen = set()
+        while len(nodes) > 0:
+            node = next(n for n in nodes if n.parent_ids <= seen)
+            nodes.remove(node)
+            taken.append(node.node_id)
+            seen.add(node.node_id)
+        return taken
 
     def get_samples(self, evidence={}, n_samples=100, seed=37):
         """
-- 
2.43.0


From d666fdb986733efdf6dbd8889f889490c46009bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 11/25] fix: the sampler rejects every sample that disagrees
 with the evidence

---
 pybbn/sampling/sampling.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 196be2c..e89f88a 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -145,7 +145,7 @@ class LogicSampler(object):
         np.random.seed(seed)
         n = len(self.nodes)
         samples = []
-        while True:
+        while len(samples) < n_samples:
             sample = copy.deepcopy(evidence)
 
             probs = np.random.uniform(0.0, 1.0, size=n)
@@ -156,11 +156,7 @@ class LogicSampler(object):
                 if node_id in evidence and val != evidence[node_id]:
                     break
                 sample[node_id] = val
-
-            if len(sample) == n:
+            else:
                 samples.append(sample)
 
-            if len(samples) == n_samples:
-                break
-
         return samples
-- 
2.43.0


From bc0c056f3949480845f4298ab8e96ebaf296a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 12/25] fix: the sampler reads CPT rows in the network's parent
 order

---
 pybbn/sampling/sampling.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index e89f88a..130d06c 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -27,16 +27,20 @@ class Table(object):
     of node values.
     """
 
-    def __init__(self, node, parents=[]):
+    def __init__(self, node, parents=[], sort_parents=True):
         """
         Ctor.
 
         :param node: BBN node.
         :param parents: List of parent BBN nodes.
+        :param sort_parents: Whether the rows of the node's CPT follow the parents sorted by id (default) or
+            the parents as listed.
         """
         self.node = node
-        self.parents = sorted(parents, key=lambda n: n.id)
-        self.parent_ids = [p.id for p in parents]
+        self.parents = (
+            sorted(parents, key=lambda n: n.id) if sort_parents else list(parents)
+        )
+        self.parent_ids = [p.id for p in self.parents]
 
         if len(parents) == 0:
             self.probs = np.array([node.probs]).cumsum()
@@ -104,12 +108,15 @@ class LogicSampler(object):
         :return: Dictionary of node ID to Table.
         """
         tables = [node for node in self.bbn.get_nodes()]
-        tables = [(node, self.bbn.get_parents_ordered(node.id)) for node in tables]
+        tables = [(node, self.bbn.parents.get(node.id, [])) for node in tables]
         tables = [
             (node, [self.bbn.get_node(pa_id) for pa_id in parents])
             for node, parents in tables
         ]
-        tables = {node.id: Table(node, parents) for node, parents in tables}
+        tables = {
+            node.id: Table(node, parents, sort_parents=False)
+            for node, parents in tables
+        }
         return tables
 
     def __topological_sort__(self):
-- 
2.43.0


From eec50ecc3ee23645b4f5c27e2e47be406bb7e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 13/25] fix: from_data adds edges in the parent order its CPTs
 are computed in

---
 pybbn/graph/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 0e1c453..51f38c1 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -223,7 +223,7 @@ class Factory(object):
 
         for ch, parents in structure.items():
             ch_node = nodes[ch]
-            for pa in parents:
+            for pa in sorted(parents):
                 pa_node = nodes[pa]
 
                 edge = Edge(pa_node, ch_node, EdgeType.DIRECTED)
-- 
2.43.0


From 87c7ead826fd931c5abe92c29c42624b14259ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 14/25] fix: from_data takes ids from the structure, not from
 the values in the data

---
 pybbn/graph/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 51f38c1..1c38826 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -205,7 +205,7 @@ class Factory(object):
             return cpts
 
         n2v = get_profile(df)
-        n2i = get_n2i(df)
+        n2i = get_n2i(structure)
         n2c = {n: get_cpt(n, structure[n], n2v, df) for n in structure}
 
         bbn = Bbn()
-- 
2.43.0


From 7860d870b03865182cf4a762c629b0c7ef1b22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 15/25] fix: from_data counts by value, for any column names
 and value types

---
 pybbn/graph/factory.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 1c38826..fd998cb 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -183,14 +183,12 @@ class Factory(object):
 
                 for values in domains:
                     probs = []
-                    denom_q = " and ".join(
-                        [f'{n}=="{v}"' for n, v in zip(domain_names, values)]
-                    )
+                    given = pd.Series(True, index=df.index)
+                    for pa, pa_value in zip(domain_names, values):
+                        given = given & (df[pa] == pa_value)
                     for v in n2v[name]:
-                        numer_q = f'{name}=="{v}" and {denom_q}'
-
-                        numer = df.query(numer_q).shape[0] / n
-                        denom = df.query(denom_q).shape[0] / n
+                        numer = (given & (df[name] == v)).sum() / n
+                        denom = given.sum() / n
 
                         if denom == 0:
                             prob = 1e-5
-- 
2.43.0


From a13d26ee6823e4330653dcf418b1710f39432fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 16/25] fix: ACE weighs parent configurations by their joint
 probability

---
 pybbn/causality/ace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybbn/causality/ace.py b/pybbn/causality/ace.py
index 08cf8d7..d7b1f86 100644
--- a/pybbn/causality/ace.py
+++ b/pybbn/causality/ace.py
@@ -49,9 +49,12 @@ class Ace(object):
             return posteriors[y][y_val]
 
         def get_z_prob(z):
+            # chain rule: the parents of X may depend on one another
             self.jt.unobserve_all()
-            posteriors = self.jt.get_posteriors()
-            probs = [posteriors[n][v] for n, v in z]
+            probs = []
+            for n, v in z:
+                probs.append(self.jt.get_posteriors()[n][v])
+                self.jt.update_evidences([get_evidence(n, v)])
             probs = reduce(operator.mul, probs, 1)
             return probs
 
-- 
2.43.0


From ba2e45a1d3cffaf63ac8810042a9775a27eab6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 17/25] fix: Gaussian inference pairs each observation with the
 mean of its own variable

---
 pybbn/gaussian/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/gaussian/inference.py b/pybbn/gaussian/inference.py
index 4e40de0..90a8a64 100644
--- a/pybbn/gaussian/inference.py
+++ b/pybbn/gaussian/inference.py
@@ -121,7 +121,7 @@ class GaussianInference(object):
         z_index = [self.I[name] for name, _ in observations]
         y_index = [i for i in range(self.E.shape[1]) if i not in z_index]
 
-        m_Z = np.array([m for i, m in enumerate(self.M) if i in z_index])
+        m_Z = np.array([self.M[i] for i in z_index])
         m_Y = np.array([m for i, m in enumerate(self.M) if i in y_index])
 
         z = np.array([o for _, o in observations])
-- 
2.43.0


From 81fcc7d8ed0049a7b834db87f7a4e5e7b74b2509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 18/25] fix: generated parameters can be serialised to JSON

---
 pybbn/generator/bbngenerator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 9632457..c5f70c4 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -321,7 +321,11 @@ def to_json(g, params, pretty=False):
         "nodes": list(g.nodes),
         "edges": [{"pa": e[0], "ch": e[1]} for e in g.edges],
         "parameters": [
-            {"node": k, "params": list(v["params"].flatten()), "shape": v["shape"]}
+            {
+                "node": k,
+                "params": list(v["params"].flatten()),
+                "shape": [int(s) for s in v["shape"]],
+            }
             for k, v in params.items()
         ],
     }
-- 
2.43.0


From 4a085d83c6f6542e384eeb280321191df8d8b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 19/25] fix: generating a network of one node terminates

---
 pybbn/generator/bbngenerator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index c5f70c4..edcb3d6 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -155,6 +155,9 @@ def __generate_multi_connected_structure__(n, max_iter=10):
     :return: Graph structure (networkx).
     """
     g = __get_simple_ordered_tree__(n)
+    if n < 2:
+        return g
+
     for it in range(max_iter):
         i, j = __get_random_node_pair__(n)
         if g.has_edge(i, j) is True:
@@ -173,6 +176,8 @@ def __generate_singly_structure__(n, max_iter=10):
     :return: Graph structure (networkx).
     """
     g = __get_simple_ordered_tree__(n)
+    if n < 2:
+        return g
 
     for it in range(max_iter):
         i, j = __get_random_node_pair__(n)
-- 
2.43.0


From 7294ebb67f0184ac3edfca4dbf23dc7a5f5206b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 20/25] fix: converted networks keep the parent order of the
 generated tables

---
 pybbn/generator/bbngenerator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index edcb3d6..d26dcfa 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -389,10 +389,12 @@ def convert_for_exact_inference(g, p):
         bbn.add_node(n)
         bbn_nodes[id] = n
 
-    for e in g.edges:
-        pa = bbn_nodes[e[0]]
-        ch = bbn_nodes[e[1]]
-        bbn.add_edge(Edge(pa, ch, EdgeType.DIRECTED))
+    # the rows of a table follow the order of the parents it was generated for
+    for node in g.nodes:
+        for parent in p[node]["parents"]:
+            pa = bbn_nodes[parent]
+            ch = bbn_nodes[node]
+            bbn.add_edge(Edge(pa, ch, EdgeType.DIRECTED))
 
     return bbn
 
-- 
2.43.0


From 9aeb20948687d9e24d89dab9d0dd0ed3b6273e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 21/25] fix: networks saved as CSV keep names and values with
 commas, quotes or bars

---
 pybbn/graph/dag.py | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 0472b05..b53c948 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -1,3 +1,4 @@
+import csv
 import itertools
 import json
 
@@ -178,20 +179,16 @@ class Bbn(Dag):
         :param path: Path to file.
         :return: None.
         """
-        with open(path, "w") as f:
+        with open(path, "w", newline="") as f:
+            writer = csv.writer(f, lineterminator="\n")
             for node in bbn.get_nodes():
                 v = node.variable
-                vals = ",".join(v.values)
-                probs = ",".join([str(p) for p in node.probs])
-                s_node = f"{v.id},{v.name},{vals},|,{probs}"
-                f.write(s_node)
-                f.write("\n")
+                probs = [str(p) for p in node.probs]
+                writer.writerow([v.id, v.name, *v.values, "|", *probs])
 
             for _, edge in bbn.edges.items():
                 t = "directed" if edge.type == EdgeType.DIRECTED else "undirected"
-                s_edge = f"{edge.i.id},{edge.j.id},{t}"
-                f.write(s_edge)
-                f.write("\n")
+                writer.writerow([edge.i.id, edge.j.id, t])
 
     @staticmethod
     def from_csv(path):
@@ -200,27 +197,20 @@ class Bbn(Dag):
         :param path: Path to CSV file.
         :return: BBN.
         """
-        with open(path, "r") as f:
+        with open(path, "r", newline="") as f:
             nodes = {}
             edges = []
 
-            for line in f:
-                tokens = line.split(",")
+            for tokens in csv.reader(f):
                 if 3 == len(tokens):
                     edge = int(tokens[0]), int(tokens[1])
                     edges.append(edge)
                 else:
-                    tokens = line.split("|")
-                    v_part = [
-                        item.strip()
-                        for item in tokens[0].split(",")
-                        if len(item.strip()) > 0
-                    ]
-                    p_part = [
-                        item.strip()
-                        for item in tokens[1].split(",")
-                        if len(item.strip()) > 0
-                    ]
+                    tokens = [item.strip() for item in tokens]
+                    # the last separator: a name or value may look like one
+                    sep = len(tokens) - 1 - tokens[::-1].index("|")
+                    v_part = [item for item in tokens[:sep] if len(item) > 0]
+                    p_part = [item for item in tokens[sep + 1 :] if len(item) > 0]
 
                     i = int(v_part[0])
                     v = Variable(i, v_part[1], v_part[2:])
-- 
2.43.0


From b3dfe98c55d5b5794053c995910339465b3dfd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 22/25] fix: networks with long paths compile and propagate
 without exhausting the stack

---
 pybbn/graph/dag.py                | 17 ++++++++++-------
 pybbn/graph/jointree.py           | 25 ++++++++++++++-----------
 pybbn/graph/pdag.py               | 17 ++++++++++-------
 pybbn/pptc/evidencecollector.py   | 30 ++++++++++++++++--------------
 pybbn/pptc/evidencedistributor.py | 23 +++++++++++------------
 5 files changed, 61 insertions(+), 51 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index b53c948..ec0e10b 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -392,15 +392,18 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        children = self.graph.get_children(i)
-        if self.stop in children:
-            return True
-
-        self.seen.add(i)
-        for child in children:
-            if child not in self.seen and self.__find__(child):
+        pending = [i]
+        while len(pending) > 0:
+            i = pending.pop()
+            children = self.graph.get_children(i)
+            if self.stop in children:
                 return True
 
+            self.seen.add(i)
+            for child in children:
+                if child not in self.seen:
+                    pending.append(child)
+
         return False
 
 
diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 51cce92..0179bb6 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -572,21 +572,24 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        neighbors = set()
+        pending = [i]
+        while len(pending) > 0:
+            i = pending.pop()
+            neighbors = set()
 
-        try:
-            neighbors = self.graph.get_neighbors(i)
-        except KeyError:
-            pass
+            try:
+                neighbors = self.graph.get_neighbors(i)
+            except KeyError:
+                pass
 
-        if self.stop in neighbors:
-            return True
-
-        self.seen.add(i)
-        for neighbor in neighbors:
-            if neighbor not in self.seen and self.__find__(neighbor):
+            if self.stop in neighbors:
                 return True
 
+            self.seen.add(i)
+            for neighbor in neighbors:
+                if neighbor not in self.seen:
+                    pending.append(neighbor)
+
         return False
 
 
diff --git a/pybbn/graph/pdag.py b/pybbn/graph/pdag.py
index c51fe21..f36bcc1 100644
--- a/pybbn/graph/pdag.py
+++ b/pybbn/graph/pdag.py
@@ -119,13 +119,16 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        out_nodes = self.graph.get_out_nodes(i)
-        if self.stop in out_nodes:
-            return True
-
-        self.seen.add(i)
-        for out_node in out_nodes:
-            if out_node not in self.seen and self.__find__(out_node):
+        pending = [i]
+        while len(pending) > 0:
+            i = pending.pop()
+            out_nodes = self.graph.get_out_nodes(i)
+            if self.stop in out_nodes:
                 return True
 
+            self.seen.add(i)
+            for out_node in out_nodes:
+                if out_node not in self.seen:
+                    pending.append(out_node)
+
         return False
diff --git a/pybbn/pptc/evidencecollector.py b/pybbn/pptc/evidencecollector.py
index dedcd2a..6160e84 100644
--- a/pybbn/pptc/evidencecollector.py
+++ b/pybbn/pptc/evidencecollector.py
@@ -59,17 +59,19 @@ class EvidenceCollector(object):
         :param y: Clique.
         """
 
-        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
-
-        s_arr = []
-        c_arr = []
-        for sep, cli in zip(sepsets, cliques):
-            if not cli[1].is_marked():
-                cli[1].mark()
-                s_arr.append(sep)
-                c_arr.append(cli)
-
-        for sep, cli in zip(s_arr, c_arr):
-            self.__walk__(y, sep[1], cli[1])
-
-        PotentialUtil.pass_single_message(self.join_tree, y, s, x)
+        walks = []
+        pending = [(x, s, y)]
+        while len(pending) > 0:
+            x, s, y = pending.pop()
+            walks.append((x, s, y))
+
+            sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
+
+            for sep, cli in zip(sepsets, cliques):
+                if not cli[1].is_marked():
+                    cli[1].mark()
+                    pending.append((y, sep[1], cli[1]))
+
+        # the farthest cliques send their messages first
+        for x, s, y in reversed(walks):
+            PotentialUtil.pass_single_message(self.join_tree, y, s, x)
diff --git a/pybbn/pptc/evidencedistributor.py b/pybbn/pptc/evidencedistributor.py
index a573628..b889575 100644
--- a/pybbn/pptc/evidencedistributor.py
+++ b/pybbn/pptc/evidencedistributor.py
@@ -66,16 +66,15 @@ class EvidenceDistributor(object):
         :param s: Separation-set.
         :param y: Clique.
         """
-        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
+        pending = [y]
+        while len(pending) > 0:
+            y = pending.pop()
+            sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
 
-        s_arr = []
-        c_arr = []
-        for sep, cli in zip(sepsets, cliques):
-            if not cli[1].is_marked():
-                cli[1].mark()
-                s_arr.append(sep)
-                c_arr.append(cli)
-
-        for sep, cli in zip(s_arr, c_arr):
-            PotentialUtil.pass_single_message(self.join_tree, y, sep[1], cli[1])
-            self.__walk__(y, sep[1], cli[1])
+            for sep, cli in zip(sepsets, cliques):
+                if not cli[1].is_marked():
+                    cli[1].mark()
+                    PotentialUtil.pass_single_message(
+                        self.join_tree, y, sep[1], cli[1]
+                    )
+                    pending.append(cli[1])
-- 
2.43.0


From 7d2967b59bdd1739ab7c9e5cf4aaffb07fb7be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 23/25] fix: deep copies of networks and join trees with long
 paths do not exhaust the stack

---
 pybbn/graph/graph.py    |  2 ++
 pybbn/graph/jointree.py |  3 ++-
 pybbn/graph/node.py     | 16 ++++++++++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 9377a13..e8d0353 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -2,6 +2,7 @@ from collections import defaultdict
 from copy import deepcopy
 
 from pybbn.graph.edge import EdgeType
+from pybbn.graph.node import Node
 
 
 class Graph(object):
@@ -173,6 +174,7 @@ class Graph(object):
         cls = self.__class__
         result = cls.__new__(cls)
         memodict[id(self)] = result
+        Node.deepcopy_all(self.nodes.values(), memodict)
         for k, v in self.__dict__.items():
             setattr(result, k, deepcopy(v, memodict))
         return result
diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 0179bb6..1fadfc0 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -4,7 +4,7 @@ from enum import Enum
 
 from pybbn.graph.edge import JtEdge
 from pybbn.graph.graph import Ug
-from pybbn.graph.node import BbnNode, Clique, SepSet
+from pybbn.graph.node import BbnNode, Clique, Node, SepSet
 from pybbn.graph.potential import Potential, PotentialEntry, PotentialUtil
 from pybbn.graph.variable import Variable
 
@@ -26,6 +26,7 @@ class JoinTree(Ug):
         # self.__all_nodes__ = None
 
     def __deepcopy__(self, memodict={}):
+        Node.deepcopy_all(list(self.get_nodes()) + self.get_bbn_nodes(), memodict)
         nodes = deepcopy(self.nodes, memodict)
         edges = deepcopy(self.edges, memodict)
         edge_map = deepcopy(self.edge_map, memodict)
diff --git a/pybbn/graph/node.py b/pybbn/graph/node.py
index 6399f34..749f5f5 100644
--- a/pybbn/graph/node.py
+++ b/pybbn/graph/node.py
@@ -39,6 +39,22 @@ class Node(object):
             setattr(result, k, deepcopy(v, memodict))
         return result
 
+    @staticmethod
+    def deepcopy_all(nodes, memodict):
+        """
+        Deep copies nodes that may refer to one another. All the copies are made known before any reference
+        is followed, since following long chains of references would exhaust the stack.
+
+        :param nodes: Nodes.
+        :param memodict: Dictionary of copies made so far.
+        """
+        nodes = [node for node in nodes if id(node) not in memodict]
+        for node in nodes:
+            memodict[id(node)] = node.__class__.__new__(node.__class__)
+        for node in nodes:
+            for k, v in node.__dict__.items():
+                setattr(memodict[id(node)], k, deepcopy(v, memodict))
+
     def __str__(self):
         return "{}".format(self.id)
 
-- 
2.43.0


From 57405c6e8111deac378a86bd9b2ca24df1306686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:53 +0000
Subject: [PATCH 24/25] fix: the sampler tells parent values apart that read
 alike in its row keys

---
 pybbn/sampling/sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 130d06c..5c9e3b7 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -60,6 +60,8 @@ class Table(object):
             probs = [node.probs[i : i + n] for i in range(0, len(node.probs), n)]
             probs = [np.array(p).cumsum() for p in probs]
             self.probs = {k: p for k, p in zip(keys, probs)}
+            # rows by the parents' values themselves; different values may read alike in the keys above
+            self.rows = {values: p for values, p in zip(cartesian, probs)}
 
     def get_value(self, prob, sample=None):
         """
@@ -72,8 +74,7 @@ class Table(object):
         if not self.has_parents():
             index = bisect.bisect(self.probs, prob)
         else:
-            k = ",".join([f"{i}={sample[i]}" for i in self.parent_ids])
-            probs = self.probs[k]
+            probs = self.rows[tuple(sample[i] for i in self.parent_ids)]
             index = bisect.bisect(probs, prob)
         return self.node.variable.values[index]
 
-- 
2.43.0


From ddbe38c707cc4cf8159fc40cbb9b8c481f81742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:16 +0000
Subject: [PATCH 25/25] fix: libpgm tables of parents whose values contain
 quotes or backslashes are found

---
 pybbn/graph/factory.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index fd998cb..a6bb9af 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -90,14 +90,17 @@ class Factory(object):
 
             def get_cond_probs(name, bn, domain_spaces=True):
                 probs = []
-                pa_domains = stringify_cross_product(
-                    cross_product(get_parent_domains(name, bn)), domain_spaces
-                )
+                products = cross_product(get_parent_domains(name, bn))
+                pa_domains = stringify_cross_product(products, domain_spaces)
                 if len(pa_domains) == 0:
                     probs = bn.Vdata[name]["cprob"][:]
                 else:
-                    for pa_domain in pa_domains:
-                        cprob = bn.Vdata[name]["cprob"][pa_domain]
+                    for product, pa_domain in zip(products, pa_domains):
+                        # libpgm writes its keys as str(list), which quotes some values in other ways
+                        key = str(list(product))
+                        if key not in bn.Vdata[name]["cprob"]:
+                            key = pa_domain
+                        cprob = bn.Vdata[name]["cprob"][key]
                         probs.extend(cprob)
 
                 return probs
-- 
2.43.0

