From 62f092ed3d6cc6b3a711112237e6c80387eaa68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 01/22] fix: expected correct guesses of a concept without
 visible attributes

Fitting an instance that has no visible attributes (e.g. {} or only hidden
ones) divided by zero.
---
 concept_formation/cobweb.py  | 3 +++
 concept_formation/cobweb3.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 4151605..994f2fe 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -399,6 +399,9 @@ class CobwebNode(object):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
+
         return correct_guesses / attr_count
 
     def category_utility(self):
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index 1fb2f79..eaee589 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -284,6 +284,9 @@ class Cobweb3Node(CobwebNode):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
+
         return correct_guesses / attr_count
 
     def pretty_print(self, depth=0):
-- 
2.43.0


From 319de304f4df7b315cfcd7e8c1462beab10cd342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 02/22] fix: k_cluster unpacks the (clustering, heuristic)
 pairs of cluster_iter

It always raised TypeError: unhashable type.
---
 concept_formation/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index e723d60..c164490 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -80,7 +80,7 @@ def k_cluster(tree, instances, k=3, mod=True):
                          "guaranteed to have at least 2 children.")
 
     clustering = ["Concept" + str(tree.root.concept_id) for i in instances]
-    for c in cluster_iter(tree, instances, mod=mod):
+    for c, _ in cluster_iter(tree, instances, mod=mod):
         if len(set(c)) > k:
             break
         clustering = c
-- 
2.43.0


From 71dc60f5b12e03192369f2c85429610bbf52bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 03/22] fix: DummyTree lacked the scaling attributes of a
 Cobweb3Tree

probability() of a numeric attribute raised AttributeError.
---
 concept_formation/dummy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 9492c81..f77b035 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -31,6 +31,9 @@ class DummyTree(TrestleTree):
         self.root.tree = self
         self.gensym_counter = 0
         self.structure_map_internally = False
+        self.scaling = False
+        self.inner_attr_scaling = True
+        self.attr_scales = {}
 
     def gensym(self):
         """
-- 
2.43.0


From 521c4b56f0198253a95fa3e5b9756fc62a657426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 04/22] fix: NameStandardizer restores renamed attributes with
 plain values

undo_transform kept the generated name of a variable attribute whose value is
not a component.
---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 802cc94..4eedc26 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -444,7 +444,7 @@ class NameStandardizer(Preprocessor):
                 temp_rel = rename_relation(attr, self.reverse_mapping)
                 new_instance[temp_rel] = instance[attr]
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[name] = instance[attr]
 
         return new_instance
 
-- 
2.43.0


From 2cf4b6bed86990cf07b8c5082a9eba62edeeb29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 05/22] fix: NominalToNumeric descends into components

Without targets it called float() on component values (TypeError), though only
non-component values are to be converted.
---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 4eedc26..b02a6c1 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1596,7 +1596,7 @@ class NominalToNumeric(OneWayPreprocessor):
         new_instance = {}
 
         for a in instance:
-            if a in attrs:
+            if a in attrs and not isinstance(instance[a], dict):
                 try:
                     val = float(instance[a])
                 except ValueError as e:
-- 
2.43.0


From 81bb21fda35aac7084c6b4ac0ad3133e794cc693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 06/22] fix: Tuplizer.undo_transform of relations with numeric
 elements

It raised TypeError when joining the floats that transform produces.
---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index b02a6c1..ec0efc6 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -295,7 +295,7 @@ class Tuplizer(Preprocessor):
         """
         if isinstance(relation, tuple):
             relation = [self._stringify_relation(ele) if isinstance(ele, tuple)
-                        else ele for ele in relation]
+                        else str(ele) for ele in relation]
             return "(" + " ".join(relation) + ")"
         else:
             return relation
-- 
2.43.0


From 8c74d975d5607ab649470bbb136e21f50a705718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 07/22] fix: incremental_evaluation returned run_length + 2
 scores per run

---
 concept_formation/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/evaluation.py b/concept_formation/evaluation.py
index 2445373..2356eba 100644
--- a/concept_formation/evaluation.py
+++ b/concept_formation/evaluation.py
@@ -236,7 +236,7 @@ def incremental_evaluation(tree, instances, attr, run_length, runs=1,
 
         row = []
 
-        for i, instance in enumerate(instances[:run_length+2]):
+        for i, instance in enumerate(instances[:run_length]):
             # print(i)
             val = None
             if attr in instance:
-- 
2.43.0


From 32994c07cf0fbae1f86e3c5cae054cd0bf957feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 08/22] fix: dataset loaders returned num_instances + 1
 instances

---
 concept_formation/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/datasets.py b/concept_formation/datasets.py
index aaf79f9..3ec3f0e 100644
--- a/concept_formation/datasets.py
+++ b/concept_formation/datasets.py
@@ -23,7 +23,7 @@ def _load_json(filename, num_instances=None):
     output = []
     with open(join(module_path, 'data_files', filename)) as dat:
         for idx, lin in enumerate(dat):
-            if num_instances is not None and idx > num_instances:
+            if num_instances is not None and idx >= num_instances:
                 break
             output.append(json.loads(lin.strip('[],\n')))
     return output
-- 
2.43.0


From f51f4c6006ccadb47ede9b7afc847a9d8f9fd9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 09/22] fix: visualize_clusters ignored clusters given as
 concepts

Concepts are named Concept<id> in the output, so the tree was never trimmed.
---
 concept_formation/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/visualize.py b/concept_formation/visualize.py
index 9c0352c..2880b24 100644
--- a/concept_formation/visualize.py
+++ b/concept_formation/visualize.py
@@ -153,7 +153,7 @@ def visualize_clusters(tree, clusters, dst=None, recreate_html=True):
     :type create_html: bool
     """
     if isinstance(clusters[0], CobwebNode):
-        clusters = {str(c.concept_id) for c in clusters}
+        clusters = {"Concept" + str(c.concept_id) for c in clusters}
     else:
         clusters = set(clusters)
 
-- 
2.43.0


From ba20f8cf0d53948ba6f13646afd0af89a815fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:24 +0000
Subject: [PATCH 10/22] fix: Sanitizer accepts its spec in any case

Sanitizer("Trestle") was accepted but treated as cobweb.
---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index ec0efc6..f36f2b7 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1664,7 +1664,7 @@ class Sanitizer(OneWayPreprocessor):
         if spec.lower() not in ['trestle', 'cobweb', 'cobweb3']:
             raise ValueError(
                 "Invalid Spec: must be one of: 'trestle','cobweb','cobweb3'")
-        self.spec = spec
+        self.spec = spec.lower()
 
     def transform(self, instance):
         return self._sanitize(instance)
-- 
2.43.0


From ef7ef5f6e6050593d252143910349d9876204e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:47 +0000
Subject: [PATCH 11/22] fix: cluster_iter with minsplit > 1 never split the
 tree

The assignments were only computed once minsplit was reached, so nothing was
ever split and no clustering was returned.
---
 concept_formation/cluster.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index c164490..6a4d1ab 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -430,19 +430,20 @@ def cluster_iter(tree, instances, heuristic=CU, minsplit=1, maxsplit=100000,
 
         cluster_assign = []
         child_cluster_assign = []
+        clusters = []
+        for i, c in enumerate(temp_clusters):
+            child = None
+            while (c.parent and c.parent.parent):
+                child = c
+                c = c.parent
+            if labels:
+                clusters.append("Concept" + str(c.concept_id))
+            else:
+                clusters.append(c)
+            cluster_assign.append(c)
+            child_cluster_assign.append(child)
+
         if nth_split >= minsplit:
-            clusters = []
-            for i, c in enumerate(temp_clusters):
-                child = None
-                while (c.parent and c.parent.parent):
-                    child = c
-                    c = c.parent
-                if labels:
-                    clusters.append("Concept" + str(c.concept_id))
-                else:
-                    clusters.append(c)
-                cluster_assign.append(c)
-                child_cluster_assign.append(child)
             yield clusters, heuristic(cluster_assign, temp_clusters)
 
         split_cus = []
-- 
2.43.0


From 5ca13d48739d4d2d643c5ab2b3a8ddf6cea94362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 12/22] fix: Flattener keeps the contents of hidden components
 hidden

The attributes of a component whose name starts with _ became visible, so they
influenced concept formation.
---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index f36f2b7..b7767eb 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -706,7 +706,7 @@ class Flattener(Preprocessor):
         for attr in instance:
             original = attr
             if outer_attr is not None:
-                if attr[0] == "_":
+                if attr[0] == "_" or outer_attr[0] == "_":
                     attr = ('_', (attr, outer_attr))
                 else:
                     attr = (attr, outer_attr)
-- 
2.43.0


From 27373870c4780bdecc46c5b506c4df7b1677a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 13/22] fix: ObjectVariablizer renames the objects in relations
 too

The mapping was never filled, so relations kept referring to the old names.
---
 concept_formation/preprocessor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index b7767eb..ce18c89 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1409,10 +1409,11 @@ class ObjectVariablizer(OneWayPreprocessor):
         """
         return self._variablize(instance)
 
-    def _variablize(self, instance, mapping={}, prefix=None):
+    def _variablize(self, instance, mapping=None, prefix=None):
         new_instance = {}
 
-        mapping = {}
+        if mapping is None:
+            mapping = {}
         relations = []
         if self.targets is None:
             attrs = [k for k in instance.keys()]
@@ -1432,6 +1433,7 @@ class ObjectVariablizer(OneWayPreprocessor):
                 name = attr
                 if attr[0] != '?':
                     name = '?' + attr
+                    mapping[attr] = name
                 new_instance[name] = self._variablize(instance[attr], mapping,
                                                       prefix)
             else:
-- 
2.43.0


From 8fff4f2b6b47270732ab5d6f0436842a7dab04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 14/22] fix: ListsToRelations leaves partially ordered lists as
 relations

undo_transform raised KeyError or ValueError for a list whose relations are
not a total order, which are documented to be left as they are.
---
 concept_formation/preprocessor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index ce18c89..d8c6013 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1124,8 +1124,8 @@ class ListsToRelations(Preprocessor):
                 front = True
                 while front is not None:
                     front = None
-                    for a, b in order[ele]:
-                        if b == new_list[0]:
+                    for a, b in order.get(ele, []):
+                        if b == new_list[0] and a in elements[ele]:
                             change = True
                             front = (a, b)
                             elements[ele].remove(a)
@@ -1138,8 +1138,8 @@ class ListsToRelations(Preprocessor):
                 back = True
                 while back is not None:
                     back = None
-                    for a, b in order[ele]:
-                        if a == new_list[-1]:
+                    for a, b in order.get(ele, []):
+                        if a == new_list[-1] and b in elements[ele]:
                             change = True
                             back = (a, b)
                             elements[ele].remove(b)
@@ -1155,7 +1155,7 @@ class ListsToRelations(Preprocessor):
                     current = current[path.pop(0)]
                 current[path[0]] = new_list
             else:
-                for attr, val in originals:
+                for attr, val in originals[ele]:
                     new_instance[attr] = val
 
         return new_instance
-- 
2.43.0


From 5cdef82da9e049adcd47118c6bd2656b095c07fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 15/22] fix: ListsToRelations.undo_transform modified its
 argument

A list inside a component was written into the component of the instance that
was passed in.
---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index d8c6013..26b5631 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1111,7 +1111,7 @@ class ListsToRelations(Preprocessor):
                 originals[lname].append((attr, instance[attr]))
 
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[attr] = deepcopy(instance[attr])
 
         for ele in elements:
             new_list = [elements[ele].pop(0)]
-- 
2.43.0


From 8e4009d22600bebc47de02e4ae7dfa4f23ae0cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 16/22] fix: SubComponentProcessor lost the parent of variables
 in constant objects

An object nested in a component with a constant name was moved to the top level
without a has-component relation, so that undo_transform could not restore it.
---
 concept_formation/preprocessor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 26b5631..4f20a02 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1341,7 +1341,7 @@ class SubComponentProcessor(Preprocessor):
         inner = None
         relations = []
 
-        while len(attr) == 2:
+        while isinstance(attr, tuple) and len(attr) == 2:
             a, attr = attr
             if isinstance(a, str) and len(a) > 0 and a[0] == '?':
                 if last_comp is not None:
@@ -1349,8 +1349,7 @@ class SubComponentProcessor(Preprocessor):
                 last_comp = a
                 inner = self._extract_attr(attr)
 
-        if last_comp is not None and (isinstance(attr, str) and len(attr) > 0
-                                      and attr[0] == '?'):
+        if last_comp is not None:
             relations.append(('has-component', inner, last_comp))
 
         return relations
-- 
2.43.0


From 896231a0c90366a0c6f3d90bee6804777e7ac938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:16 +0000
Subject: [PATCH 17/22] fix: Tuplizer handles a nested relation as the first
 element

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 4f20a02..c7ce84e 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -260,7 +260,7 @@ class Tuplizer(Preprocessor):
         for val in relation.split(' '):
             end = 0
 
-            if val[0] == '(':
+            while val[0] == '(':
                 stack.append([])
                 val = val[1:]
 
-- 
2.43.0


From a15f204d7780d9060495b9a64bce83905cb32bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:57 +0000
Subject: [PATCH 18/22] fix: probability of a missing value in an empty concept

In a concept without instances every attribute is missing (predict returns
None, the weighted values are [(None, 1.0)]), but probability(attr, None)
divided by zero, so that incremental_evaluation failed whenever the first
instance lacks the target attribute.
---
 concept_formation/cobweb.py  | 2 ++
 concept_formation/cobweb3.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 994f2fe..b724988 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -1146,6 +1146,8 @@ class CobwebNode(object):
         :rtype: float
         """
         if val is None:
+            if self.count == 0:
+                return 1.0
             c = 0.0
             if attr in self.av_counts:
                 c = sum([self.av_counts[attr][v] for v in
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index eaee589..9a01e55 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -443,6 +443,8 @@ class Cobweb3Node(CobwebNode):
         :rtype: float
         """
         if val is None:
+            if self.count == 0:
+                return 1.0
             c = 0.0
             if attr in self.av_counts:
                 c = sum([self.av_counts[attr][v].num if v == cv_key
-- 
2.43.0


From f139d78e3e534657c0f836ee1476401278948730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:23 +0000
Subject: [PATCH 19/22] fix: preprocessor relied on others to import
 collections.abc

In an interpreter where nothing else had imported collections.abc, the
Sanitizer failed with AttributeError on every instance.
---
 concept_formation/preprocessor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index c7ce84e..c455767 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -46,12 +46,11 @@ from __future__ import division
 
 from copy import deepcopy
 from numbers import Number
-import collections
 
 try:
-    collectionsAbc = collections.abc
-except AttributeError:
-    collectionsAbc = collections
+    import collections.abc as collectionsAbc
+except ImportError:
+    import collections as collectionsAbc
 
 
 _gensym_counter = 0
-- 
2.43.0


From 505721f05973098ebe5831e3c4c03215f6a4f8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:25 +0000
Subject: [PATCH 20/22] fix: incremental_evaluation reordered the caller's list

---
 concept_formation/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/evaluation.py b/concept_formation/evaluation.py
index 2356eba..ed313f6 100644
--- a/concept_formation/evaluation.py
+++ b/concept_formation/evaluation.py
@@ -226,6 +226,7 @@ def incremental_evaluation(tree, instances, attr, run_length, runs=1,
         the score for successive instances within a run.
     :rtype: A table of scores.
     """
+    instances = [i for i in instances]
     scores = []
     for r in range(runs):
         # print(r)
-- 
2.43.0


From a5f145e0a2641c651e8c426f40af8c42644d3fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:32 +0000
Subject: [PATCH 21/22] fix: weighted_choice refuses negative weights wherever
 they stand

A negative weight was only noticed when the draw got past the options
before it; otherwise one of those was returned.
---
 concept_formation/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/concept_formation/utils.py b/concept_formation/utils.py
index 65944a9..1284c61 100644
--- a/concept_formation/utils.py
+++ b/concept_formation/utils.py
@@ -138,12 +138,13 @@ def weighted_choice(choices):
     .. seealso::
         :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
     """
+    for c, w in choices:
+        if w < 0:
+            raise ValueError('All weights must be greater than or equal to 0.')
     total = sum(w for c, w in choices)
     r = uniform(0, total)
     upto = 0
     for c, w in choices:
-        if w < 0:
-            raise ValueError('All weights must be greater than or equal to 0.')
         if upto + w > r:
             return c
         upto += w
-- 
2.43.0


From b3046ee5fccfbaf6c31e7ca15362da714c2d0d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:32 +0000
Subject: [PATCH 22/22] fix: ExtractListElements keeps objects that have an
 attribute called val

They were taken for wrapped plain elements when undoing and reduced to the
value of that attribute. They are now wrapped like any other element.
---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index c455767..eee543c 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -986,7 +986,7 @@ class ExtractListElements(Preprocessor):
                 new_list = []
                 for el in instance[a]:
 
-                    if isinstance(el, dict):
+                    if isinstance(el, dict) and "val" not in el:
                         new_obj = deepcopy(el)
                     else:
                         new_obj = {"val": el}
-- 
2.43.0

