From 551abefb7192da874dae2dbafa6d409771fd8bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 01/50] fix: smaller(0) and size filters for size 0 keep
 exactly the right sets

---
 src/graphillion/setset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index b1f1eaf..1ca8b91 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -384,6 +384,7 @@ setset setset::hitting(elem_t num_elems_a) const {  // a.k.a cross elements
 }
 
 setset setset::smaller(size_t set_size) const {
+  if (set_size == 0) return setset();
   return setset(this->zdd_.PermitSym(set_size - 1));
 }
 
@@ -392,7 +393,8 @@ setset setset::larger(size_t set_size) const {
 }
 
 setset setset::set_size(size_t set_size) const {
-  zdd_t z = this->zdd_.PermitSym(set_size) - this->zdd_.PermitSym(set_size - 1);
+  zdd_t z = this->zdd_.PermitSym(set_size);
+  if (set_size > 0) z -= this->zdd_.PermitSym(set_size - 1);
   return setset(z);
 }
 
-- 
2.43.0


From ef68ccd0e916b592810895e2d330245b86cf2112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 02/50] fix: flip() of a reversed edge no longer adds an
 element to the universe

---
 graphillion/digraphset.py | 2 +-
 graphillion/graphset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 722fa9f..bc85e20 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -983,7 +983,7 @@ class DiGraphSet(object):
         """
         type, obj = DiGraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(DiGraphSet._objtable, edge)
+            self._ss.flip(DiGraphSet._objtable, obj)
         else:
             raise TypeError(edge)
 
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 12c3fc7..abe2e82 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -994,7 +994,7 @@ class GraphSet(object):
         """
         type, obj = GraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(Universe.e_objtable, edge)
+            self._ss.flip(Universe.e_objtable, obj)
         else:
             raise TypeError(edge)
 
-- 
2.43.0


From 93e5358a04064484098863b9b9526f8a5231976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 03/50] fix: steiner_paths() restricts the search to the given
 GraphSet

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index abe2e82..47f07c8 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2629,7 +2629,7 @@ class GraphSet(object):
         Returns:
           A new GraphSet object.
         """
-        gs = GraphSet.paths(graphset)
+        gs = GraphSet.paths(graphset=graphset)
         return GraphSet.graphs(vertex_groups=[terminals], graphset=gs)
 
     DegreeDistribution_Any = -1
-- 
2.43.0


From ed9d007efe8d06bc4ae014dedd1d2fb15987931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 04/50] fix: degree_distribution_graphs() passes the search
 space to the search

---
 graphillion/graphset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 47f07c8..b946fdc 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2667,7 +2667,8 @@ class GraphSet(object):
             graph.append(
                 (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
 
-        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, graphset)
+        ss = None if graphset is None else graphset._ss
+        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, ss)
         return GraphSet(ss)
 
     @staticmethod
-- 
2.43.0


From ab109adfbb6ae7c2f9c10621ef919618c24ef249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 05/50] fix: odd_hole_graphs() is empty when the universe has
 fewer than five vertices

---
 graphillion/graphclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index fe1051d..91114e7 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -197,6 +197,8 @@ class GraphClass:
             vertices.add(e[0])
             vertices.add(e[1])
         n = len(vertices)
+        if n < 5:
+            return GraphSet()
 
         # cycle with odd length at least 5
         dc = {}
-- 
2.43.0


From 73f54e43b02d6069d83742cdc3b5cfd7009a5ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 06/50] fix: chordal_bipartite_graphs() includes disconnected
 graphs

---
 graphillion/graphclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index 91114e7..98e8ba0 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -288,7 +288,7 @@ class GraphClass:
         cycles = GraphSet.cycles()
         cycles_length_at_least_6 = cycles.larger(5) # >= 6
         chordal = GraphSet.forbidden_induced_subgraphs(cycles_length_at_least_6)
-        return chordal & GraphSet.bipartite_graphs()
+        return chordal & GraphSet.bipartite_graphs(is_connected=False)
 
     @staticmethod
     def split_graphs():
-- 
2.43.0


From 7fe64b047a1291646a051fc77f4b8dccc3f16d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 07/50] fix: bicliques(a, b) with a != b raises TypeError

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index b946fdc..5da3b74 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2069,7 +2069,7 @@ class GraphSet(object):
           graphs()
         """
         if a != b:
-            TypeError('a == b must hold.')
+            raise TypeError('a == b must hold.')
         gs = GraphSet.regular_bipartite_graphs(degree=a,
                                                 is_connected=True,
                                                 graphset=graphset)
-- 
2.43.0


From d38b50140025c87c15ca4c8d763911481a5429a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 08/50] fix: cost_le/ge/eq reject missing costs instead of
 using -1

---
 graphillion/setset_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 7ffe419..7144a31 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -174,7 +174,7 @@ class setset_base(_graphillion.setset):
         return _graphillion.setset.probability(self, objtable.num_elems(), ps)
 
     def cost_le(self, objtable, costs, cost_bound):
-        cs = [-1] * (objtable.num_elems() + 1)
+        cs = [1 << 31] * (objtable.num_elems() + 1)  # out of range: not given
         for e, c in costs.items():
             i = objtable.obj2int[e]
             cs[i] = c
-- 
2.43.0


From ef6f5cbebb788ddc139bc1d38b9e0ebc2e8b0312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 09/50] fix: cost_le/ge/eq and reliability accept edges in
 either orientation

---
 graphillion/edgevertex_setset.py | 4 +++-
 graphillion/graphset.py          | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 88f5b66..8910c6d 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1375,6 +1375,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(e): cost for e, cost in costs.items()}
         return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1411,7 +1412,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
+        inv_costs = {EdgeVertexSetSet._conv_edgevertex(e): -cost for e, cost in costs.items()}
         return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=inv_costs, cost_bound=-cost_bound))
 
     def cost_eq(self, costs, cost_bound):
@@ -1448,6 +1449,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(e): cost for e, cost in costs.items()}
         le_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound - 1)
         return EdgeVertexSetSet(le_ss.difference(lt_ss))
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 5da3b74..e128ab4 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1535,6 +1535,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): cost for e, cost in costs.items()}
         return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1570,7 +1571,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
+        inv_costs = {GraphSet._conv_edge(e): -cost for e, cost in costs.items()}
         return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=inv_costs, cost_bound=-cost_bound))
 
     def cost_eq(self, costs, cost_bound):
@@ -1606,6 +1607,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): cost for e, cost in costs.items()}
         le_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound - 1)
         return GraphSet(le_ss.difference(lt_ss))
@@ -2883,7 +2885,7 @@ class GraphSet(object):
         ps = [1.0] * (Universe.e_objtable.num_elems())
         if probabilities is not None:
           for e, p in probabilities.items():
-              i = Universe.e_objtable.obj2int[e]
+              i = Universe.e_objtable.obj2int[GraphSet._conv_edge(e)]
               ps[i - 1] = p
 
         reliability = _graphillion._reliability(
-- 
2.43.0


From ebeb8702f8bae8c783d9564401dd70bda36ce05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 10/50] fix: min_iter() and max_iter() honour the weights of
 reversed edges

---
 graphillion/edgevertex_setset.py |  4 ++++
 graphillion/graphset.py          |  4 ++++
 graphillion/universe.py          | 10 ++++++++++
 3 files changed, 18 insertions(+)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 8910c6d..6c3acb9 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -628,6 +628,8 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        else:
+            weights = Universe._orient_edges(Universe.ev_objtable, weights)
         for g in self._ss.min_iter(Universe.ev_objtable, weights):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
@@ -669,6 +671,8 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        else:
+            weights = Universe._orient_edges(Universe.ev_objtable, weights)
         for g in self._ss.max_iter(Universe.ev_objtable, weights):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index e128ab4..6c509d2 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -725,6 +725,8 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        else:
+            weights = Universe._orient_edges(Universe.e_objtable, weights)
         for g in self._ss.min_iter(Universe.e_objtable, weights):
             try:
                 yield GraphSet._conv_ret(g)
@@ -765,6 +767,8 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        else:
+            weights = Universe._orient_edges(Universe.e_objtable, weights)
         for g in self._ss.max_iter(Universe.e_objtable, weights):
             try:
                 yield GraphSet._conv_ret(g)
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 395d473..7fb0313 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -339,6 +339,16 @@ class Universe:
         for x in edges_vertices:
             Universe.ev_objtable.add_elem(x)
 
+    @staticmethod
+    def _orient_edges(objtable, weights):
+        # rewrites the keys given as reversed edges to those in the universe
+        oriented = {}
+        for e, w in weights.items():
+            if e not in objtable.obj2int and isinstance(e, tuple) and len(e) == 2:
+                e = (e[1], e[0])
+            oriented[e] = w
+        return oriented
+
     @staticmethod
     def _traverse(indexed_edges, traversal, source):
         neighbors = {}
-- 
2.43.0


From ce2ed2563ff4bd6f19bdf1899527d526817d96f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 11/50] fix: to_edgevertexsetset() is right for every traversal
 order

---
 graphillion/universe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 7fb0313..068c0ff 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -241,7 +241,7 @@ class Universe:
         vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
-        Universe._set_ev_universe(universe)
+        Universe._set_ev_universe(sorted_edges)
 
         if isolated is None:
             Universe.isolated_vertices = set()
-- 
2.43.0


From 391ba16815a7b930e79d5e824204a09982fc512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 12/50] fix: cost_le/ge/eq do not overflow when a total cost
 exceeds 32 bits

---
 src/SAPPOROBDD/BDDCT.cc | 4 ++--
 src/SAPPOROBDD/BDDCT.h  | 4 ++--
 src/pygraphillion.cc    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SAPPOROBDD/BDDCT.cc b/src/SAPPOROBDD/BDDCT.cc
index 2119e7d..326e3c3 100644
--- a/src/SAPPOROBDD/BDDCT.cc
+++ b/src/SAPPOROBDD/BDDCT.cc
@@ -466,8 +466,8 @@ ZBDD CLE0(const ZBDD& f, const bddcost spent)
   int top = f.Top();
   int tlev = BDD_LevOfVar(top);
   ZBDD h = CLE0(f.OffSet(top), spent);
-  int min0 = RetMin;
-  int max0 = RetMax;
+  bddcost min0 = RetMin;
+  bddcost max0 = RetMax;
   bddcost cost = CT->CostOfLev(tlev);
   h += CLE0(f.OnSet0(top), spent + cost).Change(top);
   if(min == bddcost_null)
diff --git a/src/SAPPOROBDD/BDDCT.h b/src/SAPPOROBDD/BDDCT.h
index f1db9ab..e3e7d79 100644
--- a/src/SAPPOROBDD/BDDCT.h
+++ b/src/SAPPOROBDD/BDDCT.h
@@ -14,8 +14,8 @@ class BDDCT;
 #include <iostream>
 #include "ZBDD.h"
 
-typedef int bddcost;
-#define bddcost_null 0x7FFFFFFF
+typedef long long bddcost;
+#define bddcost_null 0x7FFFFFFFFFFFFFFFLL
 #define CT_STRLEN 15
 
 #include <map>
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 63760ac..e1cfe6d 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1281,7 +1281,7 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
   static char* kwlist[3] = {s1, s2, NULL};
   PyObject* costs_obj = NULL;
   bddcost cost_bound = 0;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "Oi", kwlist, &costs_obj, &cost_bound))
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "OL", kwlist, &costs_obj, &cost_bound))
     return NULL;
   if (costs_obj == NULL || costs_obj == Py_None) {
     PyErr_SetString(PyExc_ValueError, "no costs");
@@ -1304,7 +1304,7 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
         Py_DECREF(cost_iter);
         return NULL;
       }
-      costs.push_back(static_cast<int>(value));
+      costs.push_back(value);
     } else {
       Py_DECREF(cost);
       Py_DECREF(cost_iter);
-- 
2.43.0


From 84a78604fd6463850fa48d06b7d96c7f0d858c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 13/50] fix: memoised zdd results stay valid after garbage
 collection

---
 src/graphillion/zdd.cc | 52 ++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 411e250..ba4c5fb 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -113,29 +113,33 @@ zdd_t complement(zdd_t f, elem_t num_elems_a) {
 }
 
 zdd_t minimal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
+  // the value keeps the key's node alive so that its id is not reused
+  static map<word_t, pair<zdd_t, zdd_t> > cache;
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
+  map<word_t, pair<zdd_t, zdd_t> >::iterator i = cache.find(id(f));
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   zdd_t rl = minimal(lo(f));
   zdd_t r = minimal(hi(f));
   zdd_t rh = non_supersets(r, rl);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  cache[id(f)] = std::make_pair(f, r);
+  return r;
 }
 
 zdd_t maximal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
+  // the value keeps the key's node alive so that its id is not reused
+  static map<word_t, pair<zdd_t, zdd_t> > cache;
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
+  map<word_t, pair<zdd_t, zdd_t> >::iterator i = cache.find(id(f));
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   zdd_t r = maximal(lo(f));
   zdd_t rh = maximal(hi(f));
   zdd_t rl = non_subsets(r, rh);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  cache[id(f)] = std::make_pair(f, r);
+  return r;
 }
 
 zdd_t hitting(zdd_t f, elem_t num_elems_a) {
@@ -191,7 +195,8 @@ zdd_t meet(zdd_t f, zdd_t g) {
 }
 
 zdd_t non_subsets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
+  // the value keeps the key's nodes alive so that their ids are not reused
+  static map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> > cache;
   if (g == bot())
     return f;
   else if (g == top())
@@ -199,9 +204,10 @@ zdd_t non_subsets(zdd_t f, zdd_t g) {
   else if (f == bot() || f == top() || f == g)
     return bot();
   pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
+  map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> >::iterator i =
+      cache.find(k);
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   zdd_t r, r2, rl, rh;
   if (elem(f) < elem(g)) {
     rl = non_subsets(lo(f), g);
@@ -219,11 +225,13 @@ zdd_t non_subsets(zdd_t f, zdd_t g) {
     r2 = lo(g) | hi(g);
     r = non_subsets(f, r2);
   }
-  return cache[k] = r;
+  cache[k] = std::make_pair(std::make_pair(f, g), r);
+  return r;
 }
 
 zdd_t non_supersets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
+  // the value keeps the key's nodes alive so that their ids are not reused
+  static map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> > cache;
   if (g == bot())
     return f;
   else if (f == bot() || g == top() || f == g)
@@ -233,9 +241,10 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
   else if (elem(f) > elem(g))
     return non_supersets(f, lo(g));
   pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
+  map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> >::iterator i =
+      cache.find(k);
   if (i != cache.end())
-    return i->second;
+    return i->second.second;
   elem_t v = elem(f);
   zdd_t r;
   zdd_t rl;
@@ -250,7 +259,8 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
     rl = non_supersets(lo(f), lo(g));
   }
   r = zuniq(v, rl, rh);
-  return cache[k] = r;
+  cache[k] = std::make_pair(std::make_pair(f, g), r);
+  return r;
 }
 
 bool choose(zdd_t f, vector<elem_t>* stack) {
@@ -563,13 +573,15 @@ void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
 
 // Algorithm C modified for ZDD, from Knuth vol. 4 fascicle 1 sec. 7.1.4 (p.75).
 double algo_c(zdd_t f) {
-  static map<word_t, double> counts;
+  // the value keeps the key's node alive so that its id is not reused
+  static map<word_t, pair<zdd_t, double> > counts;
   if (is_term(f))
     return f == top() ? 1 : 0;
   else if (counts.find(id(f)) != counts.end())
-    return counts.at(id(f));
-  else
-    return counts[id(f)] = algo_c(hi(f)) + algo_c(lo(f));
+    return counts.at(id(f)).second;
+  double count = algo_c(hi(f)) + algo_c(lo(f));
+  counts[id(f)] = std::make_pair(f, count);
+  return count;
 }
 
 static double skip_probability(elem_t e, zdd_t f,
-- 
2.43.0


From c5c3deb0d0e2b2ad4d127612eca4dc59e54ba19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 14/50] fix: quotient and remainder by an empty family raise
 ZeroDivisionError

---
 src/pygraphillion.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index e1cfe6d..00a3e50 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -551,23 +551,35 @@ static PyObject* setset_symmetric_difference_update_multi(PySetsetObject* self,
   UPDATE_FOR_MULTI(self, others, setset_symmetric_difference_update);
 }
 
+#define CHECK_DIVISOR_OR_ERROR(self, other) do { \
+  PySetsetObject* _divisor = reinterpret_cast<PySetsetObject*>(other); \
+  if (_divisor->ss->empty() && !(self)->ss->empty()) { \
+    PyErr_SetString(PyExc_ZeroDivisionError, "division by an empty family"); \
+    return NULL; \
+  } \
+} while (0)
+
 static PyObject* setset_quotient(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(self, other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) / (*_other->ss));
 }
 
 static PyObject* setset_quotient_update(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(self, other);
   RETURN_SELF_SETSET(self, other, _other, (*self->ss) /= (*_other->ss));
 }
 
 static PyObject* setset_remainder(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(self, other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) % (*_other->ss));
 }
 
 static PyObject* setset_remainder_update(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(self, other);
   RETURN_SELF_SETSET(self, other, _other, (*self->ss) %= (*_other->ss));
 }
 
-- 
2.43.0


From 74167cbe5ce9e5deb5d73592b3dc514d4154e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 15/50] fix: remove(vertex) fails only if no graph has the
 vertex, and then changes nothing

---
 graphillion/digraphset.py | 5 ++++-
 graphillion/graphset.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index bc85e20..7d9b047 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -870,7 +870,10 @@ class DiGraphSet(object):
         if type == 'graph' or type == 'edge':
             self._ss.remove(DiGraphSet._objtable, obj)
         elif type == 'vertex':
-            for edge in obj:
+            edges = [edge for edge in obj if edge in self]
+            if not edges:
+                raise KeyError("not found")
+            for edge in edges:
                 self.remove(edge)
         else:
             raise TypeError(obj)
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 6c509d2..98b49f7 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -885,7 +885,10 @@ class GraphSet(object):
         if type == 'graph' or type == 'edge':
             self._ss.remove(Universe.e_objtable, obj)
         elif type == 'vertex':
-            for edge in obj:
+            edges = [edge for edge in obj if edge in self]
+            if not edges:
+                raise KeyError("not found")
+            for edge in edges:
                 self.remove(edge)
         else:
             raise TypeError(obj)
-- 
2.43.0


From 8c776375a5c33cada6e5f40aebe1c09fee3f112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 16/50] fix: set_universe() accepts vertices whose repr cannot
 be evaluated

---
 graphillion/universe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 068c0ff..0904eef 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -238,7 +238,8 @@ class Universe:
             Universe.e_objtable.add_elem(e)
 
         from graphillion.setset_base import setset_base
-        vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
+        repr2vertex = {repr(v): v for v in Universe.vertices}
+        vertex_universe = [repr2vertex[v] for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
         Universe._set_ev_universe(sorted_edges)
-- 
2.43.0


From fb51abc1d6a7d00aeb97260ea4fde888e5b41067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 17/50] fix: DiGraphSet type methods can be called on an object

---
 graphillion/digraphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 7d9b047..ea346fe 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -143,7 +143,7 @@ class DiGraphSet(object):
                    'rooted_trees', 'graphs']
         for method in methods:
             setattr(self, method, partial(
-                getattr(DiGraphSet, method), DiGraphSet=self))
+                getattr(DiGraphSet, method), graphset=self))
 
     def copy(self):
         """Returns a new DiGraphSet with a shallow copy of `self`.
-- 
2.43.0


From 102157a04f6f71937e6ab9ffa30994a48be9a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 18/50] fix: DiGraphSet bfs and dfs traversals keep
 antiparallel edges

---
 graphillion/digraphset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index ea346fe..a4226f9 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -2120,6 +2120,8 @@ class DiGraphSet(object):
                     if v in visited_vertices:
                         e = (u, v) if (u, v) in indexed_edges else (v, u)
                         sorted_edges.append(e)
+                        if (e[1], e[0]) in indexed_edges:
+                            sorted_edges.append((e[1], e[0]))
                 new_vertices = neighbors[u] - \
                     visited_vertices - set(queue_or_stack)
                 queue_or_stack.extend(sorted(new_vertices))
-- 
2.43.0


From 96c87bc8fcd17a07b1df8321b851f037db70283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 19/50] fix: equal vertices are the same vertex whatever their
 pickles and reprs

---
 graphillion/digraphset.py | 45 +++++++++++++++------------------
 graphillion/graphset.py   | 53 ++++++++++++++++++---------------------
 graphillion/universe.py   | 13 ++++++++++
 3 files changed, 57 insertions(+), 54 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index a4226f9..eb62a02 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -22,9 +22,8 @@
 
 from functools import partial
 import _graphillion
-from graphillion.universe import ObjectTable
+from graphillion.universe import ObjectTable, vertex_name
 from graphillion.setset_base import setset_base
-import pickle
 import heapq
 
 
@@ -1662,8 +1661,7 @@ class DiGraphSet(object):
         saved separately by pickle.
 
         Examples:
-          >>> import pickle
-          >>> fp = open('/path/to/DiGraphSet', 'wb')
+          >>>           >>> fp = open('/path/to/DiGraphSet', 'wb')
           >>> gs.dump(fp)
           >>> fp = open('/path/to/universe' 'wb')
           >>> pickle.dump(DiGraphSet.universe(), fp)
@@ -1683,8 +1681,7 @@ class DiGraphSet(object):
         saved separately by pickle.
 
         Examples:
-          >>> import pickle
-          >>> DiGraphSet_str = gs.dumps()
+          >>>           >>> DiGraphSet_str = gs.dumps()
           >>> universe_str = pickle.dumps(DiGraphSet.universe())
 
         See Also:
@@ -1703,8 +1700,7 @@ class DiGraphSet(object):
           fp: A read-supporting file-like object.
 
         Examples:
-          >>> import pickle
-          >>> fp = open('/path/to/universe')
+          >>>           >>> fp = open('/path/to/universe')
           >>> DiGraphSet.set_universe(pickle.load(fp), traversal='as-is')
           >>> fp = open('/path/to/DiGraphSet')
           >>> gs = DiGraphSet.load(fp)
@@ -1725,8 +1721,7 @@ class DiGraphSet(object):
           s: A string instance.
 
         Examples:
-          >>> import pickle
-          >>> DiGraphSet.set_universe(pickle.loads(universe_str), traversal='as-is')
+          >>>           >>> DiGraphSet.set_universe(pickle.loads(universe_str), traversal='as-is')
           >>> gs = DiGraphSet.load(DiGraphSet_str)
 
         See Also:
@@ -1831,7 +1826,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1857,7 +1852,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1894,14 +1889,14 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
         assert(s in DiGraphSet._vertices and t in DiGraphSet._vertices)
 
         ss = _graphillion._directed_st_path(
-            graph=graph, s=pickle.dumps(s, protocol=0), t=pickle.dumps(t, protocol=0),
+            graph=graph, s=vertex_name(s), t=vertex_name(t),
             is_hamiltonian=is_hamiltonian, search_space=ss)
         return DiGraphSet(ss)
 
@@ -1930,13 +1925,13 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         rs = []
         if roots is not None:
             for root in roots:
                 assert root in DiGraphSet._vertices
-                rs.append(pickle.dumps(root, protocol=0))
+                rs.append(vertex_name(root))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1971,12 +1966,12 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
         ss = _graphillion._rooted_trees(
-            graph=graph, root=pickle.dumps(root, protocol=0), is_spanning=is_spanning, search_space=ss)
+            graph=graph, root=vertex_name(root), is_spanning=is_spanning, search_space=ss)
         return DiGraphSet(ss)
 
     @staticmethod
@@ -2010,7 +2005,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         in_dc = None
         if in_degree_constraints is not None:
@@ -2019,11 +2014,11 @@ class DiGraphSet(object):
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    in_dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    in_dc[vertex_name(v)] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    in_dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    in_dc[vertex_name(v)] = (r[0], r[0] + 1, 1)
                 else:
-                    in_dc[pickle.dumps(v, protocol=0)] = (
+                    in_dc[vertex_name(v)] = (
                         r[0], r[-1] + 1, r[1] - r[0])
 
         out_dc = None
@@ -2033,11 +2028,11 @@ class DiGraphSet(object):
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    out_dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    out_dc[vertex_name(v)] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    out_dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    out_dc[vertex_name(v)] = (r[0], r[0] + 1, 1)
                 else:
-                    out_dc[pickle.dumps(v, protocol=0)] = (
+                    out_dc[vertex_name(v)] = (
                         r[0], r[-1] + 1, r[1] - r[0])
 
         ss = None if graphset is None else graphset._ss
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 98b49f7..d474105 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -23,9 +23,8 @@
 from functools import partial
 from builtins import range, int
 import _graphillion
-from graphillion.universe import Universe
+from graphillion.universe import Universe, vertex_name
 from graphillion.setset_base import setset_base
-import pickle
 
 class GraphSet(object):
     """Represents and manipulates a set of graphs.
@@ -1733,8 +1732,7 @@ class GraphSet(object):
         saved separately by pickle.
 
         Examples:
-          >>> import pickle
-          >>> fp = open('/path/to/graphset', 'wb')
+          >>>           >>> fp = open('/path/to/graphset', 'wb')
           >>> gs.dump(fp)
           >>> fp = open('/path/to/universe' 'wb')
           >>> pickle.dump(GraphSet.universe(), fp)
@@ -1754,8 +1752,7 @@ class GraphSet(object):
         saved separately by pickle.
 
         Examples:
-          >>> import pickle
-          >>> graphset_str = gs.dumps()
+          >>>           >>> graphset_str = gs.dumps()
           >>> universe_str = pickle.dumps(GraphSet.universe())
 
         See Also:
@@ -1774,8 +1771,7 @@ class GraphSet(object):
           fp: A read-supporting file-like object.
 
         Examples:
-          >>> import pickle
-          >>> fp = open('/path/to/universe')
+          >>>           >>> fp = open('/path/to/universe')
           >>> GraphSet.set_universe(pickle.load(fp), traversal='as-is')
           >>> fp = open('/path/to/graphset')
           >>> gs = GraphSet.load(fp)
@@ -1796,8 +1792,7 @@ class GraphSet(object):
           s: A string instance.
 
         Examples:
-          >>> import pickle
-          >>> GraphSet.set_universe(pickle.loads(universe_str), traversal='as-is')
+          >>>           >>> GraphSet.set_universe(pickle.loads(universe_str), traversal='as-is')
           >>> gs = GraphSet.loads(graphset_str)
 
         See Also:
@@ -1925,7 +1920,7 @@ class GraphSet(object):
         graph = []
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append((pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((vertex_name(e[0]), vertex_name(e[1])))
 
         vg = []
         nc = 0
@@ -1937,7 +1932,7 @@ class GraphSet(object):
                     for v in vs:
                         if v not in Universe.vertices:
                             raise KeyError(v)
-                    vg.append([pickle.dumps(v, protocol=0) for v in vs])
+                    vg.append([vertex_name(v) for v in vs])
         if not vg and nc == 0:
             nc = -1
 
@@ -1948,11 +1943,11 @@ class GraphSet(object):
                 if v not in Universe.vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    dc[vertex_name(v)] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    dc[vertex_name(v)] = (r[0], r[0] + 1, 1)
                 else:
-                    dc[pickle.dumps(v, protocol=0)] = (r[0], r[-1] + 1, r[1] - r[0])
+                    dc[vertex_name(v)] = (r[0], r[-1] + 1, r[1] - r[0])
 
         ne = None
         if num_edges is not None:
@@ -1972,8 +1967,8 @@ class GraphSet(object):
             for c in linear_constraints:
                 expr = []
                 for we in c[0]:
-                    u = pickle.dumps(we[0], protocol=0)
-                    v = pickle.dumps(we[1], protocol=0)
+                    u = vertex_name(we[0])
+                    v = vertex_name(we[1])
                     w = float(we[2]) if len(we) >= 3 else 1.0
                     expr.append((u, v, w))
                 min = float(c[1][0])
@@ -2480,7 +2475,7 @@ class GraphSet(object):
         graph = []
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append((pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((vertex_name(e[0]), vertex_name(e[1])))
 
         if degree == None:
             degree = (1, len(Universe.vertices))
@@ -2512,7 +2507,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         odd_gs = GraphSet(_graphillion._odd_edges_subgraphs(graph))
         odd_cycle_gs = odd_gs.cycles()
@@ -2674,7 +2669,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         ss = None if graphset is None else graphset._ss
         ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, ss)
@@ -2718,7 +2713,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-              (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+              (vertex_name(e[0]), vertex_name(e[1])))
 
         ss = _graphillion._partitions(
           graph=graph, num_comp_lb=num_comp_lb, num_comp_ub=num_comp_ub)
@@ -2754,7 +2749,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         wl = None
         if weight_list is not None:
@@ -2762,7 +2757,7 @@ class GraphSet(object):
             for v, r in weight_list.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                wl[pickle.dumps(v, protocol=0)] = r
+                wl[vertex_name(v)] = r
 
         ss = _graphillion._balanced_partitions(
             graph=graph, weight_list=wl, ratio=ratio, lower=lower, upper=upper, num_comps=num_comps)
@@ -2784,7 +2779,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         ss = _graphillion._induced_graphs(graph=graph)
         return GraphSet(ss)
@@ -2814,7 +2809,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         wl = None
         if weight_list is not None:
@@ -2822,7 +2817,7 @@ class GraphSet(object):
             for v, r in weight_list.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                wl[pickle.dumps(v, protocol=0)] = r
+                wl[vertex_name(v)] = r
 
         ss = _graphillion._weighted_induced_graphs(graph=graph, weight_list=wl, lower=lower, upper=upper)
         return GraphSet(ss)
@@ -2841,7 +2836,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         ss = None if forbidden_graphset is None else forbidden_graphset._ss
 
@@ -2879,14 +2874,14 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (vertex_name(e[0]), vertex_name(e[1])))
 
         terms = []
         if terminals is not None:
             for v in terminals:
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                terms.append(pickle.dumps(v, protocol=0))
+                terms.append(vertex_name(v))
 
         #ps = [1.0] * (_graphillion._num_elems())
         ps = [1.0] * (Universe.e_objtable.num_elems())
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 0904eef..cc1b22f 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -19,6 +19,16 @@
 
 import _graphillion
 import heapq
+import pickle
+
+_vertex_names = {}
+
+def vertex_name(v):
+    # The name of vertex `v` in the C++ modules.  Equal vertices must have
+    # equal names, while the pickles of equal objects can be different.
+    if v not in _vertex_names:
+        _vertex_names[v] = pickle.dumps(v, protocol=0)
+    return _vertex_names[v]
 
 """
 ObjectTable class manages the universe of each class such as GraphSet and VertexSetSet.
@@ -213,6 +223,9 @@ class Universe:
         Universe.weights = {}
         from graphillion import GraphSet  # avoid circular import
         universe = GraphSet.converters['to_edges'](universe)
+        labels = {}  # one object for equal vertices
+        universe = [tuple(labels.setdefault(v, v) for v in e[:2]) + tuple(e[2:])
+                    for e in universe]
         for e in universe:
             if e[:2] in indexed_edges or (e[1], e[0]) in indexed_edges:
                 raise KeyError(e)
-- 
2.43.0


From f08fb222ee5c135d766ed0902a4205d9206c1bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 20/50] fix: load() consumes exactly one family of a file that
 holds several

---
 src/graphillion/zdd.cc | 7 +++++--
 src/pygraphillion.cc   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index ba4c5fb..2c6d9be 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -435,8 +435,11 @@ zdd_t load(FILE* fp) {
   char buf[256];
   if (fgets(buf, sizeof(buf), fp) == NULL) return null();
   string line = buf;
-  if      (line[0] == 'B' && (line.length() == 1 || is_space(line.substr(1)))) return bot();
-  else if (line[0] == 'T' && (line.length() == 1 || is_space(line.substr(1)))) return top();
+  if ((line[0] == 'B' || line[0] == 'T') && (line.length() == 1 || is_space(line.substr(1)))) {
+    zdd_t f = line[0] == 'B' ? bot() : top();
+    if (fgets(buf, sizeof(buf), fp) == NULL) return f;  // skip the end mark
+    return f;
+  }
   map<word_t, zdd_t> n;
   n[id(bot())] = bot();
   n[id(top())] = top();
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 00a3e50..b97af08 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1150,6 +1150,7 @@ static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
     return NULL;
   }
 
+  fflush(fp);  // give back what was read ahead, if `fp` can be seeked
   if (fclose(fp) != 0) {
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
-- 
2.43.0


From f1168ac79fe40b0899117943957b93e929bb3e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 21/50] fix: a rejected set_universe() leaves the current
 universe unchanged

---
 graphillion/digraphset.py | 7 ++++---
 graphillion/universe.py   | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index eb62a02..9dd4fa3 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1757,8 +1757,7 @@ class DiGraphSet(object):
         """
         sorted_edges = []
         indexed_edges = set()
-        DiGraphSet._vertices = set()
-        DiGraphSet._weights = {}
+        weights = {}
         universe = DiGraphSet.converters['to_edges'](universe)
         for e in universe:
             if e[:2] in indexed_edges:  # directed
@@ -1766,7 +1765,7 @@ class DiGraphSet(object):
             sorted_edges.append(e[:2])
             indexed_edges.add(e[:2])
             if len(e) > 2:
-                DiGraphSet._weights[e[:2]] = e[2]
+                weights[e[:2]] = e[2]
         if traversal != 'as-is':
             if source is None:
                 source = sorted_edges[0][0]
@@ -1774,6 +1773,8 @@ class DiGraphSet(object):
                     source = min(e[0], e[1], source)
             sorted_edges = DiGraphSet._traverse(
                 indexed_edges, traversal, source)
+        DiGraphSet._vertices = set()
+        DiGraphSet._weights = weights
         for u, v in sorted_edges:
             DiGraphSet._vertices.add(u)
             DiGraphSet._vertices.add(v)
diff --git a/graphillion/universe.py b/graphillion/universe.py
index cc1b22f..8d9e7a8 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -219,8 +219,7 @@ class Universe:
             raise ValueError("The universe must not be empty.")
         sorted_edges = []
         indexed_edges = set()
-        Universe.vertices = set()
-        Universe.weights = {}
+        edge_weights = {}
         from graphillion import GraphSet  # avoid circular import
         universe = GraphSet.converters['to_edges'](universe)
         labels = {}  # one object for equal vertices
@@ -232,9 +231,9 @@ class Universe:
             sorted_edges.append(e[:2])
             indexed_edges.add(e[:2])
             if len(e) > 2:
-                Universe.weights[e[:2]] = e[2]
+                edge_weights[e[:2]] = e[2]
             elif weights is not None and e in weights:
-                Universe.weights[e] = weights[e]
+                edge_weights[e] = weights[e]
 
         if traversal != 'as-is':
             if source is None:
@@ -242,6 +241,8 @@ class Universe:
                 for e in sorted_edges:
                     source = min(e[0], e[1], source)
             sorted_edges = Universe._traverse(indexed_edges, traversal, source)
+        Universe.vertices = set()
+        Universe.weights = edge_weights
         for u, v in sorted_edges:
             Universe.vertices.add(u)
             Universe.vertices.add(v)
-- 
2.43.0


From ebbf8dd96c444556f079b76238ae4a16fbec72c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 22/50] fix: unknown vertices do not extend the edge-vertex
 universe

---
 graphillion/edgevertex_setset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 6c3acb9..fe45ace 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -130,8 +130,9 @@ class EdgeVertexSetSet(object):
                 for edgesvertices in obj:
                     if not isinstance(edgesvertices, (set, frozenset, list)):
                         raise KeyError(edgesvertices)
+                    edgesvertices = set([EdgeVertexSetSet._conv_edgevertex(e) for e in edgesvertices])
                     EdgeVertexSetSet._check_consistency(edgesvertices)
-                    l.append(set([EdgeVertexSetSet._conv_edgevertex(e) for e in edgesvertices]))
+                    l.append(edgesvertices)
                 obj = l
             elif isinstance(obj, dict):
                 raise TypeError("graphset_or_constraints does not support dict other than {}")
@@ -1570,8 +1571,10 @@ class EdgeVertexSetSet(object):
 
     @staticmethod
     def _conv_edgevertex(edge_or_vertex):
+        if edge_or_vertex in Universe.ev_objtable.obj2int:
+            return edge_or_vertex
         if not isinstance(edge_or_vertex, tuple) or len(edge_or_vertex) < 2:
-            return edge_or_vertex # interpret it as a vertex
+            raise KeyError(edge_or_vertex)
         if len(edge_or_vertex) > 2:
             edge_or_vertex = edge_or_vertex[:2]
         if edge_or_vertex in Universe.ev_objtable.obj2int:
-- 
2.43.0


From ba7129e3b59af02eee3373854f0bd30bfeb034cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 23/50] fix: a vertex labelled with a tuple can be given as a
 vertex

---
 graphillion/digraphset.py        | 8 ++++++--
 graphillion/edgevertex_setset.py | 2 +-
 graphillion/graphset.py          | 8 ++++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 9dd4fa3..669fd59 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -2143,8 +2143,12 @@ class DiGraphSet(object):
         elif isinstance(obj, (set, frozenset, list)):
             return 'graph', set([DiGraphSet._conv_edge(e) for e in obj])
         elif isinstance(obj, tuple):
-            return 'edge', DiGraphSet._conv_edge(obj)
-        elif obj in DiGraphSet._vertices:
+            try:
+                return 'edge', DiGraphSet._conv_edge(obj)
+            except KeyError:
+                if not any(obj == v for v in DiGraphSet._vertices):
+                    raise
+        if obj in DiGraphSet._vertices:
             return 'vertex', [e for e in DiGraphSet._objtable.universe() if obj in e]
         try:
             edges = DiGraphSet.converters['to_edges'](obj)
diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index fe45ace..26efa20 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1562,7 +1562,7 @@ class EdgeVertexSetSet(object):
             return 'edgevertexsetset', obj
         elif isinstance(obj, (set, frozenset, list)):
             return 'edgesvertices', set([EdgeVertexSetSet._conv_edgevertex(e) for e in obj])
-        elif isinstance(obj, tuple):
+        elif isinstance(obj, tuple) and not any(obj == v for v in Universe.vertices):
             return 'edge', EdgeVertexSetSet._conv_edgevertex(obj)
         elif obj in Universe.edge_vertex_kind and not Universe.edge_vertex_kind[obj]: # obj is a vertex
             return 'vertex', obj
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index d474105..6bd9205 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2954,8 +2954,12 @@ class GraphSet(object):
         elif isinstance(obj, (set, frozenset, list)):
             return 'graph', set([GraphSet._conv_edge(e) for e in obj])
         elif isinstance(obj, tuple):
-            return 'edge', GraphSet._conv_edge(obj)
-        elif obj in Universe.vertices:
+            try:
+                return 'edge', GraphSet._conv_edge(obj)
+            except KeyError:
+                if not any(obj == v for v in Universe.vertices):
+                    raise
+        if obj in Universe.vertices:
             return 'vertex', [e for e in Universe.e_objtable.universe() if obj in e]
         try:
             edges = GraphSet.converters['to_edges'](obj)
-- 
2.43.0


From 54b75c5fa487e3af8b05a52ea57761ad8b187df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 24/50] fix: weighted edges with attributes in edge-vertex sets
 stay accepted

---
 graphillion/edgevertex_setset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 26efa20..932bb48 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1571,10 +1571,12 @@ class EdgeVertexSetSet(object):
 
     @staticmethod
     def _conv_edgevertex(edge_or_vertex):
-        if edge_or_vertex in Universe.ev_objtable.obj2int:
-            return edge_or_vertex
         if not isinstance(edge_or_vertex, tuple) or len(edge_or_vertex) < 2:
-            raise KeyError(edge_or_vertex)
+            if edge_or_vertex not in Universe.vertices:
+                raise KeyError(edge_or_vertex)
+            return edge_or_vertex # interpret it as a vertex
+        if any(edge_or_vertex == v for v in Universe.vertices):
+            return edge_or_vertex
         if len(edge_or_vertex) > 2:
             edge_or_vertex = edge_or_vertex[:2]
         if edge_or_vertex in Universe.ev_objtable.obj2int:
-- 
2.43.0


From 1614eba3e6db973db9bf122012f54beb637debf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 25/50] fix: an empty digraph universe is rejected

---
 graphillion/digraphset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 669fd59..16b8d6a 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1766,6 +1766,8 @@ class DiGraphSet(object):
             indexed_edges.add(e[:2])
             if len(e) > 2:
                 weights[e[:2]] = e[2]
+        if not sorted_edges:
+            raise ValueError("The universe must not be empty.")
         if traversal != 'as-is':
             if source is None:
                 source = sorted_edges[0][0]
-- 
2.43.0


From 29f8c20396768fe60c54a1328e6d32fa782ac27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 26/50] fix: bipartite_graphs() adds the empty graph only if it
 is in the given family

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 6bd9205..3d48d80 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2519,7 +2519,7 @@ class GraphSet(object):
 
         if is_connected:
             # The empty set is a bipartite graph.
-            return gs.graphs(vertex_groups=[[]]) | GraphSet([[]])
+            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet([[]]))
         else:
             return gs
 
-- 
2.43.0


From cfab7e2a43d600da55e376105f2b1ab77b530574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 27/50] fix: in-place updates with several operands use the
 operands' values and fail atomically

---
 src/pygraphillion.cc | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index b97af08..9706f05 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -153,17 +153,13 @@ using std::vector;
     return _result;                                                     \
   } while (0);
 
+// Computes the new value before `self` is touched; `self` may be among `others`.
 #define UPDATE_FOR_MULTI(self, others, expr)                           \
   do {                                                                 \
-    for (Py_ssize_t _i = 0; _i < PyTuple_GET_SIZE(others); ++_i) {     \
-      PyObject* _other = PyTuple_GET_ITEM(others, _i);                 \
-      if (_other == NULL) {                                            \
-        PyErr_SetString(PyExc_TypeError, "invalid tuple element");     \
-        return NULL;                                                   \
-      }                                                                \
-      if (expr(self, _other) == NULL)                                  \
-        return NULL;                                                   \
-    }                                                                  \
+    PyObject* _result = expr(self, others);                            \
+    if (_result == NULL) return NULL;                                  \
+    *(self)->ss = *reinterpret_cast<PySetsetObject*>(_result)->ss;     \
+    Py_DECREF(_result);                                                \
     Py_RETURN_NONE;                                                    \
   } while (0);
 
@@ -494,7 +490,7 @@ static PyObject* setset_update(PySetsetObject* self, PyObject* other) {
 }
 
 static PyObject* setset_update_multi(PySetsetObject* self, PyObject* others) {
-  UPDATE_FOR_MULTI(self, others, setset_update);
+  UPDATE_FOR_MULTI(self, others, setset_union_multi);
 }
 
 static PyObject* setset_intersection(PySetsetObject* self, PyObject* other) {
@@ -512,7 +508,7 @@ static PyObject* setset_intersection_update(PySetsetObject* self, PyObject* othe
 }
 
 static PyObject* setset_intersection_update_multi(PySetsetObject* self, PyObject* others) {
-  UPDATE_FOR_MULTI(self, others, setset_intersection_update);
+  UPDATE_FOR_MULTI(self, others, setset_intersection_multi);
 }
 
 static PyObject* setset_difference(PySetsetObject* self, PyObject* other) {
@@ -530,7 +526,7 @@ static PyObject* setset_difference_update(PySetsetObject* self, PyObject* other)
 }
 
 static PyObject* setset_difference_update_multi(PySetsetObject* self, PyObject* others) {
-  UPDATE_FOR_MULTI(self, others, setset_difference_update);
+  UPDATE_FOR_MULTI(self, others, setset_difference_multi);
 }
 
 static PyObject* setset_symmetric_difference(PySetsetObject* self, PyObject* other) {
@@ -548,7 +544,7 @@ static PyObject* setset_symmetric_difference_update(PySetsetObject* self, PyObje
 }
 
 static PyObject* setset_symmetric_difference_update_multi(PySetsetObject* self, PyObject* others) {
-  UPDATE_FOR_MULTI(self, others, setset_symmetric_difference_update);
+  UPDATE_FOR_MULTI(self, others, setset_symmetric_difference_multi);
 }
 
 #define CHECK_DIVISOR_OR_ERROR(self, other) do { \
-- 
2.43.0


From 74a58aeabe1911a3f93312c260cf01f90c39192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 28/50] fix: every subset of the universe is a hitting set of
 the empty family

---
 src/graphillion/zdd.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 2c6d9be..5cd03aa 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -143,7 +143,12 @@ zdd_t maximal(zdd_t f) {
 }
 
 zdd_t hitting(zdd_t f, elem_t num_elems_a) {
-  if (f == bot()) return top();
+  if (f == bot()) {  // every set meets all members of the empty family
+    zdd_t g = top();
+    for (elem_t j = num_elems_a; j > 0; --j)
+      g = g + g.Change(j);
+    return g;
+  }
   if (f == top()) return bot();
   vector<vector<zdd_t> > stacks(num_elems_a + 1);
   set<word_t> visited;
-- 
2.43.0


From f70f4f172a6b86e09bf09b3f2b6d26849dc110c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 29/50] fix: non_supersets drops the empty set when the operand
 has it among others

---
 src/graphillion/zdd.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 5cd03aa..af5ad02 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -241,9 +241,7 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
     return f;
   else if (f == bot() || g == top() || f == g)
     return bot();
-  else if (f == top())
-    return top();
-  else if (elem(f) > elem(g))
+  else if (f == top() || elem(f) > elem(g))
     return non_supersets(f, lo(g));
   pair<word_t, word_t> k = make_key(f, g);
   map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> >::iterator i =
-- 
2.43.0


From 1adb59c15b4c5e1bd47aea1fb23f54f835f616db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 30/50] fix: digraph degree constraints allow degrees to build
 up to their lower bound

---
 src/graphillion/digraphs/FrontierDegreeSpecified.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
index f6a84da..e462ce1 100644
--- a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
+++ b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
@@ -138,13 +138,13 @@ class FrontierDegreeSpecifiedSpec
       // increment deg of v1 and v2 (recall that edge = {v1, v2})
       auto outdeg1 = getOutdeg(data, edge.v1);
       assert(1 <= edge.v1 && edge.v1 < (int)out_constraints.size());
-      if (!out_constraints.at(edge.v1).contains(outdeg1 + 1)) {
+      if (outdeg1 + 1 > out_constraints.at(edge.v1).upperBound()) {
         return 0;
       }
 
       auto indeg2 = getIndeg(data, edge.v2);
       assert(1 <= edge.v2 && edge.v2 < (int)in_constraints.size());
-      if (!in_constraints.at(edge.v2).contains(indeg2 + 1)) {
+      if (indeg2 + 1 > in_constraints.at(edge.v2).upperBound()) {
         return 0;
       }
       setIndeg(data, edge.v2, indeg2 + 1);
-- 
2.43.0


From 73b48a420713cca703212d7447d8479227c7ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 31/50] fix: spanning rooted trees of a disconnected digraph do
 not exist

---
 src/graphillion/digraphs/FrontierRootedTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/digraphs/FrontierRootedTree.hpp b/src/graphillion/digraphs/FrontierRootedTree.hpp
index 6f7967e..6519f9f 100644
--- a/src/graphillion/digraphs/FrontierRootedTree.hpp
+++ b/src/graphillion/digraphs/FrontierRootedTree.hpp
@@ -260,7 +260,8 @@ class FrontierRootedTreeSpec
           // Then, we return the 1-terminal
 
           if (isSpanning_) {
-            if (frontier_exists) {
+            // vertices of the remaining edges, if any, would stay isolated
+            if (frontier_exists || level > 1) {
               return 0;
             } else {
               return -1;  // return the 1-terminal
-- 
2.43.0


From e85c63d0febd9d7e28cc6b7d30eed022792248bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:42 +0000
Subject: [PATCH 32/50] fix: vertex labels with commas are accepted by the
 graph constructors

---
 graphillion/universe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 8d9e7a8..2923776 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -27,7 +27,9 @@ def vertex_name(v):
     # The name of vertex `v` in the C++ modules.  Equal vertices must have
     # equal names, while the pickles of equal objects can be different.
     if v not in _vertex_names:
-        _vertex_names[v] = pickle.dumps(v, protocol=0)
+        # the C++ modules do not accept commas in names
+        _vertex_names[v] = pickle.dumps(v, protocol=0) \
+            .replace(b'%', b'%25').replace(b',', b'%2c')
     return _vertex_names[v]
 
 """
-- 
2.43.0


From 244cbbcd3e831375d386d8035c69125f9d102547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 33/50] fix: induced graphs compare the second endpoint in
 place, not a copy of it

---
 src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
index bf80b37..a47fb94 100644
--- a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
+++ b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
@@ -141,7 +141,7 @@ class ConnectedInducedSubgraphSpec
   std::vector<Vec2> neighborList;
 
   int takable(Mate const* mate, tdzdd::Graph::EdgeInfo const& e) const {
-    Mate const &w1 = mate[e.v1 - e.v0], w2 = mate[e.v2 - e.v0];
+    Mate const &w1 = mate[e.v1 - e.v0], &w2 = mate[e.v2 - e.v0];
 
     if (!w1.isComponent() && w1.isMarked()) {
       return 0;
-- 
2.43.0


From b9848b6bc7f234c94d0fc73e5b1f8d56a8362cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 34/50] fix: a rejected vertex universe leaves the current one
 unchanged

---
 graphillion/universe.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 2923776..1520f46 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -303,32 +303,30 @@ class Universe:
           universe()
         """
 
-        vertex_num = len(universe)
-        if vertex_num != len(set(universe)):
-            raise ValueError("duplicated elements found")
-
-        Universe.v_objtable = ObjectTable()
-        if not Universe.weights:
-            Universe.weights = {}
-
-        for i, vertex in enumerate(universe):
+        new_weights = {}
+        for vertex in universe:
+            weight = None
             if not tuple_vertex and isinstance(vertex, tuple):
                 if len(vertex) == 2:
                     vertex, weight = vertex
-                    Universe.weights[vertex] = weight
                 elif len(vertex) == 1:
                     vertex = vertex[0]
-                    if weights is not None and vertex in weights:
-                        Universe.weights[vertex] = weights[vertex]
-                    else:
-                        Universe.weights[vertex] = 1
                 else:
                     raise TypeError(vertex)
-            else:
+            if vertex in new_weights:
+                raise ValueError("duplicated elements found")
+            if weight is None:
                 if weights is not None and vertex in weights:
-                    Universe.weights[vertex] = weights[vertex]
+                    weight = weights[vertex]
                 else:
-                    Universe.weights[vertex] = 1
+                    weight = 1
+            new_weights[vertex] = weight
+
+        Universe.v_objtable = ObjectTable()
+        if not Universe.weights:
+            Universe.weights = {}
+        for vertex, weight in new_weights.items():
+            Universe.weights[vertex] = weight
             Universe.v_objtable.add_elem(vertex)
 
     @staticmethod
-- 
2.43.0


From 1a676874aea17feb5c25496c1659efdc102fd929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 35/50] fix: reconfiguration steps do not reuse results cached
 under old variable levels

---
 src/graphillion/reconf.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/graphillion/reconf.cc b/src/graphillion/reconf.cc
index 638ed63..f3e1809 100644
--- a/src/graphillion/reconf.cc
+++ b/src/graphillion/reconf.cc
@@ -34,6 +34,12 @@ typedef unsigned long long int ullint;
 #define BC_ADDE_CPP     30
 #define BC_SWAPE_CPP    31
 
+// Levels are renumbered when a variable is inserted; variables are not.
+static bddword levelKey(int n, int lower)
+{
+  return (static_cast<bddword>(BDD_VarOfLev(n)) << 16) + BDD_VarOfLev(lower);
+}
+
 ZBDD removeSomeElement(const ZBDD& f)
 {
   if (f == ZBDD(0) || f == ZBDD(1)) {
@@ -89,7 +95,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
   }
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, levelKey(n, lower));
   if(h != -1) {
     return h;
   }
@@ -111,7 +117,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_ADDE_CPP, fx, levelKey(n, lower), h.GetID());
   }
 
   return h;
@@ -129,7 +135,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
   assert(flev <= n);
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, levelKey(n, lower));
   if(h != -1) {
     return h;
   }
@@ -155,7 +161,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_SWAPE_CPP, fx, levelKey(n, lower), h.GetID());
   }
 
   return h;
-- 
2.43.0


From f735ff1b68d310566d6f73f647a54c2ede463f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 36/50] fix: a pair is not an edge because its reversal is a
 vertex

---
 graphillion/edgevertex_setset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 932bb48..afa177d 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1581,7 +1581,8 @@ class EdgeVertexSetSet(object):
             edge_or_vertex = edge_or_vertex[:2]
         if edge_or_vertex in Universe.ev_objtable.obj2int:
             return edge_or_vertex
-        elif (edge_or_vertex[1], edge_or_vertex[0]) in Universe.ev_objtable.obj2int:
+        elif (edge_or_vertex[1], edge_or_vertex[0]) in Universe.ev_objtable.obj2int \
+                and (edge_or_vertex[1], edge_or_vertex[0]) not in Universe.vertices:
             return (edge_or_vertex[1], edge_or_vertex[0])
         raise KeyError(edge_or_vertex)
 
-- 
2.43.0


From 9c5c0c20a4d89acfc0cdecce5250ced86c341d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 37/50] fix: degree_distribution_graphs counts more than 255
 vertices and degrees

The counters and positions were kept in unsigned char, so distributions
with 256 or more vertices of one degree, and frontiers of 256 or more
vertices, gave wrong families.
---
 .../degree_distribution/DegreeDistributionSpec.h      | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/graphillion/degree_distribution/DegreeDistributionSpec.h b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
index 019725a..63af3c1 100644
--- a/src/graphillion/degree_distribution/DegreeDistributionSpec.h
+++ b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
@@ -8,10 +8,9 @@
 #include "graphillion/forbidden_induced/FrontierManager.h"
 #include "subsetting/util/IntSubset.hpp"
 
-typedef unsigned char uchar;
-typedef unsigned char DSData;
+typedef unsigned short DSData;
 
-const int DSData_MAX = UCHAR_MAX;
+const int DSData_MAX = USHRT_MAX;
 
 class DegreeDistributionSpec
   : public tdzdd::PodArrayDdSpec<DegreeDistributionSpec, DSData, 2> {
@@ -43,7 +42,7 @@ private:
   void setDeg(DSData* data, int v, int d) const {
     data[is_connected_ ?
       (fm_.vertexToPos(v) * 2) :
-      fm_.vertexToPos(v)] = static_cast<uchar>(d);
+      fm_.vertexToPos(v)] = static_cast<DSData>(d);
   }
 
   // This function gets comp of v.
@@ -56,13 +55,13 @@ private:
   void setComp(DSData* data, int v, int c) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(fm_.vertexToPos(c));
+      static_cast<DSData>(fm_.vertexToPos(c));
   }
 
   void clearComp(DSData* data, int v) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(-1);
+      static_cast<DSData>(-1);
   }
 
   void incrementFixedDeg(DSData* data, int d) const {
-- 
2.43.0


From 2c05cd9d6dabcda0e0eab613aa37bdce37c2cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 38/50] fix: regular_graphs with more than 255 vertices on the
 frontier

Degrees and positions were kept in unsigned char and wrapped around.
---
 src/graphillion/regular/RegularGraphs.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/graphillion/regular/RegularGraphs.cc b/src/graphillion/regular/RegularGraphs.cc
index 42eb906..1891b9d 100644
--- a/src/graphillion/regular/RegularGraphs.cc
+++ b/src/graphillion/regular/RegularGraphs.cc
@@ -11,10 +11,9 @@
 #include <vector>
 #include <climits>
 
-typedef unsigned char uchar;
-typedef unsigned char RData;
+typedef unsigned short RData;
 
-const int RData_MAX = UCHAR_MAX;
+const int RData_MAX = USHRT_MAX;
 
 class RegularSpec
   : public tdzdd::PodArrayDdSpec<RegularSpec, RData, 2> {
@@ -46,7 +45,7 @@ private:
   void setDeg(RData* data, int v, int d) const {
     data[is_connected_ ?
       (fm_.vertexToPos(v) * 2) :
-      fm_.vertexToPos(v)] = static_cast<uchar>(d);
+      fm_.vertexToPos(v)] = static_cast<RData>(d);
   }
 
   // This function gets comp of v.
@@ -59,12 +58,12 @@ private:
   void setComp(RData* data, int v, int c) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(fm_.vertexToPos(c));
+      static_cast<RData>(fm_.vertexToPos(c));
   }
 
   void clearComp(RData* data, int v) const {
     assert(is_connected_);
-    data[fm_.vertexToPos(v) * 2 + 1] = static_cast<uchar>(-1);
+    data[fm_.vertexToPos(v) * 2 + 1] = static_cast<RData>(-1);
   }
 
   int getFixedDeg(RData* data) const {
-- 
2.43.0


From 18ca3c11051f47ead93114190b27e0b89e2e4f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 39/50] fix: size filters treat sizes beyond 32 bits as larger
 than every set

---
 src/pygraphillion.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 9706f05..39b390e 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -609,6 +609,16 @@ static Py_ssize_t setset_len(PyObject* obj) {
   }
 }
 
+// The size a set is compared with.  A size that does not fit in int is
+// larger than every set.
+static int size_as_int(PyObject* obj) {
+  int overflow = 0;
+  long size = PyLong_AsLongAndOverflow(obj, &overflow);
+  if (overflow > 0 || size > INT_MAX) return INT_MAX;
+  if (overflow < 0 || size < INT_MIN) return INT_MIN;
+  return size;
+}
+
 static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
   PyObject* obj = NULL;
   if (!PyArg_ParseTuple(args, "|O", &obj)) {
@@ -628,7 +638,7 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
     }
     return result;
   } else if (PyLong_Check(obj)) {
-    int len = PyLong_AsLong(obj);
+    int len = size_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -938,7 +948,7 @@ static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = size_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -951,7 +961,7 @@ static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = size_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -964,7 +974,7 @@ static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_set_size(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = size_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
-- 
2.43.0


From a33479b263342b5ad2ca719ed2d5f6219cb0f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 40/50] fix: degree and size constraints accept empty,
 descending and very large ranges

---
 graphillion/digraphset.py | 18 +++---------------
 graphillion/graphset.py   | 17 +++--------------
 graphillion/universe.py   | 19 +++++++++++++++++++
 3 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 16b8d6a..8cf7855 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -22,7 +22,7 @@
 
 from functools import partial
 import _graphillion
-from graphillion.universe import ObjectTable, vertex_name
+from graphillion.universe import ObjectTable, range_tuple, vertex_name
 from graphillion.setset_base import setset_base
 import heapq
 
@@ -2016,13 +2016,7 @@ class DiGraphSet(object):
             for v, r in in_degree_constraints.items():
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
-                if isinstance(r, int):
-                    in_dc[vertex_name(v)] = (r, r + 1, 1)
-                elif len(r) == 1:
-                    in_dc[vertex_name(v)] = (r[0], r[0] + 1, 1)
-                else:
-                    in_dc[vertex_name(v)] = (
-                        r[0], r[-1] + 1, r[1] - r[0])
+                in_dc[vertex_name(v)] = range_tuple(r)
 
         out_dc = None
         if out_degree_constraints is not None:
@@ -2030,13 +2024,7 @@ class DiGraphSet(object):
             for v, r in out_degree_constraints.items():
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
-                if isinstance(r, int):
-                    out_dc[vertex_name(v)] = (r, r + 1, 1)
-                elif len(r) == 1:
-                    out_dc[vertex_name(v)] = (r[0], r[0] + 1, 1)
-                else:
-                    out_dc[vertex_name(v)] = (
-                        r[0], r[-1] + 1, r[1] - r[0])
+                out_dc[vertex_name(v)] = range_tuple(r)
 
         ss = None if graphset is None else graphset._ss
 
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 3d48d80..4098fc4 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -23,7 +23,7 @@
 from functools import partial
 from builtins import range, int
 import _graphillion
-from graphillion.universe import Universe, vertex_name
+from graphillion.universe import Universe, range_tuple, vertex_name
 from graphillion.setset_base import setset_base
 
 class GraphSet(object):
@@ -1942,22 +1942,11 @@ class GraphSet(object):
             for v, r in degree_constraints.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                if isinstance(r, int):
-                    dc[vertex_name(v)] = (r, r + 1, 1)
-                elif len(r) == 1:
-                    dc[vertex_name(v)] = (r[0], r[0] + 1, 1)
-                else:
-                    dc[vertex_name(v)] = (r[0], r[-1] + 1, r[1] - r[0])
+                dc[vertex_name(v)] = range_tuple(r)
 
         ne = None
         if num_edges is not None:
-            if isinstance(num_edges, int):
-                ne = (num_edges, num_edges + 1, 1)
-            elif len(num_edges) == 1:
-                ne = (num_edges[0], num_edges[0] + 1, 1)
-            else:
-                ne = (num_edges[0], num_edges[-1] + 1,
-                      num_edges[1] - num_edges[0])
+            ne = range_tuple(num_edges)
 
         ss = None if graphset is None else graphset._ss
 
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 1520f46..c47b8ad 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -32,6 +32,25 @@ def vertex_name(v):
             .replace(b'%', b'%25').replace(b',', b'%2c')
     return _vertex_names[v]
 
+def range_tuple(r):
+    # The degrees or numbers of edges in `r`, an int or a range, as
+    # (start, stop, step) for the C++ modules, which use 32 bit integers.
+    max_int = (1 << 31) - 2
+    if isinstance(r, int):
+        start, last, step = r, r, 1
+    elif not r:
+        start, last, step = 1, 0, 1
+    else:
+        start, last = r[0], r[-1]
+        step = r[1] - r[0] if start != last else 1
+    if step < 0:
+        start, last, step = last, start, -step
+    if start < 0:  # neither is negative
+        start %= step
+    if start > min(last, max_int):  # never satisfied
+        start = last = max_int
+    return (start, min(last, max_int) + 1, min(step, max_int))
+
 """
 ObjectTable class manages the universe of each class such as GraphSet and VertexSetSet.
 """
-- 
2.43.0


From 073a18b675106d072bcc41214da9ce66d2398e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 41/50] fix: an unknown edge in linear constraints raises
 KeyError instead of ending the process

---
 graphillion/graphset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 4098fc4..5cb1e29 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1956,6 +1956,7 @@ class GraphSet(object):
             for c in linear_constraints:
                 expr = []
                 for we in c[0]:
+                    GraphSet._conv_edge(tuple(we))  # KeyError if not found
                     u = vertex_name(we[0])
                     v = vertex_name(we[1])
                     w = float(we[2]) if len(we) >= 3 else 1.0
-- 
2.43.0


From dca600c4bbcb2264ff3662520e13424f97a2337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 42/50] fix: degree_distribution_graphs() of an empty
 distribution does not crash

---
 src/pygraphillion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 39b390e..3c8da79 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2155,7 +2155,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
   PyObject* key, *value;
   Py_ssize_t pos = 0;
 
-  std::vector<int> deg_ranges;
+  std::vector<int> deg_ranges(1);  // degree 0 is always there
   while (PyDict_Next(deg_dist, &pos, &key, &value)) {
     if (!PyLong_Check(key)) {
       PyErr_SetString(PyExc_TypeError, "key must be an integer.");
-- 
2.43.0


From ebe7319757bf4379e735e46f2ad951cab0e70534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 43/50] fix: an unknown root of rooted_trees() is rejected
 instead of ending the process

---
 graphillion/digraphset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 8cf7855..dda92d5 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1971,6 +1971,8 @@ class DiGraphSet(object):
             graph.append(
                 (vertex_name(e[0]), vertex_name(e[1])))
 
+        assert root in DiGraphSet._vertices
+
         ss = None if graphset is None else graphset._ss
 
         ss = _graphillion._rooted_trees(
-- 
2.43.0


From 795392844a2a4dfadee1281ce9c0bafe0f4eb150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 44/50] fix: balanced_partitions and weighted_induced_graphs do
 not overflow on large weights and bounds

---
 .../ComponentWeightInducedSpec.h              | 10 +++---
 .../induced_graphs/WeightedInducedGraphs.cc   |  4 +--
 .../induced_graphs/WeightedInducedGraphs.h    |  4 +--
 .../partition/BalancedPartition.cc            | 24 +++++++-------
 src/graphillion/partition/BalancedPartition.h |  8 ++---
 .../partition/ComponentRatioSpec.h            | 32 +++++++++++--------
 .../partition/ComponentWeightSpec.h           | 17 +++++-----
 src/graphillion/setset.h                      | 12 +++----
 src/pygraphillion.cc                          |  8 ++---
 9 files changed, 62 insertions(+), 57 deletions(-)

diff --git a/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h b/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
index 74a2eb0..82710a0 100644
--- a/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
+++ b/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
@@ -6,7 +6,7 @@
 
 class ComponentWeightInducedSpecMate {
  public:
-  using offset = int32_t;
+  using offset = int64_t;
 
   ComponentWeightInducedSpecMate(offset _offset_or_weight = 0)
       : offset_or_weight(_offset_or_weight),
@@ -53,7 +53,7 @@ class ComponentWeightInducedSpecMate {
     return *(this + (next_conn & next_mask));
   }
 
-  int get_weight() const {
+  offset get_weight() const {
     assert(head().offset_or_weight >= 0);
     return head().offset_or_weight;
   }
@@ -138,8 +138,8 @@ class ComponentWeightInducedSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   int const mateSize;
   std::vector<ComponentWeightInducedSpecMate> initialMate;
 
@@ -246,7 +246,7 @@ class ComponentWeightInducedSpec
   // m]
   ComponentWeightInducedSpec(tdzdd::Graph const& graph,
                              const std::vector<uint32_t>& weight_list,
-                             uint32_t lower, uint32_t upper)
+                             int64_t lower, int64_t upper)
       : graph(graph),
         m(graph.vertexSize()),
         n(graph.edgeSize()),
diff --git a/src/graphillion/induced_graphs/WeightedInducedGraphs.cc b/src/graphillion/induced_graphs/WeightedInducedGraphs.cc
index ae1ac26..346cf03 100644
--- a/src/graphillion/induced_graphs/WeightedInducedGraphs.cc
+++ b/src/graphillion/induced_graphs/WeightedInducedGraphs.cc
@@ -7,8 +7,8 @@
 namespace graphillion {
 setset SearchWeightedInducedGraphs(
     const std::vector<edge_t> &edges,
-    const std::map<std::string, uint32_t> &weight_list, uint32_t lower,
-    uint32_t upper) {
+    const std::map<std::string, uint32_t> &weight_list, int64_t lower,
+    int64_t upper) {
   tdzdd::Graph g;
   for (const auto &e : edges) {
     g.addEdge(e.first, e.second);
diff --git a/src/graphillion/induced_graphs/WeightedInducedGraphs.h b/src/graphillion/induced_graphs/WeightedInducedGraphs.h
index 66ccc57..6c989b2 100644
--- a/src/graphillion/induced_graphs/WeightedInducedGraphs.h
+++ b/src/graphillion/induced_graphs/WeightedInducedGraphs.h
@@ -4,6 +4,6 @@
 namespace graphillion {
 setset SearchWeightedInducedGraphs(
     const std::vector<edge_t> &edges,
-    const std::map<std::string, uint32_t> &weight_list, uint32_t lower,
-    uint32_t upper);
+    const std::map<std::string, uint32_t> &weight_list, int64_t lower,
+    int64_t upper);
 }  // namespace graphillion
diff --git a/src/graphillion/partition/BalancedPartition.cc b/src/graphillion/partition/BalancedPartition.cc
index c4cb5fb..0db0ef4 100644
--- a/src/graphillion/partition/BalancedPartition.cc
+++ b/src/graphillion/partition/BalancedPartition.cc
@@ -21,23 +21,23 @@
  */
 tdzdd::DdStructure<2> constructRatioDd(const tdzdd::Graph &g,
                                        const std::vector<weight_t> &weight_list,
-                                       double ratio, weight_t _lower,
-                                       weight_t _upper, int k = -1) {
+                                       double ratio, int64_t _lower,
+                                       int64_t _upper, int k = -1) {
   auto dd = (k == -1 ? constructPartitionDd(g) : constructPartitionDd(g, k, k));
 
   auto sum =
-      std::accumulate(weight_list.begin(), weight_list.end(), weight_t{0});
-  weight_t initial_lower = 0;
+      std::accumulate(weight_list.begin(), weight_list.end(), int64_t{0});
+  int64_t initial_lower = 0;
   if (k != -1) {
     initial_lower = std::max(
-        initial_lower, static_cast<weight_t>(floor(static_cast<double>(sum) /
+        initial_lower, static_cast<int64_t>(floor(static_cast<double>(sum) /
                                                    (ratio * (k - 1) + 1))));
   }
-  weight_t initial_upper = sum;
+  int64_t initial_upper = sum;
   if (k != -1) {
     initial_upper =
         std::min(initial_upper,
-                 static_cast<weight_t>(ceil(ratio * static_cast<double>(sum) /
+                 static_cast<int64_t>(ceil(ratio * static_cast<double>(sum) /
                                             (ratio + (k - 1)))));
   }
 
@@ -63,7 +63,7 @@ tdzdd::DdStructure<2> constructRatioDd(const tdzdd::Graph &g,
  */
 tdzdd::DdStructure<2> constructWeightDd(
     const tdzdd::Graph &g, const std::vector<weight_t> &weight_list,
-    weight_t lower = 0, weight_t upper = std::numeric_limits<weight_t>::max(),
+    int64_t lower = 0, int64_t upper = std::numeric_limits<weight_t>::max(),
     int k = -1) {
   auto dd = (k == -1 ? constructPartitionDd(g) : constructPartitionDd(g, k, k));
 
@@ -77,7 +77,7 @@ namespace graphillion {
 
 setset SearchRatioPartitions(const std::vector<edge_t> &edges,
                              const std::map<std::string, weight_t> &weight_list,
-                             double ratio, weight_t lower, weight_t upper,
+                             double ratio, int64_t lower, int64_t upper,
                              int k) {
   tdzdd::Graph g;
   for (const auto &e : edges) {
@@ -94,8 +94,8 @@ setset SearchRatioPartitions(const std::vector<edge_t> &edges,
 
 setset SearchWeightPartitions(
     const std::vector<edge_t> &edges,
-    const std::map<std::string, weight_t> &weight_list, weight_t lower,
-    weight_t upper, int k) {
+    const std::map<std::string, weight_t> &weight_list, int64_t lower,
+    int64_t upper, int k) {
   tdzdd::Graph g;
   for (const auto &e : edges) {
     g.addEdge(e.first, e.second);
@@ -111,7 +111,7 @@ setset SearchWeightPartitions(
 
 setset SearchBalancedPartitions(const std::vector<edge_t> &edges,
                            const std::map<std::string, weight_t> &weight_list,
-                           double ratio, weight_t lower, weight_t upper,
+                           double ratio, int64_t lower, int64_t upper,
                            int k) {
   if (ratio < 1.0) {
     return SearchWeightPartitions(edges, weight_list, lower, upper, k);
diff --git a/src/graphillion/partition/BalancedPartition.h b/src/graphillion/partition/BalancedPartition.h
index 87c8328..ce4c8b2 100644
--- a/src/graphillion/partition/BalancedPartition.h
+++ b/src/graphillion/partition/BalancedPartition.h
@@ -7,13 +7,13 @@ namespace graphillion {
 
 setset SearchRatioPartitions(const std::vector<edge_t> &edges,
                              const std::map<std::string, weight_t> &weight_list,
-                             double ratio, uint32_t lower, uint32_t upper,
+                             double ratio, int64_t lower, int64_t upper,
                              int k);
 
 setset SearchWeightPartitions(
     const std::vector<edge_t> &edges,
-    const std::map<std::string, weight_t> &weight_list, weight_t lower,
-    weight_t upper, int k);
+    const std::map<std::string, weight_t> &weight_list, int64_t lower,
+    int64_t upper, int k);
 
 /**
  * @brief enumerate graph partitions with constraints of lower bound/upper bound/disparity.
@@ -27,6 +27,6 @@ setset SearchWeightPartitions(
  */
 setset SearchBalancedPartitions(const std::vector<edge_t> &edges,
                            const std::map<std::string, weight_t> &weight_list,
-                           double ratio, weight_t lower, weight_t upper, int k);
+                           double ratio, int64_t lower, int64_t upper, int k);
 
 }  // namespace graphillion
diff --git a/src/graphillion/partition/ComponentRatioSpec.h b/src/graphillion/partition/ComponentRatioSpec.h
index 31c63fe..edab31f 100644
--- a/src/graphillion/partition/ComponentRatioSpec.h
+++ b/src/graphillion/partition/ComponentRatioSpec.h
@@ -4,12 +4,15 @@
 #include "subsetting/util/Graph.hpp"
 
 struct ComponentRatioSpecCount {
-  int32_t lower;
-  int32_t upper;
+  int64_t lower;
+  int64_t upper;
 
-  ComponentRatioSpecCount() : lower(INT_MAX), upper(0) {}
+  ComponentRatioSpecCount() : lower(INT64_MAX), upper(0) {}
 
-  size_t hash() const { return lower + upper * 31415926535; }
+  size_t hash() const {
+    return static_cast<size_t>(lower) +
+           static_cast<size_t>(upper) * 31415926535;
+  }
 
   bool operator==(ComponentRatioSpecCount const& o) const {
     return lower == o.lower && upper == o.upper;
@@ -23,8 +26,8 @@ struct ComponentRatioSpecCount {
 
 class ComponentRatioSpecMate {
  public:
-  typedef int32_t Offset;
-  typedef uint32_t uOffset;
+  typedef int64_t Offset;
+  typedef uint64_t uOffset;
 
  private:
   Offset hoc;  ///< offset to head or vertex-weight.
@@ -58,7 +61,7 @@ class ComponentRatioSpecMate {
 
   ComponentRatioSpecMate const& next() const { return *(this + nxt); }
 
-  int getWeight() const {
+  Offset getWeight() const {
     assert(head().hoc >= 0);
     return head().hoc;
   }
@@ -69,7 +72,8 @@ class ComponentRatioSpecMate {
     ost << "(" << hoc << "," << nxt << ")";
   }
 
-  void print(FILE* fp) const { fprintf(fp, "(%d,%d)", hoc, nxt); }
+  void print(FILE* fp) const { fprintf(fp, "(%lld,%lld)", static_cast<long long>(hoc),
+            static_cast<long long>(nxt)); }
 
   void mergeLists(ComponentRatioSpecMate& o1, ComponentRatioSpecMate& o2,
                   ComponentRatioSpecMate* mate) {
@@ -149,14 +153,14 @@ class ComponentRatioSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   double const ratio;
   int const mateSize;
   std::vector<Mate> initialMate;
   bool const lookahead;
 
-  bool updateRatio(Count& count, int weight) const {
+  bool updateRatio(Count& count, int64_t weight) const {
     if (weight < lower) {
       return false;
     } else {
@@ -272,8 +276,8 @@ class ComponentRatioSpec
   // weight_list: [weight of vertex 1, weight of vertex 2,..., weight of vertex
   // m]
   ComponentRatioSpec(tdzdd::Graph const& graph,
-                     const std::vector<uint32_t>& weight_list, uint32_t lower,
-                     uint32_t upper, double ratio, bool /*noLoop*/ = false,
+                     const std::vector<uint32_t>& weight_list, int64_t lower,
+                     int64_t upper, double ratio, bool /*noLoop*/ = false,
                      bool lookahead = true)
       : graph(graph),
         m(graph.vertexSize()),
@@ -302,7 +306,7 @@ class ComponentRatioSpec
     for (int i = 0; i < mateSize; ++i) {
       mate[i] = initialMate[v0 + i];
     }
-    assert(count.lower == INT_MAX);
+    assert(count.lower == INT64_MAX);
     assert(count.upper == 0);
 
     return n;
diff --git a/src/graphillion/partition/ComponentWeightSpec.h b/src/graphillion/partition/ComponentWeightSpec.h
index e13f4a7..291c8ec 100644
--- a/src/graphillion/partition/ComponentWeightSpec.h
+++ b/src/graphillion/partition/ComponentWeightSpec.h
@@ -5,8 +5,8 @@
 
 class ComponentWeightSpecMate {
  public:
-  typedef int32_t Offset;
-  typedef uint32_t uOffset;
+  typedef int64_t Offset;
+  typedef uint64_t uOffset;
 
  private:
   Offset hoc;  ///< offset to head or vertex-weight.
@@ -40,7 +40,7 @@ class ComponentWeightSpecMate {
 
   ComponentWeightSpecMate const& next() const { return *(this + nxt); }
 
-  int getWeight() const {
+  Offset getWeight() const {
     assert(head().hoc >= 0);
     return head().hoc;
   }
@@ -51,7 +51,8 @@ class ComponentWeightSpecMate {
     ost << "(" << hoc << "," << nxt << ")";
   }
 
-  void print(FILE* fp) const { fprintf(fp, "(%d,%d)", hoc, nxt); }
+  void print(FILE* fp) const { fprintf(fp, "(%lld,%lld)", static_cast<long long>(hoc),
+            static_cast<long long>(nxt)); }
 
   void mergeLists(ComponentWeightSpecMate& o1, ComponentWeightSpecMate& o2,
                   ComponentWeightSpecMate* mate) {
@@ -130,8 +131,8 @@ class ComponentWeightSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   int const mateSize;
   std::vector<Mate> initialMate;
   bool const lookahead;
@@ -230,8 +231,8 @@ class ComponentWeightSpec
   // weight_list: [weight of vertex 1, weight of vertex 2,..., weight of vertex
   // m]
   ComponentWeightSpec(tdzdd::Graph const& graph,
-                      const std::vector<uint32_t>& weight_list, uint32_t lower,
-                      uint32_t upper, bool /*noLoop*/ = false,
+                      const std::vector<uint32_t>& weight_list, int64_t lower,
+                      int64_t upper, bool /*noLoop*/ = false,
                       bool lookahead = true)
       : graph(graph),
         m(graph.vertexSize()),
diff --git a/src/graphillion/setset.h b/src/graphillion/setset.h
index f865c4a..f26d488 100644
--- a/src/graphillion/setset.h
+++ b/src/graphillion/setset.h
@@ -235,20 +235,20 @@ class setset {
   friend setset SearchRatioPartitions(
       const std::vector<edge_t>& edges,
       const std::map<std::string, uint32_t>& weight_list, double ratio,
-      uint32_t lower, uint32_t upper, int k);
+      int64_t lower, int64_t upper, int k);
   friend setset SearchWeightPartitions(
       const std::vector<edge_t>& edges,
-      const std::map<std::string, uint32_t>& weight_list, uint32_t lower,
-      uint32_t upper, int k);
+      const std::map<std::string, uint32_t>& weight_list, int64_t lower,
+      int64_t upper, int k);
   friend setset SearchBalancedPartitions(
       const std::vector<edge_t>& edges,
       const std::map<std::string, uint32_t>& weight_list, double ratio,
-      uint32_t lower, uint32_t upper, int k);
+      int64_t lower, int64_t upper, int k);
   friend setset SearchInducedGraphs(const std::vector<edge_t>& edges);
   friend setset SearchWeightedInducedGraphs(
       const std::vector<edge_t> &edges,
-      const std::map<std::string, uint32_t> &weight_list, uint32_t lower,
-      uint32_t upper);
+      const std::map<std::string, uint32_t> &weight_list, int64_t lower,
+      int64_t upper);
   friend setset SearchChordals(const std::vector<edge_t> &edges, const uint32_t k);
   friend setset SearchForbiddenInducedSubgraphs(const std::vector<edge_t> &edges, setset* ss);
   friend setset SearchOddEdgeSubgraphs(const std::vector<edge_t>& edges);
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 3c8da79..318c9a4 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2245,9 +2245,9 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
   double ratio = 0;
-  uint32_t lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
+  int64_t lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
   int num_comps = -1;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdIIi", kwlist, &graph_obj,
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdLLi", kwlist, &graph_obj,
                                    &weight_list_obj, &ratio, &lower, &upper,
                                    &num_comps)) {
     return NULL;
@@ -2346,8 +2346,8 @@ static PyObject* weighted_induced_graphs(PyObject*, PyObject* args,
 
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
-  uint32_t lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OII", kwlist, &graph_obj,
+  int64_t lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OLL", kwlist, &graph_obj,
                                    &weight_list_obj, &lower, &upper)) {
     return NULL;
   }
-- 
2.43.0


From 9c683b4b833f56caf2909f09431d46e0545a5905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 45/50] fix: random iteration of families beyond the range of
 double is not skewed

---
 src/graphillion/zdd.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index af5ad02..3ef6125 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -26,6 +26,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 //#include <cassert>
 #include <climits>
+#include <cmath>
 
 #include <algorithm>
 #include <map>
@@ -302,6 +303,20 @@ bool choose(zdd_t f, vector<elem_t>* stack) {
   return false;
 }
 
+// The logarithm of algo_c, for families too large for double.
+static double log2_count(zdd_t f) {
+  static map<word_t, pair<zdd_t, double> > counts;
+  double count = algo_c(f);
+  if (std::isfinite(count)) return std::log2(count);
+  map<word_t, pair<zdd_t, double> >::const_iterator it = counts.find(id(f));
+  if (it != counts.end()) return it->second.second;
+  double ch = log2_count(hi(f)), cl = log2_count(lo(f));
+  double log2c = std::max(ch, cl) +
+      std::log2(1 + std::exp2(std::min(ch, cl) - std::max(ch, cl)));
+  counts[id(f)] = std::make_pair(f, log2c);
+  return log2c;
+}
+
 zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
   assert(stack != NULL);
   if (is_term(f)) {
@@ -315,7 +330,10 @@ zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
   }
   double ch = algo_c(hi(f));
   double cl = algo_c(lo(f));
-  if (rand_xor128() > cl / (ch + cl)) {
+  double p_lo = cl / (ch + cl);
+  if (!std::isfinite(ch + cl))  // beyond the range of double
+    p_lo = 1 / (1 + std::exp2(log2_count(hi(f)) - log2_count(lo(f))));
+  if (rand_xor128() > p_lo) {
     stack->push_back(elem(f));
     return choose_random(hi(f), stack);
   } else {
-- 
2.43.0


From 34973beeccc9e153df54779eaecf25ea5a754c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 46/50] fix: sets of edges given to the constructor are not
 passed to the graph converter

---
 graphillion/digraphset.py | 4 +++-
 graphillion/graphset.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index dda92d5..7f1d541 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -128,7 +128,9 @@ class DiGraphSet(object):
             elif isinstance(obj, (set, frozenset, list)):
                 l = []
                 for g in obj:
-                    edges = DiGraphSet.converters['to_edges'](g)
+                    edges = g
+                    if not isinstance(g, (set, frozenset, list)):
+                        edges = DiGraphSet.converters['to_edges'](g)
                     l.append(set([DiGraphSet._conv_edge(e) for e in edges]))
                 obj = l
             elif isinstance(obj, dict):  # constraints
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 5cb1e29..bacf8ed 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -124,7 +124,9 @@ class GraphSet(object):
             elif isinstance(obj, (set, frozenset, list)):  # a list of graphs [graph+]
                 l = []
                 for g in obj:
-                    edges = GraphSet.converters['to_edges'](g)
+                    edges = g
+                    if not isinstance(g, (set, frozenset, list)):
+                        edges = GraphSet.converters['to_edges'](g)
                     l.append(set([GraphSet._conv_edge(e) for e in edges]))
                 obj = l
             elif isinstance(obj, dict):  # constraints
-- 
2.43.0


From e8992f4be53ea732952ab4fa5dae7fba62c4e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 47/50] fix: set_universe checks for emptiness after converting
 the graph

---
 graphillion/universe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index c47b8ad..9c64ca4 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -236,8 +236,6 @@ class Universe:
         See Also:
           universe()
         """
-        if len(universe) == 0:
-            raise ValueError("The universe must not be empty.")
         sorted_edges = []
         indexed_edges = set()
         edge_weights = {}
@@ -246,6 +244,8 @@ class Universe:
         labels = {}  # one object for equal vertices
         universe = [tuple(labels.setdefault(v, v) for v in e[:2]) + tuple(e[2:])
                     for e in universe]
+        if len(universe) == 0:
+            raise ValueError("The universe must not be empty.")
         for e in universe:
             if e[:2] in indexed_edges or (e[1], e[0]) in indexed_edges:
                 raise KeyError(e)
-- 
2.43.0


From 9aad3e4a04bba48113a17991c35967daac8dca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 48/50] fix: min_iter and max_iter take edge weights given as
 attribute dictionaries

---
 graphillion/setset_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 7144a31..7ae6125 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -143,6 +143,8 @@ class setset_base(_graphillion.setset):
             for e, w in weights.items():
                 if e in universe:
                     i = objtable.obj2int[e]
+                    if isinstance(w, dict):  # attributes, as of NetworkX edges
+                        w = w.get('weight', default)
                     ws[i] = w
         i = generator(self, ws)
         while (True):
-- 
2.43.0


From 01e567c79e2397b77a1f36f65956a9ba7f6c6830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 49/50] fix: odd_hole_graphs works with registered graph
 converters

---
 graphillion/graphclass.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index 98e8ba0..a84d39c 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -191,12 +191,7 @@ class GraphClass:
         Notes:
             See https://www.graphclasses.org/smallgraphs.html#odd_holes for more information.
         """
-        univ = GraphSet.universe()
-        vertices = set()
-        for e in univ:
-            vertices.add(e[0])
-            vertices.add(e[1])
-        n = len(vertices)
+        n = len(Universe.vertices)
         if n < 5:
             return GraphSet()
 
-- 
2.43.0


From 86d35ac45cfe56c3ee0cbd0f271f6267df0de9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 50/50] fix: set_universe takes the weights of edges given in
 the other direction

---
 graphillion/universe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 9c64ca4..2246585 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -253,8 +253,11 @@ class Universe:
             indexed_edges.add(e[:2])
             if len(e) > 2:
                 edge_weights[e[:2]] = e[2]
-            elif weights is not None and e in weights:
-                edge_weights[e] = weights[e]
+            elif weights is not None:
+                for k in (e, (e[1], e[0])):
+                    if k in weights:
+                        edge_weights[e] = weights[k]
+                        break
 
         if traversal != 'as-is':
             if source is None:
-- 
2.43.0

