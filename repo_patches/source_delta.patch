From 27c364bf2ee32e5f99f9d82e506a6121d5e89332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:21 +0000
Subject: [PATCH 01/63] fix: translate every exception thrown by the C++
 embedder into a Python exception

handle_exceptions rethrew anything that was not one of five specific types, so
e.g. fixed_chains covering every target node ended in std::terminate and killed
the interpreter ("problem has too few nodes or edges").
---
 minorminer/src/pyutil.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/minorminer/src/pyutil.hpp b/minorminer/src/pyutil.hpp
index 550a84e..de67a51 100644
--- a/minorminer/src/pyutil.hpp
+++ b/minorminer/src/pyutil.hpp
@@ -71,6 +71,12 @@ void handle_exceptions() {
         PyErr_SetString(PyExc_RuntimeError, e.what());
     } catch (const find_embedding::CorruptEmbeddingException &e) {
         PyErr_SetString(PyExc_AssertionError, e.what());
+    } catch (const find_embedding::MinorMinerException &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+    } catch (const std::bad_alloc &e) {
+        PyErr_SetString(PyExc_MemoryError, e.what());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
     }
 }
 
-- 
2.43.0


From 0f187a6e4fd41df3e4482e541a381e219f861d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 02/63] fix: ignore initial chains of fixed variables, and
 reserved qubits in initial chains

The linking pass of the embedding constructor also ran for fixed variables, with a
root that need not be in the fixed chain: a null dereference or heap corruption.
Initial chains containing a fixed chain's qubits indexed vectors out of bounds, and
the resulting overlap with the fixed chain was not counted, so find_embedding
returned overlapping chains as a valid embedding.
---
 include/find_embedding/embedding.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 685e6c1..d227bfa 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -86,13 +86,23 @@ class embedding {
 
         for (auto &vC : fixed_chains) fix_chain(vC.first, vC.second);
 
-        for (auto &vC : initial_chains)
-            if (!ep.fixed(vC.first)) set_chain(vC.first, vC.second);
+        // initial chains are hints: they can't override a fixed chain, nor use its qubits
+        for (auto &vC : initial_chains) {
+            if (ep.fixed(vC.first)) continue;
+            vector<int> available;
+            for (auto &q : vC.second)
+                if (!ep.reserved(q)) available.push_back(q);
+            set_chain(vC.first, available);
+        }
 
         for (auto &vC : initial_chains) {
             int v = vC.first;
+            if (ep.fixed(v)) continue;
             auto &c = var_embedding[v];
-            int root = vC.second[0];
+            int root = -1;
+            for (auto &q : vC.second)
+                if (root == -1 && c.count(q)) root = q;
+            if (root == -1) continue;
             c.set_link(v, root);
             size_t hits = 0;
             stack.push_back(root);
-- 
2.43.0


From c3806da6e159b0221a5a8bf5016c3e05eeb57f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 03/63] fix: count a qubit once when it is repeated in an
 assigned chain

The qubit's weight was incremented per occurrence but decremented once on clear,
so a repeated qubit in initial_chains stayed marked as used for the whole search.
---
 include/find_embedding/chain.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/find_embedding/chain.hpp b/include/find_embedding/chain.hpp
index e8e44d3..669a3f6 100644
--- a/include/find_embedding/chain.hpp
+++ b/include/find_embedding/chain.hpp
@@ -91,9 +91,8 @@ class chain {
     chain &operator=(const vector<int> &c) {
         clear();
         for (auto &q : c) {
-            data.emplace(q, pair<int, int>(q, 1));
             minorminer_assert(0 <= q && q < static_cast<int>(qubit_weight.size()));
-            qubit_weight[q]++;
+            if (data.emplace(q, pair<int, int>(q, 1)).second) qubit_weight[q]++;
         }
         DIAGNOSE_CHAIN();
         return *this;
-- 
2.43.0


From 76677801645399598ab2a7ae6f1f95fc7fc520fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 04/63] fix: make one qubit permutation per variable, fixed
 variables included

qubit_permutations is indexed by variable (num_vars + num_fixed of them) but was
sized by the number of reserved qubits: an out-of-bounds access when fixed chains
share qubits.
---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 84c6bf2..b5c1e9e 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -125,7 +125,7 @@ class pathfinder_base : public pathfinder_public_interface {
               qubit_permutations() {
         vector<int> permutation(num_qubits);
         for (int q = num_qubits; q--;) permutation[q] = q;
-        for (int v = num_vars + num_reserved; v--;) {
+        for (int v = num_vars + num_fixed; v--;) {
             ep.shuffle(permutation.begin(), permutation.end());
             qubit_permutations.push_back(permutation);
         }
-- 
2.43.0


From 71c01e81556374ff3bb172524204050e641b6d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 05/63] fix: do not follow a parent path from a qubit the
 search never reached

---
 include/find_embedding/embedding.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index d227bfa..0a785d5 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -211,10 +211,10 @@ class embedding {
         for (auto &v : ep.var_neighbors(u)) {
             if (chainsize(v)) {
                 int qv = q;
-                distance_t dqv = visited_list[v][q] ? distances[v][q] : max_distance;
+                distance_t dqv = visited_list[v][q] == 1 ? distances[v][q] : max_distance;
                 for (auto &p : var_embedding[u]) {
                     if (var_embedding[u].refcount(p) > 1) {
-                        distance_t dp = visited_list[v][p] ? distances[v][p] : max_distance;
+                        distance_t dp = visited_list[v][p] == 1 ? distances[v][p] : max_distance;
                         if (dp < dqv) {
                             dqv = dp;
                             qv = p;
-- 
2.43.0


From 4297039f4a30d1ff1f398413f24fd4472206f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 06/63] fix: translate C++ exceptions of the miner constructor
 and set_initial_chains

---
 minorminer/_minorminer_h.pxi | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/_minorminer_h.pxi b/minorminer/_minorminer_h.pxi
index ca9c138..ebdd448 100644
--- a/minorminer/_minorminer_h.pxi
+++ b/minorminer/_minorminer_h.pxi
@@ -119,11 +119,11 @@ cdef extern from "../include/find_embedding/chain.hpp" namespace "find_embedding
         pathfinder_wrapper() except +handle_exceptions
         parameter_processor pp
         unique_ptr[pathfinder_public_interface] pf
-        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &)
+        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &) except +handle_exceptions
         int heuristicEmbedding() except +handle_exceptions
         int num_vars()
         void get_chain(int, vector[int] &)
-        void set_initial_chains(chainmap &)
+        void set_initial_chains(chainmap &) except +handle_exceptions
         void quickPass(const vector[int] &, int, int, bool, bool, double) except +handle_exceptions
         void quickPass(VARORDER, int, int, bool, bool, double) except +handle_exceptions
 
-- 
2.43.0


From d1751a2e0da8dbede10081843729e88c53c44166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 07/63] fix: map a quickpass variable order into the internal
 variable numbering

---
 include/find_embedding/find_embedding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/find_embedding.hpp b/include/find_embedding/find_embedding.hpp
index 5ddebd5..1989230 100644
--- a/include/find_embedding/find_embedding.hpp
+++ b/include/find_embedding/find_embedding.hpp
@@ -123,7 +123,7 @@ class parameter_processor {
         vector<int> U;
         for (auto &v : V) {
             if (v < 0 || static_cast<unsigned int>(v) >= num_vars) throw CorruptParametersException();
-            if (!var_fixed_unscrewed[v]) U.push_back(v);
+            if (!var_fixed_unscrewed[v]) U.push_back(screw_vars[v]);
         }
         return U;
     }
-- 
2.43.0


From 9d0f6abc5a1ce8ff2d8d32176bb8ed3a43b1aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 08/63] fix: honour return_overlap for an empty source graph

---
 minorminer/_minorminer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index 53aad8f..8bbeb56 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -287,7 +287,7 @@ def find_embedding(S, T, **params):
     try:
         _in = _input_parser(S, T, params)
     except EmptySourceGraphError:
-        return {}
+        return ({}, 1) if params.get("return_overlap") else {}
 
     cdef vector[int] chain
     cdef vector[vector[int]] chains
-- 
2.43.0


From db9a790a2c50a0e133120cd5d285021a06500c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 09/63] fix: flip_back only trades qubits between linked chains

---
 include/find_embedding/embedding.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 0a785d5..9058666 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -233,8 +233,12 @@ class embedding {
     //!  * if the target chainsize is zero, dump the entire segment into the neighbor
     //!  * if the target chainsize is k, stop when the neighbor's size reaches k
     void flip_back(int u, const int target_chainsize) {
-        for (auto &v : ep.var_neighbors(u))
-            if (chainsize(v) && !(ep.fixed(v))) var_embedding[v].steal(var_embedding[u], ep, target_chainsize);
+        for (auto &v : ep.var_neighbors(u)) {
+            if (ep.fixed(v)) continue;
+            if (var_embedding[u].get_link(v) == -1) continue;
+            if (var_embedding[v].get_link(u) == -1) continue;
+            var_embedding[v].steal(var_embedding[u], ep, target_chainsize);
+        }
         DIAGNOSE_EMB("flip_back")
     }
 
-- 
2.43.0


From bcb508c7295d14aa9f6209a12fc0dfcd54e87ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 10/63] fix: give miner the documented default
 chainlength_patience of find_embedding

---
 include/find_embedding/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/util.hpp b/include/find_embedding/util.hpp
index 7697ab5..1723f6d 100644
--- a/include/find_embedding/util.hpp
+++ b/include/find_embedding/util.hpp
@@ -138,7 +138,7 @@ class optional_parameters {
     int inner_rounds = numeric_limits<int>::max();
     int max_fill = numeric_limits<int>::max();
     bool return_overlap = false;
-    int chainlength_patience = 2;
+    int chainlength_patience = 10;
     int threads = 1;
     bool skip_initialization = false;
     map<int, vector<int>> fixed_chains;
-- 
2.43.0


From b8ae5956c9836ae6ea311880550d7d6c03afb4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 11/63] fix: respect the overlap bound on qubits next to a
 fixed chain

---
 include/find_embedding/pathfinder.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index b5c1e9e..6d1ec86 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -467,9 +467,13 @@ class pathfinder_base : public pathfinder_public_interface {
                             visited[p] = 1;
                         }
                     if (std::is_same<behavior_tag, default_tag>::value) {
-                        pq.emplace(p, permutation[p], qubit_weight[p]);
-                        parent[p] = q;
                         visited[p] = 1;
+                        if (emb.weight(p) >= ep.weight_bound) {
+                            distances[v][p] = max_distance;
+                        } else {
+                            pq.emplace(p, permutation[p], qubit_weight[p]);
+                            parent[p] = q;
+                        }
                     }
                 }
             }
-- 
2.43.0


From db429919536759085326dd0e26d188b3eada2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 12/63] fix: cell_cache::inflate advances to the next line of
 the cell

The loop never changed its condition, so find_clique_embedding(n, g, use_cache=False)
of a clique inside one cell looped until the memory was exhausted.
---
 include/busclique/cell_cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/busclique/cell_cache.hpp b/include/busclique/cell_cache.hpp
index c629907..9390436 100644
--- a/include/busclique/cell_cache.hpp
+++ b/include/busclique/cell_cache.hpp
@@ -69,9 +69,9 @@ class cell_cache {
             vector<size_t> &chain = emb.back();
             topo.construct_line(0, vert(x), vert(y), vert(y), first_bit[k0], chain);
             topo.construct_line(1, horz(y), horz(x), horz(x), first_bit[k1], chain);
+            k0 ^= mask_bit[first_bit[k0]];
+            k1 ^= mask_bit[first_bit[k1]];
         }
-        k0 ^= mask_bit[first_bit[k0]];
-        k1 ^= mask_bit[first_bit[k1]];
     }
 
 };
-- 
2.43.0


From a7a0d87ace0c7be52f2d014516cd3d25b48c86de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 13/63] fix: translate zephyr coordinates with the tile of the
 graph

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index a9a7e73..fca7224 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -828,7 +828,7 @@ cdef class _zephyr_busgraph:
             internal_seed = seed
 
         cdef zephyr_spec *zep = new zephyr_spec(rows, tile, internal_seed)
-        coordinates = dwave.graphs.zephyr_coordinates(rows)
+        coordinates = dwave.graphs.zephyr_coordinates(rows, tile)
         cdef edges_t edges
         if g.graph['labels'] == 'int':
             self.nodes = g.nodes()
-- 
2.43.0


From b16c31a23686c4614df1628ca6c04d97ca7fb2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 14/63] fix: best_bicliques remembers the chain length of the
 biclique it keeps

Without it the last topology mask always won, whatever its chain lengths.
---
 include/busclique/find_biclique.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/busclique/find_biclique.hpp b/include/busclique/find_biclique.hpp
index 93de37a..a49ff47 100644
--- a/include/busclique/find_biclique.hpp
+++ b/include/busclique/find_biclique.hpp
@@ -58,8 +58,10 @@ void best_bicliques(topo_cache<topo_spec> &topology,
             size_t s1 = std::get<1>(z);
             size_t cl = std::get<2>(z);
             auto w = chainlength.find(std::make_pair(s0, s1));
-            if(w == chainlength.end() || (*w).second > cl)
+            if(w == chainlength.end() || (*w).second > cl) {
+                chainlength[std::make_pair(s0, s1)] = cl;
                 emb_cache[std::make_pair(s0, s1)] = std::get<3>(z);
+            }
         }
     } while(topology.next());
     for(auto &z: emb_cache)
-- 
2.43.0


From 775e52ce2e12b208933ce9f04394e482185bb863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 15/63] fix: find_biclique_embedding looks bicliques up by
 their larger side

The sides were swapped the wrong way round, so that K_{n, m} was only found inside a
biclique with both sides at least max(n, m); and the first one found was returned
instead of one with minimum chain length. K_{0, n} is returned as chains, with the
labels of the graph.
---
 minorminer/busclique.pyx | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index fca7224..2ae1d42 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -637,13 +637,16 @@ class busgraph_cache:
         raw = self._bicliques['raw']
         n, N = _num_nodes(nn)
         m, M = _num_nodes(mm, offset = n)
-        if(m < n):
+        # by_size and biggest are indexed with the larger side first
+        if(n < m):
             n, N, m, M = m, M, n, N
         if m == 0:
             emb = self._graph.independent_set(n)
             if emb is None:
                 return {}
-            return dict(zip(N, emb))
+            return self._graph.relabel({v: (q,) for v, q in zip(N, emb)})
+        best = {}
+        best_length = None
         nmax = biggest[None]
         for i in range(n, nmax + 1):
             mmax = biggest.get(i, 0)
@@ -656,14 +659,15 @@ class busgraph_cache:
                     continue
                 emb = raw[key]
                 s0, s1 = key
-                emb0 = emb[:s0]
-                emb1 = emb[s0:]
-                if s0 <= n and s1 <= m:
-                    emb = dict(zip(N + M, emb0[:n] + emb1))
-                else:
-                    emb = dict(zip(N + M, emb1[:n] + emb0))
-                return self._graph.relabel(emb)
-        return {}
+                emb0 = sorted(emb[:s0], key=len)
+                emb1 = sorted(emb[s0:], key=len)
+                if s0 < s1:
+                    emb0, emb1 = emb1, emb0
+                length = max(len(emb0[n-1]), len(emb1[m-1]))
+                if best_length is None or length < best_length:
+                    best = dict(zip(N + M, emb0[:n] + emb1[:m]))
+                    best_length = length
+        return self._graph.relabel(best)
 
     def draw_fragment_embedding(self, emb, **kwargs):
         m, n, t, nodes, edges = self._graph.fragment_graph_spec()
-- 
2.43.0


From aebcf16588a7a8a57c1e33c310c48823e17db28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 16/63] fix: K_{0, n} exists when the graph has n nodes

---
 minorminer/busclique.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 2ae1d42..fc143cb 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -884,7 +884,7 @@ cdef class _zephyr_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
+        if size <= self.nodes.size():
             emb = [self.nodes[i] for i in range(size)]
             return emb
 
@@ -997,7 +997,7 @@ cdef class _pegasus_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
+        if size <= self.nodes.size():
             emb = [self.nodes[i] for i in range(size)]
             return emb
 
@@ -1115,7 +1115,7 @@ cdef class _chimera_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
+        if size <= self.nodes.size():
             emb = [self.nodes[i] for i in range(size)]
             return emb
 
-- 
2.43.0


From 9821a27c7e937a80c08fd5b5cc5358d25988d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 17/63] fix: a graph without bicliques has an empty biclique
 cache

---
 minorminer/busclique.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index fc143cb..185e032 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -597,6 +597,8 @@ class busgraph_cache:
         self._ensure_biclique_cache()
         biggest = self._bicliques['max_side']
         embs = self._bicliques['raw']
+        if not embs:
+            return {}
         s0, s1 = key = max(embs, key=lambda x: min(x))
         raw_emb = embs[key]
         raw_emb0 = sorted(raw_emb[:s0], key=len)
@@ -754,7 +756,7 @@ cdef dict _make_biclique_cache(vector[pair[pair[size_t, size_t],
         if not _keep_biclique_key(realkey, key, chainlength):
             by_size[s0][s1] = key
 
-    max_side = {None: max(by_size)}
+    max_side = {None: max(by_size, default=0)}
     for key, val in by_size.items():
         max_side[key] = max(val)
     return {'raw': raw, 'size': by_size, 'max_side': max_side}
-- 
2.43.0


From b1c7634eacaf3d86e27af0365efd28068a12157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:27 +0000
Subject: [PATCH 18/63] fix: get_clique_cache(sparse=False) includes the
 largest clique

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 185e032..adc8e18 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -256,7 +256,7 @@ class busgraph_cache:
         if sparse:
             cache = {i: raw[s][:i] for i, s in size.items()}
         else:
-            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size))]
+            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size) + 1)]
         if compress:
             cache = gzip.compress(dumps(cache).encode('utf8'))
         return cache
-- 
2.43.0


From 6799d836bda2dd1a206c840263df0a02bd09de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:27 +0000
Subject: [PATCH 19/63] fix: largest_clique_by_chainlength returns the largest
 clique within the chainlength

It returned nothing (or raised KeyError) for a chainlength without a clique of exactly
that length, and a smaller clique when a longer chainlength has a smaller yield.
---
 minorminer/busclique.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index adc8e18..5fb4ea2 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -545,10 +545,14 @@ class busgraph_cache:
         """
         self._ensure_clique_cache()
         embs = self._cliques['raw']
-        length = self._cliques['length'] or [0]
+        length = self._cliques['length']
 
-        if 0 < chainlength <= max(length):
-            return self._graph.relabel(dict(enumerate(embs[length[chainlength]])))
+        # length[l] is the largest clique found with maximum chainlength l, which
+        # can be missing, empty, or smaller than one with shorter chains
+        keys = [key for l, key in length.items() if 0 < l <= chainlength]
+        if keys:
+            emb = max((embs[key] for key in keys), key=len)
+            return self._graph.relabel(dict(enumerate(emb)))
         else:
             return {}
 
-- 
2.43.0


From 88c8ab4aac7e8b8f6307c2148e96206858808ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 20/63] fix: translate C++ exceptions of the clique embedder

An edge which is not in the topology ended the process.
---
 minorminer/busclique_h.pxi | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/minorminer/busclique_h.pxi b/minorminer/busclique_h.pxi
index 5162e81..34ad4f9 100644
--- a/minorminer/busclique_h.pxi
+++ b/minorminer/busclique_h.pxi
@@ -68,19 +68,19 @@ cdef extern from "../include/busclique/clique_cache.hpp" namespace "busclique":
 cdef extern from "../include/busclique/topo_cache.hpp" namespace "busclique":
     cdef cppclass topo_cache[T]:
         T topo
-        topo_cache(T, nodes_t &, edges_t &)
+        topo_cache(T, nodes_t &, edges_t &) except +
         size_t serialize[t](t, uint8_t *) const
         nodes_t fragment_nodes() const
         edges_t fragment_edges() const
         void set_mask_bound(uint32_t)
 
 cdef extern from "../include/busclique/find_clique.hpp" namespace "busclique":
-    int find_clique[T](topo_cache[T] &, size_t, embedding_t &)
-    void best_cliques[T](topo_cache[T], vector[embedding_t] &, embedding_t &)
+    int find_clique[T](topo_cache[T] &, size_t, embedding_t &) except +
+    void best_cliques[T](topo_cache[T], vector[embedding_t] &, embedding_t &) except +
     int short_clique[T](T, nodes_t, edges_t, embedding_t &)
 
 cdef extern from "../include/busclique/find_biclique.hpp" namespace "busclique":
-    void best_bicliques[T](topo_cache[T], vector[pair[pair[size_t, size_t], embedding_t]] &)
+    void best_bicliques[T](topo_cache[T], vector[pair[pair[size_t, size_t], embedding_t]] &) except +
 
 cdef extern from "../include/busclique/coordinate_types.hpp" namespace "busclique":
     cdef cppclass size_y:
-- 
2.43.0


From 9993cc5bd4690abd7f0c746146e037979d9753ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 21/63] fix: replace the cache files while holding the lock

The temporary files have fixed names: another thread or process could truncate or
move them between the release of the lock and the replacement.
---
 minorminer/busclique.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 5fb4ea2..0b9f359 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -504,8 +504,9 @@ class busgraph_cache:
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
 
-        #perform the copy-on-write for the lrufile and cachefile
-        file_context.close()
+                #perform the copy-on-write for the lrufile and cachefile, before
+                #anybody else can open the temporary files
+                file_context.close()
         return cache
 
     def largest_clique(self):
-- 
2.43.0


From 63871eab7d15ab97f9ea306e1b608b65990c53bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 22/63] fix: tolerate a missing file when evicting it from the
 cache

---
 minorminer/busclique.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 0b9f359..517c3ea 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -500,7 +500,10 @@ class busgraph_cache:
                 #to recompute a deleted file that still has an entry in the LRU
                 while len(newLRU) > __lru_size:
                     oldkey = newLRU.pop()
-                    os.remove(os.path.join(basedir, oldkey))
+                    try:
+                        os.remove(os.path.join(basedir, oldkey))
+                    except FileNotFoundError:
+                        pass
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
 
-- 
2.43.0


From a2558833cff3f177b39eff5140bce1904332bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 23/63] fix: mine_clique_embeddings computes the default
 heuristic bound of chimera graphs

---
 minorminer/busclique.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 517c3ea..fb88789 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -1315,9 +1315,9 @@ def mine_clique_embeddings(
             heuristic_bound = min(36, 12*(rows-1))
         elif bgc._family == "chimera":
             rows = g.graph['rows']
-            cols = g.graph['cols']
+            cols = g.graph['columns']
             tile = g.graph['tile']
-            heuristic_bound = (min(tile*rows, tile*cols)+3)/4
+            heuristic_bound = (min(tile*rows, tile*cols)+3)//4
         else:
             raise NotImplementedError("graph family not supported")
 
-- 
2.43.0


From 0cf0aae1b53cd37d389d0a230bfa6db56cde8664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 24/63] fix: mine_clique_embeddings augments the existing cache

It started from an empty cache and replaced the one on disk, against its documentation.
---
 minorminer/busclique.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index fb88789..0b4b9c1 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -1294,6 +1294,7 @@ def mine_clique_embeddings(
     import logging
     logger = logging.getLogger(__name__)
     bgc = busgraph_cache(g)
+    bgc._ensure_clique_cache()
     for i in range(num_seeds):
         logger.info("polynomial embedder run %d of %d", i+1, num_seeds)
         seed = random.randint(0, 2**32-1)
-- 
2.43.0


From 5ab42a4deee9f47527ecacb5538eb81b337d320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 25/63] fix: no clique caches of width one

find_clique_embedding(n, g, use_cache=False) of a clique that fits into one cell by size,
but was not found there, read and wrote out of bounds.
---
 include/busclique/find_clique.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/busclique/find_clique.hpp b/include/busclique/find_clique.hpp
index 7ba044d..d4f4e60 100644
--- a/include/busclique/find_clique.hpp
+++ b/include/busclique/find_clique.hpp
@@ -75,7 +75,8 @@ bool find_clique_nice(const cell_cache<chimera_spec> &cells,
     else if (max_length == 1)
         return false;
     bundle_cache<chimera_spec> bundles(cells);
-    size_t minw = (size + shore - 1)/shore;
+    //cliques inside one cell were found above, if any; a clique_cache has width 2 or more
+    size_t minw = max((size + shore - 1)/shore, size_t(2));
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
     maxw = min(max_length - 1, maxw);
     for(size_t width = minw; width <= maxw; width++) {
@@ -104,7 +105,8 @@ bool find_clique_nice(const cell_cache<zephyr_spec> &cells,
     else if (max_length == 1)
         return false;
     bundle_cache<zephyr_spec> bundles(cells);
-    size_t minw = (size + shore - 1)/shore;
+    //cliques inside one cell were found above, if any; a clique_cache has width 2 or more
+    size_t minw = max((size + shore - 1)/shore, size_t(2));
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
     if (max_length < numeric_limits<size_t>::max()) maxw = min(2*max_length+1, maxw);
     for(size_t width = minw; width <= maxw; width++) {
@@ -128,7 +130,7 @@ bool find_clique_nice(const cell_cache<pegasus_spec> &cells,
                       size_t &,
                       size_t &max_length) {
     bundle_cache<pegasus_spec> bundles(cells);
-    size_t minw = (size + 1)/2;
+    size_t minw = max((size + 1)/2, size_t(2));
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
 
     for(size_t w = minw; w <= maxw; w++) {
-- 
2.43.0


From 8262700e4de39601d5eee839ce29e6cfc957d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 26/63] fix: the clique cache minimizes the chain length of
 every clique size

Within an embedding of the cache the chains were not sorted by length, and an embedding
was only remembered for its longest chains: smaller cliques got longer chains than
necessary (and than find_clique_embedding finds without the cache).
---
 include/busclique/clique_cache.hpp | 16 ++++++++++++----
 minorminer/busclique.pyx           | 16 ++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/busclique/clique_cache.hpp b/include/busclique/clique_cache.hpp
index 2af40bb..3283155 100644
--- a/include/busclique/clique_cache.hpp
+++ b/include/busclique/clique_cache.hpp
@@ -382,10 +382,18 @@ class clique_yield_cache {
     void process_cliques(const clique_cache<topo_spec> &cliques) {
         vector<vector<size_t>> emb;
         if (cliques.extract_solution(emb)) {
-            size_t real_len = emb_max_length(emb);
-            if(clique_yield[real_len] < emb.size()) {
-                clique_yield[real_len] = emb.size();
-                best_embeddings[real_len] = emb;
+            std::stable_sort(emb.begin(), emb.end(),
+                             [](const vector<size_t> &a, const vector<size_t> &b) {
+                                 return a.size() < b.size();
+                             });
+            //the chains up to each length are a clique of that chain length
+            while(emb.size()) {
+                size_t real_len = emb.back().size();
+                if(clique_yield[real_len] < emb.size()) {
+                    clique_yield[real_len] = emb.size();
+                    best_embeddings[real_len] = emb;
+                }
+                while(emb.size() && emb.back().size() == real_len) emb.pop_back();
             }
         }
     }
diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 0b4b9c1..547d1a7 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -698,19 +698,19 @@ cdef dict _make_clique_cache(vector[embedding_t] &embs):
     maximum chainlength is minimized.
     """
     cdef embedding_t emb
-    cdef size_t maxsize = 0
-    cdef size_t maxlength = 0
-    cdef size_t i, j
     cdef dict by_size = {}
     cdef dict by_length = {}
     cdef list raw = []
     for length, emb in enumerate(embs):
         by_length[length] = length
-        raw.append(tuple(map(tuple, emb)))
-        maxsize = max(emb.size(), maxsize)
-        for i in range(maxsize, -1, -1):
-            if by_size.setdefault(i, length) != length:
-                break
+        # shortest chains first: cliques of smaller sizes are prefixes of this
+        chains = tuple(sorted(map(tuple, emb), key=len))
+        raw.append(chains)
+        by_size.setdefault(0, length)
+        for size, chain in enumerate(chains, 1):
+            best = by_size.get(size)
+            if best is None or len(chain) < len(raw[best][size - 1]):
+                by_size[size] = length
     return {'raw': raw, 'size': by_size, 'length': by_length}
 
 cdef _keep_biclique_key(tuple key0, tuple key1, dict chainlength):
-- 
2.43.0


From 59c0c29ef0289f9df38540130dbff7e98ac5dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:30 +0000
Subject: [PATCH 27/63] fix: update_clique_cache replaces the cliques in memory

Cliques of other sizes survived the update, and an empty cache changed nothing.
---
 minorminer/busclique.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 547d1a7..85768b7 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -284,6 +284,7 @@ class busgraph_cache:
             cache = enumerate(cache)
 
         empty = True
+        self._cliques = None
         for size, emb in cache:
             empty = False
             self.insert_clique_embedding(emb, write_to_disk=False, direct=True)
-- 
2.43.0


From d720f0e287e694318f0dc3a9433a673523fc9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:18 +0000
Subject: [PATCH 28/63] fix: key the caches by every edge and the seed

Graphs which differ in odd couplers share a topology identifier, and so shared a cache:
a cached clique could use a coupler the graph does not have. The identifier of pegasus
graphs does not include the seed either, so busgraph_cache objects with different seeds
returned whichever cliques were cached first. The topology identifier is unchanged.
---
 minorminer/busclique.pyx | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 85768b7..9f16d9e 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -31,6 +31,7 @@ from itertools import zip_longest
 from hashlib import sha256
 
 from cpython.mem cimport PyMem_Malloc, PyMem_Free
+from libcpp.algorithm cimport sort
 from cpython.bytes cimport PyBytes_FromStringAndSize
 
 
@@ -461,7 +462,7 @@ class busgraph_cache:
         pathlib.Path(basedir).mkdir(parents=True, exist_ok=True)
         lockfile = os.path.join(basedir, ".lock")
         lrufile = os.path.join(basedir, ".lru")
-        identifier = self._graph.identifier
+        identifier = self._graph.cache_key
         shortcode = self._graph.short_identifier
 
         #this makes our writes to the filesystem atomic
@@ -815,6 +816,22 @@ cdef _serialize(topo_cache_t *topo, str family):
     shortcode = "{}_{:16x}".format(family, shortcode_state)
     return ret, shortcode
 
+cdef bytes _cache_key(bytes identifier, edges_t edges, uint32_t seed):
+    """
+    The key of the caches of a graph: what they depend on besides its identifier,
+    that is, the seed and couplers which are not seen by the polynomial algorithms
+    (embeddings without them do not use odd couplers; small cliques, and embeddings
+    inserted into the cache, do).  The order of edges and endpoints is irrelevant.
+    """
+    cdef size_t i
+    for i in range(edges.size()):
+        if edges[i].second < edges[i].first:
+            edges[i].first, edges[i].second = edges[i].second, edges[i].first
+    sort(edges.begin(), edges.end())
+    h = sha256((<char *>edges.data())[:edges.size()*sizeof(pair[size_t, size_t])])
+    h.update(seed.to_bytes(sizeof(uint32_t), 'little'))
+    return identifier + h.digest()
+
 cdef class _zephyr_busgraph:
     cdef topo_cache[zephyr_spec] *topo
     cdef nodes_t nodes
@@ -823,6 +840,7 @@ cdef class _zephyr_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object cache_key
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
         This is a class which manages a single zephyr graph, and dispatches
@@ -863,6 +881,7 @@ cdef class _zephyr_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'zephyr')
+            self.cache_key = _cache_key(self.identifier, edges, internal_seed)
 
         del zep
 
@@ -934,6 +953,7 @@ cdef class _pegasus_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object cache_key
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
         This is a class which manages a single pegasus graph, and dispatches
@@ -976,6 +996,7 @@ cdef class _pegasus_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'pegasus')
+            self.cache_key = _cache_key(self.identifier, edges, internal_seed)
 
         del peg
 
@@ -1057,6 +1078,7 @@ cdef class _chimera_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object cache_key
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         rows = g.graph['rows']
         cols = g.graph['columns']
@@ -1093,6 +1115,7 @@ cdef class _chimera_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'chimera')
+            self.cache_key = _cache_key(self.identifier, edges, internal_seed)
 
         del chim
 
-- 
2.43.0


From 8c82c0b62217a77cf8c0838188c08f7421746baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:16 +0000
Subject: [PATCH 29/63] fix: let several processes create the cache directory
 at once

homebase creates the directory if it does not exist, in two steps, and fails when
another process or thread creates it in between.
---
 minorminer/busclique.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 9f16d9e..5caefba 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -204,7 +204,10 @@ class busgraph_cache:
         Returns:
             str
         """
-        return homebase.user_data_dir('busclique', 'dwave', version)
+        rootdir = homebase.user_data_dir('busclique', 'dwave', version,
+                                         create=False)
+        pathlib.Path(rootdir).mkdir(parents=True, exist_ok=True)
+        return rootdir
 
     @staticmethod
     def clear_all_caches():
-- 
2.43.0


From cf455c581aa00c62291525e551f1e1638085145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:07 +0000
Subject: [PATCH 30/63] fix: update_clique_cache accepts its cache objects on
 coordinate-labeled graphs

The chains of get_clique_cache are integer-labeled, whatever the labels of the graph.
---
 minorminer/busclique.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 5caefba..7e65e0c 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -291,6 +291,10 @@ class busgraph_cache:
         self._cliques = None
         for size, emb in cache:
             empty = False
+            # the chains of a cache object are integer-labeled
+            if not isinstance(emb, dict):
+                emb = dict(enumerate(emb))
+            emb = self._graph.relabel(emb)
             self.insert_clique_embedding(emb, write_to_disk=False, direct=True)
 
         if empty:
-- 
2.43.0


From 0da57d7d131e6476e160447c765b7ff2fe534954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 31/63] fix: the largest degree of a chimera graph is t + 2

lattice_size_lower_bound never returned for a subgraph of larger degree.
---
 minorminer/utils/feasibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index 1db8d51..e24a019 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -168,7 +168,7 @@ def lattice_size_lower_bound(
 
         if t is None:
             t = 4
-        max_degrees = {"chimera": 2 + 2 * t, "pegasus": 15, "zephyr": 4 + 4 * t}
+        max_degrees = {"chimera": 2 + t, "pegasus": 15, "zephyr": 4 + 4 * t}
         max_source_degree = max(d for _, d in S.degree)
 
         if max_source_degree > max_degrees[topology]:
-- 
2.43.0


From 47ff924a06ff23962a017b8c1b5e5976cdc9aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 32/63] fix: two-colorable graphs use the colors 0 and 1

---
 minorminer/utils/feasibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index e24a019..fcfb7d6 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -178,7 +178,7 @@ def lattice_size_lower_bound(
     if topology == "chimera":
         # Two colorability is necessary, and cheap to check
         if any(
-            c > 2
+            c > 1
             for c in nx.algorithms.coloring.greedy_coloring.greedy_color(
                 S, strategy="connected_sequential_bfs"
             ).values()
-- 
2.43.0


From fd7c4624e72a10a0bf0a232dd7e7f05d0b3bc084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 33/63] fix: lattice_size_lower_bound restricts degrees and
 colors of subgraphs only

Any source graph has a minor embedding in a large enough lattice.
---
 minorminer/utils/feasibility.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index fcfb7d6..f7af1b7 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -169,15 +169,16 @@ def lattice_size_lower_bound(
         if t is None:
             t = 4
         max_degrees = {"chimera": 2 + t, "pegasus": 15, "zephyr": 4 + 4 * t}
-        max_source_degree = max(d for _, d in S.degree)
+        max_source_degree = max((d for _, d in S.degree), default=0)
 
-        if max_source_degree > max_degrees[topology]:
+        # chains can have any degree
+        if one_to_one and max_source_degree > max_degrees[topology]:
             return None
 
     N = S.number_of_nodes()
     if topology == "chimera":
-        # Two colorability is necessary, and cheap to check
-        if any(
+        # Two colorability is necessary for subgraphs, and cheap to check
+        if one_to_one and any(
             c > 1
             for c in nx.algorithms.coloring.greedy_coloring.greedy_color(
                 S, strategy="connected_sequential_bfs"
-- 
2.43.0


From a2fed5b29501a5e8cd4920baa773bf5019addf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 34/63] fix: embedding_feasibility_filter returns a bool

A numpy bool is not False, so lattice_size_lower_bound ignored it.
---
 minorminer/utils/feasibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index f7af1b7..41f7536 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -104,7 +104,7 @@ def embedding_feasibility_filter(
                 if v < 0
             ]
         )
-        return min_auxiliary_necessary <= nT_auxiliary
+        return bool(min_auxiliary_necessary <= nT_auxiliary)
 
     else:
         return True
-- 
2.43.0


From a310b7ce941cc56a3fd99806bfdb9ac81e4f98a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 35/63] fix: lattice_size_lower_bound raises the documented
 error if T and t are inconsistent

---
 minorminer/utils/feasibility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index 41f7536..4a2da9e 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -162,6 +162,8 @@ def lattice_size_lower_bound(
 
         if t is None:
             t = T.graph["tile"]
+        elif topology in ("chimera", "zephyr") and t != T.graph["tile"]:
+            raise ValueError("Arguments T and t are inconsistent")
     else:
         if topology is None:
             raise ValueError("T or topology must be specified")
-- 
2.43.0


From 0e078fefcc856022be25c7c932759fd5a52efcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:11 +0000
Subject: [PATCH 36/63] fix: find_sublattice_embeddings searches for chains
 when one_to_iterable is set

Without it the chains of an embedding in a tile were not removed from the target
before the next search, and minor embeddings were filtered out.
---
 minorminer/utils/parallel_embeddings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 0aee924..6f5b24a 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -580,6 +580,7 @@ def find_sublattice_embeddings(
                 Tr,
                 max_num_emb=max_num_emb - len(embs),
                 use_filter=use_filter,
+                one_to_iterable=one_to_iterable,
                 seed=seed,
                 embedder=embedder,
                 embedder_kwargs=embedder_kwargs,
-- 
2.43.0


From f5f6da54f00935117f2822b4ad785d1b1a724d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:11 +0000
Subject: [PATCH 37/63] fix: find_sublattice_embeddings without a tile passes
 its arguments on

one_to_iterable, use_filter, shuffle_all_graphs and timeout were dropped.
---
 minorminer/utils/parallel_embeddings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 6f5b24a..b2b7a76 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -434,9 +434,13 @@ def find_sublattice_embeddings(
             S=S,
             T=T,
             max_num_emb=max_num_emb,
+            use_filter=use_filter,
+            one_to_iterable=one_to_iterable,
+            shuffle_all_graphs=shuffle_all_graphs,
             seed=seed,
             embedder=embedder,
             embedder_kwargs=embedder_kwargs,
+            timeout=timeout_at - perf_counter(),
         )
     if T is not None and T.graph.get("family", T_family) not in {
         "chimera",
-- 
2.43.0


From 217cd21652d2775c8e71053e36432478255991e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:11 +0000
Subject: [PATCH 38/63] fix: find_sublattice_embeddings generates the target
 without a tile too

---
 minorminer/utils/parallel_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index b2b7a76..795cc43 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -432,7 +432,7 @@ def find_sublattice_embeddings(
     if sublattice_size is None and tile is None:
         return find_multiple_embeddings(
             S=S,
-            T=T,
+            T=_local_graph(T, T_family, T_kwargs) if T is None else T,
             max_num_emb=max_num_emb,
             use_filter=use_filter,
             one_to_iterable=one_to_iterable,
-- 
2.43.0


From 237dd230051805b67d043f9be9991a179ae347fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:11 +0000
Subject: [PATCH 39/63] fix: array_to_embeddings inverts embeddings_to_array
 for square arrays

As many embeddings as variables were taken for a single embedding.
---
 minorminer/utils/parallel_embeddings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 795cc43..dc1fcd0 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -125,7 +125,9 @@ def array_to_embeddings(
     if node_order is None:
         node_order = range(len(embs[0]))
 
-    if len(embs) == len(node_order):
+    if len(embs) == len(node_order) and not any(
+        isinstance(emb, (list, np.ndarray)) for emb in embs
+    ):
         embs = [{node_order[idx]: v for idx, v in enumerate(embs)}]
     else:
         embs = [{node_order[idx]: v for idx, v in enumerate(emb)} for emb in embs]
-- 
2.43.0


From 24f2dd5f770ad78d383f8dacfecf5e918e0957b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:37 +0000
Subject: [PATCH 40/63] fix: find_sublattice_embeddings shuffles the graphs of
 each tile

shuffle_all_graphs was documented and ignored.
---
 minorminer/utils/parallel_embeddings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index dc1fcd0..558904b 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -587,7 +587,8 @@ def find_sublattice_embeddings(
                 max_num_emb=max_num_emb - len(embs),
                 use_filter=use_filter,
                 one_to_iterable=one_to_iterable,
-                seed=seed,
+                shuffle_all_graphs=shuffle_all_graphs,
+                seed=prng if shuffle_all_graphs else seed,
                 embedder=embedder,
                 embedder_kwargs=embedder_kwargs,
                 timeout=timeout_at - perf_counter(),
-- 
2.43.0


From daab6124c3a44a1dedfada9627c480cde85a0f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 41/63] fix: p_norm uses the given distances, in the order of
 the layout

---
 minorminer/layout/layout.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index dcbf457..cb1729b 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -162,10 +162,14 @@ def _graph_distance_matrix(G,
 
     if disconnected_distance is None:
         disconnected_distance = len(G)
-        
+
+    # Either a dictionary or an iterator over its items
+    distances = dict(all_pairs_shortest_path_length)
+    vertices = sorted(G)
+
     return np.array([
-        [V.get(v, disconnected_distance) for v in G]
-        for _, V in nx.all_pairs_shortest_path_length(G)
+        [distances[u].get(v, disconnected_distance) for v in vertices]
+        for u in vertices
         ])
 
 
-- 
2.43.0


From 96a44e0d4942cd51cce796a53888cc2182109643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 42/63] fix: p_norm minimizes the infinity norm in every
 dimension

---
 minorminer/layout/layout.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index cb1729b..8357622 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -220,14 +220,15 @@ def _p_norm_objective(layout_vector, G_distances, dim, p):
         elif p == float("inf"):
             # Note: It may not be faster to do this outside of einsum
             abs_diff = np.abs(diff)
-            x_bigger = abs_diff[:, :, 0] > abs_diff[:, :, 1]
+            # One of the largest coordinates for every pair, the last one for ties
+            largest = dim - 1 - np.argmax(abs_diff[:, :, ::-1], axis=-1)
 
             grad = np.einsum(
                 'ijk,ij,ijk,ijk->ik',
                 2*diff,
                 dist - G_distances,
                 np.nan_to_num(1/abs_diff),
-                np.dstack((x_bigger, np.logical_not(x_bigger)))
+                np.arange(dim) == largest[:, :, np.newaxis]
             )
         else:
             grad = np.einsum(
-- 
2.43.0


From 3443241edf374d33b933fb7762fedb548ead34fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 43/63] fix: scaling a layout that is a single point

---
 minorminer/layout/layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 8357622..79d6f35 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -665,6 +665,10 @@ def _scale_layout(layout_array, new_scale, old_scale=None, center=None):
     if old_scale is None:
         old_scale = np.max(np.abs(L))
 
+    # A layout that is a single point stays one
+    if old_scale == 0:
+        return layout_array
+
     # Scale the thing
     scaled_L = (new_scale/old_scale) * L
 
-- 
2.43.0


From 4ab2e33df0208d781327e96661ff1cc287df99cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 44/63] fix: components are packed in two dimensions only

---
 minorminer/layout/layout.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 79d6f35..69fa1ae 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -739,11 +739,12 @@ def _pack_components(G, layout, **kwargs):
 
     If `scale` is an argument, we rescale the layout after the above.
 
-    If `dim` is an argument and not equal to 2, we don't have an
-    implementation, so we pass the graph directly into `layout` and bypass
-    the packing procedure
+    If `dim` (or the dimension of `center`) is an argument and not equal to 2,
+    we don't have an implementation, so we pass the graph directly into `layout`
+    and bypass the packing procedure
     """
-    if kwargs.get('dim', 2) != 2:
+    dim, _ = _set_dim_and_center(kwargs.get('dim'), kwargs.get('center'))
+    if dim != 2:
         return layout(G, **kwargs)
 
     layouts = []
-- 
2.43.0


From 3d916694947db2d52e2370cd7d96b3967d2c2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 45/63] fix: pack components that are laid out on a line

---
 minorminer/layout/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 69fa1ae..52f514c 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -765,7 +765,7 @@ def _pack_components(G, layout, **kwargs):
             apos = np.array(list(cpos.values()))
             rpos, dims = _rotate_to_minimize_area(apos)
             cpos = dict(zip(cpos, rpos))
-            dims = [int(ceil(z)+.001) for z in dims]
+            dims = [max(1, int(ceil(z)+.001)) for z in dims]
         elif len(c) == 2:
             cpos = dict(zip(c, [(-.5, 0), (.5, 0)]))
             dims = [2, 1]
-- 
2.43.0


From fe6b3633dd3e5e38aff20a75ac3986f42c7fbdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 46/63] fix: graph_layout of nodes in a single row or column

---
 minorminer/layout/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 52f514c..447a590 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -322,7 +322,7 @@ def graph_layout(G, dim=None, center=None, scale=None, **kwargs):
     x_max, y_max = np.max(dnx_layout_arr, axis=0)
     if x_min!=0 or x_max!=dnx_scale or y_min!=-dnx_scale or y_max!=0: 
         dnx_layout_arr = dnx_layout_arr - np.array([x_min, y_max]) #make (0, 0) top left corner
-        dnx_layout_arr = dnx_layout_arr * np.array([(dnx_scale)/(x_max-x_min), (dnx_scale)/(y_max-y_min)]) #make (dnx_scale, -dnx_scale) bottom right corner
+        dnx_layout_arr = dnx_layout_arr * np.array([(dnx_scale)/(x_max-x_min or 1), (dnx_scale)/(y_max-y_min or 1)]) #make (dnx_scale, -dnx_scale) bottom right corner
         paddim = dim - 2
         zeros = np.zeros((dnx_layout_arr.shape[0], paddim))
         dnx_layout_arr = np.hstack((dnx_layout_arr, zeros)) + dnx_center
-- 
2.43.0


From 5f6e9865cc58ae10d7ba87fd6e00b9c9ee9e5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 47/63] fix: setting the position of a vertex updates the
 layout array

---
 minorminer/layout/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 447a590..52de459 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -531,7 +531,7 @@ class Layout(abc.MutableMapping):
 
     def __setitem__(self, key, value):
         """Set the layout value at the key vertex."""
-        self.layout[key] = value
+        self.layout = {**self.layout, key: value}
 
     def __delitem__(self, key):
         """Delete the layout value at the key vertex."""
-- 
2.43.0


From aa8eaaae6c1815165372e80e6ccdadb61650c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 48/63] fix: closest respects the lower bound on the subset
 size

---
 minorminer/layout/placement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index 9cdf3ad..dc3eff3 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -387,7 +387,8 @@ def _get_connected_subgraphs(G, k, single_set=False):
             # For each vertex in the set, iterate over its neighbors.
             for v in X:
                 for u in G.neighbors(v):
-                    connected_subgraphs[i + 1].add(X.union({u}))
+                    if u not in X:
+                        connected_subgraphs[i + 1].add(X.union({u}))
 
     return connected_subgraphs
 
-- 
2.43.0


From e10256fad8640d3a90784ba1089aa1400ae1ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 49/63] fix: closest with more neighbors than subsets

---
 minorminer/layout/placement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index dc3eff3..8ac931c 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -336,6 +336,9 @@ def closest(S_layout, T_layout, subset_size=(1, 1), num_neighbors=1, **kwargs):
     layout_points = [tuple(p) for p in T_subgraph_layout.values()]
     overlap_counter = Counter()
 
+    # There may be fewer subsets than neighbors to query
+    num_neighbors = min(num_neighbors, max(1, len(layout_points)))
+
     try:
         tree = spatial.KDTree(layout_points)  # This fails for the empty graph
     except ValueError:
-- 
2.43.0


From 0e1c9a5e892249dbcefc8cda2bbba78ae59b1cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 50/63] fix: intersection on grids with a single row or column

---
 minorminer/layout/placement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index 8ac931c..cfaac95 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -141,7 +141,8 @@ def _intersection_binning(S_layout, T):
 
     # Add "variables" (vertices from S) to grid points too
     for v, pos in S_layout.items():
-        grid_point = tuple(int(x) for x in np.round(pos))
+        # A layout is not scaled to a grid with a single row or column
+        grid_point = tuple(int(x) for x in np.clip(np.round(pos), 0, 2*scale))
         G.nodes[grid_point]["variables"].add(v)
 
     return G
-- 
2.43.0


From 1ac73f6927d80c9d31edc0a920d9dac914cdb1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 51/63] fix: layout.find_embedding accepts edges for both
 graphs

---
 minorminer/layout/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/__init__.py b/minorminer/layout/__init__.py
index 00a717b..d99a1d7 100644
--- a/minorminer/layout/__init__.py
+++ b/minorminer/layout/__init__.py
@@ -17,7 +17,7 @@ import time
 import networkx as nx
 import minorminer as mm
 
-from .layout import Layout, dnx_layout, graph_layout, p_norm
+from .layout import Layout, _parse_graph, dnx_layout, graph_layout, p_norm
 from .placement import Placement, closest, intersection
 
 
@@ -87,6 +87,9 @@ def find_embedding(
     """
     start = time.perf_counter()
 
+    # Edge data structures are accepted for both graphs
+    S, T = _parse_graph(S), _parse_graph(T)
+
     # Parse kwargs
     layout_kwargs, placement_kwargs = _parse_kwargs(kwargs)
 
-- 
2.43.0


From 3f949a9d91cd02bba5efb40b6e344058b8e9c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 52/63] fix: layout.find_embedding uses an explicit layout of
 the target

---
 minorminer/layout/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/__init__.py b/minorminer/layout/__init__.py
index d99a1d7..8228778 100644
--- a/minorminer/layout/__init__.py
+++ b/minorminer/layout/__init__.py
@@ -162,7 +162,10 @@ def _parse_layout_parameter(S, T, layout, layout_kwargs):
             raise ValueError(
                 "layout is expected to be a function or a length-2 iterable")
     else:
-        s_layout = t_layout = layout
+        s_layout = layout
+        # The graph_layout is used for D-Wave topologies
+        dwave_topology = T.graph.get("family") in ("chimera", "pegasus", "zephyr")
+        t_layout = None if dwave_topology else layout
 
     # Get a Layout object for S
     if isinstance(s_layout, Layout):
@@ -176,7 +179,7 @@ def _parse_layout_parameter(S, T, layout, layout_kwargs):
         T_layout = t_layout
     else:
         # Use the graph_layout if possible
-        if T.graph.get("family") in ("chimera", "pegasus", "zephyr"):
+        if t_layout is None and T.graph.get("family") in ("chimera", "pegasus", "zephyr"):
             T_layout = Layout(T, layout=graph_layout, **layout_kwargs)
         # Assumes t_layout a callable or implements a mapping interface
         else:
-- 
2.43.0


From 3568f863cf07cbb5ffbee4032b581da13181fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:07 +0000
Subject: [PATCH 53/63] fix: layouts and placements of the empty graph

---
 minorminer/layout/layout.py    | 6 ++++--
 minorminer/layout/placement.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 52de459..1b4ab51 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -429,7 +429,9 @@ class Layout(abc.MutableMapping):
 
         _call_layout = False
         # If passed in, save or compute the layout
-        if layout is None:
+        if len(self.G) == 0:
+            self.layout = {}
+        elif layout is None:
             if self.G.graph.get('family') in ('pegasus', 'chimera', 'zephyr'):
                 self.layout = dnx_layout(self.G, **kwargs)
             else:
@@ -505,7 +507,7 @@ class Layout(abc.MutableMapping):
         # Cast it as a numpy array incase it's not.
         value = np.array(value)
 
-        if value.size != 0:
+        if value.size != 0 and self.layout_array.size != 0:
             self.layout_array = _center_layout(
                 self.layout_array, value, self._center)
 
diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index cfaac95..76a8105 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -452,8 +452,8 @@ class Placement(abc.MutableMapping):
         self.S_layout = _parse_layout(S_layout)
         self.T_layout = _parse_layout(T_layout)
 
-        # Layout dimensions should match
-        if self.S_layout.dim != self.T_layout.dim:
+        # Layout dimensions should match, an empty source has none
+        if len(self.S_layout) and self.S_layout.dim != self.T_layout.dim:
             raise ValueError(
                 "S_layout has dimension {} but T_layout has dimension {}. These must match.".format(
                     self.S_layout.dim, self.T_layout.dim)
-- 
2.43.0


From 012c246d3c99d1181657afba0878a950614a1125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:32 +0000
Subject: [PATCH 54/63] fix: Placement scales the source to scale_ratio if it
 is the larger one too

---
 minorminer/layout/placement.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index 76a8105..4e76bfb 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -459,12 +459,12 @@ class Placement(abc.MutableMapping):
                     self.S_layout.dim, self.T_layout.dim)
             )
 
-        # Scale S if S_layout is bigger than T_layout
-        if self.S_layout.scale > self.T_layout.scale:
-            self.S_layout.scale = self.T_layout.scale
-        # Or scale S to the user specified scale
-        elif scale_ratio:
+        # Scale S to the user specified scale
+        if scale_ratio:
             self.S_layout.scale = scale_ratio*self.T_layout.scale
+        # Or scale S if S_layout is bigger than T_layout
+        elif self.S_layout.scale > self.T_layout.scale:
+            self.S_layout.scale = self.T_layout.scale
 
         if placement is None:
             self.placement = closest(self.S_layout, self.T_layout)
-- 
2.43.0


From c3d87bacc8b77cb666dc8cc4dc15ffeed0e05e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 55/63] fix: largestNativeClique accepts long max_chain_length

nativeCliqueEmbed has no score for widths beyond the processor, which was
compared with the best score (TypeError).
---
 minorminer/utils/polynomialembedder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/polynomialembedder.py b/minorminer/utils/polynomialembedder.py
index 62528fa..229e342 100644
--- a/minorminer/utils/polynomialembedder.py
+++ b/minorminer/utils/polynomialembedder.py
@@ -581,7 +581,7 @@ class eden_processor(object):
 
         for w in range(wmax + 1):
             score, clique = self.nativeCliqueEmbed(w)
-            if bestscore is None or score > bestscore:
+            if bestscore is None or (score is not None and score > bestscore):
                 bigclique = clique
                 bestscore = score
         return bestscore, bigclique
-- 
2.43.0


From 24e39b2456a3d9fc5c72341b0575ff3308da6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:35 +0000
Subject: [PATCH 56/63] fix: count the lines that start at a missing coupler

The line of a single qubit whose coupler to the previous cell is missing was
not counted, so that smaller cliques and bicliques were found.
---
 minorminer/utils/polynomialembedder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minorminer/utils/polynomialembedder.py b/minorminer/utils/polynomialembedder.py
index 229e342..b7f424c 100644
--- a/minorminer/utils/polynomialembedder.py
+++ b/minorminer/utils/polynomialembedder.py
@@ -209,6 +209,7 @@ class eden_processor(object):
                         block[y] += 1
                     elif y and (x, y, 1, k) not in self[x, y - 1, 1, k]:
                         laststart[k] = y
+                        block[y] += 1
                     else:
                         for y1 in range(laststart[k], y + 1):
                             block[y1] += 1
@@ -233,6 +234,7 @@ class eden_processor(object):
                         block[x] += 1
                     elif x and (x, y, 0, k) not in self[x - 1, y, 0, k]:
                         laststart[k] = x
+                        block[x] += 1
                     else:
                         for x1 in range(laststart[k], x + 1):
                             block[x1] += 1
-- 
2.43.0


From 1518b5cdcf1b79a68dbc45af36f001ef557dbd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:07 +0000
Subject: [PATCH 57/63] fix: quickpass with local_search embeds variables
 without a chain

The local search only looks for chains up to the size of the previous one,
so that a variable without a chain never got one, and quickpass(local_search=True)
on a fresh miner always returned nothing.
---
 include/find_embedding/pathfinder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 6d1ec86..4d8c3a1 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -559,8 +559,9 @@ class pathfinder_base : public pathfinder_public_interface {
                 lastsize = bestEmbedding.chainsize(u);
             }
 
-            bool ls = local_search;
-            if (ls && lastsize) {
+            // the local search looks for chains no longer than the last one, so there must be one
+            bool ls = local_search && lastsize;
+            if (ls) {
                 for (auto &q : bestEmbedding.get_chain(u)) {
                     if (bestEmbedding.weight(q) > 1) {
                         ls = false;
-- 
2.43.0


From a53be2750c0e77fa884e0054ccbec3e46b91ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:24 +0000
Subject: [PATCH 58/63] fix: the parallel search weighs the qubits for a
 variable without embedded neighbors

The serial search takes the qubit used least, the parallel one took any, used
ones too.
---
 include/find_embedding/pathfinder.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 4d8c3a1..5fe029d 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -857,7 +857,12 @@ class pathfinder_parallel : public pathfinder_base<embedding_problem_t> {
             }
             if (!neighbors_embedded)
                 for (int q = a; q < b; q++)
-                    if (emb.weight(q) >= super::ep.weight_bound) super::total_distance[q] = max_distance;
+                    if (emb.weight(q) >= super::ep.weight_bound) {
+                        super::total_distance[q] = max_distance;
+                    } else {
+                        distance_t d = max(super::qubit_weight[q], super::total_distance[q]);
+                        super::total_distance[q] = d;
+                    }
         });
     }
 };
-- 
2.43.0


From cdcd0dd943a3fca78340c79a69524c37d01a2ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 59/63] fix: a component of one isolated node has size one

---
 include/find_embedding/graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/graph.hpp b/include/find_embedding/graph.hpp
index 5205414..e567e5f 100644
--- a/include/find_embedding/graph.hpp
+++ b/include/find_embedding/graph.hpp
@@ -241,7 +241,7 @@ class components {
                     label[comp[j]] = j;
                     index[comp[j]] = c;
                 }
-                component_g.push_back(input_graph());
+                component_g.push_back(input_graph(static_cast<int>(comp.size()), {}, {}));
                 _num_reserved.push_back(std::end(comp) - back);
             } else {
                 component.resize(c);
-- 
2.43.0


From 047d5d13253eb4b1dcf73d1c723d28c6f92afd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 60/63] fix: a keyboard interrupt noticed by the logger reaches
 the embedder

---
 minorminer/_minorminer.pyx   | 16 ++++++++++------
 minorminer/_minorminer_h.pxi |  1 +
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index 8bbeb56..9561282 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -312,12 +312,16 @@ class EmptySourceGraphError(RuntimeError):
 # Even though this is marked as noexcept, exceptions raised by the logger will
 # still eventually be caught.
 cdef void wrap_logger(void *logger, int loglevel, const string &msg) noexcept:
-    if loglevel == 0:
-        (<object>logger).error(msg.rstrip())
-    elif 1 <= loglevel < 4:
-        (<object>logger).info(msg.rstrip())
-    else:
-        (<object>logger).debug(msg.rstrip())
+    try:
+        if loglevel == 0:
+            (<object>logger).error(msg.rstrip())
+        elif 1 <= loglevel < 4:
+            (<object>logger).info(msg.rstrip())
+        else:
+            (<object>logger).debug(msg.rstrip())
+    except KeyboardInterrupt:
+        # leave it to the embedder, which checks for interrupts
+        PyErr_SetInterrupt()
 
 cdef class _input_parser:
     cdef input_graph Sg, Tg
diff --git a/minorminer/_minorminer_h.pxi b/minorminer/_minorminer_h.pxi
index ebdd448..da0125c 100644
--- a/minorminer/_minorminer_h.pxi
+++ b/minorminer/_minorminer_h.pxi
@@ -18,6 +18,7 @@ from libcpp.map cimport map
 from libcpp.pair cimport pair
 from libc.stdint cimport uint8_t, uint64_t
 from libcpp.string cimport string
+from cpython.exc cimport PyErr_SetInterrupt
 
 ctypedef pair[int,int] intpair
 ctypedef pair[intpair, int] intpairint
-- 
2.43.0


From 7fb220f9c401c941f56deba1f07536038652d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:46 +0000
Subject: [PATCH 61/63] fix: an interrupt in interactive mode stops the whole
 search

---
 include/find_embedding/pathfinder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 5fe029d..a0af588 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -213,9 +213,10 @@ class pathfinder_base : public pathfinder_public_interface {
             return -2;
         } catch (const ProblemCancelledException & /*e*/) {
             ep.major_info("problem cancelled via keyboard interrupt");
-            if (params.interactive)
+            if (params.interactive) {
+                stoptime = clock::now();  // stop the following passes, too
                 return -2;
-            else
+            } else
                 throw;
         }
         return return_value;
-- 
2.43.0


From 22c32af142bf43929b3e38dc70c4a9a5283f270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:46 +0000
Subject: [PATCH 62/63] fix: a pass that fails looks for interrupts and the
 time limit, too

---
 include/find_embedding/pathfinder.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index a0af588..7c76c3a 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -231,7 +231,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 ep.debug("chain for %d kept during initialization\n", u);
             } else {
                 ep.debug("finding a new chain for %d\n", u);
-                if (!find_chain(emb, u)) return -1;
+                if (!find_chain(emb, u)) return check_stops(-1);
             }
         }
         return check_stops(1);
@@ -242,7 +242,7 @@ class pathfinder_base : public pathfinder_public_interface {
         bool improved = false;
         for (auto &u : ep.var_order(VARORDER_PFS)) {
             ep.debug("finding a new chain for %d\n", u);
-            if (!find_chain(emb, u)) return -1;
+            if (!find_chain(emb, u)) return check_stops(-1);
 
             improved |= check_improvement(emb);
             if (ep.embedded) break;
@@ -277,7 +277,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 emb.steal_all(u);
                 emb.tear_out(u);
                 if (!find_chain(emb, u, 0)) {
-                    return -1;
+                    return check_stops(-1);
                 }
             }
             improved |= check_improvement(emb);
@@ -296,7 +296,7 @@ class pathfinder_base : public pathfinder_public_interface {
         std::fill(qubit_permutations.begin() + 1, qubit_permutations.end(), qubit_permutations[0]);
         for (auto &u : ep.var_order(ep.improved ? VARORDER_KEEP : VARORDER_PFS)) {
             ep.debug("finding a new chain for %d\n", u);
-            if (!find_chain(emb, u)) return -1;
+            if (!find_chain(emb, u)) return check_stops(-1);
 
             improved |= check_improvement(emb);
         }
-- 
2.43.0


From 0920647320ede3fca43d46a87a7c10d87d6f2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:23 +0000
Subject: [PATCH 63/63] fix: resetting a topology restores the order of its
 missing couplers

---
 include/busclique/topo_cache.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/busclique/topo_cache.hpp b/include/busclique/topo_cache.hpp
index cf72f53..942075d 100644
--- a/include/busclique/topo_cache.hpp
+++ b/include/busclique/topo_cache.hpp
@@ -72,6 +72,9 @@ class topo_cache {
         if(mask_num > 0) {
             mask_num = 0;
             rng = fastrng(topo.seed);
+            //next() shuffles the bad edges; restore their order
+            bad_edges.clear();
+            compute_bad_edges();
             next();
         }
     }
-- 
2.43.0

