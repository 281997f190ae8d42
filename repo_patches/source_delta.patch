From eefa61e27a410f2e5c5772dbad16c07cdafd9689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 01/74] fix: report every minorminer exception to Python
 instead of terminating

The miner constructor and set_initial_chains were declared without an exception
handler, and handle_exceptions did not catch the base MinorMinerException, so
bad hints or a target graph consumed by fixed chains aborted the interpreter.
---
 minorminer/_minorminer_h.pxi | 4 ++--
 minorminer/src/pyutil.hpp    | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/minorminer/_minorminer_h.pxi b/minorminer/_minorminer_h.pxi
index ca9c138..ebdd448 100644
--- a/minorminer/_minorminer_h.pxi
+++ b/minorminer/_minorminer_h.pxi
@@ -119,11 +119,11 @@ cdef extern from "../include/find_embedding/chain.hpp" namespace "find_embedding
         pathfinder_wrapper() except +handle_exceptions
         parameter_processor pp
         unique_ptr[pathfinder_public_interface] pf
-        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &)
+        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &) except +handle_exceptions
         int heuristicEmbedding() except +handle_exceptions
         int num_vars()
         void get_chain(int, vector[int] &)
-        void set_initial_chains(chainmap &)
+        void set_initial_chains(chainmap &) except +handle_exceptions
         void quickPass(const vector[int] &, int, int, bool, bool, double) except +handle_exceptions
         void quickPass(VARORDER, int, int, bool, bool, double) except +handle_exceptions
 
diff --git a/minorminer/src/pyutil.hpp b/minorminer/src/pyutil.hpp
index 550a84e..95b6586 100644
--- a/minorminer/src/pyutil.hpp
+++ b/minorminer/src/pyutil.hpp
@@ -71,6 +71,10 @@ void handle_exceptions() {
         PyErr_SetString(PyExc_RuntimeError, e.what());
     } catch (const find_embedding::CorruptEmbeddingException &e) {
         PyErr_SetString(PyExc_AssertionError, e.what());
+    } catch (const minorminer::MinorMinerException &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+    } catch (const std::bad_alloc &e) {
+        PyErr_SetString(PyExc_MemoryError, e.what());
     }
 }
 
-- 
2.43.0


From e453fcdb0900075e26eb24b72e48692c1ede7975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 02/74] fix: allocate one qubit permutation per variable

qubit_permutations is indexed by variable (fixed variables included) but was
sized by the number of reserved qubits; with fixed chains that share qubits
there are fewer of those than fixed variables, and the search read and swapped
vectors out of bounds.
---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 84c6bf2..b5c1e9e 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -125,7 +125,7 @@ class pathfinder_base : public pathfinder_public_interface {
               qubit_permutations() {
         vector<int> permutation(num_qubits);
         for (int q = num_qubits; q--;) permutation[q] = q;
-        for (int v = num_vars + num_reserved; v--;) {
+        for (int v = num_vars + num_fixed; v--;) {
             ep.shuffle(permutation.begin(), permutation.end());
             qubit_permutations.push_back(permutation);
         }
-- 
2.43.0


From 709c55f4d53dbc02bce9a36c2d73388b056e0431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 03/74] fix: ignore empty hint chains whose container is truthy

Empty entries of initial_chains, fixed_chains and restrict_chains are documented
to be ignored, but an empty iterable that is not falsy (an iterator, say) was
recorded as an empty chain, whose first element was then read.
---
 minorminer/_minorminer.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index 53aad8f..2f8552e 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -692,7 +692,8 @@ cdef int _get_chainmap(C, chainmap &CMap, SL, TL, parameter) except -1:
                     else:
                         raise RuntimeError, "%s uses target node labels that weren't referred to by any edges"%parameter
                 if a in SL:
-                    CMap.insert(pair[int,vector[int]](SL[a], chain))
+                    if chain.size():
+                        CMap.insert(pair[int,vector[int]](SL[a], chain))
                 else:
                     raise RuntimeError, "%s uses source node labels that weren't referred to by any edges"%parameter
 
-- 
2.43.0


From 1238f39fcf9b05dd192149563d4680e54b29dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:02 +0000
Subject: [PATCH 04/74] fix: sanitize initial chains before linking them

An initial chain for a variable that also has a fixed chain was linked without
being present, an initial chain on qubits reserved by fixed chains indexed past
the per-qubit search arrays (and was not counted as overlap with the fixed
chain), and a repeated qubit was counted as an overlap of the chain with itself.
---
 include/find_embedding/embedding.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 685e6c1..314858f 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -86,10 +86,21 @@ class embedding {
 
         for (auto &vC : fixed_chains) fix_chain(vC.first, vC.second);
 
-        for (auto &vC : initial_chains)
-            if (!ep.fixed(vC.first)) set_chain(vC.first, vC.second);
-
+        // fixed variables keep their fixed chains, reserved qubits are not available
+        // to other variables, and a repeated qubit is only counted once
+        map<int, vector<int>> hints;
         for (auto &vC : initial_chains) {
+            if (ep.fixed(vC.first)) continue;
+            vector<int> hint;
+            for (auto &q : vC.second)
+                if (!ep.reserved(q) && std::find(std::begin(hint), std::end(hint), q) == std::end(hint))
+                    hint.push_back(q);
+            if (hint.size()) hints.emplace(vC.first, hint);
+        }
+
+        for (auto &vC : hints) set_chain(vC.first, vC.second);
+
+        for (auto &vC : hints) {
             int v = vC.first;
             auto &c = var_embedding[v];
             int root = vC.second[0];
-- 
2.43.0


From 3a6f79bc6e3fe06e788f0c0a217bac94d5f1a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:02 +0000
Subject: [PATCH 05/74] fix: treat a huge or infinite timeout as no timeout

The conversion to clock ticks overflowed, so timeout=float('inf') (or 1e10) gave
up at once.
---
 include/find_embedding/pathfinder.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index b5c1e9e..d73b06f 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -586,9 +586,13 @@ class pathfinder_base : public pathfinder_public_interface {
 
     //! perform the heuristic embedding, returning 1 if an embedding was found and 0 otherwise
     virtual int heuristicEmbedding() override {
-        auto timeout0 = duration<double>(params.timeout);
-        auto timeout = duration_cast<clock::duration>(timeout0);
-        stoptime = clock::now() + timeout;
+        // a timeout which is too long for the clock to represent is no timeout at all
+        auto now = clock::now();
+        auto timeout = duration<double>(max(0., params.timeout));
+        if (timeout < duration<double>(clock::time_point::max() - now) / 2)
+            stoptime = now + duration_cast<clock::duration>(timeout);
+        else
+            stoptime = clock::time_point::max();
         ep.reset_mood();
         if (params.skip_initialization) {
             if (initEmbedding.linked()) {
-- 
2.43.0


From d743250753daa978ea41a358c9af9fab119b77fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:31 +0000
Subject: [PATCH 06/74] fix: never build a path through qubits excluded from a
 neighbour's search

With restrict_chains, prepare_visited() marks the qubits outside both domains
with -1.  construct_chain_steiner() took any nonzero mark as 'reached', read a
stale distance and followed stale parents, which crashed or looped forever.
---
 include/find_embedding/embedding.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 314858f..2cdd2ba 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -212,10 +212,10 @@ class embedding {
         for (auto &v : ep.var_neighbors(u)) {
             if (chainsize(v)) {
                 int qv = q;
-                distance_t dqv = visited_list[v][q] ? distances[v][q] : max_distance;
+                distance_t dqv = visited_list[v][q] == 1 ? distances[v][q] : max_distance;
                 for (auto &p : var_embedding[u]) {
                     if (var_embedding[u].refcount(p) > 1) {
-                        distance_t dp = visited_list[v][p] ? distances[v][p] : max_distance;
+                        distance_t dp = visited_list[v][p] == 1 ? distances[v][p] : max_distance;
                         if (dp < dqv) {
                             dqv = dp;
                             qv = p;
-- 
2.43.0


From a9a0e2a1c42868a81f8df62610e59ab4679af89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:54 +0000
Subject: [PATCH 07/74] fix: root short chains inside the variable's domain

find_short_chain() tried every qubit as a root, so the chain-shortening phase
could move a chain clear out of its restrict_chains entry.
---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index d73b06f..27ab43f 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -406,7 +406,7 @@ class pathfinder_base : public pathfinder_public_interface {
                     q = z.node;
                     distance[q] = d = z.dist;
                     pq.pop();
-                    if (!emb.weight(q)) counts[q]++;
+                    if (!emb.weight(q) && ep.accepts_qubit(u, q)) counts[q]++;
 
                     if (counts[q] == degree) {
                         emb.construct_chain_steiner(u, q, parents, distances, visited_list);
-- 
2.43.0


From 9b00d839947d09fa677356baa301245e80997788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:34 +0000
Subject: [PATCH 08/74] fix: pass C strings to the printf-style diagnostics

A CPPDEBUG build passed std::string objects through a variadic call, which is
undefined behaviour (and does not compile with clang).
---
 include/find_embedding/embedding.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 2cdd2ba..c741e78 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -553,9 +553,9 @@ class embedding {
         }
 
         if (err) {
-            ep.error("errors found in data structure, current state is '%s'.  quitting\n", current_state);
+            ep.error("errors found in data structure, current state is '%s'.  quitting\n", current_state.c_str());
 #ifdef CPPDEBUG
-            if (last_diagnostic.size()) ep.debug("last state was %s\n", last_diagnostic);
+            if (last_diagnostic.size()) ep.debug("last state was %s\n", last_diagnostic.c_str());
 #endif
             print();
             throw CorruptEmbeddingException("Errors found in embedding data structure.  Cannot recover.");
-- 
2.43.0


From f1e83f69b101a8e6159dba80d2232de6d23b8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:57 +0000
Subject: [PATCH 09/74] fix: let debug builds accept problems whose variables
 are all fixed

---
 include/find_embedding/find_embedding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/find_embedding.hpp b/include/find_embedding/find_embedding.hpp
index 5ddebd5..243968a 100644
--- a/include/find_embedding/find_embedding.hpp
+++ b/include/find_embedding/find_embedding.hpp
@@ -86,7 +86,7 @@ class parameter_processor {
     vector<int> _filter_fixed_vars() {
         vector<int> unscrew(num_vars);
         minorminer_assert(var_fixed_unscrewed.size() == num_vars);
-        minorminer_assert(num_fixed < num_vars);
+        minorminer_assert(num_fixed <= num_vars);
         for (unsigned int i = 0, front = 0, back = num_vars - num_fixed; i < num_vars; i++) {
             if (var_fixed_unscrewed[i]) {
                 unscrew[back++] = i;
-- 
2.43.0


From 6453a6d93efe15dcdc2c719cee474e228384de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:01 +0000
Subject: [PATCH 10/74] fix: keep the distance bound strict so that sums of
 weights cannot overflow

The weights were scaled so that degree*num_qubits*weight reached 2^63 exactly,
which overflows on small targets.
---
 include/find_embedding/embedding_problem.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/find_embedding/embedding_problem.hpp b/include/find_embedding/embedding_problem.hpp
index cfc3d48..94d81da 100644
--- a/include/find_embedding/embedding_problem.hpp
+++ b/include/find_embedding/embedding_problem.hpp
@@ -267,7 +267,7 @@ class embedding_problem_base {
     }
 
   private:
-    //! computes an upper bound on the distances computed during tearout & replace
+    //! computes a (strict) upper bound on the distances computed during tearout & replace
     size_t compute_margin() {
         if (num_q == 0) return 0;
         size_t max_degree =
@@ -275,9 +275,9 @@ class embedding_problem_base {
                                  [](const vector<int> &a, const vector<int> &b) { return a.size() < b.size(); })
                         ->size();
         if (max_degree == 0)
-            return num_q;
+            return num_q + 1;
         else
-            return max_degree * num_q;
+            return max_degree * num_q + 1;
     }
 
   public:
-- 
2.43.0


From 9cab3825fb66968ddd366eae40cb4890a46e6454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 11/74] fix: flip back path segments only between linked chains

miner.quickpass(local_search=True) followed links of chains which were never
linked, such as partial initial chains, and dereferenced missing entries.
---
 include/find_embedding/embedding.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index c741e78..d7c8e4c 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -235,7 +235,9 @@ class embedding {
     //!  * if the target chainsize is k, stop when the neighbor's size reaches k
     void flip_back(int u, const int target_chainsize) {
         for (auto &v : ep.var_neighbors(u))
-            if (chainsize(v) && !(ep.fixed(v))) var_embedding[v].steal(var_embedding[u], ep, target_chainsize);
+            if (chainsize(v) && !(ep.fixed(v)) && var_embedding[u].get_link(v) != -1 &&
+                var_embedding[v].get_link(u) != -1)
+                var_embedding[v].steal(var_embedding[u], ep, target_chainsize);
         DIAGNOSE_EMB("flip_back")
     }
 
-- 
2.43.0


From 4aaf217a4435058047036878172865fd4e871102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:03 +0000
Subject: [PATCH 12/74] fix: quickpass leaves fixed chains alone

A variable ordering naming a variable with a fixed chain tore that chain out
and replaced it, and left one-sided links behind which later crashed.
---
 include/find_embedding/pathfinder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 27ab43f..5356bf3 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -549,6 +549,7 @@ class pathfinder_base : public pathfinder_public_interface {
         ep.round_beta = round_beta;
         if (clear_first) bestEmbedding = initEmbedding;
         for (auto &u : varorder) {
+            if (ep.fixed(u)) continue;
             lastsize = bestEmbedding.chainsize(u);
             if (lastsize) {
                 bestEmbedding.steal_all(u);
-- 
2.43.0


From 8a09009b3360dd52843043a935520ea68affedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:01 +0000
Subject: [PATCH 13/74] fix: report the failure to start a worker thread as an
 exception

---
 include/find_embedding/pathfinder.hpp | 2 +-
 minorminer/src/pyutil.hpp             | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 5356bf3..9fe2436 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -842,7 +842,7 @@ class pathfinder_parallel : public pathfinder_base<embedding_problem_t> {
         nbr_i = 0;
         neighbors_embedded = 0;
         for (int i = 0; i < num_threads; i++)
-            futures[i] = std::async(std::launch::async, [this, &emb, &u]() { run_in_thread(emb, u); });
+            futures[i] = std::async(std::launch::async, [this, &emb, u]() { run_in_thread(emb, u); });
         for (int i = 0; i < num_threads; i++) futures[i].wait();
 
         for (auto &v : super::ep.var_neighbors(u)) {
diff --git a/minorminer/src/pyutil.hpp b/minorminer/src/pyutil.hpp
index 95b6586..2572e09 100644
--- a/minorminer/src/pyutil.hpp
+++ b/minorminer/src/pyutil.hpp
@@ -75,6 +75,9 @@ void handle_exceptions() {
         PyErr_SetString(PyExc_RuntimeError, e.what());
     } catch (const std::bad_alloc &e) {
         PyErr_SetString(PyExc_MemoryError, e.what());
+    } catch (const std::exception &e) {
+        // for example std::system_error, when no thread can be started
+        PyErr_SetString(PyExc_RuntimeError, e.what());
     }
 }
 
-- 
2.43.0


From ace518e566a6ff96e4aa13bc535e659ed6a7458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:01 +0000
Subject: [PATCH 14/74] fix: return a pair for an empty source graph when
 return_overlap is set

---
 minorminer/_minorminer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index 2f8552e..51632ea 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -287,7 +287,7 @@ def find_embedding(S, T, **params):
     try:
         _in = _input_parser(S, T, params)
     except EmptySourceGraphError:
-        return {}
+        return ({}, 1) if params.get("return_overlap") else {}
 
     cdef vector[int] chain
     cdef vector[vector[int]] chains
-- 
2.43.0


From 3398d9d608bc2f1daf3ef31bbf775b103472abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:51 +0000
Subject: [PATCH 15/74] fix: let a failed quickpass leave the miner as it was

---
 minorminer/_minorminer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index 51632ea..45d890a 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -533,7 +533,6 @@ cdef class miner:
 
         if not self.quickpassed:
             clear_first = True
-            self.quickpassed = True
 
         if varorder is not None:
             for v in varorder:
@@ -544,6 +543,7 @@ cdef class miner:
             self.pf.quickPass(neworder, chainlength_bound, overlap_bound, local_search, clear_first, round_beta)
         else:
             self.pf.quickPass(strategy, chainlength_bound, overlap_bound, local_search, clear_first, round_beta)
+        self.quickpassed = True
 
         rchain = {}
         for v in range(self.pf.num_vars()-self._in.pincount):
-- 
2.43.0


From c07ce67dabc625a2592d34784124e4ce62a45896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:34 +0000
Subject: [PATCH 16/74] fix: stop all remaining trials when an interactive
 search is interrupted

---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 9fe2436..8e7e8ba 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -641,7 +641,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 }
                 switch (r) {
                     case -2:
-                        improvement_patience = 0;
+                        improvement_patience = trial_patience = 0;  // no more trials
                         break;
                     case -1:
                         currEmbedding = bestEmbedding;  // fallthrough
-- 
2.43.0


From f95826538ba4378439107da3855d338b1045c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:10 +0000
Subject: [PATCH 17/74] fix: translate quickpass variable orders to internal
 indices

---
 include/find_embedding/find_embedding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/find_embedding.hpp b/include/find_embedding/find_embedding.hpp
index 243968a..c4d3e0f 100644
--- a/include/find_embedding/find_embedding.hpp
+++ b/include/find_embedding/find_embedding.hpp
@@ -123,7 +123,7 @@ class parameter_processor {
         vector<int> U;
         for (auto &v : V) {
             if (v < 0 || static_cast<unsigned int>(v) >= num_vars) throw CorruptParametersException();
-            if (!var_fixed_unscrewed[v]) U.push_back(v);
+            if (!var_fixed_unscrewed[v]) U.push_back(screw_vars[v]);
         }
         return U;
     }
-- 
2.43.0


From 235c85784755ee486e267ac60848b3155dd91909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:50 +0000
Subject: [PATCH 18/74] fix: respect the fill bound next to fixed chains

---
 include/find_embedding/pathfinder.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 8e7e8ba..8c569c0 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -467,9 +467,13 @@ class pathfinder_base : public pathfinder_public_interface {
                             visited[p] = 1;
                         }
                     if (std::is_same<behavior_tag, default_tag>::value) {
-                        pq.emplace(p, permutation[p], qubit_weight[p]);
-                        parent[p] = q;
                         visited[p] = 1;
+                        if (emb.weight(p) >= ep.weight_bound) {
+                            distances[v][p] = max_distance;
+                        } else {
+                            pq.emplace(p, permutation[p], qubit_weight[p]);
+                            parent[p] = q;
+                        }
                     }
                 }
             }
-- 
2.43.0


From f4a47c7c1a6d8081ef5ca463151095ad50ce05e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:30 +0000
Subject: [PATCH 19/74] fix: advance the bit masks while inflating a single
 cell

The masks were advanced after the loop that consumes them, so that a clique
which fits into one cell (find_clique_embedding(3, chimera_graph(2),
use_cache=False)) allocated chains forever.
---
 include/busclique/cell_cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/busclique/cell_cache.hpp b/include/busclique/cell_cache.hpp
index c629907..9390436 100644
--- a/include/busclique/cell_cache.hpp
+++ b/include/busclique/cell_cache.hpp
@@ -69,9 +69,9 @@ class cell_cache {
             vector<size_t> &chain = emb.back();
             topo.construct_line(0, vert(x), vert(y), vert(y), first_bit[k0], chain);
             topo.construct_line(1, horz(y), horz(x), horz(x), first_bit[k1], chain);
+            k0 ^= mask_bit[first_bit[k0]];
+            k1 ^= mask_bit[first_bit[k1]];
         }
-        k0 ^= mask_bit[first_bit[k0]];
-        k1 ^= mask_bit[first_bit[k1]];
     }
 
 };
-- 
2.43.0


From 662bb930fe3786ab7c7501cbcd06274926bb64c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:00 +0000
Subject: [PATCH 20/74] fix: start the clique search at width two

Cliques no larger than one cell that do not fit into any cell reached the
dynamic program with width one, which reads and writes outside its tables.
---
 include/busclique/find_clique.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/busclique/find_clique.hpp b/include/busclique/find_clique.hpp
index 7ba044d..2041f40 100644
--- a/include/busclique/find_clique.hpp
+++ b/include/busclique/find_clique.hpp
@@ -75,7 +75,7 @@ bool find_clique_nice(const cell_cache<chimera_spec> &cells,
     else if (max_length == 1)
         return false;
     bundle_cache<chimera_spec> bundles(cells);
-    size_t minw = (size + shore - 1)/shore;
+    size_t minw = max<size_t>(2, (size + shore - 1)/shore);
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
     maxw = min(max_length - 1, maxw);
     for(size_t width = minw; width <= maxw; width++) {
@@ -104,7 +104,7 @@ bool find_clique_nice(const cell_cache<zephyr_spec> &cells,
     else if (max_length == 1)
         return false;
     bundle_cache<zephyr_spec> bundles(cells);
-    size_t minw = (size + shore - 1)/shore;
+    size_t minw = max<size_t>(2, (size + shore - 1)/shore);
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
     if (max_length < numeric_limits<size_t>::max()) maxw = min(2*max_length+1, maxw);
     for(size_t width = minw; width <= maxw; width++) {
@@ -128,7 +128,7 @@ bool find_clique_nice(const cell_cache<pegasus_spec> &cells,
                       size_t &,
                       size_t &max_length) {
     bundle_cache<pegasus_spec> bundles(cells);
-    size_t minw = (size + 1)/2;
+    size_t minw = max<size_t>(2, (size + 1)/2);
     size_t maxw = coordinate_converter::min(cells.topo.dim_y, cells.topo.dim_x);
 
     for(size_t w = minw; w <= maxw; w++) {
-- 
2.43.0


From aa89d5ebb080c13d58b153b23a170bd82119930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:07 +0000
Subject: [PATCH 21/74] fix: use the tile parameter of a zephyr graph to read
 its coordinates

Coordinate labels were converted as if the tile parameter were 4, so that
other zephyr graphs with coordinate labels terminated the interpreter or
produced embeddings into the wrong nodes.
---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index a9a7e73..fca7224 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -828,7 +828,7 @@ cdef class _zephyr_busgraph:
             internal_seed = seed
 
         cdef zephyr_spec *zep = new zephyr_spec(rows, tile, internal_seed)
-        coordinates = dwave.graphs.zephyr_coordinates(rows)
+        coordinates = dwave.graphs.zephyr_coordinates(rows, tile)
         cdef edges_t edges
         if g.graph['labels'] == 'int':
             self.nodes = g.nodes()
-- 
2.43.0


From fc7b89d7a6d6db730a89a54ad0d5cd57d3ade9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:29 +0000
Subject: [PATCH 22/74] fix: identify cached clique embeddings by every coupler
 and parameter

The identifier of a graph was made of masks that do not record odd couplers,
and for pegasus graphs neither the seed, so that different graphs shared their
cached embeddings and K_4 embeddings came back that are not valid in the graph
at hand. Nodes and edges are sorted so that the cached answer does not depend
on the order in which the graph was built.
---
 include/busclique/util.hpp |  2 +-
 minorminer/busclique.pyx   | 29 ++++++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/busclique/util.hpp b/include/busclique/util.hpp
index d79ad00..81f0930 100644
--- a/include/busclique/util.hpp
+++ b/include/busclique/util.hpp
@@ -216,7 +216,7 @@ class pegasus_spec_base : public topo_spec_base {
 
     template<typename serialize_tag, typename ...Args>
     size_t serialize(serialize_tag, uint8_t *output, const Args &...args) const {
-        return _serialize(serialize_tag{}, output, offsets, args...);
+        return super::serialize(serialize_tag{}, output, offsets, args...);
     }
 
   protected:
diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index fca7224..531f5e9 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -30,6 +30,7 @@ import dwave.graphs
 from itertools import zip_longest
 from hashlib import sha256
 
+from libcpp.algorithm cimport sort
 from cpython.mem cimport PyMem_Malloc, PyMem_Free
 from cpython.bytes cimport PyBytes_FromStringAndSize
 
@@ -37,7 +38,7 @@ from cpython.bytes cimport PyBytes_FromStringAndSize
 #increment this version any time there is a change made to the cache format,
 #when yield-improving changes are made to clique algorithms, or when bugs are
 #fixed in the same.
-cdef int __cache_version = 7
+cdef int __cache_version = 8
 
 cdef int __lru_size = 100
 cdef dict __global_locks = {'clique': threading.Lock(),
@@ -773,7 +774,18 @@ ctypedef fused topo_cache_t:
     topo_cache[pegasus_spec]
     topo_cache[chimera_spec]
 
-cdef _serialize(topo_cache_t *topo, str family):
+cdef void _normalize(nodes_t &nodes, edges_t &edges):
+    """Sort nodes and edges, so that results do not depend on their order."""
+    cdef size_t i, p
+    for i in range(edges.size()):
+        if edges[i].second < edges[i].first:
+            p = edges[i].first
+            edges[i].first = edges[i].second
+            edges[i].second = p
+    sort(nodes.begin(), nodes.end())
+    sort(edges.begin(), edges.end())
+
+cdef _serialize(topo_cache_t *topo, edges_t &edges, str family):
     cdef size_t nchars = topo.serialize(serialize_size_tag(), NULL)
     cdef char *tmp0 = <char *>PyMem_Malloc(nchars)
     cdef uint8_t *tmp = <uint8_t *>tmp0
@@ -789,6 +801,10 @@ cdef _serialize(topo_cache_t *topo, str family):
     topo.serialize(serialize_write_tag(), tmp);
     ret = PyBytes_FromStringAndSize(tmp0, nchars);
 
+    # the masks in the topology do not record every coupler (for example, odd
+    # couplers are missing), but the smallest cliques depend on all of them
+    ret += sha256(PyBytes_FromStringAndSize(<char *>edges.data(), edges.size()*sizeof(pair[size_t, size_t]))).digest()
+
     # this is a hash-like operation.  It is *not* a good hash.  It's optimized
     # for speed and produces a 16-byte key which is reasonably sensitive to input.
     for i in range(nchars//8):
@@ -843,11 +859,12 @@ cdef class _zephyr_busgraph:
         else:
             raise ValueError("unrecognized graph labeling")
 
+        _normalize(self.nodes, edges)
         self.topo = new topo_cache[zephyr_spec](zep[0], self.nodes, edges)
         short_clique[zephyr_spec](zep[0], self.nodes, edges, self.emb_1)
 
         if compute_identifier:
-            self.identifier, self.short_identifier = _serialize(self.topo, 'zephyr')
+            self.identifier, self.short_identifier = _serialize(self.topo, edges, 'zephyr')
 
         del zep
 
@@ -956,11 +973,12 @@ cdef class _pegasus_busgraph:
         else:
             raise ValueError("unrecognized graph labeling")
 
+        _normalize(self.nodes, edges)
         self.topo = new topo_cache[pegasus_spec](peg[0], self.nodes, edges)
         short_clique[pegasus_spec](peg[0], self.nodes, edges, self.emb_1)
 
         if compute_identifier:
-            self.identifier, self.short_identifier = _serialize(self.topo, 'pegasus')
+            self.identifier, self.short_identifier = _serialize(self.topo, edges, 'pegasus')
 
         del peg
 
@@ -1073,11 +1091,12 @@ cdef class _chimera_busgraph:
         else:
             raise ValueError("unrecognized graph labeling")
 
+        _normalize(self.nodes, edges)
         self.topo = new topo_cache[chimera_spec](chim[0], self.nodes, edges)
         short_clique[chimera_spec](chim[0], self.nodes, edges, self.emb_1)
 
         if compute_identifier:
-            self.identifier, self.short_identifier = _serialize(self.topo, 'chimera')
+            self.identifier, self.short_identifier = _serialize(self.topo, edges, 'chimera')
 
         del chim
 
-- 
2.43.0


From 2220a9fc59253bd35ea8ca348eaf1db754d779b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 23/74] fix: raise ValueError for a graph with edges outside
 its topology

The int thrown by the clique code was not translated and terminated the
interpreter, for example for zephyr_torus graphs or self-loops.
---
 include/busclique/util.hpp | 5 +++--
 minorminer/busclique_h.pxi | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/busclique/util.hpp b/include/busclique/util.hpp
index 81f0930..1aec87f 100644
--- a/include/busclique/util.hpp
+++ b/include/busclique/util.hpp
@@ -19,6 +19,7 @@
 #include<vector>
 #include<cstdint>
 #include<algorithm>
+#include<stdexcept>
 #include<iostream>
 #include<string.h>
 #include<set>
@@ -243,7 +244,7 @@ class pegasus_spec_base : public topo_spec_base {
                     size_w w = qw*6_w + size_w(qk/2);
                     edgemask[super::cell_index(pu, w, z)] |= mask_bit[qk&1];
                 } else if (pw == qw && pk == (qk^1) && qz == pz) {
-                } else { std::cout << "urp" << std::endl; throw 10; }
+                } else { throw std::invalid_argument("input graph contains an edge which is not in its topology"); }
             } else {
                 if(std::is_same<badmask_behavior, populate_badmask>::value) {
                     //p < q, so pu = 0 and qu = 1
@@ -492,7 +493,7 @@ class zephyr_spec_base : public topo_spec_base {
                     size_z fz = qz*2_z + size_z(qk&1);
                     edgemask[super::cell_index(qu, qw, fz)] |= mask_bit[qk];
                 } else if (pw == qw && pk == (qk^1) && (qz == pz || qz+1_z == pz)) {
-                } else { std::cout << "urp" << std::endl; throw 10; }
+                } else { throw std::invalid_argument("input graph contains an edge which is not in its topology"); }
             } else {
                 if(std::is_same<badmask_behavior, populate_badmask>::value) {
                     //p < q, so pu = 0 and qu = 1
diff --git a/minorminer/busclique_h.pxi b/minorminer/busclique_h.pxi
index 5162e81..af727be 100644
--- a/minorminer/busclique_h.pxi
+++ b/minorminer/busclique_h.pxi
@@ -68,7 +68,7 @@ cdef extern from "../include/busclique/clique_cache.hpp" namespace "busclique":
 cdef extern from "../include/busclique/topo_cache.hpp" namespace "busclique":
     cdef cppclass topo_cache[T]:
         T topo
-        topo_cache(T, nodes_t &, edges_t &)
+        topo_cache(T, nodes_t &, edges_t &) except +
         size_t serialize[t](t, uint8_t *) const
         nodes_t fragment_nodes() const
         edges_t fragment_edges() const
-- 
2.43.0


From 4ab535ec720c7bcdb3c0ce2c10031f9d95d792df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:31 +0000
Subject: [PATCH 24/74] fix: do not offset the null pointer when computing the
 size of a serialization

---
 include/busclique/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/busclique/util.hpp b/include/busclique/util.hpp
index 1aec87f..0f74d48 100644
--- a/include/busclique/util.hpp
+++ b/include/busclique/util.hpp
@@ -145,7 +145,9 @@ inline size_t _serialize(serialize_tag, uint8_t *) {
 template<typename serialize_tag, typename T, typename ...Args>
 inline size_t _serialize(serialize_tag, uint8_t *output, const T &value, const Args &...args) {
     size_t offset = _serial_helper(serialize_tag{}, output, value);
-    return offset + _serialize(serialize_tag{}, output + offset, args...);
+    // there is no buffer to advance when only the size is computed
+    uint8_t *rest = (output == nullptr) ? nullptr : output + offset;
+    return offset + _serialize(serialize_tag{}, rest, args...);
 }
 
 class ignore_badmask {};
-- 
2.43.0


From 134e3614be1674a94f03a9982a866e7c9ed962e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 25/74] fix: return no biclique for a graph without any instead
 of raising

---
 minorminer/busclique.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 531f5e9..1412232 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -598,6 +598,8 @@ class busgraph_cache:
         self._ensure_biclique_cache()
         biggest = self._bicliques['max_side']
         embs = self._bicliques['raw']
+        if not embs:
+            return {}
         s0, s1 = key = max(embs, key=lambda x: min(x))
         raw_emb = embs[key]
         raw_emb0 = sorted(raw_emb[:s0], key=len)
@@ -751,7 +753,7 @@ cdef dict _make_biclique_cache(vector[pair[pair[size_t, size_t],
         if not _keep_biclique_key(realkey, key, chainlength):
             by_size[s0][s1] = key
 
-    max_side = {None: max(by_size)}
+    max_side = {None: max(by_size, default=0)}
     for key, val in by_size.items():
         max_side[key] = max(val)
     return {'raw': raw, 'size': by_size, 'max_side': max_side}
-- 
2.43.0


From a57fbab0543247e1a4a68f8f22d29711454a48be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 26/74] fix: find unbalanced bicliques whichever side is larger

---
 minorminer/busclique.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 1412232..12e7c7f 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -640,7 +640,7 @@ class busgraph_cache:
         raw = self._bicliques['raw']
         n, N = _num_nodes(nn)
         m, M = _num_nodes(mm, offset = n)
-        if(m < n):
+        if(n < m):
             n, N, m, M = m, M, n, N
         if m == 0:
             emb = self._graph.independent_set(n)
@@ -661,7 +661,7 @@ class busgraph_cache:
                 s0, s1 = key
                 emb0 = emb[:s0]
                 emb1 = emb[s0:]
-                if s0 <= n and s1 <= m:
+                if s0 >= n and s1 >= m:
                     emb = dict(zip(N + M, emb0[:n] + emb1))
                 else:
                     emb = dict(zip(N + M, emb1[:n] + emb0))
-- 
2.43.0


From 08f7d4987797a1d3fdebfbf183435d2e1f38700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:39 +0000
Subject: [PATCH 27/74] fix: return one-sided bicliques as chains with the
 graph's labels

---
 minorminer/busclique.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 12e7c7f..f309b00 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -646,7 +646,7 @@ class busgraph_cache:
             emb = self._graph.independent_set(n)
             if emb is None:
                 return {}
-            return dict(zip(N, emb))
+            return self._graph.relabel(dict(zip(N, emb)))
         nmax = biggest[None]
         for i in range(n, nmax + 1):
             mmax = biggest.get(i, 0)
@@ -899,8 +899,8 @@ cdef class _zephyr_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
-            emb = [self.nodes[i] for i in range(size)]
+        if size <= self.nodes.size():
+            emb = [(self.nodes[i],) for i in range(size)]
             return emb
 
     def find_clique_embedding(self, nn):
@@ -1013,8 +1013,8 @@ cdef class _pegasus_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
-            emb = [self.nodes[i] for i in range(size)]
+        if size <= self.nodes.size():
+            emb = [(self.nodes[i],) for i in range(size)]
             return emb
 
     def find_clique_embedding(self, nn):
@@ -1132,8 +1132,8 @@ cdef class _chimera_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
-            emb = [self.nodes[i] for i in range(size)]
+        if size <= self.nodes.size():
+            emb = [(self.nodes[i],) for i in range(size)]
             return emb
 
     def find_clique_embedding(self, nn):
-- 
2.43.0


From d16c232eb2d9b2f7b155d339d3f5992f950d86d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:39 +0000
Subject: [PATCH 28/74] fix: keep the biclique embedding with the shortest
 chains

---
 include/busclique/find_biclique.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/busclique/find_biclique.hpp b/include/busclique/find_biclique.hpp
index 93de37a..a49ff47 100644
--- a/include/busclique/find_biclique.hpp
+++ b/include/busclique/find_biclique.hpp
@@ -58,8 +58,10 @@ void best_bicliques(topo_cache<topo_spec> &topology,
             size_t s1 = std::get<1>(z);
             size_t cl = std::get<2>(z);
             auto w = chainlength.find(std::make_pair(s0, s1));
-            if(w == chainlength.end() || (*w).second > cl)
+            if(w == chainlength.end() || (*w).second > cl) {
+                chainlength[std::make_pair(s0, s1)] = cl;
                 emb_cache[std::make_pair(s0, s1)] = std::get<3>(z);
+            }
         }
     } while(topology.next());
     for(auto &z: emb_cache)
-- 
2.43.0


From 87acdb1b971713ec19b5908ef375525e5ba5c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 29/74] fix: saturate weights that a distance cannot represent

With one qubit the heaviest weight is 2^63, which was converted to a distance
with undefined behaviour.
---
 include/find_embedding/embedding_problem.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/find_embedding/embedding_problem.hpp b/include/find_embedding/embedding_problem.hpp
index 94d81da..5879461 100644
--- a/include/find_embedding/embedding_problem.hpp
+++ b/include/find_embedding/embedding_problem.hpp
@@ -274,10 +274,9 @@ class embedding_problem_base {
                 std::max_element(begin(var_nbrs), end(var_nbrs),
                                  [](const vector<int> &a, const vector<int> &b) { return a.size() < b.size(); })
                         ->size();
-        if (max_degree == 0)
-            return num_q + 1;
-        else
-            return max_degree * num_q + 1;
+        size_t margin = max(max_degree, static_cast<size_t>(1)) * num_q;
+        // a single qubit has no sums of weights to bound
+        return margin == 1 ? 1 : margin + 1;
     }
 
   public:
@@ -289,7 +288,7 @@ class embedding_problem_base {
         double base = min(exp2(log2base), min(max_beta, round_beta));
         double power = 1;
         for (int i = 0; i <= max_weight; i++) {
-            weight_table[i] = static_cast<distance_t>(power);
+            weight_table[i] = power < static_cast<double>(max_distance) ? static_cast<distance_t>(power) : max_distance;
             power *= base;
         }
         for (int i = max_weight + 1; i < 64; i++) weight_table[i] = max_distance;
-- 
2.43.0


From c43ed9573715eab3fcb74585455e2c1c272fe35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 30/74] fix: key the clique cache by graph and seed without
 changing topology identifiers

---
 include/busclique/util.hpp |  2 +-
 minorminer/busclique.pyx   | 33 +++++++++++++++++++++++----------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/busclique/util.hpp b/include/busclique/util.hpp
index 0f74d48..053ad20 100644
--- a/include/busclique/util.hpp
+++ b/include/busclique/util.hpp
@@ -219,7 +219,7 @@ class pegasus_spec_base : public topo_spec_base {
 
     template<typename serialize_tag, typename ...Args>
     size_t serialize(serialize_tag, uint8_t *output, const Args &...args) const {
-        return super::serialize(serialize_tag{}, output, offsets, args...);
+        return _serialize(serialize_tag{}, output, offsets, args...);
     }
 
   protected:
diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index f309b00..e3201f7 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -38,7 +38,7 @@ from cpython.bytes cimport PyBytes_FromStringAndSize
 #increment this version any time there is a change made to the cache format,
 #when yield-improving changes are made to clique algorithms, or when bugs are
 #fixed in the same.
-cdef int __cache_version = 8
+cdef int __cache_version = 7
 
 cdef int __lru_size = 100
 cdef dict __global_locks = {'clique': threading.Lock(),
@@ -461,7 +461,7 @@ class busgraph_cache:
         pathlib.Path(basedir).mkdir(parents=True, exist_ok=True)
         lockfile = os.path.join(basedir, ".lock")
         lrufile = os.path.join(basedir, ".lru")
-        identifier = self._graph.identifier
+        identifier = self._graph.cache_key
         shortcode = self._graph.short_identifier
 
         #this makes our writes to the filesystem atomic
@@ -787,14 +787,14 @@ cdef void _normalize(nodes_t &nodes, edges_t &edges):
     sort(nodes.begin(), nodes.end())
     sort(edges.begin(), edges.end())
 
-cdef _serialize(topo_cache_t *topo, edges_t &edges, str family):
+cdef _serialize(topo_cache_t *topo, nodes_t &nodes, edges_t &edges, uint64_t seed, str family):
     cdef size_t nchars = topo.serialize(serialize_size_tag(), NULL)
     cdef char *tmp0 = <char *>PyMem_Malloc(nchars)
     cdef uint8_t *tmp = <uint8_t *>tmp0
     cdef uint64_t *tmp64 = <uint64_t*>(<void *>(tmp));
     cdef uint64_t shortcode_state = 0
     cdef uint64_t c
-    cdef object ret, shortcode
+    cdef object ret, digest, shortcode
     cdef size_t i, j, d, _
 
     if tmp == NULL:
@@ -804,8 +804,12 @@ cdef _serialize(topo_cache_t *topo, edges_t &edges, str family):
     ret = PyBytes_FromStringAndSize(tmp0, nchars);
 
     # the masks in the topology do not record every coupler (for example, odd
-    # couplers are missing), but the smallest cliques depend on all of them
-    ret += sha256(PyBytes_FromStringAndSize(<char *>edges.data(), edges.size()*sizeof(pair[size_t, size_t]))).digest()
+    # couplers are missing) or, for pegasus graphs, the seed; but the cached
+    # embeddings depend on all of them
+    digest = sha256(seed.to_bytes(sizeof(seed), 'little'))
+    digest.update(PyBytes_FromStringAndSize(<char *>nodes.data(), nodes.size()*sizeof(size_t)))
+    digest.update(PyBytes_FromStringAndSize(<char *>edges.data(), edges.size()*sizeof(pair[size_t, size_t])))
+    digest = digest.digest()
 
     # this is a hash-like operation.  It is *not* a good hash.  It's optimized
     # for speed and produces a 16-byte key which is reasonably sensitive to input.
@@ -814,9 +818,12 @@ cdef _serialize(topo_cache_t *topo, edges_t &edges, str family):
     for j in range(nchars-(nchars&7), nchars):
         shortcode_state += tmp[j] << (j&3)
 
+    c = int.from_bytes(digest[:8], 'little')
+    shortcode_state += c
+
     PyMem_Free(tmp0)
     shortcode = "{}_{:16x}".format(family, shortcode_state)
-    return ret, shortcode
+    return ret, ret + digest, shortcode
 
 cdef class _zephyr_busgraph:
     cdef topo_cache[zephyr_spec] *topo
@@ -825,6 +832,7 @@ cdef class _zephyr_busgraph:
     cdef readonly object relabel
     cdef readonly object delabel
     cdef readonly object identifier
+    cdef readonly object cache_key
     cdef readonly object short_identifier
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
@@ -866,7 +874,8 @@ cdef class _zephyr_busgraph:
         short_clique[zephyr_spec](zep[0], self.nodes, edges, self.emb_1)
 
         if compute_identifier:
-            self.identifier, self.short_identifier = _serialize(self.topo, edges, 'zephyr')
+            self.identifier, self.cache_key, self.short_identifier = _serialize(
+                self.topo, self.nodes, edges, internal_seed, 'zephyr')
 
         del zep
 
@@ -937,6 +946,7 @@ cdef class _pegasus_busgraph:
     cdef readonly object relabel
     cdef readonly object delabel
     cdef readonly object identifier
+    cdef readonly object cache_key
     cdef readonly object short_identifier
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
@@ -980,7 +990,8 @@ cdef class _pegasus_busgraph:
         short_clique[pegasus_spec](peg[0], self.nodes, edges, self.emb_1)
 
         if compute_identifier:
-            self.identifier, self.short_identifier = _serialize(self.topo, edges, 'pegasus')
+            self.identifier, self.cache_key, self.short_identifier = _serialize(
+                self.topo, self.nodes, edges, internal_seed, 'pegasus')
 
         del peg
 
@@ -1061,6 +1072,7 @@ cdef class _chimera_busgraph:
     cdef readonly object relabel
     cdef readonly object delabel
     cdef readonly object identifier
+    cdef readonly object cache_key
     cdef readonly object short_identifier
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         rows = g.graph['rows']
@@ -1098,7 +1110,8 @@ cdef class _chimera_busgraph:
         short_clique[chimera_spec](chim[0], self.nodes, edges, self.emb_1)
 
         if compute_identifier:
-            self.identifier, self.short_identifier = _serialize(self.topo, edges, 'chimera')
+            self.identifier, self.cache_key, self.short_identifier = _serialize(
+                self.topo, self.nodes, edges, internal_seed, 'chimera')
 
         del chim
 
-- 
2.43.0


From cdfcbabf30b2a37e0b7acf95fa7aa2939cbf25f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 31/74] fix: replace cache files under the lock and recompute
 damaged ones

Temporary files were renamed after the locks were released, so that two users
of the cache could write the same temporary file. A missing or truncated file
made every later call fail.
---
 minorminer/busclique.pyx | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index e3201f7..5d01971 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -472,11 +472,7 @@ class busgraph_cache:
             #this solves inter-process safety?
             with fasteners.InterProcessLock(lockfile):
                 cachefile = os.path.join(basedir, str(shortcode))
-                if os.path.exists(cachefile):
-                    with open(cachefile, 'rb') as filecache:
-                        currcache = load(filecache)
-                else:
-                    currcache = {}
+                currcache = _load_or_default(cachefile, dict)
                 cache = None if force_write else currcache.get(identifier)
                 if cache is None:
                     cache = compute()
@@ -487,11 +483,7 @@ class busgraph_cache:
                 #now, update the LRU cache -- if this was being done in-memory,
                 #there are more efficient algorithms... but since we're doing
                 #linear-time read&write, might as well do it the lazy way.
-                try:
-                    with open(lrufile, 'rb') as lru:
-                        LRU = load(lru)
-                except FileNotFoundError:
-                    LRU = []
+                LRU = _load_or_default(lrufile, list)
                 newLRU = [shortcode]
                 for x in LRU:
                     if x != shortcode:
@@ -500,13 +492,15 @@ class busgraph_cache:
                 #this violates atomicity, but it's okay -- at worst, we'll need
                 #to recompute a deleted file that still has an entry in the LRU
                 while len(newLRU) > __lru_size:
-                    oldkey = newLRU.pop()
-                    os.remove(os.path.join(basedir, oldkey))
+                    oldfile = os.path.join(basedir, newLRU.pop())
+                    if os.path.exists(oldfile):
+                        os.remove(oldfile)
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
 
-        #perform the copy-on-write for the lrufile and cachefile
-        file_context.close()
+                #perform the copy-on-write for the lrufile and cachefile, before
+                #another thread or process can open the same temporary files
+                file_context.close()
         return cache
 
     def largest_clique(self):
@@ -1362,6 +1356,15 @@ def mine_clique_embeddings(
     bgc.insert_clique_embedding({}, write_to_disk=True)
     return bgc
 
+def _load_or_default(file_name, default):
+    """Unpickle a file.  If it is missing or damaged, return default() instead."""
+    try:
+        with open(file_name, 'rb') as f:
+            obj = load(f)
+    except Exception:
+        return default()
+    return obj if isinstance(obj, default) else default()
+
 class copy_on_close_context:
     def __init__(self):
         self.files = {}
-- 
2.43.0


From 4fba97bce80cac6f8a6f278f229b5c337bf3b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 32/74] fix: export the largest clique from a dense clique
 cache

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 5d01971..f370681 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -257,7 +257,7 @@ class busgraph_cache:
         if sparse:
             cache = {i: raw[s][:i] for i, s in size.items()}
         else:
-            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size))]
+            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size) + 1)]
         if compress:
             cache = gzip.compress(dumps(cache).encode('utf8'))
         return cache
-- 
2.43.0


From 9612e43839d9855b0665559b8b319ee739c89389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 33/74] fix: find the largest clique whose chains are no longer
 than asked

---
 minorminer/busclique.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index f370681..5160474 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -540,10 +540,11 @@ class busgraph_cache:
         """
         self._ensure_clique_cache()
         embs = self._cliques['raw']
-        length = self._cliques['length'] or [0]
-
-        if 0 < chainlength <= max(length):
-            return self._graph.relabel(dict(enumerate(embs[length[chainlength]])))
+        length = self._cliques['length']
+        keys = [key for n, key in length.items() if 0 < n <= chainlength]
+        if keys:
+            emb = max((embs[key] for key in keys), key=len)
+            return self._graph.relabel(dict(enumerate(emb)))
         else:
             return {}
 
-- 
2.43.0


From 512fa609c4ec92133ac23133878cb22144c1d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 34/74] fix: sort cached clique embeddings by chain length, as
 merging assumes

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 5160474..f378b64 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -690,7 +690,7 @@ cdef dict _make_clique_cache(vector[embedding_t] &embs):
     cdef list raw = []
     for length, emb in enumerate(embs):
         by_length[length] = length
-        raw.append(tuple(map(tuple, emb)))
+        raw.append(tuple(sorted(map(tuple, emb), key=len)))
         maxsize = max(emb.size(), maxsize)
         for i in range(maxsize, -1, -1):
             if by_size.setdefault(i, length) != length:
-- 
2.43.0


From 1596df614cd02fc521ab014369af42ef10187ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 35/74] fix: insert into and merge with the stored clique cache
 instead of a blank one

update_clique_cache replaces the cliques, as documented, and takes the integer
labels that get_clique_cache returns.
---
 minorminer/busclique.pyx | 47 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index f378b64..96f4090 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -167,16 +167,10 @@ class busgraph_cache:
         self._cliques = None
         self._bicliques = None
 
-    def _ensure_clique_cache(self, blank=False):
+    def _ensure_clique_cache(self):
         """Fetch/compute the clique cache, if it's not already in memory."""
         if self._cliques is None:
-            if blank:
-                self._cliques = _make_clique_cache([[]])
-            else:
-                self._cliques = self._fetch_cache(
-                    'clique',
-                    self._graph.cliques
-                )
+            self._cliques = self._fetch_cache('clique', self._graph.cliques)
 
     def _ensure_biclique_cache(self):
         """Fetch/compute the clique cache, if it's not already in memory."""
@@ -284,13 +278,10 @@ class busgraph_cache:
         else:
             cache = enumerate(cache)
 
-        empty = True
+        cliques = _make_clique_cache([[]])
         for size, emb in cache:
-            empty = False
-            self.insert_clique_embedding(emb, write_to_disk=False, direct=True)
-
-        if empty:
-            self._ensure_clique_cache(blank=True)
+            _insert_clique(cliques, emb)
+        self._cliques = cliques
 
         if write_to_disk:
             self._fetch_cache('clique', lambda: self._cliques, force_write=True)
@@ -332,15 +323,8 @@ class busgraph_cache:
         if direct:
             if quality_function is not None:
                 raise ValueError("quality_function is ignored for direct insertion")
-            self._ensure_clique_cache(blank=True)
-            raw = self._cliques['raw']
-            key = len(raw)
-            raw.append(emb)
-            by_length = self._cliques['length']
-            self._cliques['size'][len(emb)] = key
-            length = len(emb[-1]) if emb else 0
-            if length not in by_length or len(raw[by_length[length]]) < len(emb):
-                by_length[length] = key
+            self._ensure_clique_cache()
+            _insert_clique(self._cliques, emb)
             if write_to_disk:
                 self._fetch_cache('clique', lambda: self._cliques, force_write=True)
         else:
@@ -371,7 +355,7 @@ class busgraph_cache:
                 Otherwise, the cache will only be updated in memory.
         """
         cdef vector[embedding_t] embs
-        self._ensure_clique_cache(blank=True)
+        self._ensure_clique_cache()
         if isinstance(cache, busgraph_cache):
             cache._ensure_clique_cache()
             cache = cache._cliques
@@ -697,6 +681,21 @@ cdef dict _make_clique_cache(vector[embedding_t] &embs):
                 break
     return {'raw': raw, 'size': by_size, 'length': by_length}
 
+cdef _insert_clique(dict cliques, emb):
+    """
+    Store an embedding (a collection of chains of the integer-labeled graph) in
+    a cache produced by `_make_clique_cache`, in place of the one of its size.
+    """
+    emb = tuple(sorted(map(tuple, emb), key=len))
+    raw = cliques['raw']
+    key = len(raw)
+    raw.append(emb)
+    by_length = cliques['length']
+    cliques['size'][len(emb)] = key
+    length = len(emb[-1]) if emb else 0
+    if length not in by_length or len(raw[by_length[length]]) < len(emb):
+        by_length[length] = key
+
 cdef _keep_biclique_key(tuple key0, tuple key1, dict chainlength):
     """
     Helper function for `_make_biclique_cache`.  Each "key" is a pair of ints
-- 
2.43.0


From 018c41720f7fa605f7af29e64a47d294b260b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 36/74] fix: compute the heuristic bound for mining chimera
 graphs

---
 minorminer/busclique.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 96f4090..83d88a3 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -1329,9 +1329,9 @@ def mine_clique_embeddings(
             heuristic_bound = min(36, 12*(rows-1))
         elif bgc._family == "chimera":
             rows = g.graph['rows']
-            cols = g.graph['cols']
+            cols = g.graph['columns']
             tile = g.graph['tile']
-            heuristic_bound = (min(tile*rows, tile*cols)+3)/4
+            heuristic_bound = (min(tile*rows, tile*cols)+3)//4
         else:
             raise NotImplementedError("graph family not supported")
 
-- 
2.43.0


From 1fe09538dded192ce0d2fc2d8a0985110bd006ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:45 +0000
Subject: [PATCH 37/74] fix: restore the order of the bad edges when resetting
 a topology

Otherwise the cliques of a graph depend on whether its bicliques were computed
before by the same object.
---
 include/busclique/topo_cache.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/busclique/topo_cache.hpp b/include/busclique/topo_cache.hpp
index cf72f53..110f6ec 100644
--- a/include/busclique/topo_cache.hpp
+++ b/include/busclique/topo_cache.hpp
@@ -72,6 +72,9 @@ class topo_cache {
         if(mask_num > 0) {
             mask_num = 0;
             rng = fastrng(topo.seed);
+            //next() shuffles the bad edges in place
+            bad_edges.clear();
+            compute_bad_edges();
             next();
         }
     }
-- 
2.43.0


From fd35884e0c406e55479803f5de930d601cff98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 38/74] fix: do not follow symbolic links when clearing the
 caches

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 83d88a3..66c618e 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -217,7 +217,7 @@ class busgraph_cache:
             top = dirstack[-1]
             substack = []
             for item in top.iterdir():
-                if item.is_dir():
+                if item.is_dir() and not item.is_symlink():
                     substack.append(item)
                 else:
                     item.unlink()
-- 
2.43.0


From c6a5aea7c90ef0546f1c80d37cb0fd3b01c936a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:10 +0000
Subject: [PATCH 39/74] fix: minimize the chain length of cached cliques over
 all embeddings of the cache

The shortest chains of an embedding with longer chains were not considered, so
that find_clique_embedding gave longer chains than the one-shot function, and
largest_clique_by_chainlength smaller cliques than find_clique_embedding.
---
 minorminer/busclique.pyx | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 66c618e..035fda2 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -524,13 +524,12 @@ class busgraph_cache:
         """
         self._ensure_clique_cache()
         embs = self._cliques['raw']
-        length = self._cliques['length']
-        keys = [key for n, key in length.items() if 0 < n <= chainlength]
-        if keys:
-            emb = max((embs[key] for key in keys), key=len)
-            return self._graph.relabel(dict(enumerate(emb)))
-        else:
-            return {}
+        best = max((embs[key] for length, key in self._cliques['length'].items()
+                    if 0 < length <= chainlength), key=len, default=())
+        for size, key in self._cliques['size'].items():
+            if len(best) < size and len(embs[key][size-1]) <= chainlength:
+                best = embs[key][:size]
+        return self._graph.relabel(dict(enumerate(best)))
 
     def find_clique_embedding(self, nn):
         """Returns a clique embedding, minimizing the maximum chainlength given
@@ -661,24 +660,23 @@ cdef dict _make_clique_cache(vector[embedding_t] &embs):
     """
     Process the raw clique cache produced by the c++ code.  Store both the raw
     list of embeddings (a list `raw` with `raw[i]` being the maximum-size
-    embedding with maximum chainlength `i`), and a size-indexed dictionary
-    `by_size` where `embs[by_size[j]]` is a clique embedding of size `j` whose
-    maximum chainlength is minimized.
+    embedding with maximum chainlength `i`, sorted by chainlength), and a
+    size-indexed dictionary `by_size` where `raw[by_size[j]][:j]` is a clique
+    embedding of size `j` whose maximum chainlength is minimized.
     """
     cdef embedding_t emb
-    cdef size_t maxsize = 0
-    cdef size_t maxlength = 0
-    cdef size_t i, j
+    cdef size_t i
     cdef dict by_size = {}
     cdef dict by_length = {}
     cdef list raw = []
     for length, emb in enumerate(embs):
         by_length[length] = length
         raw.append(tuple(sorted(map(tuple, emb), key=len)))
-        maxsize = max(emb.size(), maxsize)
-        for i in range(maxsize, -1, -1):
-            if by_size.setdefault(i, length) != length:
-                break
+        by_size.setdefault(0, length)
+        for i in range(1, emb.size() + 1):
+            #the shortest chains of a larger embedding may be the best choice
+            if i not in by_size or len(raw[length][i-1]) < len(raw[by_size[i]][i-1]):
+                by_size[i] = length
     return {'raw': raw, 'size': by_size, 'length': by_length}
 
 cdef _insert_clique(dict cliques, emb):
-- 
2.43.0


From a3e8e32814fe20cd9621b72288a8d9642e50bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:10 +0000
Subject: [PATCH 40/74] fix: minimize the chain length of bicliques over all
 embeddings of the cache

The first embedding that is large enough was used instead, so that a smaller
biclique could get longer chains than a larger one.
---
 minorminer/busclique.pyx | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 035fda2..1a2e6c4 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -613,8 +613,6 @@ class busgraph_cache:
             of a biclique embedding.
         """
         self._ensure_biclique_cache()
-        biggest = self._bicliques['max_side']
-        by_size = self._bicliques['size']
         raw = self._bicliques['raw']
         n, N = _num_nodes(nn)
         m, M = _num_nodes(mm, offset = n)
@@ -625,26 +623,20 @@ class busgraph_cache:
             if emb is None:
                 return {}
             return self._graph.relabel(dict(zip(N, emb)))
-        nmax = biggest[None]
-        for i in range(n, nmax + 1):
-            mmax = biggest.get(i, 0)
-            if mmax < m:
+        best, best_length = {}, None
+        for (s0, s1), emb in raw.items():
+            if max(s0, s1) < n or min(s0, s1) < m:
                 continue
-            row = by_size.get(i, {0:None})
-            for j in range(m, mmax + 1):
-                key = row.get(j)
-                if key is None:
+            emb0 = sorted(emb[:s0], key=len)
+            emb1 = sorted(emb[s0:], key=len)
+            for side0, side1 in (emb0, emb1), (emb1, emb0):
+                if len(side0) < n or len(side1) < m:
                     continue
-                emb = raw[key]
-                s0, s1 = key
-                emb0 = emb[:s0]
-                emb1 = emb[s0:]
-                if s0 >= n and s1 >= m:
-                    emb = dict(zip(N + M, emb0[:n] + emb1))
-                else:
-                    emb = dict(zip(N + M, emb1[:n] + emb0))
-                return self._graph.relabel(emb)
-        return {}
+                length = max(len(side0[n-1]), len(side1[m-1]))
+                if best_length is None or length < best_length:
+                    best = dict(zip(N + M, side0[:n] + side1[:m]))
+                    best_length = length
+        return self._graph.relabel(best)
 
     def draw_fragment_embedding(self, emb, **kwargs):
         m, n, t, nodes, edges = self._graph.fragment_graph_spec()
-- 
2.43.0


From df9cea4c169f5e2f1c0f3562abe4887b46ec15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 41/74] fix: order graph distances like the layout they are
 compared with, and use those given

---
 minorminer/layout/layout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index dcbf457..b4c5e10 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -159,13 +159,15 @@ def _graph_distance_matrix(G,
     """
     if all_pairs_shortest_path_length is None:
         all_pairs_shortest_path_length = nx.all_pairs_shortest_path_length(G)
+    distances = dict(all_pairs_shortest_path_length)
 
     if disconnected_distance is None:
         disconnected_distance = len(G)
         
+    nodes = sorted(G)
     return np.array([
-        [V.get(v, disconnected_distance) for v in G]
-        for _, V in nx.all_pairs_shortest_path_length(G)
+        [distances[u].get(v, disconnected_distance) for v in nodes]
+        for u in nodes
         ])
 
 
-- 
2.43.0


From 4631bfe8ce93502472e591c8d809c97e6e5d2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 42/74] fix: compute the gradient of the infinity norm in any
 dimension

---
 minorminer/layout/layout.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index b4c5e10..57affc9 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -218,14 +218,15 @@ def _p_norm_objective(layout_vector, G_distances, dim, p):
         elif p == float("inf"):
             # Note: It may not be faster to do this outside of einsum
             abs_diff = np.abs(diff)
-            x_bigger = abs_diff[:, :, 0] > abs_diff[:, :, 1]
+            # Only the largest coordinate of a difference determines its norm
+            largest = abs_diff.argmax(axis=-1)[:, :, np.newaxis] == np.arange(dim)
 
             grad = np.einsum(
                 'ijk,ij,ijk,ijk->ik',
                 2*diff,
                 dist - G_distances,
                 np.nan_to_num(1/abs_diff),
-                np.dstack((x_bigger, np.logical_not(x_bigger)))
+                largest
             )
         else:
             grad = np.einsum(
-- 
2.43.0


From 9df87ba1613648905c67630cc2f617a3aaa4bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 43/74] fix: scaling a layout of a single point does not make
 it NaN

---
 minorminer/layout/layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 57affc9..d84d9e8 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -663,6 +663,10 @@ def _scale_layout(layout_array, new_scale, old_scale=None, center=None):
     if old_scale is None:
         old_scale = np.max(np.abs(L))
 
+    # All points are at the center; they are in any scale
+    if old_scale == 0:
+        return layout_array
+
     # Scale the thing
     scaled_L = (new_scale/old_scale) * L
 
-- 
2.43.0


From 7ada83f8328a5f9dc9f8ed873277224dac75267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 44/74] fix: lay out and place empty graphs whatever the
 parameters

---
 minorminer/layout/layout.py    | 6 +++---
 minorminer/layout/placement.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index d84d9e8..cb8ace6 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -489,7 +489,7 @@ class Layout(abc.MutableMapping):
     @dim.setter
     def dim(self, value):
         """Set the dimension of the layout, if possible."""
-        if value:
+        if value and self.layout_array.size != 0:
             self.layout_array = _dimension_layout(
                 self.layout_array, value, self._dim)
 
@@ -503,7 +503,7 @@ class Layout(abc.MutableMapping):
         # Cast it as a numpy array incase it's not.
         value = np.array(value)
 
-        if value.size != 0:
+        if value.size != 0 and self.layout_array.size != 0:
             self.layout_array = _center_layout(
                 self.layout_array, value, self._center)
 
@@ -514,7 +514,7 @@ class Layout(abc.MutableMapping):
     @scale.setter
     def scale(self, value):
         """Rescale the layout."""
-        if value:
+        if value and self.layout_array.size != 0:
             self.layout_array = _scale_layout(
                 self.layout_array, value, self._scale, self._center)
 
diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index 9cdf3ad..1adbdf3 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -447,8 +447,8 @@ class Placement(abc.MutableMapping):
         self.S_layout = _parse_layout(S_layout)
         self.T_layout = _parse_layout(T_layout)
 
-        # Layout dimensions should match
-        if self.S_layout.dim != self.T_layout.dim:
+        # Layout dimensions should match, unless there is nothing to place
+        if len(self.S_layout) and self.S_layout.dim != self.T_layout.dim:
             raise ValueError(
                 "S_layout has dimension {} but T_layout has dimension {}. These must match.".format(
                     self.S_layout.dim, self.T_layout.dim)
-- 
2.43.0


From 89d6e589e23f967b1c4ef9e6db52c7fa90af8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 45/74] fix: do not pack components in two dimensions around a
 center of another dimension

---
 minorminer/layout/layout.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index cb8ace6..fd54f97 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -737,11 +737,12 @@ def _pack_components(G, layout, **kwargs):
 
     If `scale` is an argument, we rescale the layout after the above.
 
-    If `dim` is an argument and not equal to 2, we don't have an
-    implementation, so we pass the graph directly into `layout` and bypass
+    If `dim` (or the dimension of `center`) is an argument and not equal to
+    2, we don't have an implementation, so we pass the graph directly into `layout` and bypass
     the packing procedure
     """
-    if kwargs.get('dim', 2) != 2:
+    dim = kwargs.get('dim', len(kwargs.get('center', (0, 0))))
+    if dim != 2:
         return layout(G, **kwargs)
 
     layouts = []
-- 
2.43.0


From 47ee008c3710e54c7f0672fad985d3eefbcb6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 46/74] fix: pack components whose points are on a line

---
 minorminer/layout/layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index fd54f97..ecea562 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -763,7 +763,8 @@ def _pack_components(G, layout, **kwargs):
             apos = np.array(list(cpos.values()))
             rpos, dims = _rotate_to_minimize_area(apos)
             cpos = dict(zip(cpos, rpos))
-            dims = [int(ceil(z)+.001) for z in dims]
+            # collinear points make a flat rectangle, which can't be packed
+            dims = [max(1, int(ceil(z)+.001)) for z in dims]
         elif len(c) == 2:
             cpos = dict(zip(c, [(-.5, 0), (.5, 0)]))
             dims = [2, 1]
-- 
2.43.0


From 6484b20352f96d26b667c2f947ba54e9c8c003c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 47/74] fix: use the layout given for a D-Wave target and
 accept targets given as edges

---
 minorminer/layout/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/__init__.py b/minorminer/layout/__init__.py
index 00a717b..14ce91f 100644
--- a/minorminer/layout/__init__.py
+++ b/minorminer/layout/__init__.py
@@ -172,8 +172,10 @@ def _parse_layout_parameter(S, T, layout, layout_kwargs):
     if isinstance(t_layout, Layout):
         T_layout = t_layout
     else:
-        # Use the graph_layout if possible
-        if T.graph.get("family") in ("chimera", "pegasus", "zephyr"):
+        # Use the graph_layout if possible, unless a layout of T is asked for
+        explicit = isinstance(layout, (tuple, list)) and t_layout is not None
+        family = getattr(T, "graph", {}).get("family")
+        if family in ("chimera", "pegasus", "zephyr") and not explicit:
             T_layout = Layout(T, layout=graph_layout, **layout_kwargs)
         # Assumes t_layout a callable or implements a mapping interface
         else:
-- 
2.43.0


From e3c287b8da5ac38f83228df253b110e989ccfb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 48/74] fix: query no more neighbors than the target has

---
 minorminer/layout/placement.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index 1adbdf3..68de096 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -336,10 +336,12 @@ def closest(S_layout, T_layout, subset_size=(1, 1), num_neighbors=1, **kwargs):
     layout_points = [tuple(p) for p in T_subgraph_layout.values()]
     overlap_counter = Counter()
 
-    try:
-        tree = spatial.KDTree(layout_points)  # This fails for the empty graph
-    except ValueError:
-        pass
+    if layout_points:
+        tree = spatial.KDTree(layout_points)
+        num_neighbors = min(num_neighbors, len(layout_points))
+    elif len(S_layout):
+        raise ValueError(
+            "T has no connected subsets of size {} to {} to map vertices to.".format(*subset_size))
 
     placement = {}
     for u, u_pos in S_layout.items():
-- 
2.43.0


From 287f666ec4c2745f02cf5e317709cf89d25bbbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 49/74] fix: keep the array of a layout in lockstep with its
 items

---
 minorminer/layout/layout.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index ecea562..435d127 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -530,6 +530,9 @@ class Layout(abc.MutableMapping):
     def __setitem__(self, key, value):
         """Set the layout value at the key vertex."""
         self.layout[key] = value
+        if key in self.G:
+            # Keep layout_array and the layout specs in lockstep
+            self.layout = self.layout
 
     def __delitem__(self, key):
         """Delete the layout value at the key vertex."""
-- 
2.43.0


From 9e2d39ef4462b673af9494c8f058ac76c47696dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 50/74] fix: lay out qubits of a single row or column

---
 minorminer/layout/layout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 435d127..7770f49 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -320,7 +320,10 @@ def graph_layout(G, dim=None, center=None, scale=None, **kwargs):
     x_max, y_max = np.max(dnx_layout_arr, axis=0)
     if x_min!=0 or x_max!=dnx_scale or y_min!=-dnx_scale or y_max!=0: 
         dnx_layout_arr = dnx_layout_arr - np.array([x_min, y_max]) #make (0, 0) top left corner
-        dnx_layout_arr = dnx_layout_arr * np.array([(dnx_scale)/(x_max-x_min), (dnx_scale)/(y_max-y_min)]) #make (dnx_scale, -dnx_scale) bottom right corner
+        dnx_layout_arr = dnx_layout_arr * np.array([
+            dnx_scale/(x_max-x_min) if x_max > x_min else 1,
+            dnx_scale/(y_max-y_min) if y_max > y_min else 1
+        ]) #make (dnx_scale, -dnx_scale) bottom right corner
         paddim = dim - 2
         zeros = np.zeros((dnx_layout_arr.shape[0], paddim))
         dnx_layout_arr = np.hstack((dnx_layout_arr, zeros)) + dnx_center
-- 
2.43.0


From 5a6e4d70fee722887b35a44f0400b05611158d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 51/74] fix: no rectangle fits a maximum width or height of
 zero

---
 minorminer/_extern/rpack/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minorminer/_extern/rpack/__init__.py b/minorminer/_extern/rpack/__init__.py
index c72d689..c5c523b 100644
--- a/minorminer/_extern/rpack/__init__.py
+++ b/minorminer/_extern/rpack/__init__.py
@@ -241,4 +241,6 @@ def pack(sizes: Iterable[Tuple[int, int]],
         raise TypeError("max_height must be an integer")
     if not isinstance(sizes, list):
         sizes = list(sizes)
-    return _pack(sizes, max_width or -1, max_height or -1)
+    return _pack(sizes,
+                 -1 if max_width is None else max_width,
+                 -1 if max_height is None else max_height)
-- 
2.43.0


From 324cfcf1fb6e9a2d24f522f9180f67d2387ddb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 52/74] fix: pack rectangles of more than 31 bits and refuse
 those whose areas overflow

---
 minorminer/_extern/rpack/_core.pxd           |  2 +-
 minorminer/_extern/rpack/_core.pyx           | 14 +++++++++++---
 minorminer/_extern/rpack/include/rpackcore.h |  2 +-
 minorminer/_extern/rpack/src/rpackcore.c     |  2 +-
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/minorminer/_extern/rpack/_core.pxd b/minorminer/_extern/rpack/_core.pxd
index 39abfc4..08a9783 100644
--- a/minorminer/_extern/rpack/_core.pxd
+++ b/minorminer/_extern/rpack/_core.pxd
@@ -37,6 +37,6 @@ cdef extern from "rpackcore.h":
         CGrid *grid_alloc(size_t size, long width, long height) nogil
         void grid_free(CGrid *grid) nogil
         void grid_clear(CGrid *self) nogil
-        int grid_find_region(CGrid *grid, Rectangle *rectangle, Region *reg) nogil
+        long grid_find_region(CGrid *grid, Rectangle *rectangle, Region *reg) nogil
         void grid_split(CGrid *self, Region *reg) nogil
         long grid_search_bbox(CGrid *grid, Rectangle *sizes, BBoxRestrictions *bbr) nogil
diff --git a/minorminer/_extern/rpack/_core.pyx b/minorminer/_extern/rpack/_core.pyx
index 27247df..0d2c9a1 100644
--- a/minorminer/_extern/rpack/_core.pyx
+++ b/minorminer/_extern/rpack/_core.pyx
@@ -47,7 +47,7 @@ cdef int rectangle_index_cmp(const void *a, const void *b) noexcept nogil:
 
 
 cdef int rectangle_width_cmp(const void *a, const void *b) noexcept nogil:
-    cdef int width_a, width_b
+    cdef long width_a, width_b
     width_a = (<Rectangle*>a)[0].width
     width_b = (<Rectangle*>b)[0].width
     if width_a < width_b:
@@ -59,7 +59,7 @@ cdef int rectangle_width_cmp(const void *a, const void *b) noexcept nogil:
 
 
 cdef int rectangle_height_cmp(const void *a, const void *b) noexcept nogil:
-    cdef int height_a, height_b
+    cdef long height_a, height_b
     height_a = (<Rectangle*>a)[0].height
     height_b = (<Rectangle*>b)[0].height
     if height_a < height_b:
@@ -71,7 +71,7 @@ cdef int rectangle_height_cmp(const void *a, const void *b) noexcept nogil:
 
 
 cdef int rectangle_area_cmp(const void *a, const void *b) noexcept nogil:
-    cdef int area_a, area_b
+    cdef long area_a, area_b
     area_a = (<Rectangle*>a)[0].area
     area_b = (<Rectangle*>b)[0].area
     if area_a < area_b:
@@ -111,6 +111,8 @@ cdef class RectangleSet:
         self.min_height = LONG_MAX
         self.min_width = LONG_MAX
 
+        total_width = total_height = 0
+
         # Prepare input
         self.rectangles = NULL
         self.rectangles = <Rectangle *> PyMem_Malloc(<size_t>self.length * sizeof(Rectangle))
@@ -129,6 +131,12 @@ cdef class RectangleSet:
             elif h <= 0:
                 raise ValueError("Rectangle height must be positive integer")
 
+            # Areas are computed as longs
+            total_width += width
+            total_height += height
+            if total_width*total_height > LONG_MAX:
+                raise OverflowError("Rectangles are too large")
+
             self.sum_width += w
             self.sum_height += h
 
diff --git a/minorminer/_extern/rpack/include/rpackcore.h b/minorminer/_extern/rpack/include/rpackcore.h
index 270dc3c..9784052 100644
--- a/minorminer/_extern/rpack/include/rpackcore.h
+++ b/minorminer/_extern/rpack/include/rpackcore.h
@@ -78,7 +78,7 @@ typedef struct grid Grid;
 Grid *grid_alloc(size_t size, long width, long height);
 void grid_free(Grid *grid);
 void grid_clear(Grid *self);
-int grid_find_region(Grid *grid, Rectangle *rectangle, Region *reg);
+long grid_find_region(Grid *grid, Rectangle *rectangle, Region *reg);
 void grid_split(Grid *self, Region *reg);
 long grid_search_bbox(Grid *grid, Rectangle *sizes, BBoxRestrictions *bbr);
 
diff --git a/minorminer/_extern/rpack/src/rpackcore.c b/minorminer/_extern/rpack/src/rpackcore.c
index c0be94b..abffd05 100644
--- a/minorminer/_extern/rpack/src/rpackcore.c
+++ b/minorminer/_extern/rpack/src/rpackcore.c
@@ -319,7 +319,7 @@ void grid_split(Grid * self, Region * reg)
 
 /* grid_find_region searches the grid for a free space that can
    contain the region `reg`. */
-int grid_find_region(Grid * grid, Rectangle * rectangle, Region * reg)
+long grid_find_region(Grid * grid, Rectangle * rectangle, Region * reg)
 {
     long rec_col_end_pos, rec_row_end_pos;
     long delta = rectangle->height;
-- 
2.43.0


From a0bd4cd5cf5ac3ee1a21c992bcdfc4c16752bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:27 +0000
Subject: [PATCH 53/74] fix: setting the scale of a layout to 0 collapses it,
 as placing on a grid of one column needs

---
 minorminer/layout/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 7770f49..89dc1cf 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -517,7 +517,7 @@ class Layout(abc.MutableMapping):
     @scale.setter
     def scale(self, value):
         """Rescale the layout."""
-        if value and self.layout_array.size != 0:
+        if value is not None and self.layout_array.size != 0:
             self.layout_array = _scale_layout(
                 self.layout_array, value, self._scale, self._center)
 
-- 
2.43.0


From 2aa9633241910ba9af9a6655f0b21e3606b06a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 54/74] fix: a chain given as a tuple is not taken for a node
 of the same label

---
 minorminer/utils/diagnostic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/utils/diagnostic.py b/minorminer/utils/diagnostic.py
index 20e497c..2baed00 100644
--- a/minorminer/utils/diagnostic.py
+++ b/minorminer/utils/diagnostic.py
@@ -108,7 +108,8 @@ def diagnose_embedding(emb, source, target):
 
         if all_present:
             embedded.add(x)
-            if not nx.is_connected(target.subgraph(embx)):
+            # list(): a tuple could be taken for the label of a single node
+            if not nx.is_connected(target.subgraph(list(embx))):
                 yield DisconnectedChainError, x
 
     for q in overlaps:
-- 
2.43.0


From 4d7d37ec20db72e8aab887b620d0f8c56fa19cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 55/74] fix: the feasibility filter returns a bool, as the
 lattice size bound compares it with False

---
 minorminer/utils/feasibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index 1db8d51..a581d0d 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -104,7 +104,7 @@ def embedding_feasibility_filter(
                 if v < 0
             ]
         )
-        return min_auxiliary_necessary <= nT_auxiliary
+        return bool(min_auxiliary_necessary <= nT_auxiliary)
 
     else:
         return True
-- 
2.43.0


From a919c2219858131f77a839e684076930e0513349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 56/74] fix: degree and coloring limit one-to-one embeddings
 only, and a Chimera node has degree t+2

---
 minorminer/utils/feasibility.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index a581d0d..1b470a9 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -168,16 +168,18 @@ def lattice_size_lower_bound(
 
         if t is None:
             t = 4
-        max_degrees = {"chimera": 2 + 2 * t, "pegasus": 15, "zephyr": 4 + 4 * t}
-        max_source_degree = max(d for _, d in S.degree)
+        if one_to_one:
+            # Chains can have any degree, a single node can not
+            max_degrees = {"chimera": 2 + t, "pegasus": 15, "zephyr": 4 + 4 * t}
+            max_source_degree = max((d for _, d in S.degree), default=0)
 
-        if max_source_degree > max_degrees[topology]:
-            return None
+            if max_source_degree > max_degrees.get(topology, np.inf):
+                return None
 
     N = S.number_of_nodes()
     if topology == "chimera":
-        # Two colorability is necessary, and cheap to check
-        if any(
+        # Two colorability is necessary without chains, and cheap to check
+        if one_to_one and any(
             c > 2
             for c in nx.algorithms.coloring.greedy_coloring.greedy_color(
                 S, strategy="connected_sequential_bfs"
-- 
2.43.0


From 6f72d1846dd4e78d21e5d1ba3ae72ab396912c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 57/74] fix: a tile parameter inconsistent with the target is
 refused, as documented

---
 minorminer/utils/feasibility.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index 1b470a9..3a9b67f 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -161,7 +161,9 @@ def lattice_size_lower_bound(
             raise ValueError("Arguments T and topology are inconsistent")
 
         if t is None:
-            t = T.graph["tile"]
+            t = T.graph.get("tile")
+        elif topology in ("chimera", "zephyr") and t != T.graph.get("tile"):
+            raise ValueError("Arguments T and t are inconsistent")
     else:
         if topology is None:
             raise ValueError("T or topology must be specified")
-- 
2.43.0


From 60ffb94fcd8dae0c83b50e75abe14dc5df17e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:53 +0000
Subject: [PATCH 58/74] fix: colors are counted from 0 when checking for two of
 them

---
 minorminer/utils/feasibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index 3a9b67f..07edfc0 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -182,7 +182,7 @@ def lattice_size_lower_bound(
     if topology == "chimera":
         # Two colorability is necessary without chains, and cheap to check
         if one_to_one and any(
-            c > 2
+            c > 1
             for c in nx.algorithms.coloring.greedy_coloring.greedy_color(
                 S, strategy="connected_sequential_bfs"
             ).values()
-- 
2.43.0


From 9a5a3df3dec5cdffb9df94273f802139180e0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:14 +0000
Subject: [PATCH 59/74] fix: a line that starts after a missing coupler is
 counted in its first cell

---
 minorminer/utils/polynomialembedder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minorminer/utils/polynomialembedder.py b/minorminer/utils/polynomialembedder.py
index 62528fa..fa73a23 100644
--- a/minorminer/utils/polynomialembedder.py
+++ b/minorminer/utils/polynomialembedder.py
@@ -209,6 +209,7 @@ class eden_processor(object):
                         block[y] += 1
                     elif y and (x, y, 1, k) not in self[x, y - 1, 1, k]:
                         laststart[k] = y
+                        block[y] += 1
                     else:
                         for y1 in range(laststart[k], y + 1):
                             block[y1] += 1
@@ -233,6 +234,7 @@ class eden_processor(object):
                         block[x] += 1
                     elif x and (x, y, 0, k) not in self[x - 1, y, 0, k]:
                         laststart[k] = x
+                        block[x] += 1
                     else:
                         for x1 in range(laststart[k], x + 1):
                             block[x1] += 1
-- 
2.43.0


From d4ebb5dadc036885ea52d61524ccfb5b25561528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:14 +0000
Subject: [PATCH 60/74] fix: a chain length limit larger than the processor is
 accepted

---
 minorminer/utils/polynomialembedder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/utils/polynomialembedder.py b/minorminer/utils/polynomialembedder.py
index fa73a23..7b99bf0 100644
--- a/minorminer/utils/polynomialembedder.py
+++ b/minorminer/utils/polynomialembedder.py
@@ -583,7 +583,8 @@ class eden_processor(object):
 
         for w in range(wmax + 1):
             score, clique = self.nativeCliqueEmbed(w)
-            if bestscore is None or score > bestscore:
+            # the score is None if no square of this width fits
+            if bestscore is None or (score is not None and score > bestscore):
                 bigclique = clique
                 bestscore = score
         return bestscore, bigclique
-- 
2.43.0


From 90a8f310d131c74d4b1373bed7edda6a15a0bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 61/74] fix: the largest native clique has the shortest chains
 over all subprocessors, as documented

---
 minorminer/utils/polynomialembedder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/minorminer/utils/polynomialembedder.py b/minorminer/utils/polynomialembedder.py
index 7b99bf0..667529f 100644
--- a/minorminer/utils/polynomialembedder.py
+++ b/minorminer/utils/polynomialembedder.py
@@ -1042,7 +1042,11 @@ class processor:
         """
         def f(x):
             return x.largestNativeClique(max_chain_length=max_chain_length)
-        objective = self._objective_bestscore
+
+        def objective(old, new):
+            # of cliques with the same score, prefer the shorter chains
+            return (self._objective_bestscore(old, new) or
+                    old[0] == new[0] and self._objective_qubitcount(old, new))
         return self._translate(self._map_to_processors(f, objective))
 
     def nativeCliqueEmbed(self, width):
-- 
2.43.0


From f411613a76f5314e44acfab35e228bc2a0131cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 62/74] fix: without a tile, search the whole target with all
 the arguments given

---
 minorminer/utils/parallel_embeddings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 0aee924..1c48585 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -432,11 +432,15 @@ def find_sublattice_embeddings(
     if sublattice_size is None and tile is None:
         return find_multiple_embeddings(
             S=S,
-            T=T,
+            T=_local_graph(T, T_family, T_kwargs) if T is None else T,
             max_num_emb=max_num_emb,
+            use_filter=use_filter,
             seed=seed,
             embedder=embedder,
             embedder_kwargs=embedder_kwargs,
+            one_to_iterable=one_to_iterable,
+            shuffle_all_graphs=shuffle_all_graphs,
+            timeout=timeout_at - perf_counter(),
         )
     if T is not None and T.graph.get("family", T_family) not in {
         "chimera",
-- 
2.43.0


From cd923b10a79848072612ea2391bd97c08cca2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 63/74] fix: embeddings with chains found in one sublattice do
 not overlap

---
 minorminer/utils/parallel_embeddings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 1c48585..47b77dd 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -587,6 +587,7 @@ def find_sublattice_embeddings(
                 seed=seed,
                 embedder=embedder,
                 embedder_kwargs=embedder_kwargs,
+                one_to_iterable=one_to_iterable,
                 timeout=timeout_at - perf_counter(),
             )
         embs += sub_embs
-- 
2.43.0


From c29713f28a30c0f61d3f5cd0ed56d79ada56888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 64/74] fix: shuffle the graphs searched in every sublattice,
 as documented

---
 minorminer/utils/parallel_embeddings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 47b77dd..49e3061 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -584,10 +584,11 @@ def find_sublattice_embeddings(
                 Tr,
                 max_num_emb=max_num_emb - len(embs),
                 use_filter=use_filter,
-                seed=seed,
+                seed=prng if shuffle_all_graphs else seed,
                 embedder=embedder,
                 embedder_kwargs=embedder_kwargs,
                 one_to_iterable=one_to_iterable,
+                shuffle_all_graphs=shuffle_all_graphs,
                 timeout=timeout_at - perf_counter(),
             )
         embs += sub_embs
-- 
2.43.0


From b97de47696feffef94659f6cd58539c79983dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 65/74] fix: keep the target shuffled after the first embedding

---
 minorminer/utils/parallel_embeddings.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 49e3061..2f08e29 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -205,7 +205,6 @@ def find_multiple_embeddings(
 
     if shuffle_all_graphs is True:
         prng = np.random.default_rng(seed)
-        _T = T.copy()
         _T = shuffle_graph(T, seed=prng)
     else:
         _T = T
@@ -246,7 +245,7 @@ def find_multiple_embeddings(
             break
         elif max_num_emb > 1:
             if len(embs) == 0:
-                _T = T.copy()
+                _T = _T.copy()
             if one_to_iterable:
                 _T.remove_nodes_from(n for c in emb.values() for n in c)
             else:
-- 
2.43.0


From efcedffea4b349ddaa7360b526199905a0e2b6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 66/74] fix: return no embedding when asked for at most 0

---
 minorminer/utils/parallel_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 2f08e29..002feaf 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -568,7 +568,7 @@ def find_sublattice_embeddings(
         sublattice_iter = sublattice_mappings(tile, _T)
 
     for f in sublattice_iter:
-        if perf_counter() > timeout_at:
+        if perf_counter() > timeout_at or len(embs) >= max_num_emb:
             break
         if use_tile_embedding:
             proposal = _mapped_proposal(tile_embedding, f, one_to_iterable)
-- 
2.43.0


From cd69111fe38981843fceadad7c80155bfd0064dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 67/74] fix: convert as many embeddings as they have variables,
 and any iterable order

---
 minorminer/utils/parallel_embeddings.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 002feaf..595ae15 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -93,6 +93,7 @@ def embeddings_to_array(embs: list, node_order=None, as_ndarray=False):
 
         else:
             node_order = embs[0].keys()
+    node_order = list(node_order)
 
     if as_ndarray:
         if len(embs) == 0:
@@ -122,10 +123,17 @@ def array_to_embeddings(
         A list of embedding dictionaries
     """
 
+    embs = list(embs)
+    if len(embs) == 0:
+        return embs
     if node_order is None:
         node_order = range(len(embs[0]))
+    node_order = list(node_order)
 
-    if len(embs) == len(node_order):
+    if len(embs) == len(node_order) and not all(
+        hasattr(emb, "__len__") and len(emb) == len(node_order) for emb in embs
+    ):
+        # A single embedding
         embs = [{node_order[idx]: v for idx, v in enumerate(embs)}]
     else:
         embs = [{node_order[idx]: v for idx, v in enumerate(emb)} for emb in embs]
-- 
2.43.0


From eb09685e1e1595e6b6212373b65719a8a725322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 68/74] fix: enumerate connected subgraphs of exactly the given
 size

---
 minorminer/layout/placement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index 68de096..686f3b3 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -389,7 +389,8 @@ def _get_connected_subgraphs(G, k, single_set=False):
             # For each vertex in the set, iterate over its neighbors.
             for v in X:
                 for u in G.neighbors(v):
-                    connected_subgraphs[i + 1].add(X.union({u}))
+                    if u not in X:
+                        connected_subgraphs[i + 1].add(X.union({u}))
 
     return connected_subgraphs
 
-- 
2.43.0


From 606997d95288aac68cfdf6088f9f1e891c36163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:05 +0000
Subject: [PATCH 69/74] fix: bound the fill allowed in a pushdown pass by the
 fill that weights are computed for

---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 8c569c0..8961810 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -262,7 +262,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 emb.steal_all(u);
                 for (auto &q : emb.get_chain(u)) maxfill = max(maxfill, emb.weight(q));
                 ep.debug("maxfill is %d\n", maxfill);
-                ep.weight_bound = max(0, maxfill);
+                ep.weight_bound = max(0, min(oldbound, maxfill));
                 emb.freeze_out(u);
                 if (!find_chain(emb, u, 0)) {
                     ep.debug("pushdown bounced!\n", u);
-- 
2.43.0


From 45bd6f881285dd8d884ff82db73bcc81cf4afd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:05 +0000
Subject: [PATCH 70/74] fix: bound the overlap allowed in a quick pass by the
 fill that weights are computed for

---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 8961810..d5c87e4 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -549,7 +549,7 @@ class pathfinder_base : public pathfinder_public_interface {
                            bool clear_first, double round_beta) override {
         int lastsize, got;
         int old_bound = ep.weight_bound;
-        ep.weight_bound = 1 + overlap_bound;
+        ep.weight_bound = 1 + min(63, overlap_bound);  // the weights of larger fills are not computed
         ep.round_beta = round_beta;
         if (clear_first) bestEmbedding = initEmbedding;
         for (auto &u : varorder) {
-- 
2.43.0


From b8b7aa774b1378484b3aaa627087a21dade57c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:11 +0000
Subject: [PATCH 71/74] fix: report the chains of an initialization that was
 stopped, not those of an earlier search

---
 include/find_embedding/pathfinder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index d5c87e4..43ccc6b 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -611,7 +611,10 @@ class pathfinder_base : public pathfinder_public_interface {
             currEmbedding = initEmbedding;
             switch (initialization_pass(currEmbedding)) {
                 case -2:
-                    return 0;
+                    // stopped, but every variable has a chain -- report those, and not the result of an earlier search
+                    best_stats.clear();
+                    check_improvement(currEmbedding);
+                    return ep.embedded;
                 case -1:
                     throw BadInitializationException(
                             "Failed during initialization.  This typically "
-- 
2.43.0


From 3c0b70637050d84e647c79ddcc12fa6fd7f580d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 72/74] fix: a weight base below 1 for a quick pass is taken
 for 1, as max_beta is

---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 43ccc6b..87fd690 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -550,7 +550,7 @@ class pathfinder_base : public pathfinder_public_interface {
         int lastsize, got;
         int old_bound = ep.weight_bound;
         ep.weight_bound = 1 + min(63, overlap_bound);  // the weights of larger fills are not computed
-        ep.round_beta = round_beta;
+        ep.round_beta = max(1., round_beta);
         if (clear_first) bestEmbedding = initEmbedding;
         for (auto &u : varorder) {
             if (ep.fixed(u)) continue;
-- 
2.43.0


From bc6283f769c4d9993a14dae544ce8af714eac7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:54 +0000
Subject: [PATCH 73/74] fix: release the topology spec when building a busgraph
 fails

---
 minorminer/busclique.pyx | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 1a2e6c4..8245ecc 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -31,6 +31,7 @@ from itertools import zip_longest
 from hashlib import sha256
 
 from libcpp.algorithm cimport sort
+from libcpp.memory cimport unique_ptr
 from cpython.mem cimport PyMem_Malloc, PyMem_Free
 from cpython.bytes cimport PyBytes_FromStringAndSize
 
@@ -837,7 +838,8 @@ cdef class _zephyr_busgraph:
         else:
             internal_seed = seed
 
-        cdef zephyr_spec *zep = new zephyr_spec(rows, tile, internal_seed)
+        cdef unique_ptr[zephyr_spec] zep
+        zep.reset(new zephyr_spec(rows, tile, internal_seed))
         coordinates = dwave.graphs.zephyr_coordinates(rows, tile)
         cdef edges_t edges
         if g.graph['labels'] == 'int':
@@ -854,15 +856,13 @@ cdef class _zephyr_busgraph:
             raise ValueError("unrecognized graph labeling")
 
         _normalize(self.nodes, edges)
-        self.topo = new topo_cache[zephyr_spec](zep[0], self.nodes, edges)
-        short_clique[zephyr_spec](zep[0], self.nodes, edges, self.emb_1)
+        self.topo = new topo_cache[zephyr_spec](zep.get()[0], self.nodes, edges)
+        short_clique[zephyr_spec](zep.get()[0], self.nodes, edges, self.emb_1)
 
         if compute_identifier:
             self.identifier, self.cache_key, self.short_identifier = _serialize(
                 self.topo, self.nodes, edges, internal_seed, 'zephyr')
 
-        del zep
-
     def __dealloc__(self):
         del self.topo
 
@@ -948,7 +948,8 @@ cdef class _pegasus_busgraph:
         else:
             internal_seed = seed
 
-        cdef pegasus_spec *peg = new pegasus_spec(rows, voff, hoff, internal_seed)
+        cdef unique_ptr[pegasus_spec] peg
+        peg.reset(new pegasus_spec(rows, voff, hoff, internal_seed))
         coordinates = dwave.graphs.pegasus_coordinates(rows)
         cdef edges_t edges
         if g.graph['labels'] == 'int':
@@ -970,15 +971,13 @@ cdef class _pegasus_busgraph:
             raise ValueError("unrecognized graph labeling")
 
         _normalize(self.nodes, edges)
-        self.topo = new topo_cache[pegasus_spec](peg[0], self.nodes, edges)
-        short_clique[pegasus_spec](peg[0], self.nodes, edges, self.emb_1)
+        self.topo = new topo_cache[pegasus_spec](peg.get()[0], self.nodes, edges)
+        short_clique[pegasus_spec](peg.get()[0], self.nodes, edges, self.emb_1)
 
         if compute_identifier:
             self.identifier, self.cache_key, self.short_identifier = _serialize(
                 self.topo, self.nodes, edges, internal_seed, 'pegasus')
 
-        del peg
-
     def __dealloc__(self):
         del self.topo
 
@@ -1073,7 +1072,8 @@ cdef class _chimera_busgraph:
         else:
             internal_seed = seed
 
-        cdef chimera_spec *chim = new chimera_spec(rows, cols, tile, internal_seed)
+        cdef unique_ptr[chimera_spec] chim
+        chim.reset(new chimera_spec(rows, cols, tile, internal_seed))
         cdef edges_t edges
         coordinates = dwave.graphs.chimera_coordinates(rows, cols, tile)
         if g.graph['labels'] == 'int':
@@ -1090,15 +1090,13 @@ cdef class _chimera_busgraph:
             raise ValueError("unrecognized graph labeling")
 
         _normalize(self.nodes, edges)
-        self.topo = new topo_cache[chimera_spec](chim[0], self.nodes, edges)
-        short_clique[chimera_spec](chim[0], self.nodes, edges, self.emb_1)
+        self.topo = new topo_cache[chimera_spec](chim.get()[0], self.nodes, edges)
+        short_clique[chimera_spec](chim.get()[0], self.nodes, edges, self.emb_1)
 
         if compute_identifier:
             self.identifier, self.cache_key, self.short_identifier = _serialize(
                 self.topo, self.nodes, edges, internal_seed, 'chimera')
 
-        del chim
-
 
     def __dealloc__(self):
         del self.topo
-- 
2.43.0


From a0ce853b273c65ce613ac5753cbcfa1f6c219055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:34 +0000
Subject: [PATCH 74/74] fix: stop for an interrupt that is noticed by the pass
 which finds the embedding

---
 include/find_embedding/pathfinder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 87fd690..90e0f7d 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -629,6 +629,7 @@ class pathfinder_base : public pathfinder_public_interface {
         check_improvement(currEmbedding);
         ep.improved = 1;
         currEmbedding = bestEmbedding;
+        bool stopped = false;
         for (int trial_patience = params.tries; trial_patience-- && (!ep.embedded);) {
             int improvement_patience = params.max_no_improvement;
             ep.major_info("embedding trial %d\n", params.tries - trial_patience);
@@ -649,6 +650,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 switch (r) {
                     case -2:
                         improvement_patience = trial_patience = 0;  // no more trials
+                        stopped = true;
                         break;
                     case -1:
                         currEmbedding = bestEmbedding;  // fallthrough
@@ -683,7 +685,8 @@ class pathfinder_base : public pathfinder_public_interface {
             }
         }
 
-        if (ep.embedded && params.chainlength_patience) {
+        // an interrupt is reported only once, possibly by the very pass that found the embedding
+        if (ep.embedded && params.chainlength_patience && !stopped) {
             ep.major_info("reducing chain lengths\n");
             int improvement_patience = params.chainlength_patience;
             ep.weight_bound = 1;
-- 
2.43.0

