From 0eb8ea19eea8949f6c5581f4b6f653a770a803ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 01/17] fix: record the occupation probability in every
 realization

The p series was filled only by the first run_once of a simulator, so after a
first run of another length (custom list, hand placed sites, early stop) the
data table mixed series of different realizations or could not be built.
---
 source_py/simulation/percolation_sq_lattice.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index a3dc87f..46e3eb9 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -259,9 +259,8 @@ class SitePercolation(Percolation):
         self.occupied_site_count = 0
         self.selection_flag = None
         # print("Initial entropy ", self.entropy_value)
-        if self.first_run:
-            self.occupation_prob_list = list()
-            pass
+        del self.occupation_prob_list
+        self.occupation_prob_list = list()
         del self.entropy_list
         self.entropy_list = list()
         del self.order_wrapping_list
@@ -676,9 +675,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
-- 
2.43.0


From beb38ba37b6a70936e5db0c5159c0b05e7086e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 02/17] fix: detect wrapping on a lattice of length 2

Both bonds between two neighbors lead to relative indices that differ by one,
so a 2x2 lattice never wrapped, not even fully occupied.
---
 source_py/simulation/percolation_sq_lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 46e3eb9..58eb498 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -643,7 +643,8 @@ class SitePercolation(Percolation):
             rss = self.lattice_ref.get_site_by_id(ss).get_relative_index()
             delta_x = central_r_index.x_coord() - rss.x_coord()
             delta_y = central_r_index.y_coord() - rss.y_coord()
-            if (abs(delta_x) > 1) or (abs(delta_y) > 1):
+            # a neighbor reached through two different bonds (length 2) also closes a loop around the lattice
+            if (abs(delta_x) > 1) or (abs(delta_y) > 1) or neighbors.count(ss) > 1:
                 # print(self.selected_id, " and ", ss, " are connected via wrapping")
                 # print("indices are ", self.lattice_ref.get_site_by_id(self.selected_id).get_index(),
                 #       " and ", self.lattice_ref.get_site_by_id(ss).get_index())
-- 
2.43.0


From 45f87146d3d532ec5a77a234c2deb58e7ab62bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 03/17] fix: do not share the site id list with the caller

Shuffling a custom list reordered the caller's list, and a sequence handed out
by get_site_id_sequence changed when the simulator was reset.
---
 source_py/simulation/percolation_sq_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 58eb498..e741ce7 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -162,7 +162,7 @@ class SitePercolation(Percolation):
         if max(site_id_list) > max_index or min(site_id_list) < min_index:
             print("Invalid site id list")
             return
-        self.site_ids_indices = site_id_list
+        self.site_ids_indices = list(site_id_list)  # shuffling must not reorder the caller's list
         self.mode_custome_site_id = True
         self.do_shuffle = do_shuffle
         self.max_iteration_limit = len(site_id_list)
@@ -221,7 +221,7 @@ class SitePercolation(Percolation):
         pass
 
     def get_site_id_sequence(self):
-        return self.site_ids_indices
+        return list(self.site_ids_indices)
 
     def get_index_sequence(self):
         indices = []
-- 
2.43.0


From e0a13cce5261e6100a62de3a8bced9af77f5a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 04/17] fix: refuse custom positions outside the lattice

Only the computed id was checked, so a column beyond the edge was taken for
a site of another row.
---
 source_py/simulation/percolation_sq_lattice.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index e741ce7..d835f85 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -173,12 +173,12 @@ class SitePercolation(Percolation):
         """
         site_id_list: list of sites.
         """
-        max_index = self.lattice_ref.length**2 - 1
-        min_index = 0
+        for idx in site_index_list:
+            row, column = idx.as_list() if isinstance(idx, Index) else idx
+            if not (0 <= row < self.lattice_ref.length and 0 <= column < self.lattice_ref.length):
+                print("Invalid site id list")
+                return
         site_index_list = [self.lattice_ref.calculate_id_from_index(idx) for idx in site_index_list]
-        if max(site_index_list) > max_index or min(site_index_list) < min_index:
-            print("Invalid site id list")
-            return
         self.site_ids_indices = site_index_list
         self.mode_custome_site_id = True
         self.do_shuffle = do_shuffle
-- 
2.43.0


From c323b7fce03acba102970c8829d72c7c954dfff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 05/17] fix: L2 keeps the direction X -> Y across the periodic
 edge

Normalizing Y - X = L-1 to +1 turned the direction around, so Z was X itself.
---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 9065cbf..64bc635 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -213,8 +213,9 @@ class SitePercolationL2(SitePercolation):
                 # if central2 is occupied then select the one in the direction
                 X_index = self.lattice_ref.get_site_by_id(central_X).get_index()
                 Y_index = self.lattice_ref.get_site_by_id(Y_id).get_index()
-                delta_X = Y_index - X_index
-                delta_X.normalize()
+                # Y is one step away from X, also when the step crosses the periodic edge
+                delta_X = self.wrapping_correction_relative_index(RelativeIndex(index=Y_index)
+                                                                  - RelativeIndex(index=X_index))
                 # print(delta_X, " delta X = Y - X => Y ", Y_index, " - ", X_index)
                 Z_index = Y_index + delta_X
                 # print("Z_index ", Z_index)
-- 
2.43.0


From 4456e290f58b184203b0b46d8ba55d0613cfbe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 06/17] fix: L1 and L2 stop at the end of a custom candidate
 list

The limit was the number of lattice sites, so drawing from an exhausted shorter
list raised ValueError instead of answering that nothing is left.
---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 64bc635..77cc0af 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -82,7 +82,7 @@ class SitePercolationL1(SitePercolation):
                  -1 -> no remaining empty sites
         """
         # print("SitePercolationL1.select_site")
-        if self.current_idx >= self.lattice_ref.site_count:
+        if self.current_idx >= len(self.site_ids_indices):
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
         rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
@@ -193,7 +193,7 @@ class SitePercolationL2(SitePercolation):
                  -1 -> no remaining empty sites
         """
         # print("SitePercolationL2.select_site")
-        if self.current_idx >= self.lattice_ref.site_count:
+        if self.current_idx >= len(self.site_ids_indices):
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
         rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
-- 
2.43.0


From f5868fa0683bc041127ad78e09db5eac9ce23aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 07/17] fix: withdraw an L1/L2 candidate only when it cannot
 reach an empty site

Every failed attempt was counted as another occupied neighbor, even when the
same neighbor had been drawn again, so candidates with empty neighbors were
withdrawn after four failures.
---
 .../simulation/percolation_sq_lattice_L1L2.py | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 77cc0af..3c47010 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -98,8 +98,7 @@ class SitePercolationL1(SitePercolation):
             central2 = sites[random.randint(0, len(sites)-1)]
             if self.lattice_ref.get_site_by_id(central2).is_occupied():
                 # print("first neighbor is occupied")
-                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()
-                if self.lattice_ref.get_site_by_id(central_X).is_removable(1):
+                if all(self.lattice_ref.get_site_by_id(ss).is_occupied() for ss in sites):
                     # print("is_removable")
                     # print("self.site_ids_indices before ", self.site_ids_indices)
                     # print("rnd ", rnd, " self.current_idx ", self.current_idx)
@@ -186,6 +185,18 @@ class SitePercolationL2(SitePercolation):
         column = index.column() % self.lattice_ref.length
         return Index(row, column)
 
+    def next_site_in_direction(self, X_id, Y_id):
+        """
+        id of the site one step beyond Y in the direction X -> Y
+        """
+        X_index = self.lattice_ref.get_site_by_id(X_id).get_index()
+        Y_index = self.lattice_ref.get_site_by_id(Y_id).get_index()
+        # Y is one step away from X, also when the step crosses the periodic edge
+        delta_X = self.wrapping_correction_relative_index(RelativeIndex(index=Y_index)
+                                                          - RelativeIndex(index=X_index))
+        Z_index = self.correct_index_for_periodicity(Y_index + delta_X)
+        return self.lattice_ref.get_site_by_index(Z_index).get_id()
+
     def select_site(self):
         """
         return : 0 -> successfully chosen an empty site
@@ -208,24 +219,12 @@ class SitePercolationL2(SitePercolation):
 
             if self.lattice_ref.get_site_by_id(Y_id).is_occupied():
                 # print("Y is occupied")
-                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()
-
                 # if central2 is occupied then select the one in the direction
-                X_index = self.lattice_ref.get_site_by_id(central_X).get_index()
-                Y_index = self.lattice_ref.get_site_by_id(Y_id).get_index()
-                # Y is one step away from X, also when the step crosses the periodic edge
-                delta_X = self.wrapping_correction_relative_index(RelativeIndex(index=Y_index)
-                                                                  - RelativeIndex(index=X_index))
-                # print(delta_X, " delta X = Y - X => Y ", Y_index, " - ", X_index)
-                Z_index = Y_index + delta_X
-                # print("Z_index ", Z_index)
-                Z_index = self.correct_index_for_periodicity(Z_index)
-                # print("Z_index ", Z_index)
-                Z_id = self.lattice_ref.get_site_by_index(Z_index).get_id()
+                Z_id = self.next_site_in_direction(central_X, Y_id)
                 if self.lattice_ref.get_site_by_id(Z_id).is_occupied():
                     self.y_occupied += 1
-                    self.lattice_ref.get_site_by_id(central_X).reduce_2st_directional_nn()
-                    if self.lattice_ref.get_site_by_id(central_X).is_removable(2):
+                    targets = sites + [self.next_site_in_direction(central_X, ss) for ss in sites]
+                    if all(self.lattice_ref.get_site_by_id(ss).is_occupied() for ss in targets):
                         # print("is_removable")
                         self.site_ids_indices[rnd] = self.site_ids_indices[self.current_idx]
 
-- 
2.43.0


From 1f9183876fb8fb71f0e3d994543c89ca2f07ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 08/17] fix: L1 and L2 report the order in which sites were
 occupied

get_site_id_sequence (both) and get_index_sequence (L2) returned the candidate
list, so a stored realization could not be replayed.
---
 .../simulation/percolation_sq_lattice_L1L2.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 3c47010..c252879 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -29,6 +29,9 @@ class SitePercolationL1(SitePercolation):
         self.x_occupied = 0
         self.site_id_sequence_record = []
 
+    def get_site_id_sequence(self):
+        return list(self.site_id_sequence_record)
+
     def get_index_sequence(self):
         indices = []
         for id in self.site_id_sequence_record:
@@ -146,6 +149,9 @@ class SitePercolationL2(SitePercolation):
         self.signature += "L2_"
         self.x_occupied = 0
         self.y_occupied = 0
+
+        # Once the sequece is recorded, we can use it in regular site percolation. To check the outcomes.
+        self.site_id_sequence_record = []
         # print("SitePercolationL2.init")
         logging.info("SitePercolationL2.init")
         pass
@@ -155,6 +161,18 @@ class SitePercolationL2(SitePercolation):
         self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))
         self.x_occupied = 0
         self.y_occupied = 0
+        self.site_id_sequence_record = []
+
+    def get_site_id_sequence(self):
+        return list(self.site_id_sequence_record)
+
+    def get_index_sequence(self):
+        indices = []
+        for id in self.site_id_sequence_record:
+            idx = self.lattice_ref.get_site_by_id(id).get_index()
+            indices.append(idx.as_list())
+            pass
+        return indices
 
     def get_signature(self):
         return self.signature
@@ -237,6 +255,7 @@ class SitePercolationL2(SitePercolation):
         # self.swap_ids(central_X, central)
         # print("central ", Z_id)
         self.selected_id = Z_id
+        self.site_id_sequence_record.append(self.selected_id)
         self.current_site = self.lattice_ref.get_site_by_id(self.selected_id)
         assert self.current_site.get_gid() == -1  # must be unoccupied
         # print("selected id ", self.selected_id)
-- 
2.43.0


From b338072a07b4c66472878636a90cfabb554ab3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 09/17] fix: notice a straight line that joins the wrapping
 cluster by a merge

Only the row and column of the selected site were scanned, so a complete line
of another cluster was missed when that cluster was merged in, and the
shortest path probability was too large or 0.
---
 .../simulation/percolation_sq_lattice_shortest_path.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_shortest_path.py b/source_py/simulation/percolation_sq_lattice_shortest_path.py
index fa36402..c476051 100644
--- a/source_py/simulation/percolation_sq_lattice_shortest_path.py
+++ b/source_py/simulation/percolation_sq_lattice_shortest_path.py
@@ -34,6 +34,7 @@ class ShortestPathAfter_pc(SitePercolation):
         # sq_lattice_p.viewLattice(3)
         # sq_lattice_p.viewCluster()
         # print("get_occupation_prob_array ", self.get_occupation_prob_array())
+        wrapping_cluster_size = 0
         while self.place_one_site():
             # print("self.selection_flag ", self.selection_flag)
             # self.viewLattice(3)
@@ -44,6 +45,15 @@ class ShortestPathAfter_pc(SitePercolation):
                     index = self.current_site.get_index()
                     column_flag, row_flag = self.scan_row_col_of_selected_site(index)
 
+                    # a cluster that just joined the wrapping cluster may contain a complete
+                    # row or column away from the selected site
+                    size = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)
+                    if size - wrapping_cluster_size > self.lattice_ref.length:
+                        column_flag = column_flag or self.scan_all_cols()
+                        row_flag = row_flag or self.scan_all_rows()
+                        pass
+                    wrapping_cluster_size = size
+
                     if column_flag or row_flag:
                         # print("Got to the shortest path point by placing ", self.current_site)
                         # self.viewLattice(1)
-- 
2.43.0


From 9da9cc7c35263eda5211193acce0388c78abac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 10/17] fix: describe the order parameter columns in the order
 they are stored

The third column of the data table is the largest cluster, the fourth the
wrapping cluster; the file header had them the other way round.
---
 run_py/ensemble.py              | 2 +-
 run_py/rsbd_percolatioin_run.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index fbca2f9..34f147d 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -66,7 +66,7 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 1636886..c806927 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -49,7 +49,7 @@ def single_realization(percolationClass, length):
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
     filename = "./data/" + filename
     with open(filename, 'w') as f:
-- 
2.43.0


From 1a1230894c1a12669d681abc24ab22874a2df44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 11/17] fix: pass the percolation class to the simulation
 threads

The thread target takes the class as first argument; without it every thread
died with a TypeError and nothing was written.
---
 run_py/rsbd_percolatioin_run.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index c806927..877e2f6 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -62,6 +62,8 @@ def single_realization(percolationClass, length):
 
 def run_simulation_threads():
     from run_py import ensemble
+    from source_py.simulation import percolation_sq_lattice_L0
+    percolationClass = percolation_sq_lattice_L0.SitePercolationL0
     lengths = [200, 300, 400]
     En = 500
 
@@ -71,7 +73,7 @@ def run_simulation_threads():
     all_threads = []
     for LL in lengths:
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(LL, En, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, LL, En, i))
         i += 1
         all_threads.append(thread)
         thread.start()
@@ -82,6 +84,8 @@ def run_simulation_threads():
 
 def run_simulation_threads_v2():
     from run_py import ensemble
+    from source_py.simulation import percolation_sq_lattice_L0
+    percolationClass = percolation_sq_lattice_L0.SitePercolationL0
     length = 10
     thread_counts = 2
     En = 1000
@@ -92,7 +96,7 @@ def run_simulation_threads_v2():
     all_threads = []
     for i in range(thread_counts):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(length, En_per_thread, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, length, En_per_thread, i))
         all_threads.append(thread)
         thread.start()
         pass
-- 
2.43.0


From e59c391b99c0565e659a19754e083ebb28051f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 12/17] fix: share out all requested realizations among the
 workers

The remainder of the division by the number of workers was dropped, and with
fewer realizations than workers every worker failed.
---
 run_py/rsbd_percolatioin_run.py | 21 +++++++++++++++------
 run_py/shortest_path_run.py     |  7 +++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 877e2f6..bb6287e 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -89,14 +89,17 @@ def run_simulation_threads_v2():
     length = 10
     thread_counts = 2
     En = 1000
-    En_per_thread = En // thread_counts
+    # the first En % thread_counts workers take one realization more
+    shares = [En // thread_counts + (1 if i < En % thread_counts else 0) for i in range(thread_counts)]
 
     from threading import Thread
 
     all_threads = []
     for i in range(thread_counts):
+        if shares[i] == 0:
+            continue
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, length, En_per_thread, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolationClass, length, shares[i], i))
         all_threads.append(thread)
         thread.start()
         pass
@@ -113,14 +116,17 @@ def run_simulation_threads_v3(length, ensemble_count, thread):
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
+    # the first En % thread_counts workers take one realization more
+    shares = [En // thread_counts + (1 if i < En % thread_counts else 0) for i in range(thread_counts)]
 
     all_processes = []
 
     for i in range(thread_counts):
+        if shares[i] == 0:
+            continue
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, shares[i], i))
         all_processes.append(process)
         process.start()
 
@@ -143,14 +149,17 @@ def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
+    # the first En % thread_counts workers take one realization more
+    shares = [En // thread_counts + (1 if i < En % thread_counts else 0) for i in range(thread_counts)]
 
     all_processes = []
 
     for i in range(thread_counts):
+        if shares[i] == 0:
+            continue
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, shares[i], i))
         all_processes.append(process)
         process.start()
 
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index 4d991e4..727c2d8 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -94,14 +94,17 @@ def run_simulation_shortest_path_threads(length, ensemble_count, thread=2):
     # length = 500
     thread_counts = thread
     En = ensemble_count
-    En_per_thread = En // thread_counts
+    # the first En % thread_counts workers take one realization more
+    shares = [En // thread_counts + (1 if i < En % thread_counts else 0) for i in range(thread_counts)]
 
     all_processes = []
 
     for i in range(thread_counts):
+        if shares[i] == 0:
+            continue
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble_shortest_path_v2_thread,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, shares[i], i))
         all_processes.append(process)
         process.start()
 
-- 
2.43.0


From d0a90653c567b345bac2b392acc194012a256660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 13/17] fix: answer the wrapping test before any placement

---
 source_py/simulation/percolation_sq_lattice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index d835f85..8642bab 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -635,6 +635,9 @@ class SitePercolation(Percolation):
     def detect_wrapping(self):
         if self.after_wrapping:
             return True
+        if self.occupied_site_count == 0:
+            # no site has been selected in this realization
+            return False
         # print("detect_wrapping")
         neighbors = self.lattice_ref.get_sites_for_wrapping_test(self.selected_id)
         # print("neighbors of self.selected_id with same gid : ", neighbors)
-- 
2.43.0


From bc8d491275c7e5c5ad86d8ffd0c0a6572c4914e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 14/17] fix: record the occupation probability in every
 truncated test run too

---
 source_py/simulation/percolation_sq_lattice.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 8642bab..c8426b9 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -741,9 +741,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
-- 
2.43.0


From 17201a05ed0a20729805367d7b1015ecebfe6fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 15/17] fix: accept a wrapping cluster that holds every
 occupied site in the truncated test run

---
 source_py/simulation/percolation_sq_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index c8426b9..0a9df07 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -734,7 +734,7 @@ class SitePercolation(Percolation):
                 if self.detect_wrapping():
                     # print("self.pc_occupied_site_count ", self.pc_occupied_site_count)
                     # print("self.pc_site_count_wrapping_cluster ", self.pc_site_count_wrapping_cluster)
-                    assert self.pc_occupied_site_count > self.pc_site_count_wrapping_cluster
+                    assert self.pc_occupied_site_count >= self.pc_site_count_wrapping_cluster
                     break
                 p = self.occupation_prob()
                 # print("p = ", p)
-- 
2.43.0


From 7b812c03069c1731e9c88a9379104287fb4325af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 16/17] fix: get_four_neighbor_sites failed for sites on the
 border of the lattice

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index c252879..bf3f9b8 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -59,10 +59,7 @@ class SitePercolationL1(SitePercolation):
             tmp = self.lattice_ref.get_neighbor_sites(bb)
             sites += tmp
             pass
-        for ss in sites:
-            if ss == central:
-                sites.remove(ss)
-                pass
+        sites = [ss for ss in sites if ss != central]
         assert len(sites) == 4
         # pytest. check distance between sites
         # central_site = self.lattice_ref.get_site_by_id(central)
-- 
2.43.0


From 5c1b628491596a8e6097146cda48ec2c4c29b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 17/17] fix: test_rwo_col_scan failed on clusters that wind
 round the lattice more than once

---
 source_py/simulation/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_py/simulation/lattice.py b/source_py/simulation/lattice.py
index 9b0b7fa..e1b44e8 100644
--- a/source_py/simulation/lattice.py
+++ b/source_py/simulation/lattice.py
@@ -561,7 +561,7 @@ class Lattice:
                     dy = prev_relative_index.y_coord() - relative_index.y_coord()
                     print(prev_relative_index, " - ", relative_index)
 
-                    assert (abs(dy) == 1) or (abs(dy) == (self.length - 1))
+                    assert abs(dy) % self.length in (1, self.length - 1)   # a cluster may wind several times
                     # assert abs(dx) == 0
                     pass
                 site_prev = site
-- 
2.43.0

