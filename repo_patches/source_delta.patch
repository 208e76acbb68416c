From 40cd47f724071401e27c0f0b2b95465a557a2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 1/5] fix: L2 takes the second neighbour in the direction of
 the first one across the periodic boundary

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 9065cbf..2e10d1a 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -213,8 +213,8 @@ class SitePercolationL2(SitePercolation):
                 # if central2 is occupied then select the one in the direction
                 X_index = self.lattice_ref.get_site_by_id(central_X).get_index()
                 Y_index = self.lattice_ref.get_site_by_id(Y_id).get_index()
-                delta_X = Y_index - X_index
-                delta_X.normalize()
+                # Y may lie across the periodic boundary, where the plain difference points backwards
+                delta_X = self.wrapping_correction_relative_index(RelativeIndex(index=Y_index - X_index))
                 # print(delta_X, " delta X = Y - X => Y ", Y_index, " - ", X_index)
                 Z_index = Y_index + delta_X
                 # print("Z_index ", Z_index)
-- 
2.43.0


From b0c21c130b99f8df2960660085ea9128518e2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 2/5] fix: describe the order parameter columns of the ensemble
 data file in the order they are written

---
 run_py/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index fbca2f9..34f147d 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -66,7 +66,7 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
-- 
2.43.0


From bd70c5c8d53f3490105a35fd12661f32547823e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 3/5] fix: run every requested realization when the ensemble
 does not divide evenly among the processes

---
 run_py/rsbd_percolatioin_run.py | 8 ++++++--
 run_py/shortest_path_run.py     | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 1636886..425dda6 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -114,9 +114,11 @@ def run_simulation_threads_v3(length, ensemble_count, thread):
     all_processes = []
 
     for i in range(thread_counts):
+        # the first (En % thread_counts) processes take the realizations the division leaves over
+        En_i = En_per_thread + (1 if i < En % thread_counts else 0)
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, En_i, i))
         all_processes.append(process)
         process.start()
 
@@ -144,9 +146,11 @@ def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
     all_processes = []
 
     for i in range(thread_counts):
+        # the first (En % thread_counts) processes take the realizations the division leaves over
+        En_i = En_per_thread + (1 if i < En % thread_counts else 0)
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, En_i, i))
         all_processes.append(process)
         process.start()
 
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index 4d991e4..5f534fa 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -99,9 +99,11 @@ def run_simulation_shortest_path_threads(length, ensemble_count, thread=2):
     all_processes = []
 
     for i in range(thread_counts):
+        # the first (En % thread_counts) processes take the realizations the division leaves over
+        En_i = En_per_thread + (1 if i < En % thread_counts else 0)
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
         process = multiprocessing.Process(target=ensemble_shortest_path_v2_thread,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, En_i, i))
         all_processes.append(process)
         process.start()
 
-- 
2.43.0


From 47136d71d597778c8394ec2fb8a30212b77a46ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 4/5] fix: record the occupation probability of every run so
 that it stays aligned with the other series

---
 source_py/simulation/percolation_sq_lattice.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index a3dc87f..6915803 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -259,9 +259,7 @@ class SitePercolation(Percolation):
         self.occupied_site_count = 0
         self.selection_flag = None
         # print("Initial entropy ", self.entropy_value)
-        if self.first_run:
-            self.occupation_prob_list = list()
-            pass
+        self.occupation_prob_list = list()
         del self.entropy_list
         self.entropy_list = list()
         del self.order_wrapping_list
@@ -676,9 +674,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
@@ -740,9 +736,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
-- 
2.43.0


From 51edf1179aaa86a81f40ed4f3e2765d52588d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 5/5] fix: L1 four-neighbour query skipped occurrences of the
 central site while removing them

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 2e10d1a..f78ef9f 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -56,10 +56,8 @@ class SitePercolationL1(SitePercolation):
             tmp = self.lattice_ref.get_neighbor_sites(bb)
             sites += tmp
             pass
-        for ss in sites:
-            if ss == central:
-                sites.remove(ss)
-                pass
+        # removing from the list while looping over it would skip every second of two adjacent occurrences
+        sites = [ss for ss in sites if ss != central]
         assert len(sites) == 4
         # pytest. check distance between sites
         # central_site = self.lattice_ref.get_site_by_id(central)
-- 
2.43.0

