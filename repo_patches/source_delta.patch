From 096c7f8777563b66c2b905d17e5797f9245930ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 01/33] fix: solve_quadratic_real stores the zero root in the
 slot after the linear roots

---
 include/ftk/numeric/quadratic_solver.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/quadratic_solver.hh b/include/ftk/numeric/quadratic_solver.hh
index ac42f0e..04e0844 100644
--- a/include/ftk/numeric/quadratic_solver.hh
+++ b/include/ftk/numeric/quadratic_solver.hh
@@ -67,7 +67,7 @@ int solve_quadratic_real(const T P[3], T x[2], const T epsilon)
     return solve_linear_real1(P, x);
   else if (std::abs(P[0]) <= epsilon || std::isinf(P[0]) || std::isnan(P[0])) {
     const int n = solve_linear_real1(P+1, x);
-    x[n+1] = T(0);
+    x[n] = T(0);
     return n+1;
   }
   else {
-- 
2.43.0


From 531413a513df39925e1f141bb80465cda175d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 02/33] fix: linear ids of regular-mesh elements are computed
 in 64 bits

---
 include/ftk/mesh/simplicial_regular_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_regular_mesh.hh b/include/ftk/mesh/simplicial_regular_mesh.hh
index b92d54f..50d4a13 100644
--- a/include/ftk/mesh/simplicial_regular_mesh.hh
+++ b/include/ftk/mesh/simplicial_regular_mesh.hh
@@ -238,7 +238,7 @@ private:
   const int nd_;
   std::vector<int> lb_, ub_; // lower and upper bounds of each dimension
   std::vector<int> ntypes_, ntypes_ordinal_, ntypes_interval_; // number of types for k-simplex
-  std::vector<int> dimprod_;
+  std::vector<size_t> dimprod_; // products of extents overflow 32-bit integers
 
   struct lattice lattice_; 
 
-- 
2.43.0


From d415e09c292abf93136aabe15c1a4ec8fe74dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 03/33] fix: parallel_for counts tasks in size_t, so
 element_for does not truncate large meshes

---
 include/ftk/object.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ftk/object.hh b/include/ftk/object.hh
index 3e79d34..1924b92 100644
--- a/include/ftk/object.hh
+++ b/include/ftk/object.hh
@@ -58,25 +58,25 @@ struct object {
 #endif
   }
 
-  static void parallel_for(int ntasks, std::function<void(int)> f, 
+  static void parallel_for(size_t ntasks, std::function<void(size_t)> f, 
       int thread_backend = FTK_THREAD_PTHREAD, 
       int nthreads = std::thread::hardware_concurrency(), 
       bool affinity = true)
   {
     if (thread_backend == FTK_THREAD_PTHREAD) {
-      nthreads = std::min(ntasks, nthreads);
+      nthreads = std::max<size_t>(1, std::min<size_t>(ntasks, nthreads)); // hardware_concurrency() may be 0
 
       std::vector<std::thread> workers;
       for (auto i = 1; i < nthreads; i ++) {
         workers.push_back(std::thread([=]() {
           if (affinity) set_affinity(i);
-          for (auto j = i; j < ntasks; j += nthreads)
+          for (size_t j = i; j < ntasks; j += nthreads)
             f(j);
         }));
       }
 
       if (affinity) set_affinity(0);
-      for (auto j = 0; j < ntasks; j += nthreads) // the main thread
+      for (size_t j = 0; j < ntasks; j += nthreads) // the main thread
         f(j);
 
       std::for_each(workers.begin(), workers.end(), [](std::thread &t) {t.join();});
-- 
2.43.0


From bca93a41595c62e5060f160ec48e817f1b6ebdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 04/33] fix: 3D critical points on explicit coordinates use the
 z index and the time of the vertex

---
 include/ftk/filters/critical_point_tracker_3d_regular.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index 8170dcd..c916a69 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -371,10 +371,10 @@ inline void critical_point_tracker_3d_regular::simplex_coordinates(
     }
   } else if (mode_phys_coords == REGULAR_COORDS_EXPLICIT) {
     for (int i = 0; i < vertices.size(); i ++) {
-      X[i][0] = explicit_coords(0, vertices[i][0], vertices[i][1]); // x
-      X[i][1] = explicit_coords(1, vertices[i][0], vertices[i][1]); // y
-      X[i][2] = explicit_coords(2, vertices[i][0], vertices[i][1]);
-      X[i][3] = vertices[i][2]; // t
+      X[i][0] = explicit_coords(0, vertices[i][0], vertices[i][1], vertices[i][2]); // x
+      X[i][1] = explicit_coords(1, vertices[i][0], vertices[i][1], vertices[i][2]); // y
+      X[i][2] = explicit_coords(2, vertices[i][0], vertices[i][1], vertices[i][2]); // z
+      X[i][3] = vertices[i][3]; // t
     }
   }
 }
-- 
2.43.0


From 7ed3d17588de6ce3c0bbb66af2c5e8bf44773791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 05/33] fix: 3D critical point tracker does not read the
 Jacobian field when there is none

---
 include/ftk/filters/critical_point_tracker_3d_regular.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index c916a69..176fae1 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -484,9 +484,12 @@ inline bool critical_point_tracker_3d_regular::check_simplex(
     cp.scalar[0] = lerp_s3(values, mu);
   }
 
-  double Js[4][3][3], J[3][3];
-  simplex_jacobians(vertices, Js);
-  ftk::lerp_s3m3x3(Js, mu, J);
+  double J[3][3] = {0}; // jacobian or hessian
+  if (jacobian_field_source != SOURCE_NONE) { // lerp jacobian
+    double Js[4][3][3];
+    simplex_jacobians(vertices, Js);
+    ftk::lerp_s3m3x3(Js, mu, J);
+  }
 
   cp.type = ftk::critical_point_type_3d(J, is_jacobian_field_symmetric);
   cp.tag = e.to_integer(m);
-- 
2.43.0


From 467b6d9e2ba8b1d61edcede6eb4526ac45d58633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 06/33] fix: Levy-Degani-Seginer tracker reports the magnitude
 of all three vorticity components

---
 include/ftk/filters/levy_degani_seginer_tracker_3d_regular.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/levy_degani_seginer_tracker_3d_regular.hh b/include/ftk/filters/levy_degani_seginer_tracker_3d_regular.hh
index 1f1a9b9..0cefc37 100644
--- a/include/ftk/filters/levy_degani_seginer_tracker_3d_regular.hh
+++ b/include/ftk/filters/levy_degani_seginer_tracker_3d_regular.hh
@@ -61,7 +61,7 @@ inline bool levy_degani_seginer_tracker_3d_regular::check_simplex(const element_
 
   float vort[3];
   lerp_s2v3(vorts, mu, vort);
-  cp.scalar[1] = vector_2norm_2(vort);
+  cp.scalar[1] = vector_2norm_3(vort);
 
   // fprintf(stderr, "residue=%f, detJ=%f\n", residue, detJ);
   // print3x3("J", J);
-- 
2.43.0


From 34846e105d5f4536a78a9379a1ce5e7a425125fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 07/33] fix: 3D contour tracker reads the gradient relative to
 the start of the local array

---
 include/ftk/filters/contour_tracker_3d_regular.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ftk/filters/contour_tracker_3d_regular.hh b/include/ftk/filters/contour_tracker_3d_regular.hh
index c3241c5..2103128 100644
--- a/include/ftk/filters/contour_tracker_3d_regular.hh
+++ b/include/ftk/filters/contour_tracker_3d_regular.hh
@@ -443,7 +443,10 @@ inline void contour_tracker_3d_regular::simplex_values(
         vertices[i][2] - local_array_domain.start(2));
     for (int j = 0; j < 3; j ++)
       grads[i][j] = field_data_snapshots[iv].gradient(
-          j, vertices[i][0], vertices[i][1], vertices[i][2]);
+          j, 
+          vertices[i][0] - local_array_domain.start(0), 
+          vertices[i][1] - local_array_domain.start(1), 
+          vertices[i][2] - local_array_domain.start(2));
   }
 }
 
-- 
2.43.0


From b6de445f9c04e769d1100538c64a360d557b2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 08/33] fix: 2D contour tracker iterates over the local domain
 like the other regular trackers

---
 include/ftk/filters/contour_tracker_2d_regular.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/contour_tracker_2d_regular.hh b/include/ftk/filters/contour_tracker_2d_regular.hh
index 7cd87a4..a9a6c0c 100644
--- a/include/ftk/filters/contour_tracker_2d_regular.hh
+++ b/include/ftk/filters/contour_tracker_2d_regular.hh
@@ -224,9 +224,9 @@ inline void contour_tracker_2d_regular::update_timestep()
     }
   };
 
-  m.element_for_ordinal(1, current_timestep, func, xl, nthreads, enable_set_affinity);
+  element_for_ordinal(1, func);
   if (field_data_snapshots.size() >= 2) // interval
-    m.element_for_interval(1, current_timestep, current_timestep+1, func, xl, nthreads, enable_set_affinity);
+    element_for_interval(1, func);
 }
 
 inline void contour_tracker_2d_regular::simplex_coordinates(
-- 
2.43.0


From 144dbbc57fe0f5f7e8ee13d784b607e8ec01388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 09/33] fix: 3D unstructured critical point tracker normalises
 the fourth barycentric coordinate

---
 include/ftk/filters/critical_point_tracker_3d_unstructured.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
index fd71cc2..5ff71ea 100644
--- a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
@@ -138,7 +138,7 @@ inline bool critical_point_tracker_3d_unstructured::check_simplex(int i, feature
       mu[0] = std::max(std::min(1.0, mu[0]), 0.0);
       mu[1] = std::max(std::min(1.0-mu[0], mu[1]), 0.0);
       mu[2] = std::max(std::min(1.0-mu[1]-mu[0], mu[2]), 0.0);
-      mu[2] = 1.0 - mu[0] - mu[1] - mu[2];
+      mu[3] = 1.0 - mu[0] - mu[1] - mu[2];
       // fprintf(stderr,  "mu =%f, %f, %f\n", mu[0], mu[1], mu[2]);
     }
   }
-- 
2.43.0


From e47a7ccac60def38c1b0f16e36f8cb787cffbb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:51 +0000
Subject: [PATCH 10/33] fix: unstructured critical point trackers reject
 non-finite vector values like the regular ones

---
 .../ftk/filters/critical_point_tracker_2d_unstructured.hh | 8 ++++++--
 .../ftk/filters/critical_point_tracker_3d_unstructured.hh | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_2d_unstructured.hh b/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
index 5096413..b7766b4 100644
--- a/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_unstructured.hh
@@ -117,13 +117,17 @@ inline bool critical_point_tracker_2d_unstructured::check_simplex(int i, feature
   typedef mpf_class fp_t;
   fp_t Vf[3][2];
   for (int k = 0; k < 3; k ++) 
-    for (int j = 0; j < 2; j ++)
+    for (int j = 0; j < 2; j ++) {
+      if (std::isnan(V[k][j]) || std::isinf(V[k][j])) return false;
       Vf[k][j] = V[k][j];
+    }
 #else
   int64_t Vf[3][2];
   for (int k = 0; k < 3; k ++) 
-    for (int j = 0; j < 2; j ++)
+    for (int j = 0; j < 2; j ++) {
+      if (std::isnan(V[k][j]) || std::isinf(V[k][j])) return false;
       Vf[k][j] = V[k][j] * vector_field_scaling_factor;
+    }
 #endif
    
   bool succ = ftk::robust_critical_point_in_simplex2(Vf, tri);
diff --git a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
index 5ff71ea..2e092e4 100644
--- a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
@@ -115,13 +115,17 @@ inline bool critical_point_tracker_3d_unstructured::check_simplex(int i, feature
   typedef mpf_class fp_t;
   fp_t Vf[4][3];
   for (int k = 0; k < 4; k ++) 
-    for (int j = 0; j < 3; j ++)
+    for (int j = 0; j < 3; j ++) {
+      if (std::isnan(V[k][j]) || std::isinf(V[k][j])) return false;
       Vf[k][j] = V[k][j];
+    }
 #else
   int64_t Vf[4][3];
   for (int k = 0; k < 4; k ++) 
-    for (int j = 0; j < 3; j ++)
+    for (int j = 0; j < 3; j ++) {
+      if (std::isnan(V[k][j]) || std::isinf(V[k][j])) return false;
       Vf[k][j] = V[k][j] * vector_field_scaling_factor;
+    }
 #endif
    
   bool succ = ftk::robust_critical_point_in_simplex3(Vf, tet);
-- 
2.43.0


From 9285f26565313d163f9bc6ec8ee531ee797db671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 11/33] fix: trajectory ids are assigned under the lock that
 guards the trajectory list

---
 include/ftk/filters/critical_point_tracker.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index 5142357..d18733c 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -716,21 +716,19 @@ std::vector<feature_curve_t> critical_point_tracker::trace_critical_points_offli
 
     auto linear_graphs = ftk::connected_component_to_linear_components<element_t>(component, neighbors);
     for (int j = 0; j < linear_graphs.size(); j ++) {
-      const unsigned int id = traced_critical_points.size(); 
-
       feature_curve_t traj; 
       traj.loop = is_loop(linear_graphs[j], neighbors);
       for (int k = 0; k < linear_graphs[j].size(); k ++) {
         // auto &cp = discrete_critical_points[linear_graphs[j][k]];
-        auto cp = icc->second.at(linear_graphs[j][k]);
-        cp.id = id;
-
-        traj.push_back(cp);
+        traj.push_back(icc->second.at(linear_graphs[j][k]));
         // sum1 ++;
       }
       
       {
         std::lock_guard<std::mutex> guard(my_mutex);
+        const unsigned int id = traced_critical_points.size(); 
+        for (auto &cp : traj)
+          cp.id = id;
         traced_critical_points.emplace_back(traj);
       }
     }
-- 
2.43.0


From 46fa7dc3753ad343167b49ea0099a0fbe5487375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:01 +0000
Subject: [PATCH 12/33] fix: distributed union-find links roots in the critical
 section that determines them

---
 include/ftk/basic/duf.hh | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/ftk/basic/duf.hh b/include/ftk/basic/duf.hh
index e3c4359..acf3a22 100644
--- a/include/ftk/basic/duf.hh
+++ b/include/ftk/basic/duf.hh
@@ -23,6 +23,9 @@ struct duf {
 
   std::set<T, Compare> get_roots() const;
 
+private:
+  T find_locked(T) const; // find the root; the caller holds the mutex
+
 private:
   mutable std::map<T, T, Compare> parents; // parents in the local process
   mutable std::mutex mutex;
@@ -41,24 +44,27 @@ bool duf<T, Compare>::has(T i) const
 template <typename T, class Compare>
 void duf<T, Compare>::unite(T i, T j)
 {
-  i = find(i); // i <-- root(i)
-  j = find(j); // j <-- root(j)
+  std::lock_guard<std::mutex> guard(mutex); // the roots must not change before they are linked
+
+  i = find_locked(i); // i <-- root(i)
+  j = find_locked(j); // j <-- root(j)
   
   if (i == j) return;
   if (i > j) std::swap(i, j); // ensure i<j
 
-  // critical section
-  {
-    std::lock_guard<std::mutex> guard(mutex);
-    parents[j] = i; 
-  }
+  parents[j] = i; 
 }
 
 template <typename T, class Compare>
 T duf<T, Compare>::find(T i) const
 {
   std::lock_guard<std::mutex> guard(mutex);
-  
+  return find_locked(i);
+}
+
+template <typename T, class Compare>
+T duf<T, Compare>::find_locked(T i) const
+{
   if (parents.find(i) == parents.end()) { // if i does not exist, insert i to the graph and return i as the root
     parents.insert({i, i}); // parents[i] = i;
     return i;
-- 
2.43.0


From 6a130b94e1767592a4f77147a4af8cb2a4cd9de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 13/33] fix: jacobian2D takes differences before scaling and
 stores the off-diagonal entries of every cell

---
 include/ftk/ndarray/grad.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index dfe5235..06682db 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -67,18 +67,18 @@ ndarray<T> jacobian2D(const ndarray<T>& vec)
 #pragma omp parallel for collapse(2)
   for (int j = 0; j < DH; j ++) {
     for (int i = 0; i < DW; i ++) {
-      const T H00 = f(0, i+1, j) - f(0, i-1, j) * (DW-1),
-              H01 = f(0, i, j+1) - f(0, i, j-1) * (DH-1),
-              H10 = f(1, i+1, j) - f(1, i-1, j) * (DW-1), 
-              H11 = f(1, i, j+1) - f(1, i, j-1) * (DH-1);
+      const T H00 = (f(0, i+1, j) - f(0, i-1, j)) * (DW-1),
+              H01 = (f(0, i, j+1) - f(0, i, j-1)) * (DH-1),
+              H10 = (f(1, i+1, j) - f(1, i-1, j)) * (DW-1), 
+              H11 = (f(1, i, j+1) - f(1, i, j-1)) * (DH-1);
 
       grad(0, 0, i, j) = H00;
       grad(1, 1, i, j) = H11;
       if (symmetric)
         grad(0, 1, i, j) = grad(1, 0, i, j) = (H01 + H10) * 0.5;
       else {
-        grad(0, 1) = H01;
-        grad(1, 0) = H10;
+        grad(0, 1, i, j) = H01;
+        grad(1, 0, i, j) = H10;
       }
     }
   }
-- 
2.43.0


From 3cb216b577dd9f624faa6e7f1c82b14ad339f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 14/33] fix: jacobian3Dt stores every entry in its own time
 step and stays inside the field

---
 include/ftk/ndarray/grad.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index 06682db..70bf429 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -221,14 +221,14 @@ ndarray<T> jacobian3Dt(const ndarray<T>& V)
 
 #pragma omp parallel for collapse(4)
   for (int t = 0; t < DT; t ++) {
-    for (int k = 0; k < DD-2; k ++) {
+    for (int k = 2; k < DD-2; k ++) {
       for (int j = 2; j < DH-2; j ++) {
         for (int i = 2; i < DW-2; i ++) {
           const float H00 = J(0, 0, i, j, k, t) = // ddf/dx2
             0.5 * (V(0, i+1, j, k, t) - V(0, i-1, j, k, t));
-          const float H01 = J(0, 1, i, j, k) = // ddf/dxdy
+          const float H01 = J(0, 1, i, j, k, t) = // ddf/dxdy
             0.5 * (V(0, i, j+1, k, t) - V(0, i, j-1, k, t));
-          const float H02 = J(0, 2, i, j, k) = // ddf/dxdz
+          const float H02 = J(0, 2, i, j, k, t) = // ddf/dxdz
             0.5 * (V(0, i, j, k+1, t) - V(0, i, j, k-1, t));
 
           const float H10 = J(1, 0, i, j, k, t) = // ddf/dydx
-- 
2.43.0


From 96cd8c88d292c583e1722df68770e18555cfa318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 15/33] fix: partitioned numbering of vertical edges in the
 implicit extruded 2D mesh

---
 .../simplicial_unstructured_extruded_2d_mesh_implicit.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh b/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh
index 0a9b92e..0a8536a 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh
@@ -199,10 +199,11 @@ I simplicial_unstructured_extruded_2d_mesh_implicit<I, F>::get_simplex(int d, I
           gid = eid + this->m2->n(1);
       }
     } else {
-      const I vid = part ? this->m2->lid2gid(0, i) : i;
-      verts[0] = vid - 2*this->m2->n(1);
-      verts[1] = vid - 2*this->m2->n(1) + this->m2->n(0);
-      gid = vid; // + 2 * this->m2->n(1);
+      const I lid = i - 2*this->m2->n(1, part);
+      const I vid = part ? this->m2->lid2gid(0, lid) : lid;
+      verts[0] = vid;
+      verts[1] = vid + this->m2->n(0);
+      gid = vid + 2*this->m2->n(1);
     }
   } else if (d == 2) {
     if (type < 3) {
-- 
2.43.0


From f58ca3594c5bf40fde26a4ca589eeae790fe1212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 16/33] fix: ndarray element counts beyond 32 bits are no
 longer truncated

---
 include/ftk/ndarray/ndarray_base.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/ndarray/ndarray_base.hh b/include/ftk/ndarray/ndarray_base.hh
index 26780f9..fd9fe72 100644
--- a/include/ftk/ndarray/ndarray_base.hh
+++ b/include/ftk/ndarray/ndarray_base.hh
@@ -78,7 +78,7 @@ struct ndarray_base {
   size_t dim(size_t i) const {return dims[i];}
   size_t shape(size_t i) const {return dim(i);}
   const std::vector<size_t> &shape() const {return dims;}
-  size_t nelem() const { if (empty()) return 0; else return std::accumulate(dims.begin(), dims.end(), 1, std::multiplies<size_t>()); }
+  size_t nelem() const { if (empty()) return 0; else return std::accumulate(dims.begin(), dims.end(), size_t(1), std::multiplies<size_t>()); }
   virtual size_t elem_size() const = 0;
  
   virtual const void* pdata() const = 0;
@@ -340,7 +340,7 @@ inline vtkSmartPointer<vtkDataArray> ndarray_base::to_vtk_data_array(std::string
 
   if (ncd == 1) {
     d->SetNumberOfComponents(shape(0));
-    d->SetNumberOfTuples( std::accumulate(dims.begin()+1, dims.end(), 1, std::multiplies<size_t>()) );
+    d->SetNumberOfTuples( std::accumulate(dims.begin()+1, dims.end(), size_t(1), std::multiplies<size_t>()) );
   }
   else if (ncd == 0) {
     d->SetNumberOfComponents(1);
-- 
2.43.0


From 9e22320c100fe74a495e84086429cbf356b8b2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 17/33] fix: ndarray min_max starts the maximum from the lowest
 value

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 2049a03..647ee8f 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -746,7 +746,7 @@ void ndarray<T>::reshape(const std::vector<size_t> &dims, T val)
 template <typename T>
 std::tuple<T, T> ndarray<T>::min_max() const {
   T min = std::numeric_limits<T>::max(), 
-    max = std::numeric_limits<T>::min();
+    max = std::numeric_limits<T>::lowest();
 
   for (size_t i = 0; i < nelem(); i ++) {
     min = std::min(min, at(i));
-- 
2.43.0


From 4494324e1b545a9577fea993fd4d67674c28a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 18/33] fix: fourth pentachoron type of the extruded 3D mesh
 repeated a vertex

---
 include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
index 0e2041a..47207d7 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
@@ -433,9 +433,9 @@ void simplicial_unstructured_extruded_3d_mesh<I, F>::get_simplex(int d, I k, I v
         verts[4] = tet[3] + m->n(0);
         break;
 
-      case 3: // type IV:  0 1'1'2'3'
+      case 3: // type IV:  0 0'1'2'3'
         verts[0] = tet[0];
-        verts[1] = tet[1] + m->n(0);
+        verts[1] = tet[0] + m->n(0);
         verts[2] = tet[1] + m->n(0);
         verts[3] = tet[2] + m->n(0);
         verts[4] = tet[3] + m->n(0);
-- 
2.43.0


From e2b78a2f3dc033345ea5bbc7f4e75cd428cce9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:24 +0000
Subject: [PATCH 19/33] fix: missing cofaces of triangles in the extruded 3D
 mesh

---
 .../simplicial_unstructured_extruded_3d_mesh.hh | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
index 47207d7..02a9ca0 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
@@ -1009,6 +1009,11 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
       bool found = m->find_simplex(2, v0, otid);
       assert(found);
 
+      // 0 1 2 2'
+      results.insert(otid + t*n(3) + 4*m->n(3));
+      // 0 0'1'2' (t-1)
+      results.insert(otid + (t-1)*n(3) + 4*m->n(3) + 2*m->n(2));
+
       for (auto otetid : m->side_of(2, otid)) {
         I tet[4];
         m->get_simplex(3, otetid, tet);
@@ -1069,6 +1074,9 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
       bool found = m->find_simplex(2, v0, otid);
       assert(found);
 
+      // 0 1 2 2'
+      results.insert(otid + t*n(3) + 4*m->n(3));
+
       for (auto otetid : m->side_of(2, otid)) {
         I tet[4];
         m->get_simplex(3, otetid, tet);
@@ -1098,6 +1106,10 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
             results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
           }
         } else if (pos == 2) { // 0 1 a 2, equiv to finding 013' in 0123-0'1'2'3'
+          // 0 1 2 3'
+          results.insert(otetid + t*n(3) + m->n(3));
+          // 0 1 2'3'
+          results.insert(otetid + t*n(3) + 2*m->n(3));
           // 0 1 1'3' (0 1 1'2' type)
           {
             int otriid;
@@ -1115,6 +1127,8 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
             results.insert(otriid + t*n(3) + 4*m->n(3));
           }
         } else if (pos == 3) { // 0 1 2 a, equiv to finding 012' in 0123-0'1'2'3'
+          // 0 1 2'3'
+          results.insert(otetid + t*n(3) + 2*m->n(3));
           // 0 1 2 2' (0 1 2 2' type)
           {
             int otriid;
@@ -1137,6 +1151,9 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
       bool found = m->find_simplex(2, v0, otid);
       assert(found);
       
+      // 0 0'1'2'
+      results.insert(otid + t*n(3) + 4*m->n(3) + 2*m->n(2));
+
       for (auto otetid : m->side_of(2, otid)) {
         I tet[4];
         m->get_simplex(3, otetid, tet);
-- 
2.43.0


From eb3f6f76b15ecf32d5571b73c7a1632a1291f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:47 +0000
Subject: [PATCH 20/33] fix: JSON of feature curves loses complete, loop and
 speed range

---
 include/ftk/features/feature_curve.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 57b395c..622591b 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -438,6 +438,8 @@ namespace nlohmann
     static void to_json(json &j, const feature_curve_t& t) {
       j = {
         {"id", t.id},
+        {"complete", t.complete},
+        {"loop", t.loop},
         {"max", t.max},
         {"min", t.min},
         {"persistence", t.persistence},
@@ -445,6 +447,8 @@ namespace nlohmann
         {"bbmax", t.bbmax},
         {"tmin", t.tmin},
         {"tmax", t.tmax},
+        {"vmmin", t.vmmin},
+        {"vmmax", t.vmmax},
         {"consistent_type", t.consistent_type},
         {"traj", static_cast<std::vector<feature_point_t>>(t)}
       };
@@ -452,6 +456,8 @@ namespace nlohmann
 
     static void from_json(const json&j, feature_curve_t& t) {
       t.id = j["id"];
+      t.complete = j["complete"];
+      t.loop = j["loop"];
       t.max = j["max"];
       t.min = j["min"];
       t.persistence = j["persistence"];
@@ -459,6 +465,8 @@ namespace nlohmann
       t.bbmax = j["bbmax"];
       t.tmin = j["tmin"];
       t.tmax = j["tmax"];
+      t.vmmin = j["vmmin"];
+      t.vmmax = j["vmmax"];
       t.consistent_type = j["consistent_type"];
       std::vector<feature_point_t> traj = j["traj"];
       t.clear();
-- 
2.43.0


From 552e229e7e92ca7e0e175794109576523503ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:47 +0000
Subject: [PATCH 21/33] fix: binary form of feature curves loses loop and speed
 range

---
 include/ftk/features/feature_curve.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 622591b..54bdf90 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -480,6 +480,7 @@ namespace diy {
   template <> struct Serialization<ftk::feature_curve_t> {
     static void save(diy::BinaryBuffer& bb, const ftk::feature_curve_t &t) {
       diy::save(bb, t.complete);
+      diy::save(bb, t.loop);
       diy::save(bb, t.max);
       diy::save(bb, t.min);
       diy::save(bb, t.persistence);
@@ -487,6 +488,8 @@ namespace diy {
       diy::save(bb, t.bbmax);
       diy::save(bb, t.tmin);
       diy::save(bb, t.tmax);
+      diy::save(bb, t.vmmin);
+      diy::save(bb, t.vmmax);
       diy::save(bb, t.consistent_type);
       diy::save(bb, t.size());
       for (auto i = 0; i < t.size(); i ++)
@@ -496,6 +499,7 @@ namespace diy {
     
     static void load(diy::BinaryBuffer& bb, ftk::feature_curve_t &t) {
       diy::load(bb, t.complete);
+      diy::load(bb, t.loop);
       diy::load(bb, t.max);
       diy::load(bb, t.min);
       diy::load(bb, t.persistence);
@@ -503,6 +507,8 @@ namespace diy {
       diy::load(bb, t.bbmax);
       diy::load(bb, t.tmin);
       diy::load(bb, t.tmax);
+      diy::load(bb, t.vmmin);
+      diy::load(bb, t.vmmax);
       diy::load(bb, t.consistent_type);
       size_t s;
       diy::load(bb, s);
-- 
2.43.0


From 1b48f171b241ce012eac1fbf40b3dcc2b95bf7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:47 +0000
Subject: [PATCH 22/33] fix: reading trajectories from JSON loses their labels

---
 include/ftk/features/feature_curve_set.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ftk/features/feature_curve_set.hh b/include/ftk/features/feature_curve_set.hh
index ae5c60d..c5504a2 100644
--- a/include/ftk/features/feature_curve_set.hh
+++ b/include/ftk/features/feature_curve_set.hh
@@ -84,7 +84,8 @@ namespace nlohmann
     // TODO FIXME: json i/o w/ multimap has problem...
     static void from_json(const json&j, feature_curve_set_t& s) {
       std::list<feature_curve_t> list = j["trajs"];
-      s.from_list(list);
+      for (const auto &c : list)
+        s.add(c, c.id); // keep the labels; curves may share one
     }
   };
 }
-- 
2.43.0


From c1034f3f51ad931223946cd81fb0d6d418ff8a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 23/33] fix: binary form of 2D meshes loses triangle adjacency
 and chirality

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index ed5ffb3..96ecc2f 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -1146,6 +1146,10 @@ namespace diy {
       diy::save(bb, m.edges_side_of);
       diy::save(bb, m.triangles);
       diy::save(bb, m.triangle_edges);
+      diy::save(bb, m.vertex_triangles);
+      diy::save(bb, m.triangle_edge_triangles);
+      std::vector<unsigned char> chi(m.triangles_chi.begin(), m.triangles_chi.end());
+      diy::save(bb, chi);
       diy::save(bb, m.edge_id_map);
       diy::save(bb, m.triangle_id_map);
     }
@@ -1158,6 +1162,11 @@ namespace diy {
       diy::load(bb, m.edges_side_of);
       diy::load(bb, m.triangles);
       diy::load(bb, m.triangle_edges);
+      diy::load(bb, m.vertex_triangles);
+      diy::load(bb, m.triangle_edge_triangles);
+      std::vector<unsigned char> chi;
+      diy::load(bb, chi);
+      m.triangles_chi.assign(chi.begin(), chi.end());
       diy::load(bb, m.edge_id_map);
       diy::load(bb, m.triangle_id_map);
     }
-- 
2.43.0


From 4b96cd9b56abd6fa0d3944b988a8cbaebf4f3537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:11 +0000
Subject: [PATCH 24/33] fix: set_use_default_domain_partition stores its
 argument

The setter assigned true whatever it was given, so a caller could not turn
the default partition off.
---
 include/ftk/filters/tracker.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/tracker.hh b/include/ftk/filters/tracker.hh
index 56fa48e..d4b23fb 100644
--- a/include/ftk/filters/tracker.hh
+++ b/include/ftk/filters/tracker.hh
@@ -41,7 +41,7 @@ struct tracker : public filter
   int get_current_timestep() const {return current_timestep;}
  
   void set_input_array_partial(bool b) {is_input_array_partial = b;}
-  void set_use_default_domain_partition(bool b) {use_default_domain_partition = true;}
+  void set_use_default_domain_partition(bool b) {use_default_domain_partition = b;}
 
   static int str2tracker(const std::string&);
 
-- 
2.43.0


From 1c2e334f5c0d08993bf8ec1c49023de9e512e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:11 +0000
Subject: [PATCH 25/33] fix: set_nsteps_per_checkpoint stores its argument

The setter assigned the default (16) whatever it was given.
---
 include/ftk/filters/particle_tracer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/particle_tracer.hh b/include/ftk/filters/particle_tracer.hh
index 96891fe..ae81529 100644
--- a/include/ftk/filters/particle_tracer.hh
+++ b/include/ftk/filters/particle_tracer.hh
@@ -40,7 +40,7 @@ public:
 public: // will be overriden by above parameters
   void set_delta_t(double d) { current_delta_t = d; } // overriding delta t
   void set_nsteps_per_interval(int n) { nsteps_per_interval = n; }
-  void set_nsteps_per_checkpoint(int n) { nsteps_per_checkpoint = 16; }
+  void set_nsteps_per_checkpoint(int n) { nsteps_per_checkpoint = n; }
 
 protected:
   virtual bool eval_vt(const double *x, double *v, int *hint = NULL);  // w/ temporal interpolation
-- 
2.43.0


From c8f22bb0ad52ad8dbf04ca957059e6cb2e948c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 26/33] fix: file_extension recognises pvtu

"vtu" is a suffix of "pvtu", so FILE_EXT_PVTU was never returned and
ndarray_stream read .pvtu files with the serial .vtu reader.
---
 include/ftk/io/util.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/io/util.hh b/include/ftk/io/util.hh
index fb4f891..365c1ae 100644
--- a/include/ftk/io/util.hh
+++ b/include/ftk/io/util.hh
@@ -119,6 +119,8 @@ static inline int file_extension(const std::string& f)
     return FILE_EXT_VTI;
   else if (m("vtp"))
     return FILE_EXT_VTP;
+  else if (m("pvtu")) // must precede vtu, which is a suffix of pvtu
+    return FILE_EXT_PVTU;
   else if (m("vtu"))
     return FILE_EXT_VTU;
   else if (m("vtk"))
-- 
2.43.0


From 40494d3b03f286136469043704bce4eb351b67d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 27/33] fix: an output name ending in pvtp selects the pvtp
 format

"vtp" is a suffix of "pvtp" and was tested first.
---
 include/ftk/filters/json_interface.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/json_interface.hh b/include/ftk/filters/json_interface.hh
index ec0baf7..adeb650 100644
--- a/include/ftk/filters/json_interface.hh
+++ b/include/ftk/filters/json_interface.hh
@@ -224,8 +224,8 @@ void json_interface::configure(const json& j0)
 
   if (!output_format_determined) {
     if (j.contains("output")) {
-      if (ends_with(j["output"], "vtp")) j["output_format"] = "vtp";
-      else if (ends_with(j["output"], "pvtp")) j["output_format"] = "pvtp";
+      if (ends_with(j["output"], "pvtp")) j["output_format"] = "pvtp";
+      else if (ends_with(j["output"], "vtp")) j["output_format"] = "vtp";
       else if (ends_with(j["output"], "txt")) j["output_format"] = "text";
       else if (ends_with(j["output"], "json")) j["output_format"] = "json";
       else j["output_format"] = "binary";
-- 
2.43.0


From 6946f9b5d559bf3c57d33ab4cf389f033b268488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 28/33] fix: feature_surface_t::load reads what save writes

save() writes the binary form for names without a known extension, load()
refused the same names.
---
 include/ftk/features/feature_surface.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/features/feature_surface.hh b/include/ftk/features/feature_surface.hh
index b15f7c4..9025879 100644
--- a/include/ftk/features/feature_surface.hh
+++ b/include/ftk/features/feature_surface.hh
@@ -383,7 +383,7 @@ inline feature_curve_set_t feature_surface_t::slice_time(int t) const
 inline void feature_surface_t::load(const std::string& filename, std::string format)
 {
   const int fmt = file_extension(filename, format);
-  if (fmt == FILE_EXT_BIN) {
+  if (fmt == FILE_EXT_BIN || fmt == FILE_EXT_NULL) { // as in save()
     diy::unserializeFromFile(filename, *this);
   } else {
     fprintf(stderr, "unsupported file format\n");
-- 
2.43.0


From 68292657d9cafb99b995ed16ed436ff01f497818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:32 +0000
Subject: [PATCH 29/33] fix: output written by one process does not wait for
 the others

write_polydata enters a barrier on its communicator for pvtp; the calls that only the root process makes passed MPI_COMM_WORLD and hung
---
 include/ftk/features/feature_curve_set.hh               | 2 +-
 include/ftk/features/feature_surface.hh                 | 2 +-
 include/ftk/filters/contour_tracker.hh                  | 2 +-
 include/ftk/filters/contour_tracker_2d_regular.hh       | 4 ++--
 include/ftk/filters/contour_tracker_3d_regular.hh       | 2 +-
 include/ftk/filters/critical_line_tracker.hh            | 2 +-
 include/ftk/filters/critical_line_tracker_3d_regular.hh | 2 +-
 include/ftk/filters/critical_point_tracker.hh           | 6 +++---
 include/ftk/filters/particle_tracer.hh                  | 4 ++--
 include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh   | 4 ++--
 include/ftk/filters/xgc_blob_filament_tracker.hh        | 6 +++---
 11 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/ftk/features/feature_curve_set.hh b/include/ftk/features/feature_curve_set.hh
index c5504a2..16293af 100644
--- a/include/ftk/features/feature_curve_set.hh
+++ b/include/ftk/features/feature_curve_set.hh
@@ -143,7 +143,7 @@ inline void feature_curve_set_t::write(const std::string& filename, const std::s
     // diy::serializeToFile(*this, filename);
   } else {
 #if FTK_HAVE_VTK
-    write_polydata(filename, to_vtp({}), format);
+    write_polydata(filename, to_vtp({}), format, MPI_COMM_SELF);
 #else
     fprintf(stderr, "unsupported file format\n");
     assert(false);
diff --git a/include/ftk/features/feature_surface.hh b/include/ftk/features/feature_surface.hh
index 9025879..08bb978 100644
--- a/include/ftk/features/feature_surface.hh
+++ b/include/ftk/features/feature_surface.hh
@@ -399,7 +399,7 @@ inline void feature_surface_t::save(const std::string& filename, std::string for
   } else {
 #if FTK_HAVE_VTK
     fprintf(stderr, "writing polydata, #pts=%zu, #tris=%zu\n", pts.size(), tris.size());
-    write_polydata(filename, to_vtp(), format);
+    write_polydata(filename, to_vtp(), format, MPI_COMM_SELF);
 #else
     fprintf(stderr, "unsupported file format\n");
     assert(false);
diff --git a/include/ftk/filters/contour_tracker.hh b/include/ftk/filters/contour_tracker.hh
index 3232491..a902b0e 100644
--- a/include/ftk/filters/contour_tracker.hh
+++ b/include/ftk/filters/contour_tracker.hh
@@ -130,7 +130,7 @@ inline void contour_tracker::write_intersections_vtp(const std::string& filename
 {
   if (comm.rank() == get_root_proc()) {
     auto poly = get_intersections_vtp();
-    write_polydata(filename, poly);
+    write_polydata(filename, poly, "auto", MPI_COMM_SELF);
   }
 }
 #else
diff --git a/include/ftk/filters/contour_tracker_2d_regular.hh b/include/ftk/filters/contour_tracker_2d_regular.hh
index a9a6c0c..964e544 100644
--- a/include/ftk/filters/contour_tracker_2d_regular.hh
+++ b/include/ftk/filters/contour_tracker_2d_regular.hh
@@ -266,7 +266,7 @@ inline void contour_tracker_2d_regular::write_isovolume_vtu(const std::string& f
     normalGenerator->AutoOrientNormalsOn();
     normalGenerator->Update();
 
-    write_polydata(filename, normalGenerator->GetOutput());
+    write_polydata(filename, normalGenerator->GetOutput(), "auto", MPI_COMM_SELF);
 #endif
 
 #if 0
@@ -279,7 +279,7 @@ inline void contour_tracker_2d_regular::write_isovolume_vtu(const std::string& f
     // normals->SetNormalOrientationToPoint();
     normals->Update();
     poly->GetPointData()->SetNormals( normals->GetOutput()->GetPointData()->GetArray(0) );
-    write_polydata(filename, poly);
+    write_polydata(filename, poly, "auto", MPI_COMM_SELF);
 #endif
   }
 }
diff --git a/include/ftk/filters/contour_tracker_3d_regular.hh b/include/ftk/filters/contour_tracker_3d_regular.hh
index 2103128..7074f82 100644
--- a/include/ftk/filters/contour_tracker_3d_regular.hh
+++ b/include/ftk/filters/contour_tracker_3d_regular.hh
@@ -479,7 +479,7 @@ inline void contour_tracker_3d_regular::write_sliced_vtu(const std::string& patt
       // normalGenerator->AutoOrientNormalsOn();
       normalGenerator->Update();
 
-      write_polydata(filename, normalGenerator->GetOutput());
+      write_polydata(filename, normalGenerator->GetOutput(), "auto", MPI_COMM_SELF);
     
 #if 0
       vtkSmartPointer<vtkPLYWriter> writer = vtkPLYWriter::New();
diff --git a/include/ftk/filters/critical_line_tracker.hh b/include/ftk/filters/critical_line_tracker.hh
index b47068f..caf222f 100644
--- a/include/ftk/filters/critical_line_tracker.hh
+++ b/include/ftk/filters/critical_line_tracker.hh
@@ -92,7 +92,7 @@ inline void critical_line_tracker::write_intersections(const std::string& filena
 {
 #if FTK_HAVE_VTK
   if (comm.rank() == get_root_proc())
-    write_polydata(filename, get_intersections_vtp());
+    write_polydata(filename, get_intersections_vtp(), "auto", MPI_COMM_SELF);
 #else
   fatal(FTK_ERR_NOT_BUILT_WITH_VTK);
 #endif
diff --git a/include/ftk/filters/critical_line_tracker_3d_regular.hh b/include/ftk/filters/critical_line_tracker_3d_regular.hh
index 326675c..84328cd 100644
--- a/include/ftk/filters/critical_line_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_line_tracker_3d_regular.hh
@@ -462,7 +462,7 @@ inline void critical_line_tracker_3d_regular::write_sliced(const std::string& pa
       auto poly = sliced.to_vtp(varnames()); // std::vector<std::string>());
       
       const auto filename = series_filename(pattern, i);
-      write_polydata(filename, poly);
+      write_polydata(filename, poly, "auto", MPI_COMM_SELF);
     }
   }
 #else
diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index d18733c..5fff99b 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -242,7 +242,7 @@ inline void critical_point_tracker::write_intercepted_critical_points_vtk(int t0
 {
   if (comm.rank() == get_root_proc()) {
     auto poly = get_intercepted_critical_points_vtk(t0, t1);
-    write_polydata(filename, poly);
+    write_polydata(filename, poly, "auto", MPI_COMM_SELF);
   }
 }
 
@@ -256,7 +256,7 @@ inline void critical_point_tracker::write_sliced_critical_points_vtk(int k, cons
 {
   if (comm.rank() == get_root_proc()) {
     auto poly = get_sliced_critical_points_vtk(k);
-    write_polydata(filename, poly);
+    write_polydata(filename, poly, "auto", MPI_COMM_SELF);
   }
 }
 
@@ -264,7 +264,7 @@ inline void critical_point_tracker::write_critical_points_vtk(const std::string&
 {
   if (comm.rank() == get_root_proc()) {
     auto poly = get_critical_points_vtk();
-    write_polydata(filename, poly);
+    write_polydata(filename, poly, "auto", MPI_COMM_SELF);
   }
 }
 
diff --git a/include/ftk/filters/particle_tracer.hh b/include/ftk/filters/particle_tracer.hh
index ae81529..e37c434 100644
--- a/include/ftk/filters/particle_tracer.hh
+++ b/include/ftk/filters/particle_tracer.hh
@@ -87,7 +87,7 @@ inline void particle_tracer::write_geo_trajectories(const std::string& filename)
 #if FTK_HAVE_VTK
   if (comm.rank() == 0) {
     auto poly = trajectories.to_geo().to_vtp( scalar_names() );
-    write_polydata(filename, poly);
+    write_polydata(filename, poly, "auto", MPI_COMM_SELF);
   }
 #endif
 }
@@ -97,7 +97,7 @@ inline void particle_tracer::write_trajectories(const std::string& filename)
 #if FTK_HAVE_VTK
   if (comm.rank() == 0) {
     auto poly = trajectories.to_vtp( scalar_names() );
-    write_polydata(filename, poly);
+    write_polydata(filename, poly, "auto", MPI_COMM_SELF);
   }
 #endif
 }
diff --git a/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh b/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
index 1da3fc9..db661f7 100644
--- a/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
+++ b/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
@@ -443,7 +443,7 @@ inline void tdgl_vortex_tracker_3d_regular::read_surfaces(const std::string& fil
 inline void tdgl_vortex_tracker_3d_regular::write_intersections(const std::string& filename) const
 {
   if (comm.rank() == get_root_proc())
-    write_polydata(filename, get_intersections_vtp());
+    write_polydata(filename, get_intersections_vtp(), "auto", MPI_COMM_SELF);
 }
 
 inline void tdgl_vortex_tracker_3d_regular::write_sliced(const std::string& pattern) const
@@ -456,7 +456,7 @@ inline void tdgl_vortex_tracker_3d_regular::write_sliced(const std::string& patt
       auto poly = sliced.to_vtp(std::vector<std::string>());
       
       const auto filename = series_filename(pattern, i);
-      write_polydata(filename, poly);
+      write_polydata(filename, poly, "auto", MPI_COMM_SELF);
     }
   }
 }
diff --git a/include/ftk/filters/xgc_blob_filament_tracker.hh b/include/ftk/filters/xgc_blob_filament_tracker.hh
index cab2056..000525b 100644
--- a/include/ftk/filters/xgc_blob_filament_tracker.hh
+++ b/include/ftk/filters/xgc_blob_filament_tracker.hh
@@ -856,7 +856,7 @@ inline void xgc_blob_filament_tracker::write_surfaces(const std::string& filenam
   if (ends_with_lower(filename, "vtp")) {
 #if FTK_HAVE_VTK
     fprintf(stderr, "writing surfaces...\n");
-    write_polydata(filename, transform_vtp_coordinates(surfaces.to_vtp()));
+    write_polydata(filename, transform_vtp_coordinates(surfaces.to_vtp()), "auto", MPI_COMM_SELF);
 #else
     fatal("FTK not compiled with VTK.");
 #endif
@@ -1069,7 +1069,7 @@ inline void xgc_blob_filament_tracker::write_sliced(const std::string& pattern,
         "dneOverne0", "psin", "theta", "offset", "Er"});
     
     const auto filename = series_filename(pattern, i);
-    write_polydata(filename, transform_vtp_coordinates(poly));
+    write_polydata(filename, transform_vtp_coordinates(poly), "auto", MPI_COMM_SELF);
     // write_polydata(filename, poly);
   }
 #else
@@ -1082,7 +1082,7 @@ inline void xgc_blob_filament_tracker::write_intersections(const std::string& fi
 #if FTK_HAVE_VTK
   if (comm.rank() == get_root_proc()) {
     auto poly = get_intersections_vtp();
-    write_polydata(filename, poly);
+    write_polydata(filename, poly, "auto", MPI_COMM_SELF);
   }
 #else
   fatal("FTK not compiled with VTK.");
-- 
2.43.0


From 6317240898e0cff8a57c5437df90629df5a7cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:31 +0000
Subject: [PATCH 30/33] fix: all2all places the data of each process after that
 of the previous ones

---
 include/ftk/utils/all2all.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/utils/all2all.hh b/include/ftk/utils/all2all.hh
index b765a60..22d91a9 100644
--- a/include/ftk/utils/all2all.hh
+++ b/include/ftk/utils/all2all.hh
@@ -37,8 +37,8 @@ inline void all2all(const communicator& comm, const std::vector<Map>& ins, Map &
 
   std::vector<int> recvcounts(np), rdispls(np);
   for (int i = 0; i < np; i ++) {
-    rdispls[i] = recvcounts[i];
     recvcounts[i] = allcounts[i*np+rank];
+    rdispls[i] = i == 0 ? 0 : rdispls[i-1] + recvcounts[i-1];
   }
 
   std::string recvbuf;
-- 
2.43.0


From 9e825c1093b852fc93e8d9d9c90af73c0a48c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:07 +0000
Subject: [PATCH 31/33] fix: subtracting a polynomial of higher degree returned
 the negated difference

---
 include/ftk/numeric/polynomial.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ftk/numeric/polynomial.hh b/include/ftk/numeric/polynomial.hh
index 3a0ec80..cbbeaf0 100644
--- a/include/ftk/numeric/polynomial.hh
+++ b/include/ftk/numeric/polynomial.hh
@@ -82,7 +82,9 @@ void polynomial_subtraction(const T P[], int m, const T Q[], int n, T R[])
       if (i <= n) R[i] = P[i] - Q[i];
       else R[i] = P[i];
   else 
-    polynomial_subtraction(Q, n, P, m, R);
+    for (int i = 0; i <= n; i ++)
+      if (i <= m) R[i] = P[i] - Q[i];
+      else R[i] = -Q[i];
 }
 
 template <typename T>
-- 
2.43.0


From 7c903101ba3a3f4829678aeacd51fdd9d216f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:07 +0000
Subject: [PATCH 32/33] fix: diagonal of the Hessian of a quadratic interpolant
 lacked the factor 2

---
 include/ftk/numeric/quadratic_interpolation.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/numeric/quadratic_interpolation.hh b/include/ftk/numeric/quadratic_interpolation.hh
index f7e7f9c..d44db84 100644
--- a/include/ftk/numeric/quadratic_interpolation.hh
+++ b/include/ftk/numeric/quadratic_interpolation.hh
@@ -116,8 +116,8 @@ bool quadratic_interpolation_gradient(const T Q[3][3], const T x[3][2], T grad[3
 
 template <typename T>
 bool quadratic_interpolation_hessian(const T Q[3][3], T H[2][2]){
-	H[0][0] = Q[0][0];
-	H[1][1] = Q[1][1];
+	H[0][0] = 2 * Q[0][0];
+	H[1][1] = 2 * Q[1][1];
 	H[0][1] = H[1][0] = Q[0][1] + Q[1][0];
 	return true;
 }
-- 
2.43.0


From b834a2468168e43da343aed016aa0274c29b1ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 33/33] fix: closed critical lines of a single timestep are
 marked as loops

---
 include/ftk/filters/critical_line_tracker_3d_regular.hh      | 1 +
 include/ftk/filters/critical_line_tracker_3d_unstructured.hh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ftk/filters/critical_line_tracker_3d_regular.hh b/include/ftk/filters/critical_line_tracker_3d_regular.hh
index 84328cd..89ebb6c 100644
--- a/include/ftk/filters/critical_line_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_line_tracker_3d_regular.hh
@@ -120,6 +120,7 @@ inline void critical_line_tracker_3d_regular::build_vortex_lines()
     auto linear_graphs = ftk::connected_component_to_linear_components<element_t>(component, neighbors);
     for (int j = 0; j < linear_graphs.size(); j ++) {
       feature_curve_t traj; 
+      traj.loop = is_loop<element_t>(linear_graphs[j], neighbors);
       for (int k = 0; k < linear_graphs[j].size(); k ++)
         traj.push_back(intersections[linear_graphs[j][k]]);
       traced_curves.add(traj);
diff --git a/include/ftk/filters/critical_line_tracker_3d_unstructured.hh b/include/ftk/filters/critical_line_tracker_3d_unstructured.hh
index 3bf14dd..8aa0366 100644
--- a/include/ftk/filters/critical_line_tracker_3d_unstructured.hh
+++ b/include/ftk/filters/critical_line_tracker_3d_unstructured.hh
@@ -248,6 +248,7 @@ inline void critical_line_tracker_3d_unstructured::build_vortex_lines()
     auto linear_graphs = ftk::connected_component_to_linear_components<int>(component, neighbors);
     for (int j = 0; j < linear_graphs.size(); j ++) {
       feature_curve_t traj; 
+      traj.loop = is_loop<int>(linear_graphs[j], neighbors);
       for (int k = 0; k < linear_graphs[j].size(); k ++)
         traj.push_back(intersections[linear_graphs[j][k]]);
       traced_curves.add(traj);
-- 
2.43.0

