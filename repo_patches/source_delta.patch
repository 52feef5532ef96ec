From 173c8ac43775d2dce43da5e3972a34493b2a0033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 01/40] fix: OpenMP k-means engines run the requested number of
 iterations

compute_kmeans and compute_min_kmeans stopped one iteration early, so asking
for a single iteration performed no assignment step at all.
---
 libauto/kmeans.cpp         | 2 +-
 libauto/min-tri-kmeans.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 576d270..d9e10aa 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -397,7 +397,7 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter++;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         if (iter == 1)
             std::fill(cluster_assignments,
                     (cluster_assignments)+NUM_ROWS,
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index ca7abe1..4a24898 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -511,7 +511,7 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter = 2;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         // Hold cluster assignment counter
 #ifndef BIND
         printf("E-step Iteration %lu "
-- 
2.43.0


From 998a7e7b116a6500e074dcc6e28b21bd86ce6a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 02/40] fix: pruned k-means measures the first drift from the
 initial centers

After the first assignment step the per-center drift used to tighten the
triangle-inequality bound was |new mean - 0| instead of |new mean - initial
center|, so rows could be skipped that had a closer center.
---
 libauto/min-tri-kmeans.cpp         | 7 +++----
 libman/kmeans_task_coordinator.cpp | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 4a24898..a82bb15 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -319,12 +319,11 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
 #endif
 #endif
 
-    if (prune_init) {
+    cls->set_prev_means(); // Drift is w.r.t. the centers used in this step
+    if (prune_init)
         cls->clear();
-    } else {
-        cls->set_prev_means();
+    else
         cls->unfinalize_all();
-    }
 
     // Serial aggreate of OMP_MAX_THREADS vectors
     // TODO: Pool these
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 4fdac38..3b5d6a7 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -129,13 +129,13 @@ void kmeans_task_coordinator::mb_iteration_end() {
 }
 
 void kmeans_task_coordinator::update_clusters(const bool prune_init) {
+    cltrs->set_prev_means(); // Drift is w.r.t. the centers used in this step
     if (prune_init) {
 #ifndef BIND
         printf("Clearing because of init ..\n");
 #endif
         cltrs->clear();
     } else {
-        cltrs->set_prev_means();
         cltrs->unfinalize_all();
     }
 
-- 
2.43.0


From 13320302305ac1e27d6c2eb0cdb59ad1838a1b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 03/40] fix: dense_matrix argmax handles rows and columns
 without a positive element

---
 libkcommon/dense_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/dense_matrix.hpp b/libkcommon/dense_matrix.hpp
index 7629f76..e905ac8 100644
--- a/libkcommon/dense_matrix.hpp
+++ b/libkcommon/dense_matrix.hpp
@@ -356,7 +356,7 @@ public:
         // axis = 1: row wise
         if (axis == 0) {
             idx.assign(nrow, 0);
-            vals.assign(nrow, std::numeric_limits<double>::min());
+            vals.assign(nrow, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
@@ -370,7 +370,7 @@ public:
         // axis = 0: col wise
         } else if (axis == 1) {
             idx.assign(ncol, 0);
-            vals.assign(ncol, std::numeric_limits<double>::min());
+            vals.assign(ncol, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
-- 
2.43.0


From affb8fd9224ba8f964a00d58fc6cdf515d40ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 04/40] fix: dense_matrix minus a vector accepts rectangular
 matrices

---
 libkcommon/dense_matrix.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/libkcommon/dense_matrix.hpp b/libkcommon/dense_matrix.hpp
index e905ac8..fb4d09e 100644
--- a/libkcommon/dense_matrix.hpp
+++ b/libkcommon/dense_matrix.hpp
@@ -124,8 +124,6 @@ public:
     }
 
     dense_matrix* operator-(std::vector<T>& v) {
-        assert(nrow == ncol);
-
         dense_matrix* ret = create(this);
         T* retp = ret->as_pointer();
 
-- 
2.43.0


From 0d73bfbe05b8c96103b6307850d2030426c21660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 05/40] fix: linalg::adjoint alternates the sign of the
 cofactors

---
 libkcommon/linalg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index e817b00..7a9b776 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -102,7 +102,6 @@ namespace knor { namespace base {
 
             // temp is used to store cofactors of A[][]
             std::vector<double> temp(N*N);
-            double sign = 1;
 
             for (size_t i=0; i<N; i++) {
                 for (size_t j=0; j<N; j++) {
@@ -111,6 +110,8 @@ namespace knor { namespace base {
 
                     // sign of adj[j][i] positive if sum of row
                     // and column indexes is even.
+                    double sign = ((i+j) % 2 == 0) ? 1 : -1;
+
                     // Interchanging rows and columns to get the
                     // transpose of the cofactor matrix
                     adj[j*N+i] = (sign)*(determinant(&temp[0], N-1, N));
-- 
2.43.0


From fc69fbfb3a0bcc8336657561ffd4ab6faea5dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 06/40] fix: linalg::scale sums doubles instead of truncating
 to int

---
 libkcommon/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 7a9b776..9c6345d 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -196,7 +196,7 @@ namespace knor { namespace base {
           */
         static void scale(double* v, const size_t sz) {
             // Compute mean
-            double sum = std::accumulate(v, v+sz, 0);
+            double sum = std::accumulate(v, v+sz, 0.0);
             double mean = sum / static_cast<double>(sz);
 
             // Compute std dev
-- 
2.43.0


From 6178c9de67d959c8156c7929cc404adb70aa45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 07/40] fix: linalg::pow writes into a given result vector

---
 libkcommon/linalg.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 9c6345d..f93a58c 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -230,6 +230,9 @@ namespace knor { namespace base {
             if (!res.size()) {
                 for (double el : v)
                     res.push_back(std::pow(el, exp));
+            } else {
+                for (size_t i = 0; i < v.size(); i++)
+                    res[i] = std::pow(v[i], exp);
             }
         }
     };
-- 
2.43.0


From e18500c95ac5cd2065e5fd1ba9369908e46934e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 08/40] fix: v_eq compares lengths before elements

---
 libkcommon/util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index e979b2b..bfe020a 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -57,7 +57,8 @@ T get_max_hnodes(const T v) {
 // Vector equal function
 template <typename T>
 bool v_eq(const T& lhs, const T& rhs) {
-    return std::equal(lhs.begin(), lhs.end(), rhs.begin());
+    return lhs.size() == rhs.size() &&
+        std::equal(lhs.begin(), lhs.end(), rhs.begin());
 }
 
 template <typename T>
-- 
2.43.0


From 86509fb57fca1578d926c522a07e57faa3c8bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 09/40] fix: eq_all compares the last element

---
 libkcommon/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index bfe020a..158a672 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -71,7 +71,7 @@ const bool v_eq_const(const std::vector<T>& v, const T var) {
 
 template <typename T>
 bool eq_all(const T* v1, const T* v2, const unsigned len) {
-    return (std::equal(&v1[0], &(v1[len-1]), &v2[0]));
+    return (std::equal(v1, v1+len, v2));
 }
 
 template <typename T>
-- 
2.43.0


From 0f00143c32c9c45a6054fad5f1d5fc67986ddfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 10/40] fix: spherical_projection scales every row by its own
 norm

---
 libkcommon/util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libkcommon/util.cpp b/libkcommon/util.cpp
index d0d26ed..20e2735 100644
--- a/libkcommon/util.cpp
+++ b/libkcommon/util.cpp
@@ -58,11 +58,12 @@ void spherical_projection(double* data, const size_t nrow,
 #pragma omp parallel for shared (data)
 #endif
     for (unsigned row = 0; row < nrow; row++) {
+        double* rp = &data[row*ncol];
         double norm2 = 0;
         for (unsigned col = 0; col < ncol; col++)
-            norm2 += (data[row]*data[row]);
+            norm2 += (rp[col]*rp[col]);
         for (unsigned col = 0; col < ncol; col++)
-            data[col] = data[col]/std::sqrt(norm2);
+            rp[col] = rp[col]/std::sqrt(norm2);
     }
 }
 
-- 
2.43.0


From 804065851e9b8d87fe0fbed1b33bdccf618fe870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 11/40] fix: assigning clusters copies which means are already
 divided

---
 libkcommon/clusters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libkcommon/clusters.cpp b/libkcommon/clusters.cpp
index 5514135..1eeab61 100644
--- a/libkcommon/clusters.cpp
+++ b/libkcommon/clusters.cpp
@@ -95,6 +95,7 @@ void clusters::set_num_members_v(const size_t* arg) {
 clusters& clusters::operator=(clusters& other) {
     this->means = other.get_means();
     this->num_members_v = other.get_num_members_v();
+    this->complete_v = other.get_complete_v();
     this->ncol = other.get_ncol();
     this->nclust = other.get_nclust();
     return *this;
-- 
2.43.0


From 35d9626c839a0dbefd9a55ca146fea8f2134258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 12/40] fix: clusters::set_mean from an iterator sets every
 column

---
 libkcommon/clusters.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/clusters.hpp b/libkcommon/clusters.hpp
index cc2abc3..f7f5d53 100644
--- a/libkcommon/clusters.hpp
+++ b/libkcommon/clusters.hpp
@@ -190,7 +190,7 @@ public:
         unsigned nid = 0;
         while(it.has_next()) {
             double e = it.next();
-            means[offset+nid] = e;
+            means[offset+nid++] = e;
         }
     }
 
-- 
2.43.0


From 2fc533e774185f7fa1e8d4f141907280569412e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 13/40] fix: vmap::has_key on a map of capacity zero

---
 libkcommon/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/types.hpp b/libkcommon/types.hpp
index ccb3ce7..11309c5 100644
--- a/libkcommon/types.hpp
+++ b/libkcommon/types.hpp
@@ -145,7 +145,7 @@ class vmap {
         const bool empty() const { return !static_cast<bool>(size()); }
 
         const bool has_key(const size_t idx) const {
-            if (idx > size()-1)
+            if (idx >= size())
                 return false;
             return (emptyval != data[idx]);
         }
-- 
2.43.0


From da4fb8bc231c1538deffc84d824ea5296f7b6399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 14/40] fix: vmap grows with empty entries

---
 libkcommon/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/types.hpp b/libkcommon/types.hpp
index 11309c5..259575c 100644
--- a/libkcommon/types.hpp
+++ b/libkcommon/types.hpp
@@ -118,7 +118,7 @@ class vmap {
 
         T& operator[] (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return data[idx];
         }
 
@@ -130,7 +130,7 @@ class vmap {
 
         T& at (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return (*this)[idx];
         }
 
-- 
2.43.0


From 5c1f7c538ca380794cc1eee0423398b5742c3689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 15/40] fix: vmap::erase ignores keys beyond the capacity

---
 libkcommon/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/types.hpp b/libkcommon/types.hpp
index 259575c..02263c2 100644
--- a/libkcommon/types.hpp
+++ b/libkcommon/types.hpp
@@ -114,7 +114,7 @@ class vmap {
         }
 
         const size_t size() const { return data.size(); }
-        void erase(size_t idx) { data[idx] = emptyval; }
+        void erase(size_t idx) { if (idx < size()) data[idx] = emptyval; }
 
         T& operator[] (const size_t idx) {
             if (idx >= size())
-- 
2.43.0


From b04966f648547de1a52b93f4c709315577bb6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 16/40] fix: thd_safe_bool_vector::check_set grows for the
 index one past the end

---
 libkcommon/thd_safe_bool_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/thd_safe_bool_vector.cpp b/libkcommon/thd_safe_bool_vector.cpp
index bcce2b7..5d11d9e 100644
--- a/libkcommon/thd_safe_bool_vector.cpp
+++ b/libkcommon/thd_safe_bool_vector.cpp
@@ -52,7 +52,7 @@ void thd_safe_bool_vector::set(const size_t idx, const bool val) {
 }
 
 void thd_safe_bool_vector::check_set(const size_t idx, const bool val) {
-    if (idx > size())
+    if (idx >= size())
         resize(idx+1);
 
     if (val) {
-- 
2.43.0


From af6ee488bd1400a7fddd904f45ed9257d3d6c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 17/40] fix: pairwise distance table supports the squared
 Euclidean metric

---
 libkcommon/dist_matrix.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libkcommon/dist_matrix.cpp b/libkcommon/dist_matrix.cpp
index 6d3ab48..a7c4730 100644
--- a/libkcommon/dist_matrix.cpp
+++ b/libkcommon/dist_matrix.cpp
@@ -150,6 +150,13 @@ void dist_matrix::compute_pairwise_dist(double* data,
                         set(i,j, dist);
                         break;
                     }
+                case (knor::base::dist_t::SQEUCL):
+                    {
+                        double dist = knor::base::sqeucl_dist(&(data[i*ncol]),
+                                &(data[j*ncol]), ncol);
+                        set(i,j, dist);
+                        break;
+                    }
                 default:
                     throw knor::base::parameter_exception(
                             "Unknown distance metric");
-- 
2.43.0


From 50f4baff22ea56ce32db98292c77fec25de996f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 18/40] fix: gmm_t keeps the responsibilities of every row and
 component

---
 libkcommon/types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/types.cpp b/libkcommon/types.cpp
index ad2e52e..b66ee2d 100644
--- a/libkcommon/types.cpp
+++ b/libkcommon/types.cpp
@@ -189,8 +189,8 @@ gmm_t::gmm_t(const size_t nrow, const size_t ncol, const size_t iters,
             cov_mats.push_back(v);
         }
 
-        resp_mat.resize(nrow);
-        std::copy(&(_resp_mat[0]), &(_resp_mat[nrow]), resp_mat.begin());
+        resp_mat.resize(nrow*k);
+        std::copy(&(_resp_mat[0]), &(_resp_mat[nrow*k]), resp_mat.begin());
 
         gaussian_prob.resize(k);
         std::copy(&(_gaussian_prob[0]), &(_gaussian_prob[k]),
-- 
2.43.0


From 16dca14b02d5ffac850014a3368025f1fdebd0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 19/40] hook: the task size can be set at compile time
 (MIN_TASK_ROWS)

---
 libman/task_queue.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index e471c68..13189df 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -26,7 +26,9 @@
 
 namespace kbase = knor::base;
 
+#ifndef MIN_TASK_ROWS
 #define MIN_TASK_ROWS 8192
+#endif
 //#define MIN_TASK_ROWS 2 // TODO: Change
 namespace knor {
 template <typename T>
-- 
2.43.0


From 1ef63bfbc00540e1310ad5fe0953c2f9259d451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 20/40] fix: a task queue without rows has no task

---
 libman/task_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index 13189df..f893f6a 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -96,7 +96,7 @@ class task : public data_container<double> {
 template<typename T>
     class task_queue_interface {
         protected:
-            bool _has_task;
+            bool _has_task = false;
 
         public:
             virtual task* get_task() = 0;
-- 
2.43.0


From ad54d4d63fdc2fed020772bdbccc6e2877f05f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 21/40] fix: task data offset does not wrap at 2^32 elements

---
 libman/task_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index f893f6a..c834481 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -138,7 +138,7 @@ class task_queue: public data_container<double>, task_queue_interface<double> {
 
             // TODO: Make better for when there are only
             //  a few left rows if we give away a task
-            task* t = new task(&(get_data_ptr()[curr_rid*ncol]),
+            task* t = new task(&(get_data_ptr()[static_cast<size_t>(curr_rid)*ncol]),
                 get_start_rid()+curr_rid);
             if ((curr_rid + MIN_TASK_ROWS) < (get_nrow()-1)) {
                 t->set_nrow(MIN_TASK_ROWS);
-- 
2.43.0


From fd6031ad8e9238ac155241b79b6cacc808353109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 22/40] fix: k-means++ draws in proportion to distance instead
 of dividing by RAND_MAX

---
 libauto/kmeans.cpp                 | 2 +-
 libauto/min-tri-kmeans.cpp         | 2 +-
 libdist/dist_coordinator.cpp       | 2 +-
 libdist/dist_task_coordinator.cpp  | 2 +-
 libman/gmm_coordinator.cpp         | 2 +-
 libman/kmeans_coordinator.cpp      | 2 +-
 libman/kmeans_task_coordinator.cpp | 2 +-
 libman/skmeans_coordinator.cpp     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index d9e10aa..812d134 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -159,7 +159,7 @@ static void kmeanspp_init(const double* matrix, kbase::clusters::ptr clusters,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index a82bb15..c1b01f2 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -178,7 +178,7 @@ static void kmeanspp_init(const double* matrix,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index 810399b..a65ad7b 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -175,7 +175,7 @@ void dist_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index 8876560..66c2771 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -158,7 +158,7 @@ void dist_task_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index d4662e4..def386f 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -128,7 +128,7 @@ void gmm_coordinator::kmeanspp_init() {
 // Sum the per thread cumulative dists
         double cuml_dist = reduction_on_cuml_sum();
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more  needed
             break;
 
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 6598064..b914a8d 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -116,7 +116,7 @@ void kmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 3b5d6a7..eb56034 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -209,7 +209,7 @@ void kmeans_task_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 55e869f..48beb6f 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -151,7 +151,7 @@ void skmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
-- 
2.43.0


From 549471e2a4640c185bb4cd75030679b476ba69c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 23/40] fix: skmeans finds the maximum of negative features

---
 libman/skmeans.cpp             | 2 +-
 libman/skmeans_coordinator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index b87ed79..e782891 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -34,7 +34,7 @@ namespace knor {
                 cluster_assignments, fn, dist_metric) {
 
             min_feature_val.assign(ncol, std::numeric_limits<double>::max());
-            max_feature_val.assign(ncol, std::numeric_limits<double>::min());
+            max_feature_val.assign(ncol, std::numeric_limits<double>::lowest());
         }
 
     // Min & Max of all features
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 48beb6f..43b05ab 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -64,7 +64,7 @@ void skmeans_coordinator::build_thread_state() {
 }
 
 void skmeans_coordinator::bounds_reduction() {
-    g_feature_max.assign(ncol, std::numeric_limits<double>::min());
+    g_feature_max.assign(ncol, std::numeric_limits<double>::lowest());
     g_feature_min.assign(ncol, std::numeric_limits<double>::max());
 
     for (auto const& th : threads) {
-- 
2.43.0


From 2c9eb6842237b98f7edabf9196901de37f4dcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 24/40] fix: skmeans normalises constant features to zero
 instead of NaN

---
 libman/skmeans.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index e782891..4d4bb24 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -54,9 +54,9 @@ namespace knor {
        // NOTE: Only use AFTER feature_bounds_reduction AND coordinator reduce
         for (unsigned row = 0; row < nprocrows; row++) {
             for (unsigned col = 0; col < ncol; col++) {
-                local_data[row*ncol+col] =
-                    (local_data[row*ncol+col] - min_feature_val[col])/
-                    (max_feature_val[col] - min_feature_val[col]);
+                double range = max_feature_val[col] - min_feature_val[col];
+                local_data[row*ncol+col] = range == 0 ? 0 :
+                    (local_data[row*ncol+col] - min_feature_val[col])/range;
             }
         }
     }
-- 
2.43.0


From 0c220530e116206932ea0d83a3e90039d3a9e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 25/40] fix: cosine distance to a zero vector is not NaN

---
 libkcommon/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index 158a672..1444f92 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -125,6 +125,8 @@ const double cos_dist(const T* lhs, const T* rhs,
         ldenom += a*a;
         rdenom += b*b;
     }
+    if (ldenom == 0 || rdenom == 0) // A zero vector has no direction
+        return ldenom == rdenom ? 0 : 1;
     return  1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom))));
 }
 
-- 
2.43.0


From 32ec27639d264526ec37bf4821955255dbda4d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:32 +0000
Subject: [PATCH 26/40] fix: the last worker of a round cannot signal the
 coordinator before it waits

A worker counted itself out and signalled without the mutex under which the
coordinator tests the count, so the wake up could fall between the test and
the wait and the run never finished.
---
 libman/fcm_coordinator.cpp         |  2 +-
 libman/gmeans_coordinator.cpp      |  2 +-
 libman/gmm_coordinator.cpp         |  2 +-
 libman/hclust_coordinator.cpp      |  2 +-
 libman/kmeans_coordinator.cpp      |  2 +-
 libman/kmeans_task_coordinator.cpp |  2 +-
 libman/medoid_coordinator.cpp      |  2 +-
 libman/skmeans_coordinator.cpp     |  2 +-
 libman/task_thread.cpp             | 16 ++--------------
 libman/task_thread.hpp             |  3 ++-
 libman/thread.cpp                  | 24 +++++++++++++++++-------
 libman/thread.hpp                  |  8 +++++++-
 libman/xmeans_coordinator.cpp      |  2 +-
 13 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index f70859c..8f8068c 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -64,7 +64,7 @@ void fcm_coordinator::build_thread_state() {
                 fcm::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, k, fuzzindex, um, centers, fn, _dist_t));
-        threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_cond(&cond, &mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 1cfc747..9196319 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -66,7 +66,7 @@ void gmeans_coordinator::build_thread_state() {
                     ncol, k, hcltrs, &cluster_assignments[0], fn,
                     _dist_t, cltr_active_vec, partition_dist, nearest_cdist,
                     compute_pdist));
-        threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_cond(&cond, &mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<gmeans>(threads[thd_id])
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index def386f..d9c8d96 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -70,7 +70,7 @@ void gmm_coordinator::build_thread_state() {
         thd_max_row_idx.push_back((thd_id*thds_row) + tup.second);
         threads.push_back(gmm::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second, ncol, fn, _dist_t));
-        threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_cond(&cond, &mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<gmm>(threads[thd_id])->set_alg_metadata(
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index f84921d..0538fe9 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -73,7 +73,7 @@ void hclust_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, k, hcltrs, &cluster_assignments[0], fn, _dist_t,
                     cltr_active_vec));
-        threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_cond(&cond, &mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<hclust>(threads[thd_id])
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index b914a8d..57a64a4 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -57,7 +57,7 @@ void kmeans_coordinator::build_thread_state() {
         threads.push_back(kmeans_thread::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
-        threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_cond(&cond, &mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index eb56034..695ceb6 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -71,7 +71,7 @@ void kmeans_task_coordinator::build_thread_state() {
         threads.push_back(prune::kmeans_task_thread::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
-        threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_cond(&cond, &mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<task_thread>(threads[thd_id])
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 710dca7..f4193d3 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -80,7 +80,7 @@ void medoid_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0],
                     fn, sample_rate));
-        threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_cond(&cond, &mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<medoid>(threads[thd_id])->set_coordinator(this);
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 43b05ab..0481ce0 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -57,7 +57,7 @@ void skmeans_coordinator::build_thread_state() {
         threads.push_back(skmeans::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
-        threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_cond(&cond, &mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index 410455e..d213d7a 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -99,26 +99,14 @@ void task_thread::lock_sleep() {
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
-    (*parent_pending_threads)--;
-    set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    notify_parent();
     rc = pthread_mutex_unlock(&mutex);
     if (rc) perror("pthread_mutex_unlock");
 }
 
 // Assumes caller has lock already ... or else ...
 void task_thread::sleep() {
-    (*parent_pending_threads)--;
-    set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        int rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    notify_parent();
 }
 
 void task_thread::wait() {
diff --git a/libman/task_thread.hpp b/libman/task_thread.hpp
index 1185733..5268842 100644
--- a/libman/task_thread.hpp
+++ b/libman/task_thread.hpp
@@ -96,8 +96,9 @@ public:
 
     double* get_dist_v_ptr() { return &dist_v[0]; }
 
-    void set_parent_cond(pthread_cond_t* cond) {
+    void set_parent_cond(pthread_cond_t* cond, pthread_mutex_t* mutex=NULL) {
         parent_cond = cond;
+        parent_mutex = mutex;
     }
 
     void set_parent_pending_threads(std::atomic<unsigned>* ppt) {
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 9e2d844..54aa495 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -31,18 +31,28 @@
 
 namespace knor {
 
+// The parent tests the pending count and begins to wait under its own mutex,
+// so the last decrement & signal must hold that mutex or the wake up can be lost
+void thread::notify_parent() {
+    if (parent_mutex)
+        pthread_mutex_lock(parent_mutex);
+
+    set_thread_state(WAIT);
+    if (--(*parent_pending_threads) == 0) {
+        int rc = pthread_cond_signal(parent_cond); // Wake up parent thread
+        if (rc) perror("pthread_cond_signal");
+    }
+
+    if (parent_mutex)
+        pthread_mutex_unlock(parent_mutex);
+}
+
 void thread::sleep() {
     int rc;
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
-    (*parent_pending_threads)--;
-    set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    notify_parent();
     pthread_mutex_unlock(&mutex);
 }
 
diff --git a/libman/thread.hpp b/libman/thread.hpp
index c4e5892..ba0bdcc 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -101,6 +101,7 @@ protected:
     pthread_mutexattr_t mutex_attr;
 
     pthread_cond_t* parent_cond;
+    pthread_mutex_t* parent_mutex; // Guards the parent's wait on parent_cond
     std::atomic<unsigned>* parent_pending_threads;
 
     metaunion meta;
@@ -121,6 +122,7 @@ protected:
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
         start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
+        parent_cond(NULL), parent_mutex(NULL), parent_pending_threads(NULL),
         preallocd_data(false) {
 
         this->cluster_assignments = cluster_assignments;
@@ -146,6 +148,9 @@ protected:
         this->state = state;
     }
 
+    // Tell the parent that this thread is done. Caller holds `mutex`
+    void notify_parent();
+
 public:
     typedef std::shared_ptr<thread> ptr;
 
@@ -229,8 +234,9 @@ public:
         return node_id;
     }
 
-    void set_parent_cond(pthread_cond_t* cond) {
+    void set_parent_cond(pthread_cond_t* cond, pthread_mutex_t* mutex=NULL) {
         parent_cond = cond;
+        parent_mutex = mutex;
     }
 
     void set_parent_pending_threads(std::atomic<unsigned>* ppt) {
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 19367fc..b3fc46e 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -62,7 +62,7 @@ void xmeans_coordinator::build_thread_state() {
                     ncol, k, hcltrs, &cluster_assignments[0], fn,
                     _dist_t, cltr_active_vec, partition_dist, nearest_cdist,
                     compute_pdist));
-        threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_cond(&cond, &mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<xmeans>(threads[thd_id])
-- 
2.43.0


From 67cb8b78e496772eb7b41ec61b0ae06284d8667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:32 +0000
Subject: [PATCH 27/40] fix: a worker sees a new state only after wake() is
 through

The worker loop read the state without the lock and could start a round
before wake() had set its task and cleared its local clusters.
---
 libman/thread.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libman/thread.hpp b/libman/thread.hpp
index ba0bdcc..dd368f6 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -66,8 +66,8 @@ void* callback(void* arg) {
 #endif
 
     while (true) { // So we can receive task after task
-        if (t->get_state() == knor::WAIT)
-            t->wait();
+        // Takes the lock: a new state is only seen with all that comes with it
+        t->wait();
 
         if (t->get_state() == knor::EXIT) {// No more work to do
             break;
-- 
2.43.0


From 397e55a95eb89a37ce30ba0c8c2d95d94d30691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:32 +0000
Subject: [PATCH 28/40] fix: a coordinator joins its threads before it destroys
 what they use

The mutexes and condition variables were destroyed while workers could still
be waiting on them or signalling, and a worker's derived part was destroyed
under the running thread.
---
 libman/coordinator.cpp | 5 ++++-
 libman/thread.cpp      | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index d7cfab5..98ab420 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -87,6 +87,8 @@ void coordinator::wake4run(const thread_state_t state) {
 
 void coordinator::destroy_threads() {
     wake4run(EXIT);
+    for (thread_iter it = threads.begin(); it != threads.end(); ++it)
+        (*it)->join(); // No thread may outlive what it uses
 }
 
 // <Thread, within-thread-row-id>
@@ -160,6 +162,8 @@ void coordinator::run_init() {
 }
 
 coordinator::~coordinator() {
+    destroy_threads();
+
     thread_iter it = threads.begin();
     for (; it != threads.end(); ++it)
         (*it)->destroy_numa_mem();
@@ -167,7 +171,6 @@ coordinator::~coordinator() {
     pthread_cond_destroy(&cond);
     pthread_mutex_destroy(&mutex);
     pthread_mutexattr_destroy(&mutex_attr);
-    destroy_threads();
 }
 
 } // End namespace knor
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 54aa495..e8d0053 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -95,6 +95,9 @@ void thread::destroy_numa_mem() {
 }
 
 void thread::join() {
+    if (thd_id == INVALID_THD_ID)
+        return; // Already joined
+
     void* join_status;
     int rc = pthread_join(hw_thd, &join_status);
     if (rc)
@@ -164,6 +167,8 @@ const unsigned thread::get_global_data_id(
 }
 
 thread::~thread() {
+    join(); // The thread may still use what goes next
+
     pthread_cond_destroy(&cond);
     pthread_mutex_destroy(&mutex);
     pthread_mutexattr_destroy(&mutex_attr);
@@ -175,7 +180,5 @@ thread::~thread() {
     printf("Thread %u being destroyed\n", thd_id);
 #endif
 #endif
-    if (thd_id != INVALID_THD_ID)
-        join();
 }
 } // End namespace knor
-- 
2.43.0


From 4eab2fc8cca99edf599a0aba8b7391233aea3371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 29/40] fix: fcm gives a row that lies on a center to that
 center

Estep gave a row at distance 0 a membership of 2.2E-16 in the center it lies
on, so the row belonged to every other center instead.
---
 libman/fcm.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index f8acfb4..6757ad7 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -45,13 +45,11 @@ void fcm::Estep() {
         for (unsigned cid = 0; cid < nclust; cid++) {
             double dist = base::dist_comp_raw<double>(&local_data[row*ncol],
                     &(centers->as_pointer()[cid*ncol]), ncol, dist_metric);
-            if (dist > 0) {
-                //TODO: Fix bad access pattern. um -> col major
-                um->set(cid, true_rid,
-                        std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
-            } else {
-                um->set(cid, true_rid, 2.2E-16);
-            }
+            // A row that lies on a center is as close to it as can be
+            dist = std::max(dist, 2.2E-16);
+            //TODO: Fix bad access pattern. um -> col major
+            um->set(cid, true_rid,
+                    std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
         }
     }
 }
-- 
2.43.0


From bfcf434297e1655981847c1eba4ef3856964972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 30/40] fix: hierarchical clustering reports a center for each
 non-empty cluster only

---
 libman/hclust_coordinator.cpp | 22 ++++++++++------------
 libman/hclust_coordinator.hpp |  1 +
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 0538fe9..f303dea 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -212,9 +212,7 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
                 || at_cluster_cap()) {
             deactivate(zeroid); // So we no longer process this
             // Record this as an output
-            final_centroids[zeroid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(0),
-                    hcltrs[id]->get_mean_rawptr(0) + ncol);
+            record_final(zeroid, hcltrs[id]->get_mean_rawptr(0));
             // Don't split
             l0_complete = l1_complete = true;
         }
@@ -222,9 +220,7 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         if (cluster_assignment_counts[oneid] < min_clust_size
                 || at_cluster_cap()) {
             deactivate(oneid);
-            final_centroids[oneid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(1),
-                    hcltrs[id]->get_mean_rawptr(1) + ncol);
+            record_final(oneid, hcltrs[id]->get_mean_rawptr(1));
             // Don't split
             r0_complete = r1_complete = true;
         }
@@ -406,17 +402,19 @@ void hclust_coordinator::verify_consistency() {
                 cluster_assignment_counts.end(), 0) == nrow);
 }
 
+// Only a cluster that has members is part of the result
+void hclust_coordinator::record_final(const unsigned id, const double* mean) {
+    if (cluster_assignment_counts[id] > 0)
+        final_centroids[id] = std::vector<double>(mean, mean + ncol);
+}
+
 void hclust_coordinator::complete_final_centroids() {
     // Finally update the final centroids with the values in hcltrs
     auto itr = hcltrs.get_iterator();
     while (itr.has_next()) {
         auto const& c = itr.next().second;
-        final_centroids[c->get_zeroid()] =
-            std::vector<double>(c->get_mean_rawptr(0),
-                    c->get_mean_rawptr(0) + ncol);
-        final_centroids[c->get_oneid()] =
-            std::vector<double>(c->get_mean_rawptr(1),
-                    c->get_mean_rawptr(1) + ncol);
+        record_final(c->get_zeroid(), c->get_mean_rawptr(0));
+        record_final(c->get_oneid(), c->get_mean_rawptr(1));
     }
 }
 
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 2af46fe..f2bdb00 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -143,6 +143,7 @@ class hclust_coordinator : public coordinator {
         virtual const bool steady_state() const;
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
+        void record_final(const unsigned id, const double* mean);
         virtual bool at_cluster_cap() { return curr_nclust > k*2; }
         void verify_consistency();
 };
-- 
2.43.0


From 86c2175cb3f94fbc720e2a8485906f06972d5d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 31/40] fix: a hierarchical cluster of one row is final
 whatever the size limit

---
 libman/hclust_coordinator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index f303dea..a34886e 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -37,7 +37,8 @@ hclust_coordinator::hclust_coordinator(const std::string fn, const size_t nrow,
         const unsigned min_clust_size) :
     coordinator(fn, nrow, ncol, (base::get_hclust_floor(k)/2), max_iters,
             nnodes, nthreads, centers, it, tolerance, dt),
-    min_clust_size(min_clust_size), curr_nclust(0) {
+    min_clust_size(std::max(min_clust_size, 2u)), // A split needs 2 rows
+    curr_nclust(0) {
 
         ui_distribution = std::uniform_int_distribution<unsigned>(0, nrow-1);
 
-- 
2.43.0


From 57cf3968e656ad13eed82abed6978b1cfeaa24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 32/40] fix: linalg::scale centers a constant vector instead of
 aborting

---
 libkcommon/linalg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index f93a58c..b15c9b0 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -207,7 +207,8 @@ namespace knor { namespace base {
             }
             stddev = std::sqrt(stddev / static_cast<double>(sz));
 
-            assert(stddev);
+            if (stddev == 0) // A constant is only centered
+                stddev = 1;
             // Subtract the mean, then divide by the stddev
             for (size_t i = 0; i < sz; i++) {
                 v[i] = ((v[i] - mean) / stddev);
-- 
2.43.0


From 718220a4f5deec0ac9c5b2dd5eca319d50097a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 33/40] fix: g-means compares a partition with the critical
 value for its size

---
 libman/gmeans_coordinator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 9196319..18c4d00 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -109,7 +109,6 @@ void gmeans_coordinator::partition_decision() {
     // Each Anderson Darling (AD) vector represents the vector for which
     //  each cluster gets its AD statistic.
     std::unordered_map<unsigned, std::vector<double>> ad_vecs;
-    std::vector<double> critical_values;
 
     // Populate the AD vectors
     assemble_ad_vecs(ad_vecs);
@@ -118,10 +117,6 @@ void gmeans_coordinator::partition_decision() {
         base::linalg::scale(&(kv.second)[0], kv.second.size());
     }
 
-    // Compute Critical values
-    base::AndersonDarling::compute_critical_values(
-            ad_vecs.size(), critical_values);
-
     // Compute AD statistics
     compute_ad_stats(ad_vecs);
 
@@ -137,6 +132,11 @@ void gmeans_coordinator::partition_decision() {
         unsigned pid = keys[i];
         auto score = ad_vecs[pid].back();
 
+        // Critical values depend on the size of the sample
+        std::vector<double> critical_values;
+        base::AndersonDarling::compute_critical_values(
+                ad_vecs[pid].size() - 1, critical_values);
+
         if (score <= critical_values[strictness]) {
             unsigned lid = hcltrs[pid]->get_zeroid();
             unsigned rid = hcltrs[pid]->get_oneid();
-- 
2.43.0


From 8087015c8fc3c2b9ae54ba6e7beac4b1f6f14c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 34/40] fix: g-means does not split a partition without
 variance

---
 libman/gmeans_coordinator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 18c4d00..9909214 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -137,7 +137,8 @@ void gmeans_coordinator::partition_decision() {
         base::AndersonDarling::compute_critical_values(
                 ad_vecs[pid].size() - 1, critical_values);
 
-        if (score <= critical_values[strictness]) {
+        // NOTE: A sample without variance has no statistic (NaN)
+        if (!(score > critical_values[strictness])) {
             unsigned lid = hcltrs[pid]->get_zeroid();
             unsigned rid = hcltrs[pid]->get_oneid();
 
-- 
2.43.0


From 0be509363e0938d552c5959d2e48ac24fe2ae720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 35/40] fix: x-means partition means do not keep rows of
 earlier rounds

---
 libman/xmeans_coordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index b3fc46e..7424fa1 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -73,7 +73,7 @@ void xmeans_coordinator::build_thread_state() {
 }
 
 void xmeans_coordinator::combine_partition_means() {
-    cltrs->unfinalize_all();
+    cltrs->clear(); // Ids are recycled
 
     for (auto const& th : threads) {
         auto thd_lcltrs = th->get_local_clusters();
-- 
2.43.0


From 474187f43e8121dda77844d169fcda065b8d4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 36/40] fix: x-means scores the children with their own sizes,
 whatever the unit of the data

---
 libman/xmeans_coordinator.cpp | 38 ++++++++++++++++-------------------
 libman/xmeans_coordinator.hpp |  2 ++
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 7424fa1..faf55f2 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -114,35 +114,31 @@ void xmeans_coordinator::bic(split_score_t& score,
     // Parent
     if (N - pK > 0) {
         psigma /= (double) (N - pK);
-        double p = (pK - 1) + ncol * pK + 1;
-
-        /* splitting criterion */
-        double L = N * std::log(N) - N * std::log(N) - N *
-            std::log(2.0 * M_PI) * .5 - N * ncol *
-            std::log(psigma) * .5 - (N - pK) * .5;
-
-        score.pscore = L - p * 0.5 * std::log(N);
+        score.pscore = cluster_score(N, N, pK, psigma);
     }
 
     // Children
     if (N - cK > 0) {
         csigma /= (double) (N - cK);
-        double p = (cK - 1) + ncol * cK + 1;
+        score.cscore =
+            cluster_score(cluster_assignment_counts[score.lid], N, cK, csigma) +
+            cluster_score(cluster_assignment_counts[score.rid], N, cK, csigma);
+    }
+}
 
-        /* splitting criterion */
-        double nl = cluster_assignment_counts[score.lid];
-        double L = N * std::log(N) - nl * std::log(N) - N *
-            std::log(2.0 * M_PI) * .5 - N * ncol *
-            std::log(csigma) * .5 - (N - cK) * .5;
+/**
+  \brief The criterion for one of `K` clusters that has `n` of the `N` rows
+  */
+double xmeans_coordinator::cluster_score(const double n, const double N,
+        const double K, const double sigma) const {
+    double p = (K - 1) + ncol * K + 1;
 
-        score.cscore = L - p * 0.5 * std::log(N);
+    /* splitting criterion */
+    double L = (n > 0 ? n * std::log(n) : 0) - n * std::log(N) - n *
+        std::log(2.0 * M_PI) * .5 - (n > 0 ? n * ncol *
+        std::log(sigma) * .5 : 0) - (n - K) * .5;
 
-        double nr = cluster_assignment_counts[score.rid];
-        L = N * std::log(N) - nr * std::log(N) - N *
-            std::log(2.0 * M_PI) * .5- N * ncol *
-            std::log(csigma) * .5 - (N - cK) * .5;
-        score.cscore += L - p * .5 * std::log(N);
-    }
+    return L - p * 0.5 * std::log(N);
 }
 
 void xmeans_coordinator::compute_bic_scores(
diff --git a/libman/xmeans_coordinator.hpp b/libman/xmeans_coordinator.hpp
index 58cfc69..d603311 100644
--- a/libman/xmeans_coordinator.hpp
+++ b/libman/xmeans_coordinator.hpp
@@ -102,6 +102,8 @@ class xmeans_coordinator : public hclust_coordinator {
         virtual void partition_decision();
         void bic(split_score_t& score,
                 std::unordered_map<unsigned, std::vector<unsigned>>& memb_cltrs);
+        double cluster_score(const double n, const double N,
+                const double K, const double sigma) const;
 
         void compute_bic_scores(
                 std::vector<split_score_t>& bic_scores,
-- 
2.43.0


From 96a4c8adbee152c72e8ff153b2abcc43955f79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 37/40] fix: x-means children without a score do not beat the
 parent

---
 libman/xmeans_coordinator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libman/xmeans_coordinator.hpp b/libman/xmeans_coordinator.hpp
index d603311..18289f6 100644
--- a/libman/xmeans_coordinator.hpp
+++ b/libman/xmeans_coordinator.hpp
@@ -37,13 +37,13 @@ struct split_score_t {
 
     split_score_t(const unsigned pid, const unsigned lid, const unsigned rid) :
         pid(pid), lid(lid), rid(rid),
-        pscore(std::numeric_limits<double>::min()),
-        cscore(std::numeric_limits<double>::min()) {
+        pscore(std::numeric_limits<double>::lowest()),
+        cscore(std::numeric_limits<double>::lowest()) {
         }
 
     split_score_t() :
-        pscore(std::numeric_limits<double>::min()),
-        cscore(std::numeric_limits<double>::min()) {
+        pscore(std::numeric_limits<double>::lowest()),
+        cscore(std::numeric_limits<double>::lowest()) {
         }
 };
 
-- 
2.43.0


From 88677b2f7efeeef4339a52978ddc2a14ef911d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 38/40] fix: k-medoids uses the requested dissimilarity metric

---
 libman/medoid.cpp             | 6 ++++--
 libman/medoid.hpp             | 8 +++++---
 libman/medoid_coordinator.cpp | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index 7d6e34f..13480a3 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -32,8 +32,10 @@ medoid::medoid(const int node_id, const unsigned thd_id,
         const unsigned start_rid,
         const unsigned nprocrows, const unsigned ncol,
         kbase::clusters::ptr g_clusters, unsigned* cluster_assignments,
-        const std::string fn, const double sample_rate):
-            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn),
+        const std::string fn, const double sample_rate,
+        kbase::dist_t dist_metric):
+            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn,
+                    dist_metric),
             g_clusters(g_clusters), nprocrows(nprocrows),
             sample_rate(sample_rate) {
 
diff --git a/libman/medoid.hpp b/libman/medoid.hpp
index f1a66b5..05dccbe 100644
--- a/libman/medoid.hpp
+++ b/libman/medoid.hpp
@@ -54,7 +54,8 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments,
-                const std::string fn, const double sample_rate);
+                const std::string fn, const double sample_rate,
+                kbase::dist_t dist_metric);
     public:
         static thread::ptr create(
                 const int node_id, const unsigned thd_id,
@@ -62,11 +63,12 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments, const std::string fn,
-                const double sample_rate) {
+                const double sample_rate,
+                kbase::dist_t dist_metric) {
             return thread::ptr(
                     new medoid(node_id, thd_id, start_rid,
                         nprocrows, ncol, g_clusters,
-                        cluster_assignments, fn, sample_rate));
+                        cluster_assignments, fn, sample_rate, dist_metric));
         }
 
         void start(const thread_state_t state) override;
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index f4193d3..d42fb91 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -79,7 +79,7 @@ void medoid_coordinator::build_thread_state() {
         threads.push_back(medoid::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0],
-                    fn, sample_rate));
+                    fn, sample_rate, _dist_t));
         threads[thd_id]->set_parent_cond(&cond, &mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
-- 
2.43.0


From 450d3eb97dbb293eae310e5a02259b9b15d57836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 39/40] fix: report no more iterations than were performed

---
 libauto/kmeans.cpp                 | 3 +++
 libauto/min-tri-kmeans.cpp         | 3 +++
 libman/fcm_coordinator.cpp         | 3 +++
 libman/kmeans_coordinator.cpp      | 3 +++
 libman/kmeans_task_coordinator.cpp | 4 ++++
 libman/medoid_coordinator.cpp      | 3 +++
 libman/skmeans_coordinator.cpp     | 3 +++
 7 files changed, 22 insertions(+)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 812d134..b5cb371 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -446,6 +446,9 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
     printf("\n******************************************\n");
 #endif
 
+    if (!converged)
+        iter = MAX_ITERS; // One too many after the last iteration
+
     if (converged) {
 #ifndef BIND
         printf("K-means converged in %lu iterations\n", iter);
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index c1b01f2..d49e6d0 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -570,6 +570,9 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
     printf("\n******************************************\n");
 #endif
 
+    if (!converged)
+        iter = MAX_ITERS; // One too many after the last iteration
+
     if (converged) {
 #ifndef BIND
         printf("K-means converged in %lu iterations\n", iter);
diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index 8f8068c..58f8acf 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -204,6 +204,9 @@ base::cluster_t fcm_coordinator::run(double* allocd_data,
         kbase::time_diff(start, end));
     printf("\n******************************************\n");
 #endif
+    if (!converged)
+        iter = max_iters; // One too many after the last iteration
+
     if (converged) {
 #ifndef BIND
         printf("Fuzzy C-means converged in %lu iterations\n", iter);
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 57a64a4..cb8c841 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -218,6 +218,9 @@ kbase::cluster_t kmeans_coordinator::run(
         kbase::time_diff(start, end));
     printf("\n******************************************\n");
 #endif
+    if (!converged)
+        iter = max_iters; // One too many after the last iteration
+
     if (converged) {
 #ifndef BIND
         printf("K-means converged in %lu iterations\n", iter);
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 695ceb6..7a95cc8 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -373,6 +373,7 @@ kbase::cluster_t kmeans_task_coordinator::mb_run(double* allocd_data) {
 
         if (frob_norm < tolerance) {
             converged = true;
+            iter++; // Counts from zero
             break;
         }
     }
@@ -508,6 +509,9 @@ kbase::cluster_t kmeans_task_coordinator::run(
     printf("\n******************************************\n");
 #endif
 
+    if (!converged)
+        iter = max_iters; // One too many after the last iteration
+
     if (converged) {
 #ifndef BIND
         printf("K-means converged in %lu iterations\n", iter);
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index d42fb91..0cde1e9 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -274,6 +274,9 @@ kbase::cluster_t medoid_coordinator::run(
         kbase::time_diff(start, end));
     printf("\n******************************************\n");
 #endif
+    if (!converged)
+        iter = max_iters; // One too many after the last iteration
+
     if (converged) {
 #ifndef BIND
         printf("K-medoids converged in %lu iterations\n", iter);
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 0481ce0..d6c8b0f 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -256,6 +256,9 @@ kbase::cluster_t skmeans_coordinator::run(
         kbase::time_diff(start, end));
     printf("\n******************************************\n");
 #endif
+    if (!converged)
+        iter = max_iters; // One too many after the last iteration
+
     if (converged) {
 #ifndef BIND
         printf("SKmeans converged in %lu iterations\n", iter);
-- 
2.43.0


From 82e9e72d87d325f4b09aee467ead69c9c63c8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 40/40] fix: stop refining splits once all of them have
 converged

---
 libman/gmeans_coordinator.cpp |  4 ++++
 libman/hclust_coordinator.cpp | 13 +++++++++++++
 libman/hclust_coordinator.hpp |  1 +
 libman/xmeans_coordinator.cpp |  4 ++++
 4 files changed, 22 insertions(+)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 9909214..6dbaf16 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -242,6 +242,10 @@ base::cluster_t gmeans_coordinator::run(
 #endif
             if (compute_pdist)
                 compute_pdist = false;
+            if (splits_converged()) {
+                iter++;
+                break;
+            }
         }
 
         compute_cluster_diffs();
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index a34886e..7dc2b3f 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -337,6 +337,15 @@ const bool hclust_coordinator::steady_state() const {
     return true; // No more clusters are active & none can be split
 }
 
+const bool hclust_coordinator::splits_converged() {
+    auto itr = hcltrs.get_iterator();
+    while (itr.has_next()) {
+        if (!itr.next().second->has_converged())
+            return false;
+    }
+    return true; // Further iterations would change nothing
+}
+
 void hclust_coordinator::update_clusters() {
     // clear nchanged & means
     nchanged.clear();
@@ -463,6 +472,10 @@ base::cluster_t hclust_coordinator::run(
             base::sparse_print(cluster_assignment_counts);
             printf("\n*****************************************************\n");
 #endif
+            if (splits_converged()) {
+                iter++;
+                break;
+            }
         }
 
         if (at_cluster_cap()) {
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index f2bdb00..681f22d 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -141,6 +141,7 @@ class hclust_coordinator : public coordinator {
         virtual void activate(const unsigned id);
         virtual const bool is_active(const unsigned i) const ;
         virtual const bool steady_state() const;
+        const bool splits_converged();
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
         void record_final(const unsigned id, const double* mean);
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index faf55f2..66c3f13 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -292,6 +292,10 @@ base::cluster_t xmeans_coordinator::run(
 #endif
             if (compute_pdist)
                 compute_pdist = false;
+            if (splits_converged()) {
+                iter++;
+                break;
+            }
         }
 
         // Decide on split or not here
-- 
2.43.0

