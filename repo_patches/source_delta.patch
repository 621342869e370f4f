From 549ec28d31de7c5c7dcde81721b83d8f9e65a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:25 +0000
Subject: [PATCH 01/57] fix: Morton key generated at a limited depth keeps the
 marker of that depth

---
 include/tree_topology/filling_curve.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index fc26638..4e7aefc 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -503,8 +503,9 @@ public:
   morton_curve_u(const std::array<point_t, 2> & range,
     const point_t & p,
     const size_t depth) {
-    *this = filling_curve<DIM, T, morton_curve_u>::min();
     assert(depth <= max_depth_);
+    // The leading bit marks the depth of the key
+    value_ = int_t(1) << depth * dimension;
     std::array<int_t, dimension> coords;
     const int_t max_val = (int_t(1) << (bits_ - 1) / dimension)-1;
     for(size_t i = 0; i < dimension; ++i) {
-- 
2.43.0


From 644da49a47fa3a731d32b97a83f96f2093366616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:25 +0000
Subject: [PATCH 02/57] fix: 3D Hilbert keys: rotate into the frame of the cell
 when encoding, decode the middle bit

---
 include/tree_topology/filling_curve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 4e7aefc..7d868c0 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -295,7 +295,7 @@ public:
       }
       if constexpr (dimension == 3) {
         value_ += s * s * s * ((7 * bits[0]) ^ (3 * bits[1]) ^ bits[2]);
-        rotation3d(s, coords, bits);
+        unrotation3d(s, coords, bits);
       }
     }
     // Then truncate the key to the depth
@@ -313,7 +313,7 @@ public:
       std::array<int_t, dimension> bits = {};
       if constexpr (dimension == 3) {
         bits[0] = (key & 4) > 0;
-        bits[1] = ((key & 2) ^ bits[0]) > 0;
+        bits[1] = ((key & 2) > 0) ^ bits[0];
         bits[2] = ((key & 1) ^ bits[0] ^ bits[1]) > 0;
         rotation3d(mask, coords, bits);
         coords[0] += bits[0] * mask;
-- 
2.43.0


From b0fd83d45e7d89bcdfb65c839e0fcc18fe4c8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:25 +0000
Subject: [PATCH 03/57] fix: 1D Hilbert key dropped the last bit of the
 coordinate

---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 7d868c0..838cf22 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -279,7 +279,7 @@ public:
     // Handle 1D case
     if(dimension == 1) {
       assert(value_ & 1UL << max_depth_);
-      value_ |= coords[0] >> dimension;
+      value_ |= coords[0];
       value_ >>= (max_depth_ - depth);
       return;
     }
-- 
2.43.0


From 623cd265b1003d408f0ae3cbdc144b8e661e9b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:25 +0000
Subject: [PATCH 04/57] fix: decode 1D Hilbert keys

---
 include/tree_topology/filling_curve.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 838cf22..22700ab 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -327,6 +327,9 @@ public:
         coords[0] += bits[0] * mask;
         coords[1] += bits[1] * mask;
       }
+      if constexpr (dimension == 1) {
+        coords[0] += (key & 1) * mask;
+      }
       key >>= dimension;
     }
     assert(key == int_t(1));
-- 
2.43.0


From c78bc0e0bb5f48acb4225925a0009ecc71ac8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:25 +0000
Subject: [PATCH 05/57] fix: conflict_depth did not compile when used

---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 22700ab..a8fff73 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -106,7 +106,7 @@ public:
   }
   //! Search for the depth were two keys are in conflict
   int conflict_depth(filling_curve key_a, filling_curve key_b) {
-    int conflict = max_depth;
+    int conflict = max_depth_;
     while(key_a != key_b) {
       key_a.pop();
       key_b.pop();
-- 
2.43.0


From 5f0dad8d0a39c3fdf1b332e7ad784a55848bed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 06/57] fix: a += a and a -= a on tensors were silently ignored

---
 include/tensor.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/tensor.h b/include/tensor.h
index 15921b7..8a57446 100644
--- a/include/tensor.h
+++ b/include/tensor.h
@@ -938,11 +938,9 @@ struct tensor_u<T, ST, D, Ds...> {
 
 #define def_operator(op)                                                       \
   tensor_u & operator op(tensor_u const & rhs) {                               \
-    if(this != &rhs) {                                                         \
-      for(size_t i{0}; i < size(); i++) {                                      \
-        data_[i] op rhs[i];                                                    \
-      } /* for */                                                              \
-    } /* if */                                                                 \
+    for(size_t i{0}; i < size(); i++) {                                        \
+      data_[i] op rhs[i];                                                      \
+    } /* for */                                                                \
                                                                                \
     return *this;                                                              \
   }
-- 
2.43.0


From bbe907dfb36ab07a4f24749c6c923c41b086b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 07/57] fix: tree branches were lost when the number of ranks
 is not a power of two

---
 include/tree_topology/tree_topology.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/tree_topology/tree_topology.h b/include/tree_topology/tree_topology.h
index bb5b266..1c2ff30 100644
--- a/include/tree_topology/tree_topology.h
+++ b/include/tree_topology/tree_topology.h
@@ -1580,6 +1580,8 @@ private:
     // of the ghost rank represented.
     std::vector<share_entity_t> r_ghosts_entities_n2;
     std::vector<share_node_t> r_ghosts_nodes_n2;
+    // Keys covered by the ghost rank represented: nothing to start with
+    key_t lobound_n2 = key_t::max(), hibound_n2 = key_t::min();
 
     // Communication for all channels
     for(int i = 0; i < dim; ++i) {
@@ -1642,13 +1644,13 @@ private:
         // Case already handled before
         if(ghosts_rank == rank && partner < size)
           continue;
-        if(ghosts_rank > size && partner > size)
-          continue;
         if(partner >= size) {
           partner -= (1 << (dim - 1));
         }
         if(partner == rank) {
           // Add into each buffer, no communication needed
+          lobound_ = std::min(lobound_n2, lobound_);
+          hibound_ = std::max(hibound_n2, hibound_);
           ghosts_entities.clear();
           ghosts_nodes.clear();
           find_nodes_(ghosts_nodes, ghosts_entities);
@@ -1691,14 +1693,20 @@ private:
           std::pair<int[2], key_t[2]> s_keys;
           s_keys.first[0] = s_ge_size;
           s_keys.first[1] = s_gn_size;
-          s_keys.second[0] = lobound_;
-          s_keys.second[1] = hibound_;
+          s_keys.second[0] = ghosts_rank == rank ? lobound_ : lobound_n2;
+          s_keys.second[1] = ghosts_rank == rank ? hibound_ : hibound_n2;
           std::pair<int[2], key_t[2]> s_rkeys;
           MPI_Sendrecv(&s_keys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
             partner, 0, &s_rkeys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
             partner, 0, MPI_COMM_WORLD, &status);
-          lobound_ = std::min(s_rkeys.second[0], lobound_);
-          hibound_ = std::max(s_rkeys.second[1], hibound_);
+          if(ghosts_rank == rank) {
+            lobound_ = std::min(s_rkeys.second[0], lobound_);
+            hibound_ = std::max(s_rkeys.second[1], hibound_);
+          }
+          else {
+            lobound_n2 = std::min(s_rkeys.second[0], lobound_n2);
+            hibound_n2 = std::max(s_rkeys.second[1], hibound_n2);
+          }
           // Send entities
           r_ghosts_entities.resize(s_rkeys.first[0] / sz_entities);
           MPI_Sendrecv(&ghosts_entities[0], s_ge_size, MPI_BYTE, partner, 0,
@@ -1729,9 +1737,9 @@ private:
           }
           else {
             r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-              ghosts_entities.begin(), ghosts_entities.end());
+              r_ghosts_entities.begin(), r_ghosts_entities.end());
             r_ghosts_nodes_n2.insert(r_ghosts_nodes_n2.end(),
-              ghosts_nodes.begin(), ghosts_nodes.end());
+              r_ghosts_nodes.begin(), r_ghosts_nodes.end());
           }
         } // if
       } // if
-- 
2.43.0


From 08c316d5c68062637fc0f960ab86e975ef3f21a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 08/57] fix: distributed sort read past the end and failed with
 empty processes

---
 mpisph/psort.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/mpisph/psort.h b/mpisph/psort.h
index bd2b438..1efc5d9 100644
--- a/mpisph/psort.h
+++ b/mpisph/psort.h
@@ -45,12 +45,8 @@ public:
     int size, rank;
     MPI_Comm_size(MPI_COMM_WORLD, &size);
     MPI_Comm_rank(MPI_COMM_WORLD, &rank);
+    // ranks without data are skipped in the search of the weighted median
     int n_real = size;
-    for(int i = 0; i < size; ++i)
-      if(dist[i] == 0) {
-        n_real = i;
-        break;
-      }
 
     std::copy(dist, dist + size, right_ends[size].begin());
 
@@ -81,12 +77,12 @@ public:
       //------- generate n_act guesses
       // for the allgather, make a flat array of nproc chunks, each with n_act
       // elts
-      _ValueType * mymedians = new _ValueType[n_act];
+      _ValueType * mymedians = new _ValueType[n_act]();
       _ValueType * medians = new _ValueType[size * n_act];
       for(int k = 0; k < n_act; ++k) {
-        _ValueType * ptr = &d_ranges[k].first[0];
-        int index = subdist[k][rank] / 2;
-        mymedians[k] = ptr[index];
+        // no guess from a rank which has no data left in this range
+        if(subdist[k][rank] > 0)
+          mymedians[k] = d_ranges[k].first[subdist[k][rank] / 2];
       } // for
       MPI_Allgather(mymedians, n_act, MPI_valueType, medians, n_act,
         MPI_valueType, MPI_COMM_WORLD);
-- 
2.43.0


From 74e832b9c7b58916b9fb6fc2b5675d7499dae5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 09/57] fix: bucketed alltoallv lost the data a process sends
 to itself and waited on an unset request

---
 mpisph/utils.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpisph/utils.h b/mpisph/utils.h
index 6efa050..5121321 100644
--- a/mpisph/utils.h
+++ b/mpisph/utils.h
@@ -26,6 +26,7 @@
 #ifndef _mpisph_utils_
 #define _mpisph_utils_
 
+#include <algorithm>
 #include <numeric>
 
 #include "tree.h"
@@ -220,7 +221,11 @@ mpi_alltoallv_p2p(std::vector<int> & sendcount,
       MPI_Recv(&(recvbuffer[i][0]), recvcount[i], MPI_BYTE, i, MPI_ANY_TAG,
         MPI_COMM_WORLD, &status[i]);
     }
-    if(sendcount[i] != 0) {
+    else if(rank == i) {
+      std::copy_n(
+        sendbuffer[i].begin(), recvbuffer[i].size(), recvbuffer[i].begin());
+    }
+    if(sendcount[i] != 0 && rank != i) {
       MPI_Wait(&request[i], &status[i]);
     }
   }
-- 
2.43.0


From d2078e9cadc69700cbac7f30b52fd9a2a3945ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 10/57] fix: reductions of unsigned values compared them as
 signed

---
 mpisph/utils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpisph/utils.h b/mpisph/utils.h
index 5121321..66bae10 100644
--- a/mpisph/utils.h
+++ b/mpisph/utils.h
@@ -245,7 +245,7 @@ reduce_min(float & value) {
 
 void
 reduce_min(uint64_t & value) {
-  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_INT64_T, MPI_MIN, MPI_COMM_WORLD);
+  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_UINT64_T, MPI_MIN, MPI_COMM_WORLD);
 }
 
 void
@@ -267,7 +267,7 @@ reduce_sum(float & value) {
 
 void
 reduce_sum(uint64_t & value) {
-  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_INT64_T, MPI_SUM, MPI_COMM_WORLD);
+  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_UINT64_T, MPI_SUM, MPI_COMM_WORLD);
 }
 
 void
@@ -295,7 +295,7 @@ reduce_max(float & value) {
 
 void
 reduce_max(uint64_t & value) {
-  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_INT64_T, MPI_MAX, MPI_COMM_WORLD);
+  MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_UINT64_T, MPI_MAX, MPI_COMM_WORLD);
 }
 
 void
-- 
2.43.0


From 6a4960a0732d1781fe4113d43199903d2071d1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 11/57] fix: number of elements of a new hashtable was not
 initialised

---
 include/tree_topology/hashtable.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tree_topology/hashtable.h b/include/tree_topology/hashtable.h
index 98e1334..ed4e157 100644
--- a/include/tree_topology/hashtable.h
+++ b/include/tree_topology/hashtable.h
@@ -36,6 +36,7 @@ public:
   //! @brief Creation of the hashtable: no collisions
   hashtable() {
     collision_ = 0;
+    nelement_ = 0;
     ht_.resize(hash_size_);
   }
 
-- 
2.43.0


From 96c63d243ac6463e7072fe4786a675a6ab7948cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 12/57] fix: reject unknown sph_kernel and eos_type values in
 all build types

The only check was assert(false), so release builds silently kept the default.
---
 include/params.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/params.h b/include/params.h
index f78b33c..b774d04 100644
--- a/include/params.h
+++ b/include/params.h
@@ -915,7 +915,9 @@ set_param(const std::string & param_name, const std::string & param_value) {
       _sph_kernel = sinc_ker;
 
     else {
-      assert(false);
+      log_one(error) << "ERROR: wrong value for sph_kernel parameter"
+                     << std::endl;
+      exit(2);
     }
 #else
     if(not boost::iequals(str_value, QUOTE(sph_kernel))) {
@@ -1099,7 +1101,9 @@ set_param(const std::string & param_name, const std::string & param_value) {
       _eos_type = eos_no_eos;
 
     else {
-      assert(false);
+      log_one(error) << "ERROR: wrong value for eos_type parameter"
+                     << std::endl;
+      exit(2);
     }
 #else
     if(not boost::iequals(str_value, QUOTE(eos_type))) {
-- 
2.43.0


From 991b1079fe46dfb233b27094dca24ddf63f282cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 13/57] fix: initial_time is a real parameter

It was declared as an integer, so a fractional initial time was truncated.
---
 include/params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/params.h b/include/params.h
index b774d04..9f42fcc 100644
--- a/include/params.h
+++ b/include/params.h
@@ -166,7 +166,7 @@ DECLARE_PARAM(int64_t, final_iteration, 0)
 #endif
 
 #ifndef initial_time
-DECLARE_PARAM(int64_t, initial_time, 0)
+DECLARE_PARAM(double, initial_time, 0.0)
 #endif
 
 #ifndef final_time
-- 
2.43.0


From e13e13738bd69c64ec6603b846a4128370a8b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 14/57] fix: do not overflow string parameters

A value of 511 characters or more was copied past the end of its buffer.
---
 include/params.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/params.h b/include/params.h
index 9f42fcc..e244900 100644
--- a/include/params.h
+++ b/include/params.h
@@ -111,6 +111,10 @@
 
 #define READ_STRING_PARAM(PNAME)                                               \
   if(param_name == QUOTE(PNAME)) {                                             \
+    if(str_value.length() >= STRING_MAXLEN) {                                  \
+      log_one(error) << "ERROR: value too long for " << param_name << endl;    \
+      exit(2);                                                                 \
+    }                                                                          \
     strcpy(_##PNAME, str_value.c_str());                                       \
     unknown_param = false;                                                     \
   }
-- 
2.43.0


From 38294eed0bd1ac3d2282c148225e7adf98ec305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 15/57] fix: reject malformed numeric parameter values

Text which is not a number of the parameter's type was read as zero or as
its leading digits (nparticles = 1e5 silently became 1).
---
 include/params.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/params.h b/include/params.h
index e244900..6059343 100644
--- a/include/params.h
+++ b/include/params.h
@@ -106,6 +106,11 @@
 #define READ_NUMERIC_PARAM(PNAME)                                              \
   if(param_name == QUOTE(PNAME)) {                                             \
     iss >> (_##PNAME);                                                         \
+    if(iss.fail() or not(iss >> ws).eof()) {                                   \
+      log_one(error) << "ERROR: wrong value for numeric parameter "            \
+                     << param_name << ": " << str_value << endl;               \
+      exit(2);                                                                 \
+    }                                                                          \
     unknown_param = false;                                                     \
   }
 
-- 
2.43.0


From 7332b29ac67e90130d3205007fa4e11b059088de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 16/57] fix: normalisation of the quintic spline in three
 dimensions

The coefficient 3/(359 pi) makes the kernel integrate to 1.0028; the normalised
one is 1/(120 pi), i.e. 9/(40 pi) in units of the support radius.
---
 doc/notes/Kernels.tex     | 2 +-
 include/physics/kernels.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/doc/notes/Kernels.tex b/doc/notes/Kernels.tex
index afb3c0a..27389e7 100644
--- a/doc/notes/Kernels.tex
+++ b/doc/notes/Kernels.tex
@@ -98,7 +98,7 @@ W(\vec{r},h) = \frac{\sigma_D}{h^D}
 \end{equation}
 where $\sigma_D$ is:
 \begin{equation}
-\sigma_D =  \left\{ \frac{1}{120}, \frac{7}{478\pi}, \frac{3}{359\pi}\right\}
+\sigma_D =  \left\{ \frac{1}{120}, \frac{7}{478\pi}, \frac{1}{120\pi}\right\}
          \; \text{in 1D, 2D and 3D resp.}
 \end{equation}
 
diff --git a/include/physics/kernels.h b/include/physics/kernels.h
index 32ac0ad..ef5aca0 100644
--- a/include/physics/kernels.h
+++ b/include/physics/kernels.h
@@ -39,7 +39,7 @@ namespace kernels {
 // h depends of the dimension and is added in the kernel
 const double cubic_spline_sigma[3] = {4. / 3., 40. / (7. * M_PI), 8. / M_PI};
 const double quintic_spline_sigma[3] = {
-  1. / 40., 63. / (478. * M_PI), 81. / (359. * M_PI)};
+  1. / 40., 63. / (478. * M_PI), 9. / (40. * M_PI)};
 const double wendland_c2_sigma[3] = {1.25, 7. / M_PI, 21. / (2. * M_PI)};
 const double wendland_c4_sigma[3] = {1.5, 9. / M_PI, 495. / (32. * M_PI)};
 const double wendland_c6_sigma[3] = {
-- 
2.43.0


From 688c920eed7b113ab8e9d4ebaf046011cdf55a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 17/57] fix: velocity divergence omitted the neighbours'
 velocities

compute_divv summed m_b v_a . grad W instead of the velocity difference, so
that a uniform motion produced a spurious divergence (and viscosity) that
depended on the frame of reference.
---
 include/physics/default_physics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 0d5c93b..e55e3f2 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -288,7 +288,7 @@ compute_divv(body & particle, std::vector<body *> & nbs) {
     const point_t DiWab = sph_kernel_gradient(pos_a - pos_b,h_ab);
     //point_t DiWab = .5*(sph_kernel_gradient(pos_a - pos_b,h_a)   // DEBUG
     //                 +  sph_kernel_gradient(pos_a - pos_b,h_b));
-    div_v += m_b*dot(v_a, DiWab);
+    div_v -= m_b*dot(v_a - nb->getVelocity(), DiWab);
   }
   div_v /= particle.getDensity();
 
-- 
2.43.0


From 07670d5783492e02a432cf09486dfb0742c8661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 18/57] fix: time step was stretched beyond the stable one to
 reach an output time

The step was extended by up to a tenth of the output interval, which can be
many times the Courant step, and an older, larger step was restored after an
output.
---
 include/physics/default_physics.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index e55e3f2..683280a 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -782,10 +782,10 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     // match the next screen output time
     if (totaltime == t_screen_output) {
       if (dt_saved > 0)
-        dt = dt_saved;
+        dt = std::min(dt_saved, dtmin);
       t_screen_output += out_screen_dt;
     }
-    if (totaltime + dt > t_screen_output - 0.1*out_screen_dt) {
+    if (totaltime + dt > t_screen_output - 0.1*dt) {
       dt_saved = dt;
       totaltime_next = t_screen_output;
     }
@@ -796,10 +796,10 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     // match the next scalar output time
     if (totaltime == t_scalar_output) {
       if (dt_saved > 0)
-        dt = dt_saved;
+        dt = std::min(dt_saved, dtmin);
       t_scalar_output += out_scalar_dt;
     }
-    if (totaltime + dt > t_scalar_output - 0.1*out_scalar_dt) {
+    if (totaltime + dt > t_scalar_output - 0.1*dt) {
       dt_saved = dt;
       totaltime_next = std::min(totaltime_next, t_scalar_output);
     }
@@ -810,10 +810,10 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     // match the next h5data output time
     if (totaltime == t_h5data_output) {
       if (dt_saved > 0)
-        dt = dt_saved;
+        dt = std::min(dt_saved, dtmin);
       t_h5data_output += out_h5data_dt;
     }
-    if (totaltime + dt > t_h5data_output - 0.1*out_h5data_dt) {
+    if (totaltime + dt > t_h5data_output - 0.1*dt) {
       dt_saved = dt;
       totaltime_next = std::min(totaltime_next, t_h5data_output);
     }
-- 
2.43.0


From d98455d1f03349403715312f846857c66b398043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 19/57] fix: initial state was not output when output times are
 requested

The adaptive time step is computed before the first output and had already
moved the next output time past the initial one.
---
 include/physics/analysis.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/physics/analysis.h b/include/physics/analysis.h
index bf44530..af312ac 100644
--- a/include/physics/analysis.h
+++ b/include/physics/analysis.h
@@ -298,7 +298,8 @@ void
 scalar_output(body_system<double, gdimension> & bs, const int rank) {
   static bool first_time = true;
   if (param::out_scalar_dt > 0.0) { // output by time
-    if (physics::totaltime < physics::t_scalar_output) {
+    if (physics::totaltime < physics::t_scalar_output
+        && physics::iteration != param::initial_iteration) {
       return;
     }
   }
@@ -414,7 +415,7 @@ h5data_output(body_system<double, gdimension> & bs, const int rank) {
   using namespace physics;
 
   if (out_h5data_dt > 0.0) { // output by time
-    if (totaltime < t_h5data_output) {
+    if (totaltime < t_h5data_output && iteration != initial_iteration) {
       return;
     }
   }
-- 
2.43.0


From e8b14c88f543893025bf5d3e81adc1f3fd27d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 20/57] fix: output time was passed over after restoring an
 older, smaller step

The next time was computed with the current step, but compared to the output
time with the restored one.
---
 include/physics/default_physics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 683280a..abf7d13 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -782,7 +782,7 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     // match the next screen output time
     if (totaltime == t_screen_output) {
       if (dt_saved > 0)
-        dt = std::min(dt_saved, dtmin);
+        dt = std::max(dt, std::min(dt_saved, dtmin));
       t_screen_output += out_screen_dt;
     }
     if (totaltime + dt > t_screen_output - 0.1*dt) {
@@ -796,7 +796,7 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     // match the next scalar output time
     if (totaltime == t_scalar_output) {
       if (dt_saved > 0)
-        dt = std::min(dt_saved, dtmin);
+        dt = std::max(dt, std::min(dt_saved, dtmin));
       t_scalar_output += out_scalar_dt;
     }
     if (totaltime + dt > t_scalar_output - 0.1*dt) {
@@ -810,7 +810,7 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     // match the next h5data output time
     if (totaltime == t_h5data_output) {
       if (dt_saved > 0)
-        dt = std::min(dt_saved, dtmin);
+        dt = std::max(dt, std::min(dt_saved, dtmin));
       t_h5data_output += out_h5data_dt;
     }
     if (totaltime + dt > t_h5data_output - 0.1*dt) {
-- 
2.43.0


From c10794536f09c181b83a491f475bb08dd353ef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:02 +0000
Subject: [PATCH 21/57] fix: periodic box was written past the end of the point
 in 1 and 2 dimensions

---
 include/physics/boundary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/physics/boundary.h b/include/physics/boundary.h
index 5166c3e..b406050 100644
--- a/include/physics/boundary.h
+++ b/include/physics/boundary.h
@@ -133,11 +133,11 @@ pboundary_generate(std::vector<body> & lbodies, double halo_size) {
   // At least 1D
   min[0] = -half * box_length;
   max[0] = half * box_length;
-  if(gdimension >= 1) {
+  if(gdimension > 1) {
     min[1] = -half * box_width;
     max[1] = half * box_width;
   }
-  if(gdimension >= 2) {
+  if(gdimension > 2) {
     min[2] = -half * box_height;
     max[2] = half * box_height;
   }
-- 
2.43.0


From 1998901c3675b794ffb0ddd7c0a55c3f801c6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 22/57] fix: wall directions were parsed from a destroyed
 string

---
 include/physics/eforce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index f8004a2..8cd4ca8 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -397,8 +397,8 @@ select(const std::string & efstr) {
     else if(boost::iequals(it->substr(0, 6), "walls:")) {
       // parse in which directions to place the walls
       // this can be e.g. "walls:xyz" or "walls:y" etc.
-      const char * cxyz = it->substr(6).c_str();
-      char imx = min(3, (int)it->substr(6).length());
+      const string cxyz = it->substr(6);
+      char imx = min(3, (int)cxyz.length());
       for(int i = 0; i < imx; ++i) {
         switch(cxyz[i]) {
           case 'x':
-- 
2.43.0


From e0dc436edc217823fcefd4c3c7c10e5a4a40eece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 23/57] fix: orbit force accessed a third coordinate in two
 dimensions

---
 include/physics/eforce.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index 8cd4ca8..0c57681 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -289,13 +289,15 @@ acceleration_orbit(const body & particle) {
 
   point_t acc = 0.0;
 
-  double temp = SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]);
+  const double z = gdimension > 2 ? rp[2] : 0.0;
+  double temp = SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(z);
   temp = CU(temp);
   temp = sqrt(temp);
   double term1 = -grav * m_ns / temp;
   acc[0] += term1 * (rp[0] - a_sp);
   acc[1] += term1 * rp[1];
-  acc[2] += term1 * rp[2];
+  if(gdimension > 2)
+    acc[2] += term1 * z;
 
   double term2 = grav * m_t / CU(a_sp);
   acc[0] += term2 * (rp[0] - a_sp * m_ns / m_t); // x-direction
@@ -311,7 +313,8 @@ potential_orbit(const point_t & rp) {
   static const double grav = gravitational_constant, a_sp = orbital_separation,
                       m_ns = mass_neutron_star, m_wd = mass_white_dwarf;
   const double m_t = m_ns + m_wd;
-  double term1 = sqrt(SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]));
+  const double z = gdimension > 2 ? rp[2] : 0.0;
+  double term1 = sqrt(SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(z));
   term1 = -grav * m_ns / term1;
   double term2 = -0.5 * grav * m_t / CU(a_sp);
   term2 = term2 * (SQ(rp[0] - a_sp * m_ns / m_t) + SQ(rp[1]));
-- 
2.43.0


From 1353c1d8fd3dd8e9c3fc0378d5267071d36c8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:59 +0000
Subject: [PATCH 24/57] fix: processes could be left without particles with
 periodic boundaries

Images are added and removed locally and the sort preserved the number of
particles of each process, so that processes drifted out of balance and a
process holding only images crashed. Balance the processes when sorting.
---
 include/physics/boundary.h |  2 --
 mpisph/bodies_system.h     | 17 +++++++++++++----
 mpisph/psort.h             | 22 +++++++++++++++++-----
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/include/physics/boundary.h b/include/physics/boundary.h
index b406050..8453591 100644
--- a/include/physics/boundary.h
+++ b/include/physics/boundary.h
@@ -48,8 +48,6 @@ pboundary_clean(std::vector<body> & lbodies) {
   auto start = std::stable_partition(lbodies.begin(), lbodies.end(),
     [](const auto & left) { return left.getType() != particle_type_t::WALL; });
 
-  assert(start != lbodies.begin());
-
 #ifdef DEBUG
   for(auto it = start; it != lbodies.end(); ++it)
     assert(it->getType() == particle_type_t::WALL);
diff --git a/mpisph/bodies_system.h b/mpisph/bodies_system.h
index a18089a..593fd87 100644
--- a/mpisph/bodies_system.h
+++ b/mpisph/bodies_system.h
@@ -19,6 +19,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <omp.h>
 #include <typeinfo>
 
@@ -192,6 +193,13 @@ public:
 
     MPI_Allgather(MPI_IN_PLACE, 1, MPI_INT, dist, 1, MPI_INT, MPI_COMM_WORLD);
 
+    // Particles of the periodic boundaries are added and removed locally,
+    // balance the processes
+    const int64_t total = std::accumulate(dist, dist + size, int64_t(0));
+    int balanced[size];
+    for(int i = 0; i < size; ++i)
+      balanced[i] = total / size + (i < total % size);
+
     psort::psort(
       tree_.entities(),
       [](auto & left, auto & right) {
@@ -203,7 +211,7 @@ public:
         }
         return false;
       },
-      dist);
+      dist, balanced);
     log_one(trace) << "QSort.done: ppp=" << tree_.entities().size() << "+-1 "
                    << omp_get_wtime() - timer << "s" << std::endl;
 
@@ -216,7 +224,6 @@ public:
       &mybodies, 1, MPI_INT, &totalprocbodies[0], 1, MPI_INT, MPI_COMM_WORLD);
     int min = *std::min_element(totalprocbodies.begin(), totalprocbodies.end());
     int max = *std::max_element(totalprocbodies.begin(), totalprocbodies.end());
-    int total = std::accumulate(totalprocbodies.begin(), totalprocbodies.end(), 0);
     assert(total == totalnbodies_);
     assert(max - min <= 1);
 #endif // DEBUG_TREE
@@ -237,8 +244,10 @@ public:
     // Compute the local range
     range_t lrange;
 
-    lrange[1] = bodies.back().coordinates();
-    lrange[0] = bodies.back().coordinates();
+    for(size_t d = 0; d < gdimension; ++d) {
+      lrange[1][d] = std::numeric_limits<double>::lowest();
+      lrange[0][d] = std::numeric_limits<double>::max();
+    } // for
 
     for(size_t i = 0; i < bodies.size(); ++i) {
       for(size_t d = 0; d < gdimension; ++d) {
diff --git a/mpisph/psort.h b/mpisph/psort.h
index 1efc5d9..e00babe 100644
--- a/mpisph/psort.h
+++ b/mpisph/psort.h
@@ -37,6 +37,7 @@ public:
   void split(_Iterator first,
     _Iterator last,
     int * dist,
+    int * dist_out,
     _Compare comp,
     std::vector<std::vector<int>> & right_ends,
     MPI_Datatype & MPI_valueType) {
@@ -50,11 +51,11 @@ public:
 
     std::copy(dist, dist + size, right_ends[size].begin());
 
-    // union of [0, right_end[i+1]) on each processor produces dist[i] total
+    // union of [0, right_end[i+1]) on each processor produces dist_out[i] total
     // values
     std::vector<int> targets_v(size - 1);
     int * targets = &targets_v.at(0);
-    std::partial_sum(dist, dist + (size - 1), targets);
+    std::partial_sum(dist_out, dist_out + (size - 1), targets);
 
     // keep a list of ranges, trying to "activate" them at each branch
     std::vector<std::pair<_Iterator, _Iterator>> d_ranges(size - 1);
@@ -220,9 +221,19 @@ private:
   };
 }; // class
 
+/**
+ * @param vec      Local elements
+ * @param comp     Order of the elements
+ * @param dist_in  Number of elements of each process before the sort
+ * @param dist_out Number of elements of each process after the sort, same as
+ *                 before by default
+ */
 template<typename TYPE, typename _Compare>
 void
-psort(std::vector<TYPE> & vec, _Compare comp, int * dist_in) {
+psort(std::vector<TYPE> & vec,
+  _Compare comp,
+  int * dist_in,
+  int * dist_out = nullptr) {
 
   typename std::vector<TYPE>::iterator first = vec.begin();
   typename std::vector<TYPE>::iterator last = vec.end();
@@ -251,14 +262,15 @@ psort(std::vector<TYPE> & vec, _Compare comp, int * dist_in) {
   // Find splitters
   std::vector<std::vector<int>> right_ends(size + 1, std::vector<int>(size, 0));
   Split mysplit;
-  mysplit.split(first, last, dist, comp, right_ends, MPI_valueType);
+  mysplit.split(first, last, dist, dist_out ? dist_out : dist, comp, right_ends,
+    MPI_valueType);
 
   // Communicate to destination
   int * boundaries = new int[size + 1];
 
   // Should be _Distance, but MPI wants ints
   char errMsg[] = "32-bit limit for MPI has overflowed";
-  int n_loc_ = last - first;
+  int n_loc_ = dist_out ? dist_out[rank] : last - first;
   if(n_loc_ > INT_MAX)
     throw std::overflow_error(errMsg);
   int n_loc = static_cast<int>(n_loc_);
-- 
2.43.0


From 3542ecb142dce44f04c8932fe5022a84c01f9b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 25/57] fix: generated particle ids were not unique on uneven
 process counts

---
 mpisph/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 196190e..16bd9a7 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -335,7 +335,7 @@ H5P_bodiesReadDataset(std::vector<body> & bodies,
     else {
       // generate the ids
       log_one(trace) << "Setting ID for particles" << std::endl;
-      int64_t start = (IO_nparticles / size) * rank + 1;
+      int64_t start = IO_offset + 1;
       for(int64_t i = 0; i < IO_nparticlesproc; ++i) {
         bodies[i].set_id(start + i);
       }
-- 
2.43.0


From 71d02136cc132574eb011428ab44dcf5f44bd0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 26/57] fix: long file prefixes overflowed the file name
 buffers

---
 mpisph/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 16bd9a7..69cee60 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -48,7 +48,7 @@ hid_t IO_group_id; // Group id to keep track of the current step
 hsize_t IO_offset;
 hsize_t IO_count;
 static int output_step = 0;
-const int MAX_FNAME_LEN = 256;
+const int MAX_FNAME_LEN = 1024;
 // TODO: overload ostream instead, i.e.smth like, log_exit << "ERROR!"
 #define FULLSTOP exit(MPI_Barrier(MPI_COMM_WORLD) && MPI_Finalize());
 
@@ -713,7 +713,7 @@ inputDataHDF5(std::vector<body> & bodies,
       }
 
       // open it
-      char step_filename[128];
+      char step_filename[MAX_FNAME_LEN];
       sprintf(step_filename, "%s_%05d.h5part", input_file_prefix, step);
       log_one(warn) << "Reading from file " << step_filename << std::endl;
 
@@ -888,7 +888,7 @@ outputDataHDF5(std::vector<body> & bodies,
   MPI_Barrier(comm_);
   log_one(trace) << "Output particles" << std::flush;
 
-  char filename[128];
+  char filename[MAX_FNAME_LEN];
   if(param::out_h5data_separate_iterations)
     sprintf(filename, "%s_%05d.h5part", fileprefix, step);
   else
-- 
2.43.0


From 0a2ae2c8d0bb0cfc9decf4ba575aa334378a973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 27/57] fix: old outputs were removed from the wrong directory

---
 mpisph/io.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 69cee60..0fe5469 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -586,7 +586,7 @@ H5P_findIterationSnapshot(const char * prefix, const int iteration) {
  */
 int
 H5P_removePrefix(const char * output_file_prefix, const int threshold_stepnum) {
-  char output_filename[MAX_FNAME_LEN];
+  char output_filename[2 * MAX_FNAME_LEN];
   int n_deleted = 0;
   int rank;
   MPI_Comm_rank(MPI_COMM_WORLD, &rank);
@@ -614,8 +614,9 @@ H5P_removePrefix(const char * output_file_prefix, const int threshold_stepnum) {
       while((dir = readdir(d)) != NULL) {
         int stepnum = H5P_isPrefixSnapshot(output_basename, dir->d_name);
         if(stepnum > threshold_stepnum and rank == 0) {
-          if(remove(dir->d_name) == 0) { // if successful
-            log_one(warn) << "deleting old output file: " << dir->d_name
+          sprintf(output_filename, "%s/%s", output_dirname, dir->d_name);
+          if(remove(output_filename) == 0) { // if successful
+            log_one(warn) << "deleting old output file: " << output_filename
                           << std::endl;
             ++n_deleted;
           }
-- 
2.43.0


From e3072cada46340d291ad84fc122c302130323243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 28/57] fix: restart from an iteration without snapshot read
 another one

---
 mpisph/io.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 0fe5469..7a4c5bc 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -521,7 +521,7 @@ H5P_fileExists(const char * prefix) {
  */
 int
 H5P_findIterationSnapshot(const char * prefix, const int iteration) {
-  int step = -1;
+  int step = -1, found = -1;
   char fname[MAX_FNAME_LEN];
   char prefix_dirname[MAX_FNAME_LEN], buf[MAX_FNAME_LEN],
     prefix_basename[MAX_FNAME_LEN];
@@ -566,15 +566,17 @@ H5P_findIterationSnapshot(const char * prefix, const int iteration) {
                        << " in file " << fname << std::endl;
         FULLSTOP;
       }
-      H5Fclose(file_id);
+      H5P_closeFile(file_id);
 
       // check if this is what we are looking for
-      if(file_iteration == iteration)
+      if(file_iteration == iteration) {
+        found = step;
         break;
+      }
     }
     closedir(d);
   }
-  return step;
+  return found;
 }
 
 /*
-- 
2.43.0


From 01aeab37f5d00ae861599c40136b862c9fd2ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 29/57] fix: failed restarts ended with a success code or went
 on after MPI_Finalize

---
 mpisph/io.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 7a4c5bc..6cb6e56 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -50,7 +50,12 @@ hsize_t IO_count;
 static int output_step = 0;
 const int MAX_FNAME_LEN = 1024;
 // TODO: overload ostream instead, i.e.smth like, log_exit << "ERROR!"
-#define FULLSTOP exit(MPI_Barrier(MPI_COMM_WORLD) && MPI_Finalize());
+#define FULLSTOP                                                               \
+  {                                                                            \
+    MPI_Barrier(MPI_COMM_WORLD);                                               \
+    MPI_Finalize();                                                            \
+    exit(EXIT_FAILURE);                                                        \
+  }
 
 int64_t IO_nparticlesproc;
 int64_t IO_nparticles;
@@ -771,8 +776,7 @@ inputDataHDF5(std::vector<body> & bodies,
       if(startStep != lastStep) {
         log_one(error) << "First step not last step in output" << std::endl;
         H5P_closeFile(outputFile);
-        MPI_Barrier(comm_);
-        MPI_Finalize();
+        FULLSTOP;
       }
       H5P_closeFile(outputFile);
     }
-- 
2.43.0


From 380c1cb94b6b7ae00bed2ee5231cfc09055aca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:35 +0000
Subject: [PATCH 30/57] fix: missing input file was created empty and read

---
 mpisph/io.h | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 6cb6e56..210bb83 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -94,10 +94,10 @@ H5P_openFile(const char * filename, unsigned int flags) {
   H5Pset_fapl_mpio(plist_id, comm, info);
 
   hid_t file_id = 0;
-  if(access(filename, F_OK) != -1) {
+  if(access(filename, F_OK) != -1 || !(flags & H5F_ACC_RDWR)) {
     file_id = H5Fopen(filename, flags, plist_id);
   }
-  else {
+  else { // new output file
     file_id = H5Fcreate(filename, H5F_ACC_TRUNC, H5P_DEFAULT, plist_id);
   }
 
@@ -732,6 +732,12 @@ inputDataHDF5(std::vector<body> & bodies,
 
   } // if specified iteration
 
+  // nothing to read: stop before the old output is cleared
+  if(dataFile < 0 || !H5P_hasStep(dataFile, startStep)) {
+    log_one(error) << "Cannot find data file" << std::endl;
+    FULLSTOP;
+  }
+
   // ------------- CLEAR OUTPUT ------------------------------------------------
   // output prefix is different from input prefix:
   // -> clear output
@@ -764,33 +770,22 @@ inputDataHDF5(std::vector<body> & bodies,
       char output_filename[MAX_FNAME_LEN];
       sprintf(output_filename, "%s.h5part", output_file_prefix);
       hid_t outputFile = H5P_openFile(output_filename, H5F_ACC_RDONLY);
-      H5P_setStep(outputFile, startStep);
       // Check if startStep == lastStep
       int lastStep = startStep;
-      while(H5P_hasStep(outputFile, lastStep)) {
+      while(H5P_hasStep(outputFile, lastStep + 1)) {
         lastStep++;
       }
-      --lastStep;
       log_one(trace) << "startStep: " << startStep << " lastStep: " << lastStep
                      << std::endl;
       if(startStep != lastStep) {
         log_one(error) << "First step not last step in output" << std::endl;
-        H5P_closeFile(outputFile);
         FULLSTOP;
       }
-      H5P_closeFile(outputFile);
+      H5Fclose(outputFile);
     }
     output_step = startStep;
   } // if input_prefix == output_prefix
 
-  if(dataFile == 0) {
-    log_one(error) << "Cannot find data file" << std::endl;
-    MPI_Barrier(comm_);
-    MPI_Finalize();
-  }
-
-  int val = H5P_hasStep(dataFile, startStep);
-
   // If yes, get into this step
   H5P_setStep(dataFile, startStep);
   // Get the number of particles
-- 
2.43.0


From 9ee7f49d078a440ec4876674a86e538a16531b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 31/57] fix: first output after a restart into the same files
 was lost

---
 mpisph/io.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpisph/io.h b/mpisph/io.h
index 210bb83..10dd6de 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -48,6 +48,8 @@ hid_t IO_group_id; // Group id to keep track of the current step
 hsize_t IO_offset;
 hsize_t IO_count;
 static int output_step = 0;
+// iteration of the step output_step if a restart found it in the output, or -1
+static int64_t restart_iteration = -1;
 const int MAX_FNAME_LEN = 1024;
 // TODO: overload ostream instead, i.e.smth like, log_exit << "ERROR!"
 #define FULLSTOP                                                               \
@@ -744,6 +746,7 @@ inputDataHDF5(std::vector<body> & bodies,
   if(strcmp(output_file_prefix, input_file_prefix) != 0) {
     H5P_removePrefix(output_file_prefix, -1);
     output_step = 0;
+    restart_iteration = -1;
   }
   else { // --- output prefix == input prefix
 
@@ -784,6 +787,7 @@ inputDataHDF5(std::vector<body> & bodies,
       H5Fclose(outputFile);
     }
     output_step = startStep;
+    restart_iteration = startIteration;
   } // if input_prefix == output_prefix
 
   // If yes, get into this step
@@ -881,6 +885,10 @@ outputDataHDF5(std::vector<body> & bodies,
   MPI_Comm comm = MPI_COMM_WORLD) {
 
   comm_ = comm;
+  // keep the step of the restart, unless this is the same iteration
+  if(restart_iteration >= 0 && restart_iteration != iteration)
+    ++output_step;
+  restart_iteration = -1;
   int step = output_step++;
 
   int size, rank;
-- 
2.43.0


From 747a5c550c1959958ec279222145c8cd94da01bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 32/57] fix: FCC lattice repeated its first layer

---
 include/lattice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lattice.h b/include/lattice.h
index 97756b0..9e28894 100644
--- a/include/lattice.h
+++ b/include/lattice.h
@@ -275,7 +275,7 @@ generator_lattice_3d(const int lattice_type,
   }
   else if(lattice_type == 2) { // fcc lattice in 3D
     for(double z_p = zmin, zl = 0; z_p < zmax;
-        z_p += dz, zl = (zl + 1) * (zl < 3))
+        z_p += dz, zl = (zl + 1) * (zl < 2))
       for(double y_p = ymin - zl * dy / 3, yo = 0; y_p < ymax;
           y_p += dy, yo = 1 - yo)
         for(double x_p = xmin + (yo - zl) * dx / 2.; x_p < xmax; x_p += dx)
-- 
2.43.0


From fd7d642e8dad148906b747ce43c9584d50571b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 33/57] fix: random lattice never ended in a box away from the
 origin

---
 include/lattice.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/lattice.h b/include/lattice.h
index 9e28894..0b5d63e 100644
--- a/include/lattice.h
+++ b/include/lattice.h
@@ -48,6 +48,7 @@
 #include "density_profiles.h"
 #include "tree.h"
 #include "user.h"
+#include <chrono>
 #include <math.h>
 #include <random>
 #include <stdlib.h>
@@ -622,7 +623,14 @@ generator_random_lattice(const int lattice_type,
 
   // coordinate extents
   const double xmin = bbox_min[0], xmax = bbox_max[0];
+  const double ymin = bbox_min[1], ymax = bbox_max[1];
+  const double zmin = bbox_min[2], zmax = bbox_max[2];
   const double sphere_radius = (xmax - xmin) / 2.0;
+
+  // central point
+  const double x_c = 0.5 * (xmin + xmax);
+  const double y_c = 0.5 * (ymin + ymax);
+  const double z_c = 0.5 * (zmin + zmax);
   const double rho0 = density_profiles::spherical_density_profile(0);
 
   int npart = CU((2.0 * sphere_radius / sph_sep) + 1);
@@ -638,6 +646,9 @@ generator_random_lattice(const int lattice_type,
       double y_p = coord_gen(generator);
       double z_p = coord_gen(generator);
       double r = sqrt(SQ(x_p) + SQ(y_p) + SQ(z_p));
+      x_p += x_c;
+      y_p += y_c;
+      z_p += z_c;
 
       double rho_maximum = density_profiles::spherical_density_profile(0.0);
       std::uniform_real_distribution<double> density_gen(0., rho_maximum);
-- 
2.43.0


From 90ccf8b0cf0732db59925028956b0bf359e82948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 34/57] fix: density tables were read with single precision

---
 include/physics/density_profiles.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/physics/density_profiles.h b/include/physics/density_profiles.h
index 6f89ac2..4cb39b5 100644
--- a/include/physics/density_profiles.h
+++ b/include/physics/density_profiles.h
@@ -267,11 +267,11 @@ read_input_density_file(const char * ifname) {
        line.find_first_not_of(' ') == string::npos)
       continue;
     rad_grid[ln] = std::stod(line, &sz1);
-    rho_grid[ln] = std::stof(line.substr(sz1), &sz2);
+    rho_grid[ln] = std::stod(line.substr(sz1), &sz2);
     sz1 += sz2;
-    mass_grid[ln] = std::stof(line.substr(sz1), &sz2);
+    mass_grid[ln] = std::stod(line.substr(sz1), &sz2);
     sz1 += sz2;
-    drhodr_grid[ln] = std::stof(line.substr(sz1));
+    drhodr_grid[ln] = std::stod(line.substr(sz1));
 
     ln++;
   }
-- 
2.43.0


From 28c05ef95e1d82b95fa63b174b18d32dbbbb9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 35/57] fix: density tables were extrapolated, or read before
 their first entry

---
 include/physics/density_profiles.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/physics/density_profiles.h b/include/physics/density_profiles.h
index 4cb39b5..8baaa87 100644
--- a/include/physics/density_profiles.h
+++ b/include/physics/density_profiles.h
@@ -317,6 +317,8 @@ cubic_interp(const double x,
   const std::vector<double> & yp) {
   int i2 = get_interval_index(x, xp);
   const int N = xp.size();
+  if(i2 < 0 || i2 == N - 1)
+    return 0.;
   if(i2 == 0)
     i2 = 1;
   if(i2 > N - 3)
-- 
2.43.0


From eab934a0fbe011ce43f9c33d475f23d59909ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:36 +0000
Subject: [PATCH 36/57] fix: neighbour statistics read an empty list and kept
 old maxima

---
 include/diagnostic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diagnostic.h b/include/diagnostic.h
index 924d98b..6f8531a 100644
--- a/include/diagnostic.h
+++ b/include/diagnostic.h
@@ -46,7 +46,8 @@ double V_min, V_max, V_average;
 void
 compute_neighbors_stats(std::vector<body> & bodies, int64_t totalnbodies) {
 
-  N_min = bodies[0].getNeighbors();
+  N_min = std::numeric_limits<uint64_t>::max();
+  N_max = 0;
   uint64_t N_total = 0;
   for(auto & b : bodies) {
     uint64_t N = b.getNeighbors();
-- 
2.43.0


From ea4608bb94ebfaf4439b05d0c4ce165e753ae46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:36 +0000
Subject: [PATCH 37/57] fix: velocity statistics covered only the particles of
 one process

---
 include/diagnostic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/diagnostic.h b/include/diagnostic.h
index 6f8531a..6d0cd56 100644
--- a/include/diagnostic.h
+++ b/include/diagnostic.h
@@ -104,6 +104,9 @@ compute_velocity_stats(std::vector<body> & bodies, int64_t totalnbodies) {
     V_min = std::min(V, V_min);
     V_tot += V;
   }
+  reduce_sum(V_tot);
+  reduce_min(V_min);
+  reduce_max(V_max);
   V_average = V_tot / totalnbodies;
 }
 
-- 
2.43.0


From 66367af880eebd1c4fd3aba3ac738916150ce037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:36 +0000
Subject: [PATCH 38/57] fix: largest speed of particles at rest was not zero

---
 include/diagnostic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic.h b/include/diagnostic.h
index 6d0cd56..61d5a7b 100644
--- a/include/diagnostic.h
+++ b/include/diagnostic.h
@@ -76,7 +76,7 @@ compute_smoothinglength_stats(std::vector<body> & bodies,
   int64_t totalnbodies) {
   double h_total = 0.;
   h_min = std::numeric_limits<double>::max();
-  h_max = std::numeric_limits<double>::min();
+  h_max = 0.;
   for(auto & b : bodies) {
     double h = b.radius();
     h_total += h;
@@ -95,7 +95,7 @@ compute_smoothinglength_stats(std::vector<body> & bodies,
 void
 compute_velocity_stats(std::vector<body> & bodies, int64_t totalnbodies) {
   V_min = std::numeric_limits<double>::max();
-  V_max = std::numeric_limits<double>::min();
+  V_max = 0.;
   V_average = 0.;
   double V_tot = 0.;
   for(auto & b : bodies) {
-- 
2.43.0


From ed7a4631aea6eab0489ca6c02e1edf57abb1e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 39/57] fix: neighbour counts of five digits ran together in
 diagnostic.dat

---
 include/diagnostic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic.h b/include/diagnostic.h
index 61d5a7b..192f22b 100644
--- a/include/diagnostic.h
+++ b/include/diagnostic.h
@@ -149,8 +149,8 @@ output(body_system<double, gdimension> & bs, const int rank) {
   oss_data << std::setw(5) << physics::iteration << std::setw(20)
            << std::scientific << std::setprecision(12) << physics::totaltime
            << std::setw(20) << h_min << std::setw(20) << h_max << std::setw(20)
-           << h_average << std::setw(5) << N_min << std::setw(5) << N_max
-           << std::setw(5) << N_average << std::setw(20) << min_dist
+           << h_average << " " << std::setw(5) << N_min << " " << std::setw(5)
+           << N_max << " " << std::setw(5) << N_average << std::setw(20) << min_dist
            << std::setw(20) << average_dist_in_h << std::setw(20) << V_min
            << std::setw(20) << V_max << std::setw(20) << V_average
            << std::setw(20) << N_ghosts;
-- 
2.43.0


From 3ffb27448833e58071e4f715a598dd8389ec0f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:13 +0000
Subject: [PATCH 40/57] fix: failed mpi_assert did not abort

---
 mpisph/utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpisph/utils.h b/mpisph/utils.h
index 66bae10..20af835 100644
--- a/mpisph/utils.h
+++ b/mpisph/utils.h
@@ -35,8 +35,8 @@
 #define mpi_assert(assertion)                                                  \
   ((assertion) ? true                                                          \
                : (fprintf(stderr, "Failed assertion in %s in %d\n", __FILE__,  \
-                    __LINE__) &&                                               \
-                   fflush(stderr) && MPI_Abort(MPI_COMM_WORLD, 1)));
+                    __LINE__),                                                 \
+                   fflush(stderr), MPI_Abort(MPI_COMM_WORLD, 1)));
 
 namespace mpi_utils {
 
-- 
2.43.0


From 03e3e7d94a29b125bad90a5bbf861ec4c7914276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:13 +0000
Subject: [PATCH 41/57] fix: attributes of new particles were not initialised

---
 include/physics/body.h             | 56 +++++++++++++++---------------
 include/tree_topology/tree_types.h | 10 +++---
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/include/physics/body.h b/include/physics/body.h
index 82ab66b..258340a 100644
--- a/include/physics/body.h
+++ b/include/physics/body.h
@@ -219,36 +219,36 @@ public:
   }
 
 private:
-  point_t velocity_;
-  point_t velocityhalf_;
-  point_t acceleration_;
-  point_t g_acceleration_;
-  double g_potential_;
-  double density_;
-  double pressure_;
-  double entropy_;
-  double electronfraction_;
-  double temperature_;
-  double soundspeed_;
-  double internalenergy_;
-  double totalenergy_;
-  double dudt_;
-  double dedt_;
-  double adiabatic_;
-  double dadt_;
-  double dt_;
-  double alpha_;
-  double divergenceV_;
-  double dDivVdt_;
-  double trigger_;
-  double xi_;
-  double traceSS_;
-  double gradv_;
+  point_t velocity_ = {};
+  point_t velocityhalf_ = {};
+  point_t acceleration_ = {};
+  point_t g_acceleration_ = {};
+  double g_potential_ = 0.0;
+  double density_ = 0.0;
+  double pressure_ = 0.0;
+  double entropy_ = 0.0;
+  double electronfraction_ = 0.0;
+  double temperature_ = 0.0;
+  double soundspeed_ = 0.0;
+  double internalenergy_ = 0.0;
+  double totalenergy_ = 0.0;
+  double dudt_ = 0.0;
+  double dedt_ = 0.0;
+  double adiabatic_ = 0.0;
+  double dadt_ = 0.0;
+  double dt_ = 0.0;
+  double alpha_ = 0.0;
+  double divergenceV_ = 0.0;
+  double dDivVdt_ = 0.0;
+  double trigger_ = 0.0;
+  double xi_ = 0.0;
+  double traceSS_ = 0.0;
+  double gradv_ = 0.0;
   particle_type_t type_;
-  size_t neighbors_;
+  size_t neighbors_ = 0;
   state_t state_;
-  double pressuremin_;
-  double signalspeed_;
+  double pressuremin_ = 0.0;
+  double signalspeed_ = 0.0;
 }; // class body
 
 #endif // body_h
diff --git a/include/tree_topology/tree_types.h b/include/tree_topology/tree_types.h
index 4c7bbe4..5e41435 100644
--- a/include/tree_topology/tree_types.h
+++ b/include/tree_topology/tree_types.h
@@ -375,12 +375,12 @@ public:
   }
 
 protected:
-  point_t coordinates_;
-  element_t mass_;
-  size_t id_;
-  element_t radius_;
+  point_t coordinates_ = {};
+  element_t mass_ = 0;
+  size_t id_ = 0;
+  element_t radius_ = 0;
   key_t key_;
-  int owner_;
+  int owner_ = 0;
 }; // class entity
 
 } // namespace topology
-- 
2.43.0


From 9acf86ac0348fe3b71c4c210d8340e9d1601241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:13 +0000
Subject: [PATCH 42/57] fix: signal speed used sound speeds of the neighbours
 from the last step

---
 include/physics/default_physics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index abf7d13..9f74fdc 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -314,7 +314,6 @@ compute_density_pressure_soundspeed(body & particle,
     recover_internal_energy(particle);
   eos::compute_pressure(particle);
   eos::compute_soundspeed(particle);
-  compute_signalspeed(particle, nbs);
   if (sph_viscosity == visc_cullen)
     compute_divv(particle,nbs);
 }
@@ -405,6 +404,9 @@ compute_acceleration(body & particle, std::vector<body *> & nbs) {
   particle.setAcceleration(acc_a);
   particle.setGAcceleration(0);
   particle.setGPotential(0);
+
+  // the signal speed needs the sound speed of all the neighbors
+  compute_signalspeed(particle, nbs);
 } // compute_acceleration
 
 /**
-- 
2.43.0


From 791e95da76995cb3f70601ad69d60d1094df17fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:13 +0000
Subject: [PATCH 43/57] fix: signal speed depended on which particles without
 overlap the tree returned

---
 include/physics/default_physics.h | 9 +++++++--
 include/physics/viscosity.h       | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 9f74fdc..025c062 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -239,13 +239,15 @@ compute_signalspeed(body & particle, std::vector<body *> & nbs) {
   using namespace kernels;
   using namespace flecsi;
   // this particle (index 'a')
-  const double c_a = particle.getSoundspeed();
+  const double c_a = particle.getSoundspeed(),
+               h_a = particle.radius();
   const point_t pos_a = particle.coordinates(),
                   v_a = particle.getVelocity();
 
   // neighbor particles (index 'b')
   const int n_nb = nbs.size();
   double c_a_[n_nb];
+  bool interact_[n_nb];
   point_t pos_[n_nb], n_a_[n_nb], v_a_[n_nb];
 
   for(int b = 0; b < n_nb; ++b) {
@@ -254,11 +256,14 @@ compute_signalspeed(body & particle, std::vector<body *> & nbs) {
     n_a_[b] = (pos_a - pos_b)/distance(pos_a, pos_b);
     v_a_[b]   = v_a - nb->getVelocity();
     c_a_[b]   = std::max(c_a, nb->getSoundspeed());
+    // which other particles are found depends on the tree
+    interact_[b] = distance(pos_a, pos_b) < .5*(h_a + nb->radius());
   }
 
   double vsig = 0.0;
   for(int b = 0 ; b < n_nb; ++b){
-    vsig = std::max(vsig, c_a_[b] - std::min(dot(v_a_[b],n_a_[b]),0.0));
+    if(interact_[b])
+      vsig = std::max(vsig, c_a_[b] - std::min(dot(v_a_[b],n_a_[b]),0.0));
   }
 
   particle.setSignalspeed(vsig);
diff --git a/include/physics/viscosity.h b/include/physics/viscosity.h
index db48163..76d559a 100644
--- a/include/physics/viscosity.h
+++ b/include/physics/viscosity.h
@@ -327,6 +327,7 @@ compute_alpha(body & particle, std::vector<body *> & nbs) {
   // neighbor particles (index 'b')
   const int n_nb = nbs.size();
   double h_[n_nb], m_[n_nb], c_a_[n_nb], rho_[n_nb];
+  bool interact_[n_nb];
   point_t pos_[n_nb], n_a_[n_nb], v_a_[n_nb], DiWab;
 
   for(int b = 0; b < n_nb; ++b) {
@@ -338,12 +339,15 @@ compute_alpha(body & particle, std::vector<body *> & nbs) {
     c_a_[b]   = std::max(c_a, nb->getSoundspeed());
     h_[b]    = nb->radius();
     m_[b]    = nb->mass();
+    // which other particles are found depends on the tree
+    interact_[b] = distance(pos_a, pos_[b]) < .5*(h_a + h_[b]);
   }
 
   // compute signal velocity
   double vsig = 0.0;
   for(int b = 0 ; b < n_nb; ++b){
-    vsig = std::max(vsig, c_a_[b] - std::min(dot(v_a_[b],n_a_[b]),0.0));
+    if(interact_[b])
+      vsig = std::max(vsig, c_a_[b] - std::min(dot(v_a_[b],n_a_[b]),0.0));
   }
 
   double div_v = particle.getDivergenceV();
-- 
2.43.0


From 7a8cc5aad918de779644e2c202a8a62e646f5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:13 +0000
Subject: [PATCH 44/57] fix: adaptive viscosity used attributes of remote
 neighbours from before the density

---
 app/drivers/hydro/main_driver.cc     | 2 ++
 app/drivers/newtonian/main_driver.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index 5729301..7b5f0a0 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -120,6 +120,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        bs.reset_ghosts(); // density, sound speed and div v of the neighbors
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
@@ -194,6 +195,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "compute adaptive viscosity" << std::endl;
+        bs.reset_ghosts(); // density, sound speed and div v of the neighbors
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index c632886..272b878 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -127,6 +127,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        bs.reset_ghosts(); // density, sound speed and div v of the neighbors
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
@@ -209,6 +210,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        bs.reset_ghosts(); // density, sound speed and div v of the neighbors
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
-- 
2.43.0


From e03b2f825acd5e710df14a4092273edce3caff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:13 +0000
Subject: [PATCH 45/57] fix: adaptive viscosity was not a number without
 compression and signal

---
 include/physics/viscosity.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/physics/viscosity.h b/include/physics/viscosity.h
index 76d559a..1c8644c 100644
--- a/include/physics/viscosity.h
+++ b/include/physics/viscosity.h
@@ -352,8 +352,10 @@ compute_alpha(body & particle, std::vector<body *> & nbs) {
 
   double div_v = particle.getDivergenceV();
   double Atrig = A_trigger(particle, nbs, div_v);
-  double alpha_loc = sph_viscosity_alpha_max 
-                   * Atrig / (sph_viscosity_delta*SQ(vsig/h_a) + Atrig);
+  double alpha_loc = 0.0; // no compression (0/0 if there is no signal either)
+  if (Atrig != 0.0)
+    alpha_loc = sph_viscosity_alpha_max 
+              * Atrig / (sph_viscosity_delta*SQ(vsig/h_a) + Atrig);
 
   if (alpha_a <= alpha_loc) {
     particle.setAlpha(alpha_loc);
-- 
2.43.0


From 0aa5a2b8ca0a738ab6bd40d6b6ccc1eccc4fb555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:13 +0000
Subject: [PATCH 46/57] fix: internal energy written with the total energy
 formulation was half a step old

---
 app/drivers/hydro/main_driver.cc     | 1 +
 app/drivers/newtonian/main_driver.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index 7b5f0a0..a75fd42 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -228,6 +228,7 @@ mpi_init_task(const char * parameter_file) {
           }
 
           bs.apply_all(integration::leapfrog_kick_e);
+          bs.apply_all(physics::recover_internal_energy);
         }
         else {
           for (int m=1; m<=pressure_updates_number;++m) { // 1 or 2 passes
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index 272b878..e81bcdc 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -247,6 +247,7 @@ mpi_init_task(const char * parameter_file) {
           }
 
           bs.apply_all(integration::leapfrog_kick_e);
+          bs.apply_all(physics::recover_internal_energy);
         }
         else {
           for (int m=1; m<=pressure_updates_number;++m) { // 1 or 2 passes
-- 
2.43.0


From 121af154ce087dd268ae7df64479b8887a8abfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:13 +0000
Subject: [PATCH 47/57] fix: output times after a restart started from
 initial_time

---
 app/drivers/hydro/main_driver.cc     |  2 ++
 app/drivers/newtonian/main_driver.cc |  2 ++
 include/physics/analysis.h           | 27 +++++++++++++++++++--------
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index a75fd42..b0c5093 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -92,6 +92,8 @@ mpi_init_task(const char * parameter_file) {
   // read input file and initialize equation of state
   body_system<double, gdimension> bs;
   bs.read_bodies(initial_data_prefix, output_h5data_prefix, initial_iteration);
+  // the time may have been read from the input file
+  analysis::set_output_times();
 
   MPI_Barrier(MPI_COMM_WORLD);
 
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index e81bcdc..afcedd9 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -96,6 +96,8 @@ mpi_init_task(const char * parameter_file) {
   // read input file and initialize equation of state
   body_system<double, gdimension> bs;
   bs.read_bodies(initial_data_prefix, output_h5data_prefix, initial_iteration);
+  // the time may have been read from the input file
+  analysis::set_output_times();
   bs.setMacangle(param::fmm_macangle);
 
   MPI_Barrier(MPI_COMM_WORLD);
diff --git a/include/physics/analysis.h b/include/physics/analysis.h
index af312ac..7afc6cb 100644
--- a/include/physics/analysis.h
+++ b/include/physics/analysis.h
@@ -215,19 +215,13 @@ compute_total_ang_mom(std::vector<body> & bodies) {
 
 
 /**
- * @brief Initialize output times
+ * @brief Initialize output times from the current time
  */
 void
-set_initial_time_iteration() {
+set_output_times() {
   using namespace param;
   using namespace physics;
 
-  // iteration and time
-  iteration = initial_iteration;
-  totaltime = initial_time;
-  dt = initial_dt;
-  dt_saved = 0.0;
-
   if (out_screen_dt > 0.0) { // set next screen output time
     t_screen_output = out_screen_dt*((int64_t)(totaltime/out_screen_dt));
     if (t_screen_output < totaltime)
@@ -248,6 +242,23 @@ set_initial_time_iteration() {
 
 }
 
+/**
+ * @brief Initialize time, iteration and output times
+ */
+void
+set_initial_time_iteration() {
+  using namespace param;
+  using namespace physics;
+
+  // iteration and time
+  iteration = initial_iteration;
+  totaltime = initial_time;
+  dt = initial_dt;
+  dt_saved = 0.0;
+
+  set_output_times();
+}
+
 
 /**
  * @brief Rolling screen output
-- 
2.43.0


From 11a733a4d886701a79bbf9a2695d87c10f18858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:13 +0000
Subject: [PATCH 48/57] fix: half step pressure took self-gravity and external
 forces for heating

---
 include/physics/default_physics.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 025c062..cb6ff67 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -172,8 +172,10 @@ recompute_pressure_soundspeed_thermokinetic(body& particle) {
   const double dedt = particle.getDedt();
   recover_internal_energy(particle);
   const double uint = particle.getInternalenergy();
-  const point_t & v_a = particle.getVelocity();
-  const point_t & a_a = particle.getAcceleration();
+  const point_t v_a = particle.getVelocity();
+  // the work of external forces is in the total energy already
+  const point_t a_a = particle.getAcceleration() + particle.getGAcceleration()
+                    - external_force::acceleration(particle);
   const double v_dot_a = flecsi::dot(v_a, a_a);
   particle.setInternalenergy(uint + 0.5*dt*(dedt - v_dot_a));
   eos::compute_pressure(particle);
-- 
2.43.0


From db2773afc233a136f7aaabd8a01237a2a4bcd90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 49/57] fix: masses of the shock tube with equal separation
 ignored the volume

---
 app/id_generators/sodtube/main.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/app/id_generators/sodtube/main.cc b/app/id_generators/sodtube/main.cc
index 10a8754..54dd785 100644
--- a/app/id_generators/sodtube/main.cc
+++ b/app/id_generators/sodtube/main.cc
@@ -216,17 +216,13 @@ main(int argc, char * argv[]) {
 
   // allocate arrays
   int64_t tparticles = 0;
-  int64_t parts_mid = 0;
-  int64_t parts_lr = 0;
   double mass = 0;
   bool equal_separation = !equal_mass;
   if(equal_separation) {
     tparticles = particle_lattice::count(lattice_type, domain_type, 
       cbox_min, cbox_max, sph_separation, 0);
-    parts_mid = tparticles;
     tparticles += particle_lattice::count(lattice_type, domain_type,
       rbox_min, rbox_max, sph_separation, tparticles - 1);
-    parts_lr = tparticles - parts_mid;
     tparticles += particle_lattice::count(lattice_type, domain_type,
       lbox_min, lbox_max, sph_separation, tparticles - 1);
   }
@@ -491,6 +487,14 @@ main(int argc, char * argv[]) {
   double timestep = 0.5 * sph_separation / cs;
 
   if(equal_separation) {
+    // volume per particle
+    double cell_volume = pow(sph_separation, gdimension);
+    if(lattice_type == 1 or lattice_type == 2) {
+      if(gdimension == 2)
+        cell_volume *= sqrt(3.0) / 2.0;
+      if(gdimension == 3)
+        cell_volume *= 1.0 / sqrt(2.0);
+    }
     for(int64_t part = 0; part < tparticles; ++part) {
       id[part] = posid++;
       if(particle_lattice::in_domain_1d(
@@ -498,13 +502,13 @@ main(int argc, char * argv[]) {
         P[part] = pressure_1;
         rho[part] = rho_1;
         vx[part] = vx_1;
-        m[part] = rho[part] / (double)parts_mid;
+        m[part] = rho[part] * cell_volume;
       }
       else {
         P[part] = pressure_2;
         rho[part] = rho_2;
         vx[part] = vx_2;
-        m[part] = rho[part] / (double)parts_lr;
+        m[part] = rho[part] * cell_volume;
       }
 
       // compute internal energy using gamma-law eos
-- 
2.43.0


From 2d9c73344ff91ab081ab81faaf5d2a8c61291faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 50/57] fix: wind tunnel generator wrote an estimated number of
 particles and masses without the volume

---
 app/id_generators/wtunnel/main.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/app/id_generators/wtunnel/main.cc b/app/id_generators/wtunnel/main.cc
index 00d32fa..8c49306 100644
--- a/app/id_generators/wtunnel/main.cc
+++ b/app/id_generators/wtunnel/main.cc
@@ -160,6 +160,13 @@ main(int argc, char * argv[]) {
   tparticles = particle_lattice::generate(
     lattice_type, 0, cbox_min, cbox_max, sph_separation, 0, x, y, z);
 
+  SET_PARAM(nparticles, tparticles);
+
+  // total mass of the flow
+  double total_mass = rho_initial * box_length * box_width;
+  if(gdimension > 2)
+    total_mass *= box_height;
+
   // particle id number
   int64_t posid = 0;
 
@@ -174,7 +181,7 @@ main(int argc, char * argv[]) {
     P[part] = pressure_initial;
     rho[part] = rho_initial;
     vx[part] = -flow_velocity;
-    m[part] = rho_initial / (double)tparticles;
+    m[part] = total_mass / (double)tparticles;
 
     // compute internal energy using gamma-law eos
     u[part] = pressure_initial / (poly_gamma - 1.) / rho_initial;
-- 
2.43.0


From 1e0f9f8e4b7777848ae511ec6bcc419052636537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 51/57] fix: periodic z of the RT generator was adjusted from
 the length of the box

---
 app/id_generators/RT/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/id_generators/RT/main.cc b/app/id_generators/RT/main.cc
index 325d642..3a6f9fd 100644
--- a/app/id_generators/RT/main.cc
+++ b/app/id_generators/RT/main.cc
@@ -156,7 +156,7 @@ set_derived_params() {
 
   // adjust domain height
   if(gdimension >= 3 and periodic_boundary_z) {
-    int Nz = (int)(box_length / dz) - 1;
+    int Nz = (int)(box_height / dz) - 1;
     for(int k = Nz; k < Nz * 100; ++k) {
       double w2 = floor(k * dz / dz_t + b_tol) * dz_t;
       if(fabs(w2 - k * dz) < lattice_mismatch_tolerance * dz_t) {
-- 
2.43.0


From d8cb14c48a719cd31a40e7065c83914b5f482ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 52/57] fix: energy of the outer shell of the implosion did not
 begin at its inner value

---
 app/id_generators/implosion/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/id_generators/implosion/main.cc b/app/id_generators/implosion/main.cc
index 2d8483c..72dbf55 100644
--- a/app/id_generators/implosion/main.cc
+++ b/app/id_generators/implosion/main.cc
@@ -189,7 +189,7 @@ main(int argc, char * argv[]) {
   double u_10 = 1.e4;
   double u_08 = 1.0;
   double slope = (u_10 - u_08) / (1.0 * sphere_radius - 0.8 * sphere_radius);
-  double yint = 1.0 * sphere_radius - slope * 0.8 * sphere_radius;
+  double yint = u_08 - slope * 0.8 * sphere_radius;
 
   // Assign density, pressure, etc. to particles
   for(int64_t part = 0; part < nparticles; ++part) {
-- 
2.43.0


From 74f8219a0fe5a792de88b191a183164b82f7a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 53/57] fix: initial data generators wrote all particles once
 per process

---
 app/id_generators/KH/main.cc        | 30 ++++++++++++++++-------------
 app/id_generators/RT/main.cc        | 30 ++++++++++++++++-------------
 app/id_generators/collapse/main.cc  | 30 ++++++++++++++++-------------
 app/id_generators/fluid/main.cc     | 30 ++++++++++++++++-------------
 app/id_generators/implosion/main.cc | 30 ++++++++++++++++-------------
 app/id_generators/sodtube/main.cc   | 30 ++++++++++++++++-------------
 app/id_generators/wtunnel/main.cc   | 30 ++++++++++++++++-------------
 7 files changed, 119 insertions(+), 91 deletions(-)

diff --git a/app/id_generators/KH/main.cc b/app/id_generators/KH/main.cc
index 39f72f4..2ac71f2 100644
--- a/app/id_generators/KH/main.cc
+++ b/app/id_generators/KH/main.cc
@@ -375,7 +375,9 @@ main(int argc, char * argv[]) {
   } // for part=0..nparticles
 
   // delete the output file if exists
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
 
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
@@ -387,21 +389,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  // all ranks hold the same particles: only the first one writes them
+  int64_t nwrite = rank == 0 ? nparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
 
diff --git a/app/id_generators/RT/main.cc b/app/id_generators/RT/main.cc
index 3a6f9fd..54a9b70 100644
--- a/app/id_generators/RT/main.cc
+++ b/app/id_generators/RT/main.cc
@@ -344,7 +344,9 @@ main(int argc, char * argv[]) {
   } // for part=0..nparticles
 
   // delete the output file if exists
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
 
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
@@ -356,21 +358,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  // all ranks hold the same particles: only the first one writes them
+  int64_t nwrite = rank == 0 ? nparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
 
diff --git a/app/id_generators/collapse/main.cc b/app/id_generators/collapse/main.cc
index 74fa045..c0cef74 100644
--- a/app/id_generators/collapse/main.cc
+++ b/app/id_generators/collapse/main.cc
@@ -193,7 +193,9 @@ main(int argc, char * argv[]) {
   log_one(info) << "Number of particles: " << nparticles << std::endl;
 
   // remove the previous file
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
 
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
@@ -205,21 +207,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  // all ranks hold the same particles: only the first one writes them
+  int64_t nwrite = rank == 0 ? nparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
 
diff --git a/app/id_generators/fluid/main.cc b/app/id_generators/fluid/main.cc
index 4d72af2..92cfb41 100644
--- a/app/id_generators/fluid/main.cc
+++ b/app/id_generators/fluid/main.cc
@@ -203,7 +203,9 @@ main(int argc, char * argv[]) {
   } // for part=0..nparticles
 
   // delete the output file if exists
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
 
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
@@ -215,21 +217,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  // all ranks hold the same particles: only the first one writes them
+  int64_t nwrite = rank == 0 ? nparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
 
diff --git a/app/id_generators/implosion/main.cc b/app/id_generators/implosion/main.cc
index 72dbf55..7c19df0 100644
--- a/app/id_generators/implosion/main.cc
+++ b/app/id_generators/implosion/main.cc
@@ -209,7 +209,9 @@ main(int argc, char * argv[]) {
 
   log_one(info) << "Number of particles: " << nparticles << std::endl;
   // remove the previous file
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
   int use_fixed_timestep = 1;
@@ -220,21 +222,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  // all ranks hold the same particles: only the first one writes them
+  int64_t nwrite = rank == 0 ? nparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
     delete[]  x; 
diff --git a/app/id_generators/sodtube/main.cc b/app/id_generators/sodtube/main.cc
index 54dd785..9cb5a9e 100644
--- a/app/id_generators/sodtube/main.cc
+++ b/app/id_generators/sodtube/main.cc
@@ -547,7 +547,9 @@ main(int argc, char * argv[]) {
   log_one(info) << "Actual number of particles: " << tparticles << std::endl
                 << std::flush;
   // delete the output file if exists
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
   int use_fixed_timestep = 1;
@@ -558,21 +560,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(tparticles);
+  // all ranks hold the same particles: only the first one writes them
+  int64_t nwrite = rank == 0 ? tparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, tparticles);
-  H5P_writeDataset(dataFile, "y", y, tparticles);
-  H5P_writeDataset(dataFile, "z", z, tparticles);
-  H5P_writeDataset(dataFile, "vx", vx, tparticles);
-  H5P_writeDataset(dataFile, "vy", vy, tparticles);
-  H5P_writeDataset(dataFile, "h", h, tparticles);
-  H5P_writeDataset(dataFile, "rho", rho, tparticles);
-  H5P_writeDataset(dataFile, "u", u, tparticles);
-  H5P_writeDataset(dataFile, "P", P, tparticles);
-  H5P_writeDataset(dataFile, "m", m, tparticles);
-  H5P_writeDataset(dataFile, "id", id, tparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
 
diff --git a/app/id_generators/wtunnel/main.cc b/app/id_generators/wtunnel/main.cc
index 8c49306..408d9bf 100644
--- a/app/id_generators/wtunnel/main.cc
+++ b/app/id_generators/wtunnel/main.cc
@@ -193,7 +193,9 @@ main(int argc, char * argv[]) {
 
   log_one(info) << "Actual number of particles: " << tparticles << std::endl;
   // delete the output file if exists
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
   int use_fixed_timestep = 1;
@@ -204,21 +206,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  // all ranks hold the same particles: only the first one writes them
+  int64_t nwrite = rank == 0 ? nparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
   delete[]  x; 
-- 
2.43.0


From 8279a616fc79cf59bd601666042048c5219c0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 54/57] fix: blast energy deposited on given particles used the
 mass of generated ones

---
 app/id_generators/sedov/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/id_generators/sedov/main.cc b/app/id_generators/sedov/main.cc
index c54b381..c2ca8c3 100644
--- a/app/id_generators/sedov/main.cc
+++ b/app/id_generators/sedov/main.cc
@@ -239,7 +239,7 @@ main(int argc, char * argv[]) {
     double r = magnitude(particle.coordinates());
     if(r < sedov_blast_radius) {
       particles_blast++;
-      mass_blast += mass_particle;
+      mass_blast += modify_initial_data ? particle.mass() : mass_particle;
     }
   }
 
-- 
2.43.0


From 5c43c89b386889635430f387d75d10c654acbcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 55/57] fix: sedov and noh masses in a sphere ignored its
 volume and density profile

---
 app/id_generators/noh/main.cc   | 9 +++++++--
 app/id_generators/sedov/main.cc | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/app/id_generators/noh/main.cc b/app/id_generators/noh/main.cc
index c30e72a..c75c1e6 100644
--- a/app/id_generators/noh/main.cc
+++ b/app/id_generators/noh/main.cc
@@ -87,13 +87,18 @@ set_derived_params() {
 
   // total mass
   if constexpr(gdimension == 1) {
-    total_mass = rho_initial * box_length;
+    if(domain_type == 0) // a box
+      total_mass = rho_initial * box_length;
+    else if(domain_type == 1) // a sphere
+      total_mass = rho_initial * sphere_radius /
+                   density_profiles::spherical_density_profile(0.0);
   }
   if constexpr(gdimension == 2) {
     if(domain_type == 0) // a box
       total_mass = rho_initial * box_length * box_width;
     else if(domain_type == 1) // a circle
-      total_mass = rho_initial * M_PI * SQ(sphere_radius);
+      total_mass = rho_initial * SQ(sphere_radius) /
+                   density_profiles::spherical_density_profile(0.0);
   }
   if constexpr(gdimension == 3) {
     if(domain_type == 0) { // a box
diff --git a/app/id_generators/sedov/main.cc b/app/id_generators/sedov/main.cc
index c2ca8c3..558e9d5 100644
--- a/app/id_generators/sedov/main.cc
+++ b/app/id_generators/sedov/main.cc
@@ -108,13 +108,18 @@ set_derived_params() {
 
   // total mass
   if constexpr(gdimension == 1) {
-    total_mass = rho_initial * box_length;
+    if(domain_type == 0) // a box
+      total_mass = rho_initial * box_length;
+    else if(domain_type == 1) // a sphere
+      total_mass = rho_initial * sphere_radius /
+                   density_profiles::spherical_density_profile(0.0);
   }
   if constexpr(gdimension == 2) {
     if(domain_type == 0) // a box
       total_mass = rho_initial * box_length * box_width;
     else if(domain_type == 1) // a circle
-      total_mass = rho_initial * M_PI * SQ(sphere_radius);
+      total_mass = rho_initial * SQ(sphere_radius) /
+                   density_profiles::spherical_density_profile(0.0);
   }
   if constexpr(gdimension == 3) {
     if(domain_type == 0) { // a box
-- 
2.43.0


From 61ec7825a02da02a65c8b84a600edc32b2a6ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:02 +0000
Subject: [PATCH 56/57] fix: mirror images in the diehl relaxation depended on
 particles the tree happened to return

---
 include/physics/wvt.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/physics/wvt.h b/include/physics/wvt.h
index c5544ef..dfe64e5 100644
--- a/include/physics/wvt.h
+++ b/include/physics/wvt.h
@@ -305,6 +305,9 @@ wvt_acceleration_diehl(body & particle, std::vector<body *> & nbs) {
         double W_abt = std::max(W_ab, 0.0);
         acc_a += (h_a * W_abt) * (pos_a - pos_b) / r_ab;
       }
+      // Farther particles are given or not depending on the tree
+      if(r_ab > h_ab)
+        continue;
       if(boost::iequals(wvt_boundary, "reflective")) {
         // If particle sees the edge, interact with mirror particles
         if((r_a + h_a) > boundary) {
-- 
2.43.0


From 1cbab2c2962dcaba324469c29c1f434cc0bee18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:02 +0000
Subject: [PATCH 57/57] fix: infinite smoothing length where the target density
 of the relaxation is zero

---
 include/physics/wvt.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/physics/wvt.h b/include/physics/wvt.h
index dfe64e5..5966d74 100644
--- a/include/physics/wvt.h
+++ b/include/physics/wvt.h
@@ -591,6 +591,9 @@ wvt_set_density(body & source) {
   double rho = (param::rho_initial) / rho0 *
                density_profiles::spherical_density_profile(r / sphere_radius);
   double h = sph_eta * kernels::kernel_width * pow(mass / rho, 1. / gdimension);
+  if(rho == 0.0) {
+    h = sphere_radius;
+  }
   source.set_radius(h);
   source.setDensity(rho);
 }
-- 
2.43.0

