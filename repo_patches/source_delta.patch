From b65789915903a41b3678aff33da02983d4531a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:49 +0000
Subject: [PATCH 01/22] fix: do not lose cells of a singular coarse cell moved
 only in part

When a singular coarse cell has several fine cells and one of them touches
only the others, that one was left with the number of the erased coarse
cell. Go on until the cells that can be moved have been moved, and erase
the coarse cell only when it is empty.
---
 include/CoMMA/Coarse_Cell_Container.h | 37 +++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index d03e516..9bf3a5f 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -202,22 +202,39 @@ Not used anymore but we leave it for example purposes
         if (!should_remove) {
           // If here, we could not agglomerate the whole cell, hence we look
           // fine cell by fine cell
-          for (const auto &[i_fc, neighs] : neighs_by_fc) {
-            if (!neighs.empty()) {
+          bool has_moved = true;
+          while (has_moved && !neighs_by_fc.empty()) {
+            has_moved = false;
+            for (auto it = neighs_by_fc.begin(); it != neighs_by_fc.end();) {
+              const auto i_fc = it->first;
+              const auto &neighs = it->second;
+              std::optional<CoMMAIndexType> new_cc = std::nullopt;
               std::optional<CoMMAIntType> new_compactness = std::nullopt;
-              const auto new_cc = select_best_cc_to_agglomerate(
-                i_fc, neighs, max_card, new_compactness
-              );
+              if (!neighs.empty()) {
+                new_cc = select_best_cc_to_agglomerate(
+                  i_fc, neighs, max_card, new_compactness
+                );
+              }
+              // If the cell has no neighbour (this could happen when the
+              // partitioning does not give a connected partition),
+              // unfortunately, there is nothing that we can do. We just skip it
               if (new_cc.has_value()) {
                 _fc_2_cc[i_fc] = new_cc.value();
                 _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
-                should_remove = true;
-              }
+                cur_cc->_s_fc.erase(i_fc);
+                --cur_cc->_cardinality;
+                has_moved = true;
+                it = neighs_by_fc.erase(it);
+              } else
+                ++it;
+            }
+            // A cell touching only cells of the same coarse cell can follow
+            // those that have just been moved
+            for (auto &[i_fc, neighs] : neighs_by_fc) {
+              neighs = get_neighs_cc(i_fc, old_cc);
             }
-            // If the cell has no neighbour (this could happen when the
-            // partitioning does not give a connected partition), unfortunately,
-            // there is nothing that we can do. We just skip it
           }
+          should_remove = cur_cc->_s_fc.empty();
         }
 
         if (should_remove) {
-- 
2.43.0


From b1f4ab3517fd100768fe9c7bbdd7b544de6f0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:57 +0000
Subject: [PATCH 02/22] fix: let the one-point initialisation find a seed among
 priorities <= 0

The search for the highest priority started from the smallest positive
value, hence no cell was found when no priority was positive and an
out-of-range index was used as seed.
---
 include/CoMMA/Seeds_Pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index 3d6cfd7..be7ef40 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -173,7 +173,7 @@ struct SPOnePointInitializator :
   ) override {
     CoMMAPairType cur_max{
       std::numeric_limits<CoMMAIndexType>::max(),
-      std::numeric_limits<CoMMAWeightType>::min()
+      std::numeric_limits<CoMMAWeightType>::lowest()
     };
     const CustomPairGreaterFunctor<CoMMAPairType> comp_op{};
     for (auto i_fc = decltype(n_bnd_faces.size()){0}; i_fc < n_bnd_faces.size();
-- 
2.43.0


From dbf8347192f2fb3818ee94136daa4941cd639789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:16 +0000
Subject: [PATCH 03/22] fix: honour the maximum number of cells in a line at
 its end

With odd lines allowed, a line with exactly two cells left one short of
the limit was read past its end, and the last three cells of a line were
grouped even when only two of them fitted in the limit.
---
 include/CoMMA/Agglomerator.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 3e5bf64..91d3d25 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -356,12 +356,13 @@ public:
             this->_fc_graph->neighbours_cbegin(*std::next(line_it)),
             this->_fc_graph->neighbours_cend(*std::next(line_it))
           );
-          if (
-            std::distance(line_it, end) == 3
-            || (
-              this->_max_cells_in_line.has_value()
-              && n_cells + 1 == this->_max_cells_in_line.value())) {
-            if (this->_odd_line_length) {
+          const auto n_left = std::distance(line_it, end);
+          if (n_left == 3
+              || (n_left > 3 && this->_max_cells_in_line.has_value()
+                  && n_cells + 1 == this->_max_cells_in_line.value())) {
+            if (this->_odd_line_length
+                && (!this->_max_cells_in_line.has_value()
+                    || n_cells < this->_max_cells_in_line.value())) {
               // If only three cells left, agglomerate them
               s_fc.insert(*std::next(line_it, 2));
               n_cells++;
-- 
2.43.0


From 46067dc24c8eec2836742550b6783d956d56d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:08 +0000
Subject: [PATCH 04/22] fix: sum the weights of the faces themselves in the
 coarse graph

---
 include/CoMMA/Util.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 0aa7ba6..7105209 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -495,7 +495,8 @@ void build_coarse_graph(
           const auto cc_neigh = f2c[*fc_neigh];
           // Add if not yet present
           cc_neighs.try_emplace(cc_neigh, 0.0);
-          cc_neighs.at(cc_neigh) += f_weights[*fc_neigh];
+          cc_neighs.at(cc_neigh) +=
+            f_weights[std::distance(f_adj.cbegin(), fc_neigh)];
         }
       }  // for fc_neigh
     }  // for fc
-- 
2.43.0


From 818d83d6719ffa2294074714e57018c20d704ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:27 +0000
Subject: [PATCH 05/22] fix: take the maximum of negative priorities in the
 coarse graph

---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 7105209..70e48c6 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -482,7 +482,7 @@ void build_coarse_graph(
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
       c_centers[cc][xyz] *= ov_n_fc;
     auto n_bnd = std::numeric_limits<IntT>::min();
-    auto priority = std::numeric_limits<RealT>::min();
+    auto priority = std::numeric_limits<RealT>::lowest();
     std::map<IndexT, RealT> cc_neighs;
     for (const auto fc : fcs) {
       if (f_n_bnd[fc] > n_bnd) n_bnd = f_n_bnd[fc];
-- 
2.43.0


From 7348e39d7d2e5482c23e08fedb7e833d8f1e08b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:45 +0000
Subject: [PATCH 06/22] fix: divide by the total volume when averaging coarse
 centers

---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 70e48c6..64d087c 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -477,10 +477,10 @@ void build_coarse_graph(
   }  // for fc
   for (auto cc = decltype(n_cells){0}; cc < n_cells; ++cc) {
     const auto &fcs = c2f[cc];
-    const RealT ov_n_fc(RealT{1.} / fcs.size());
+    const RealT ov_volume(RealT{1.} / c_volumes[cc]);
     // Finishing center
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
-      c_centers[cc][xyz] *= ov_n_fc;
+      c_centers[cc][xyz] *= ov_volume;
     auto n_bnd = std::numeric_limits<IntT>::min();
     auto priority = std::numeric_limits<RealT>::lowest();
     std::map<IndexT, RealT> cc_neighs;
-- 
2.43.0


From 723086d42fb6ba5568b286f6d9ed91827f7e6f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:03 +0000
Subject: [PATCH 07/22] fix: ignore non-positive values when filtering cells by
 number of edges

---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 64d087c..95c6f9e 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -326,10 +326,10 @@ inline void filter_cells_by_n_edges(
     const auto n_cells = static_cast<IndexT>(n_bnd_faces.size());
     filtered.reserve(n_cells);
     for (auto c = decltype(n_cells){0}; c < n_cells; ++c) {
-      if (allowed.find(
+      if (target.find(
             static_cast<IntT>(indices[c + 1] - indices[c] + n_bnd_faces[c])
           )
-          != allowed.end())
+          != target.end())
         filtered.emplace_back(c);
     }
     filtered.shrink_to_fit();
-- 
2.43.0


From 60123a53a6f7bb78a77cf9a0e0941c940b5a2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:11 +0000
Subject: [PATCH 08/22] fix: keep a subgraph consistent when inserting a node

---
 include/CoMMA/Dual_Graph.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 3aa4d1e..80d67e1 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -404,21 +404,21 @@ public:
     // Use the mapping
     // local vector of neighbourhood
     ContainerIndexType v_l_neigh{};
+    // weights of the faces shared with the local neighbours
+    ContainerWeightType l_weight{};
     // @todo this solution clearly help in the connection of the subnode BUT can
     // bring to instability and errors.
-    for (const auto &elem : v_neigh) {
+    for (auto i = decltype(v_neigh.size()){0}; i < v_neigh.size(); ++i) {
       const auto low1 =
-        std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), elem);
+        std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), v_neigh[i]);
       if (low1 != _mapping_l_to_g.end()) {
         v_l_neigh.push_back(low1 - _mapping_l_to_g.begin());
+        l_weight.push_back(weight[i]);
       }
     }
     // variable to add weight for each face
     CoMMAIntType iter_weight = 0;
     CoMMAIndexType local_index = this->_m_CRS_Row_Ptr.size() - 1;
-    // initialization pointers for insertion, pointing to the first element of
-    // each
-    auto row_end = this->_m_CRS_Row_Ptr.end() - 1;
 
     // cycle on the set of neighbours
     for (const auto &elem : v_l_neigh) {
@@ -431,11 +431,11 @@ public:
       );
       this->_m_CRS_Values.insert(
         this->_m_CRS_Values.begin() + this->_m_CRS_Row_Ptr[elem],
-        weight[iter_weight]
+        l_weight[iter_weight]
       );
       // We modify the row pointer as far it is related with what we have done
       // before
-      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem;
+      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem + 1;
            it != this->_m_CRS_Row_Ptr.end();
            ++it) {
         ++(*it);
@@ -443,12 +443,12 @@ public:
       // we do the same.
       this->_m_CRS_Col_Ind.insert(this->_m_CRS_Col_Ind.end(), elem);
       this->_m_CRS_Values.insert(
-        this->_m_CRS_Values.end(), weight[iter_weight]
+        this->_m_CRS_Values.end(), l_weight[iter_weight]
       );
       // We increment the weight flag iterator
       ++iter_weight;
     }
-    this->_m_CRS_Row_Ptr.push_back(*row_end + v_neigh.size());
+    this->_m_CRS_Row_Ptr.push_back(this->_m_CRS_Col_Ind.size());
     this->_volumes.push_back(volume);
     _mapping_l_to_g.push_back(i_fc);
   }
-- 
2.43.0


From 2f682f56aee506a5aae20735b69a9c59eee98eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:30 +0000
Subject: [PATCH 09/22] fix: remove a subgraph node together with its faces
 only

---
 include/CoMMA/Dual_Graph.h | 88 +++++++++-----------------------------
 1 file changed, 21 insertions(+), 67 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 80d67e1..26bd3f6 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -462,75 +462,29 @@ public:
     auto low =
       std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), elemento);
     const CoMMAIndexType i_fc = low - _mapping_l_to_g.begin();
-    // Getting neighbours, store them before erasing
-    ContainerIndexType v_neigh = this->get_neighbours(i_fc);
-
-    // weight iterator for erasing in the weight vector
-    auto pos_col = this->_m_CRS_Col_Ind.begin();
-    auto pos_Values = this->_m_CRS_Values.begin();
-    for (const auto &elem : v_neigh) {
-      CoMMAIndexType ind = this->_m_CRS_Row_Ptr[elem];
-      CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[elem + 1];
-      // Constant to keep track and erase the weight
-      for (auto it = pos_col + ind; it != pos_col + ind_p_one; ++it) {
-        if (*it == i_fc) {
-          this->_m_CRS_Col_Ind.erase(it);
-          // define the exact position of the element for the processing of the
-          // weight later.
-          this->_m_CRS_Values.erase(pos_Values + (it - pos_col));
-          // for each found i decrease the successive of 1 for the offset
-          for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + elem + 1;
-               it_bis != this->_m_CRS_Row_Ptr.end();
-               ++it_bis) {
-            *it_bis = *it_bis - 1;
-          }
-        }
-      }
-    }
-    // reduce the row ptr value of the deleted value
-    // do the same with i_fc
-    CoMMAIndexType ind = this->_m_CRS_Row_Ptr[i_fc];
-    CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[i_fc + 1];
-    for (auto it = pos_col + ind; it != pos_col + ind_p_one; ++it) {
-      this->_m_CRS_Col_Ind.erase(it);
-      // define the exact position of the element for the processing of the
-      // weight later.
-      this->_m_CRS_Values.erase(pos_Values + (it - pos_col));
-      // for each found i decrease the successive of 1 for the offset
-      for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
-           it_bis != this->_m_CRS_Row_Ptr.end();
-           ++it_bis) {
-        *it_bis = *it_bis - 1;
+    // Rebuild the CRS representation without the node and the faces towards it,
+    // the nodes following the deleted one being renumbered
+    const CoMMAIndexType n_nodes = _mapping_l_to_g.size();
+    ContainerIndexType row_ptr{0};
+    ContainerIndexType col_ind{};
+    ContainerWeightType values{};
+    for (auto node = decltype(n_nodes){0}; node < n_nodes; ++node) {
+      if (node == i_fc) continue;
+      auto n_it = this->neighbours_cbegin(node);
+      auto w_it = this->weights_cbegin(node);
+      for (; n_it != this->neighbours_cend(node); ++n_it, ++w_it) {
+        if (*n_it == i_fc) continue;
+        col_ind.push_back(*n_it > i_fc ? *n_it - 1 : *n_it);
+        values.push_back(*w_it);
       }
+      row_ptr.push_back(col_ind.size());
     }
-    // Get rid of the col element
-    auto Col_pointer = this->_m_CRS_Row_Ptr.begin() + i_fc;
-    // Modify the mapping
-    auto mapping_pointer = _mapping_l_to_g.begin() + i_fc;
-    auto volumes_pointer = this->_volumes.begin() + i_fc;
-    this->_volumes.erase(volumes_pointer);
-    this->_m_CRS_Row_Ptr.erase(Col_pointer);
-    _mapping_l_to_g.erase(mapping_pointer);
-    // now we do not have nomore our node, but we must create a mapping between
-    // the before and now, and translate it in the col_ind and update the
-    // mapping with the global graph mapping for the renumbering of the nodes
-    std::vector<std::optional<CoMMAIndexType>> internal_mapping;
-    internal_mapping.reserve(this->_m_CRS_Row_Ptr.size() + 1);
-    CoMMAIndexType indice = 0;
-    for (auto ix = decltype(this->_m_CRS_Row_Ptr.size()){0};
-         ix < this->_m_CRS_Row_Ptr.size() + 1;
-         ++ix) {
-      if (static_cast<decltype(i_fc)>(ix) != i_fc) {
-        internal_mapping.push_back(indice);
-        indice++;
-      } else {
-        internal_mapping.push_back(std::nullopt);
-      }
-    }
-    for (auto &actual : this->_m_CRS_Col_Ind) {
-      assert(internal_mapping[actual].has_value());
-      actual = internal_mapping[actual].value();
-    }
+    this->_m_CRS_Row_Ptr = std::move(row_ptr);
+    this->_m_CRS_Col_Ind = std::move(col_ind);
+    this->_m_CRS_Values = std::move(values);
+    // Modify the volumes and the mapping
+    this->_volumes.erase(this->_volumes.begin() + i_fc);
+    _mapping_l_to_g.erase(low);
   }
 };
 
-- 
2.43.0


From 027525d40e5e4a39ab6b112fcad74566ef13943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:50 +0000
Subject: [PATCH 10/22] fix: follow subgraph edits in its size, compactness and
 connectivity

---
 include/CoMMA/Dual_Graph.h | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 26bd3f6..d8300c2 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -236,13 +236,11 @@ public:
    * @return True if the graph is connected, false if it is not connected
    */
   bool check_connectivity() {
-    for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
-      _visited.push_back(false);
-    }
-    if (_number_of_cells == 1) {
+    _visited.assign(_number_of_cells, false);
+    if (_number_of_cells <= 1) {
       return (true);
     }
-    DFS(_m_CRS_Col_Ind[0]);
+    DFS(0);
     for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
       if (!_visited[i]) {
         return (false);
@@ -354,15 +352,7 @@ public:
     _is_isotropic(is_isotropic),
     _cardinality(static_cast<CoMMAIntType>(nb_c)),
     _mapping_l_to_g(mapping_l_to_g) {
-    // Compactness computation
-    _compactness = static_cast<CoMMAIntType>(nb_c);
-    for (auto c = decltype(nb_c){0}; c < nb_c; ++c) {
-      const auto n_neighs =
-        static_cast<CoMMAIntType>(m_crs_row_ptr[c + 1] - m_crs_row_ptr[c]);
-      if (n_neighs < _compactness) {
-        _compactness = n_neighs;
-      }
-    }
+    update_size_and_compactness();
   }
 
   /** @brief Destructor of the class */
@@ -387,6 +377,23 @@ public:
    */
   ContainerIndexType _mapping_l_to_g;
 
+  /** @brief Update the number of nodes and the compactness (minimum number of
+   * internal neighbours) according to the CRS representation
+   */
+  void update_size_and_compactness() {
+    this->_number_of_cells = _mapping_l_to_g.size();
+    _cardinality = static_cast<CoMMAIntType>(this->_number_of_cells);
+    _compactness = _cardinality;
+    for (auto c = decltype(this->_number_of_cells){0};
+         c < this->_number_of_cells;
+         ++c) {
+      const auto n_neighs = this->get_nb_of_neighbours(c);
+      if (n_neighs < _compactness) {
+        _compactness = n_neighs;
+      }
+    }
+  }
+
   /** @brief Insert a node in the subgraph and add it to the mapping the
    *  @param[in] v_neigh Vector of the neighbours to be added. The neighbours
    * must be given in the global indexing system.
@@ -451,6 +458,7 @@ public:
     this->_m_CRS_Row_Ptr.push_back(this->_m_CRS_Col_Ind.size());
     this->_volumes.push_back(volume);
     _mapping_l_to_g.push_back(i_fc);
+    update_size_and_compactness();
   }
 
   /** @brief Remove a node from the CRS representation and automatically adjust
@@ -485,6 +493,7 @@ public:
     // Modify the volumes and the mapping
     this->_volumes.erase(this->_volumes.begin() + i_fc);
     _mapping_l_to_g.erase(low);
+    update_size_and_compactness();
   }
 };
 
-- 
2.43.0


From 613ce68621fbe2c10eec850d08143df94ea602e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:10 +0000
Subject: [PATCH 11/22] fix: divide by the measure when computing the
 barycenter of a coarse cell

The sum of the centers is weighted by the volumes of the cells, hence it should
be divided by their total volume and not by the number of cells.
---
 include/CoMMA/ARComputer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/ARComputer.h b/include/CoMMA/ARComputer.h
index cb4048d..b71f596 100644
--- a/include/CoMMA/ARComputer.h
+++ b/include/CoMMA/ARComputer.h
@@ -275,10 +275,12 @@ protected:
     new_feats._sum_centers = cc_feats._sum_centers;
     const auto &cur_c = this->_graph->_centers[i_fc];
     std::vector<RealT> bary(cur_c.size());
-    const RealT ov_N = 1. / (fc_of_cc.size() + 1);
+    RealT measure = this->_graph->_volumes[i_fc];
+    for (const auto i_fc_cc : fc_of_cc)
+      measure += this->_graph->_volumes[i_fc_cc];
     for (auto i = decltype(cur_c.size()){0}; i < cur_c.size(); ++i) {
       new_feats._sum_centers[i] += this->_graph->_volumes[i_fc] * cur_c[i];
-      bary[i] = new_feats._sum_centers[i] * ov_N;
+      bary[i] = new_feats._sum_centers[i] / measure;
     }
     return bary;
   }
-- 
2.43.0


From 1528e941fa69e927891a82843fa01d932759c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:57 +0000
Subject: [PATCH 12/22] fix: count the external faces of a coarse cell under
 construction

Each added cell removed one face too many, hence when choosing among sizes of
the same compactness larger cells were favoured over those with fewer external
faces.
---
 include/CoMMA/Agglomerator.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 91d3d25..7762c64 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -1308,10 +1308,9 @@ public:
       const CoMMAIntType max_ind = std::min(
         this->_max_card, static_cast<CoMMAIntType>(d_n_of_seed.size() + 1)
       );
-      // This formula does not work
       CoMMAIntType number_of_external_faces_current_cc =
         this->_fc_graph->get_nb_of_neighbours(seed)
-        + this->_fc_graph->get_n_boundary_faces(seed) - 1;
+        + this->_fc_graph->get_n_boundary_faces(seed);
       // d_keys_to_set from Util.h, it takes the keys of the unordered map and
       // create an unordered set. The unordered set is representing hence all
       // the neighbours of seed until a given order.
@@ -1360,10 +1359,9 @@ public:
           min_ar_cc_feats
         );
 
-        // This formula does not work
         number_of_external_faces_current_cc +=
           this->_fc_graph->get_nb_of_neighbours(next_cell)
-          + this->_fc_graph->get_n_boundary_faces(next_cell) - 1
+          + this->_fc_graph->get_n_boundary_faces(next_cell)
           - 2 * max_faces_in_common;
         // we increase the cc
         size_current_cc++;
-- 
2.43.0


From f95f9d1a59f1ee098d512d44260dddcf94c55fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:02 +0000
Subject: [PATCH 13/22] fix: restart neighbourhood-ordered seeds from the
 highest unfinished level

When no seed is waiting, the pool looks for the cells with most boundary
faces among those left. It stopped at the first cell reaching the level
served so far, although cells of a higher level may be left.
---
 include/CoMMA/Seeds_Pool.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index be7ef40..63a8b74 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -666,10 +666,10 @@ public:
         }
       }
 
-      // If not found, see which is the highest unfinished level
-      const auto opt_top = this->get_highest_n_bnd_yet_to_agglomerate(
-        is_agglomerated, this->_cur_top_queue.value()
-      );
+      // If not found, see which is the highest unfinished level. It might be
+      // higher than the current one
+      const auto opt_top =
+        this->get_highest_n_bnd_yet_to_agglomerate(is_agglomerated);
       if (opt_top.has_value()) {
         const auto cur_queue = opt_top.value();
         this->_cur_top_queue = cur_queue;
-- 
2.43.0


From 9afe78b97445e78702d3d8798d28f1cfba75ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:51 +0000
Subject: [PATCH 14/22] fix: advance the iterator before renumbering a coarse
 cell

Extracting an element of the map invalidates the iterators to it, hence
incrementing the iterator afterwards is undefined behaviour.
---
 include/CoMMA/Coarse_Cell_Container.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index 9bf3a5f..fc2cc1a 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -256,13 +256,14 @@ Not used anymore but we leave it for example purposes
         it_cc = _ccs.find(new_ID - 1);
         ++it_cc;
       }
-      for (; it_cc != _ccs.end(); ++it_cc, ++new_ID) {
+      for (; it_cc != _ccs.end(); ++new_ID) {
         // Update fine cells
         for (auto const &i_fc : it_cc->second->_s_fc) {
           _fc_2_cc[i_fc] = new_ID;
         }
-        // Update coarse cell ID
-        auto node = _ccs.extract(it_cc);
+        // Update coarse cell ID. The iterator is advanced beforehand since
+        // extracting an element invalidates the iterators to it
+        auto node = _ccs.extract(it_cc++);
         if (!node.empty()) {
           node.key() = new_ID;
           _ccs.insert(std::move(node));
-- 
2.43.0


From 0f76f79030977b5b882394b275e0d4892814dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:51 +0000
Subject: [PATCH 15/22] fix: do not look for the maximum weight of an isolated
 cell

When all compliant cells are anisotropic (negative threshold), the maximum
over the empty range of the weights of a cell without neighbours was
dereferenced.
---
 include/CoMMA/Dual_Graph.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index d8300c2..60126f5 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -720,9 +720,11 @@ public:
         case CoMMACellCouplingT::MAX_WEIGHT: {
           for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
             aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
-            max_weights[i_fc] = *(
-              max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc))
-            );
+            // Cells without neighbours have no weights
+            if (this->get_nb_of_neighbours(i_fc) > 0)
+              max_weights[i_fc] = *(
+                max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc))
+              );
           }
           break;
         }
-- 
2.43.0


From 739e21c119b6988d3b6e597ec73ee03caa390710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:58 +0000
Subject: [PATCH 16/22] fix: agglomerating an empty mesh gives an empty result

Initializing the seeds pool dereferenced the maximum of an empty vector.
---
 include/CoMMA/Seeds_Pool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index 63a8b74..8138445 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -416,6 +416,8 @@ public:
 
   /** @brief Initialize the seeds pool via a call to its initializator */
   inline void initialize() {
+    // Nothing to choose from
+    if (_n_bnd_faces.empty()) return;
     if (!_cur_top_queue.has_value())
       // Computing the max number of boundary faces. Only the related seed queue
       // will be filled at this initial stage
-- 
2.43.0


From 517e6d909ef27db0188285c3dd63917584695f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:01 +0000
Subject: [PATCH 17/22] fix: compare the aspect ratio of the best child in the
 look-ahead

When a child cell shares as many faces as its mother, the aspect ratio kept
for the mother was a variable that never left its initial value of zero. It is
now the one of the coarse cell with the child added.
---
 include/CoMMA/Agglomerator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 7762c64..a0d150a 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -1725,6 +1725,15 @@ public:
           cur_max_faces_in_common,
           cur_min_ar_cc_feats
         );
+        // Aspect-ratio obtained with the best child
+        this->_ar_computer->compute_and_update_features(
+          cur_argmin,
+          inner_min_ar_cc_feats,
+          cur_fc,
+          cur_max_faces_in_common,
+          cur_min_ar,
+          cur_min_ar_cc_feats
+        );
         // We just keep the min AR and the max faces in common
         if (cur_max_faces_in_common > inner_max_faces_in_common) {
           inner_max_faces_in_common = cur_max_faces_in_common;
-- 
2.43.0


From e1cb04a8128038dd48b73480927e3b0f3e3c7d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:42:11 +0000
Subject: [PATCH 18/22] fix: keep the records of the coarse cells up to date
 after the correction

The number of coarse cells, the index stored in each of them and the list of
singular ones still described the state before the correction.
---
 include/CoMMA/Coarse_Cell_Container.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index fc2cc1a..d55755f 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -261,6 +261,7 @@ Not used anymore but we leave it for example purposes
         for (auto const &i_fc : it_cc->second->_s_fc) {
           _fc_2_cc[i_fc] = new_ID;
         }
+        it_cc->second->_idx = new_ID;
         // Update coarse cell ID. The iterator is advanced beforehand since
         // extracting an element invalidates the iterators to it
         auto node = _ccs.extract(it_cc++);
@@ -269,6 +270,13 @@ Not used anymore but we leave it for example purposes
           _ccs.insert(std::move(node));
         }
       }
+      _cc_counter = new_ID;
+      // Only those which are still there and still singular
+      _singular_cc.clear();
+      for (const auto &[i_cc, cc] : _ccs) {
+        if (cc->_is_isotropic && cc->_cardinality <= _sing_card_thresh)
+          _singular_cc.emplace_back(i_cc);
+      }
     }
   }
 
-- 
2.43.0


From a016a3f3d242365116ee7c7cbbc0eaa2fbcec61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:42:11 +0000
Subject: [PATCH 19/22] fix: let int_power compile

The recursive branch was instantiated for every power and stored its result in
a constexpr int, which cannot depend on a function parameter.
---
 include/CoMMA/Util.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 95c6f9e..d72836e 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -76,11 +76,13 @@ inline T constexpr int_power(const T x) {
   if constexpr (p == 2) return x * x;
   if constexpr (p == 3) return x * x * x;
 
-  constexpr int tmp = int_power<p / 2>(x);
-  if constexpr ((p % 2) == 0) {
-    return tmp * tmp;
-  } else {
-    return x * tmp * tmp;
+  if constexpr (p > 3) {
+    const T tmp = int_power<p / 2>(x);
+    if constexpr ((p % 2) == 0) {
+      return tmp * tmp;
+    } else {
+      return x * tmp * tmp;
+    }
   }
 }
 
-- 
2.43.0


From 9af17086ff6643fd89d253dec691af77db8dc657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:42:11 +0000
Subject: [PATCH 20/22] fix: accept integer types narrower than int

Arithmetic on such types is promoted to int, hence the arguments of min and max
had different types.
---
 include/CoMMA/Agglomerator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index a0d150a..109f0da 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -1243,7 +1243,9 @@ public:
     // set to 3 as default we set to this value the maximum order to which we
     // search to compose the coarse cell
     CoMMAIntType max_order_of_neighbourhood =
-      std::max(this->_min_neighbourhood, this->_max_card / this->_dimension);
+      std::max<CoMMAIntType>(
+        this->_min_neighbourhood, this->_max_card / this->_dimension
+      );
 
     // We fill the d_n_of_seeds considering the initial seed passed
     this->_fc_graph->compute_neighbourhood_of_cc(
@@ -1347,7 +1349,7 @@ public:
         // the fine cells that has been added until now.
         // min(max_ind - size_current_cc, this->_fc_iter)
         this->compute_best_fc_to_add(
-          std::min(max_ind - size_current_cc, this->_fc_iter),
+          std::min<CoMMAIntType>(max_ind - size_current_cc, this->_fc_iter),
           neighbourhood,
           d_n_of_seed,
           is_order_primary,
-- 
2.43.0


From 27e3943bc3420d9542e2507ebf44e8e315edffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:35 +0000
Subject: [PATCH 21/22] fix: restrict tagging to boundary layers in 3D

With the restriction for three dimensions, the switch fell through to the
unrestricted case, so that every cell reaching the threshold was tagged.
---
 include/CoMMA/Dual_Graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 60126f5..2380822 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -793,6 +793,7 @@ public:
               if ((is_on_boundary(i_fc) > 0 && nb_neighbours == 5)
                   || nb_neighbours == 6)
                 aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
+              break;
             case 0:
             default:
               // If the ratio is more than the given threshold of the biggest
-- 
2.43.0


From a483301b1a5a06a54731e9c22f4a4ae49a08e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:35 +0000
Subject: [PATCH 22/22] fix: let Graph::BFS compile

The breadth-first search called a function that does not exist and used an
iterator and an optional as indices.
---
 include/CoMMA/Dual_Graph.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 2380822..54f2a20 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -131,17 +131,17 @@ public:
       for (auto it = neighbours_cbegin(node); it != neighbours_cend(node);
            ++it) {
         if (!visited[*it]) {
-          coda.push_pack(*it);
+          coda.push_back(*it);
           visited[*it] = true;
-          prev[it] = node;
+          prev[*it] = node;
         }
       }
     }
     // to print the inverse path
-    CoMMAIndexType retro = prev[_number_of_cells - 1];
+    std::optional<CoMMAIndexType> retro = prev[_number_of_cells - 1];
     while (retro.has_value()) {
-      path.push_back(retro);
-      retro = prev[retro];
+      path.push_back(retro.value());
+      retro = prev[retro.value()];
     }
     reverse(path.begin(), path.end());
     //     for (CoMMAIntType i = 0; i < _number_of_cells; i++) {
-- 
2.43.0

