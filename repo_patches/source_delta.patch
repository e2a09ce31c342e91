From 312cb34758fa6999abbf096e1af28bf9526571aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:45 +0000
Subject: [PATCH 01/19] fix: one-point seeds initialisation with non-positive
 priorities

The running maximum started from the smallest positive value, so when no
priority was positive an invalid index was queued.
---
 include/CoMMA/Seeds_Pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index 3d6cfd7..be7ef40 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -173,7 +173,7 @@ struct SPOnePointInitializator :
   ) override {
     CoMMAPairType cur_max{
       std::numeric_limits<CoMMAIndexType>::max(),
-      std::numeric_limits<CoMMAWeightType>::min()
+      std::numeric_limits<CoMMAWeightType>::lowest()
     };
     const CustomPairGreaterFunctor<CoMMAPairType> comp_op{};
     for (auto i_fc = decltype(n_bnd_faces.size()){0}; i_fc < n_bnd_faces.size();
-- 
2.43.0


From c9836352d6be6db0d05986716fd972b49911e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:48 +0000
Subject: [PATCH 02/19] fix: keep fine cells that cannot be moved at once when
 correcting

A singular coarse cell of several cells was erased as soon as one of its
cells had been moved, leaving the others with a dead identifier.
---
 include/CoMMA/Coarse_Cell_Container.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index d03e516..aff8230 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -201,9 +201,13 @@ Not used anymore but we leave it for example purposes
         }
         if (!should_remove) {
           // If here, we could not agglomerate the whole cell, hence we look
-          // fine cell by fine cell
-          for (const auto &[i_fc, neighs] : neighs_by_fc) {
-            if (!neighs.empty()) {
+          // fine cell by fine cell. Some of them might only touch cells of the
+          // same coarse cell: they have to wait for one of these to be moved
+          bool has_moved = true;
+          while (has_moved && !neighs_by_fc.empty()) {
+            has_moved = false;
+            for (auto it = neighs_by_fc.begin(); it != neighs_by_fc.end();) {
+              const auto &[i_fc, neighs] = *it;
               std::optional<CoMMAIntType> new_compactness = std::nullopt;
               const auto new_cc = select_best_cc_to_agglomerate(
                 i_fc, neighs, max_card, new_compactness
@@ -211,13 +215,20 @@ Not used anymore but we leave it for example purposes
               if (new_cc.has_value()) {
                 _fc_2_cc[i_fc] = new_cc.value();
                 _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
-                should_remove = true;
+                has_moved = true;
+                it = neighs_by_fc.erase(it);
+              } else {
+                ++it;
               }
             }
-            // If the cell has no neighbour (this could happen when the
-            // partitioning does not give a connected partition), unfortunately,
-            // there is nothing that we can do. We just skip it
+            for (auto &[i_fc, neighs] : neighs_by_fc) {
+              neighs = get_neighs_cc(i_fc, old_cc);
+            }
           }
+          // If the cell has no neighbour (this could happen when the
+          // partitioning does not give a connected partition), unfortunately,
+          // there is nothing that we can do. We just skip it
+          should_remove = neighs_by_fc.empty();
         }
 
         if (should_remove) {
-- 
2.43.0


From c6385c9d10eda450ba3d2c8965bd698f47a1e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:01 +0000
Subject: [PATCH 03/19] fix: tagging an isolated cell as anisotropic with a
 negative threshold

The maximum weight of a cell without neighbours was read from an empty
range.
---
 include/CoMMA/Dual_Graph.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 3aa4d1e..1b81ffd 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -757,9 +757,11 @@ public:
         case CoMMACellCouplingT::MAX_WEIGHT: {
           for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
             aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
-            max_weights[i_fc] = *(
-              max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc))
-            );
+            // An isolated cell has no weights at all
+            if (this->get_nb_of_neighbours(i_fc) > 0)
+              max_weights[i_fc] = *(max_element(
+                this->weights_cbegin(i_fc), this->weights_cend(i_fc)
+              ));
           }
           break;
         }
-- 
2.43.0


From 8166f3352779926266750166ad2ff27b29c1a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:24 +0000
Subject: [PATCH 04/19] fix: maximum number of cells in a line with odd lengths

A third cell was added past the end of a line when the limit was one more
than its length, and added beyond the limit when exactly three cells were
left.
---
 include/CoMMA/Agglomerator.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 3e5bf64..85cf1ab 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -356,12 +356,15 @@ public:
             this->_fc_graph->neighbours_cbegin(*std::next(line_it)),
             this->_fc_graph->neighbours_cend(*std::next(line_it))
           );
+          const auto n_left = std::distance(line_it, end);
           if (
-            std::distance(line_it, end) == 3
+            n_left == 3
             || (
-              this->_max_cells_in_line.has_value()
+              n_left > 3 && this->_max_cells_in_line.has_value()
               && n_cells + 1 == this->_max_cells_in_line.value())) {
-            if (this->_odd_line_length) {
+            if (this->_odd_line_length
+                && (!this->_max_cells_in_line.has_value()
+                    || n_cells < this->_max_cells_in_line.value())) {
               // If only three cells left, agglomerate them
               s_fc.insert(*std::next(line_it, 2));
               n_cells++;
-- 
2.43.0


From 1bce7d6fc87a5fb4f67774753deabee7452f19c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:13 +0000
Subject: [PATCH 05/19] fix: restart of the neighbourhood-first seeds pool from
 the highest level

When the queues were exhausted, the level of the first remaining cell not
below the current one was taken instead of the highest one.
---
 include/CoMMA/Seeds_Pool.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index be7ef40..ab6da10 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -666,10 +666,10 @@ public:
         }
       }
 
-      // If not found, see which is the highest unfinished level
-      const auto opt_top = this->get_highest_n_bnd_yet_to_agglomerate(
-        is_agglomerated, this->_cur_top_queue.value()
-      );
+      // If not found, see which is the highest unfinished level. It might be
+      // higher than the current one, hence no expected value is given
+      const auto opt_top =
+        this->get_highest_n_bnd_yet_to_agglomerate(is_agglomerated);
       if (opt_top.has_value()) {
         const auto cur_queue = opt_top.value();
         this->_cur_top_queue = cur_queue;
-- 
2.43.0


From 6b9575d222a4fa2d727b383285a9cfee49c69a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:59 +0000
Subject: [PATCH 06/19] fix: barycentre of cells with non-unit measures

The sum of the centres is weighted by the measures, hence it has to be divided
by the measure of the coarse cell and not by the number of its fine cells.
---
 include/CoMMA/ARComputer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/ARComputer.h b/include/CoMMA/ARComputer.h
index cb4048d..499b022 100644
--- a/include/CoMMA/ARComputer.h
+++ b/include/CoMMA/ARComputer.h
@@ -272,13 +272,15 @@ protected:
     const std::unordered_set<IndexT> &fc_of_cc,
     CellFeatures<IndexT, RealT, IntT> &new_feats
   ) const {
+    CoMMAUnused(fc_of_cc);
     new_feats._sum_centers = cc_feats._sum_centers;
     const auto &cur_c = this->_graph->_centers[i_fc];
     std::vector<RealT> bary(cur_c.size());
-    const RealT ov_N = 1. / (fc_of_cc.size() + 1);
+    // Centers are weighted by the measures, see CellFeatures::_sum_centers
+    const RealT ov_measure = 1. / new_feats._measure;
     for (auto i = decltype(cur_c.size()){0}; i < cur_c.size(); ++i) {
       new_feats._sum_centers[i] += this->_graph->_volumes[i_fc] * cur_c[i];
-      bary[i] = new_feats._sum_centers[i] * ov_N;
+      bary[i] = new_feats._sum_centers[i] * ov_measure;
     }
     return bary;
   }
-- 
2.43.0


From aa6362208076a5d91e3fc8ed5583713b6db018e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:59 +0000
Subject: [PATCH 07/19] fix: priority of coarse cells whose fine cells have no
 positive priority

---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 0aa7ba6..a9c1f52 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -482,7 +482,7 @@ void build_coarse_graph(
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
       c_centers[cc][xyz] *= ov_n_fc;
     auto n_bnd = std::numeric_limits<IntT>::min();
-    auto priority = std::numeric_limits<RealT>::min();
+    auto priority = std::numeric_limits<RealT>::lowest();
     std::map<IndexT, RealT> cc_neighs;
     for (const auto fc : fcs) {
       if (f_n_bnd[fc] > n_bnd) n_bnd = f_n_bnd[fc];
-- 
2.43.0


From d0d34ec9c0d25c7e3ed7c9224d6909929e9a8512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:59 +0000
Subject: [PATCH 08/19] fix: weights of the coarse graph

The weight of an edge was read using the index of the neighbour instead of the
position of the edge.
---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index a9c1f52..e33c4a4 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -495,7 +495,7 @@ void build_coarse_graph(
           const auto cc_neigh = f2c[*fc_neigh];
           // Add if not yet present
           cc_neighs.try_emplace(cc_neigh, 0.0);
-          cc_neighs.at(cc_neigh) += f_weights[*fc_neigh];
+          cc_neighs.at(cc_neigh) += f_weights[fc_neigh - f_adj.cbegin()];
         }
       }  // for fc_neigh
     }  // for fc
-- 
2.43.0


From f45277ba1cab7ca8fc324e049cb6465e4f22ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:59 +0000
Subject: [PATCH 09/19] fix: centres of coarse cells with non-unit volumes

The sum of the centres is weighted by the volumes, hence it has to be divided by
the volume of the coarse cell and not by the number of its fine cells.
---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index e33c4a4..12d6e47 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -477,10 +477,10 @@ void build_coarse_graph(
   }  // for fc
   for (auto cc = decltype(n_cells){0}; cc < n_cells; ++cc) {
     const auto &fcs = c2f[cc];
-    const RealT ov_n_fc(RealT{1.} / fcs.size());
     // Finishing center
+    const RealT ov_volume(RealT{1.} / c_volumes[cc]);
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
-      c_centers[cc][xyz] *= ov_n_fc;
+      c_centers[cc][xyz] *= ov_volume;
     auto n_bnd = std::numeric_limits<IntT>::min();
     auto priority = std::numeric_limits<RealT>::lowest();
     std::map<IndexT, RealT> cc_neighs;
-- 
2.43.0


From 062d0fcf51a1377d4e14a590f2d29ae2a98094ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:17 +0000
Subject: [PATCH 10/19] fix: barycentre from the volumes of the fine cells

The features given by the caller may hold any measure, so the volumes are summed
from the graph.
---
 include/CoMMA/ARComputer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/ARComputer.h b/include/CoMMA/ARComputer.h
index 499b022..f54161b 100644
--- a/include/CoMMA/ARComputer.h
+++ b/include/CoMMA/ARComputer.h
@@ -272,12 +272,14 @@ protected:
     const std::unordered_set<IndexT> &fc_of_cc,
     CellFeatures<IndexT, RealT, IntT> &new_feats
   ) const {
-    CoMMAUnused(fc_of_cc);
     new_feats._sum_centers = cc_feats._sum_centers;
     const auto &cur_c = this->_graph->_centers[i_fc];
     std::vector<RealT> bary(cur_c.size());
     // Centers are weighted by the measures, see CellFeatures::_sum_centers
-    const RealT ov_measure = 1. / new_feats._measure;
+    RealT measure = this->_graph->_volumes[i_fc];
+    for (const auto i_fc_cc : fc_of_cc)
+      measure += this->_graph->_volumes[i_fc_cc];
+    const RealT ov_measure = 1. / measure;
     for (auto i = decltype(cur_c.size()){0}; i < cur_c.size(); ++i) {
       new_feats._sum_centers[i] += this->_graph->_volumes[i_fc] * cur_c[i];
       bary[i] = new_feats._sum_centers[i] * ov_measure;
-- 
2.43.0


From 5ba8dfb7d6c1bea9fb86cd1b9ba75c5c555740c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:55 +0000
Subject: [PATCH 11/19] fix: filter cells only by the positive numbers of edges

The requested values were cleaned of non-positive ones, but the original set was
still the one used to select the cells.
---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 12d6e47..64b2841 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -326,10 +326,10 @@ inline void filter_cells_by_n_edges(
     const auto n_cells = static_cast<IndexT>(n_bnd_faces.size());
     filtered.reserve(n_cells);
     for (auto c = decltype(n_cells){0}; c < n_cells; ++c) {
-      if (allowed.find(
+      if (target.find(
             static_cast<IntT>(indices[c + 1] - indices[c] + n_bnd_faces[c])
           )
-          != allowed.end())
+          != target.end())
         filtered.emplace_back(c);
     }
     filtered.shrink_to_fit();
-- 
2.43.0


From dc3ec062c32ff36a705cc3693f206805edba0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:37 +0000
Subject: [PATCH 12/19] fix: editing and connectivity of local subgraphs

Inserting a node shifted entries to the wrong row and mixed up the weights
of neighbours left out. Removing one erased only part of its edges. The
connectivity query kept the marks of earlier queries.
---
 include/CoMMA/Dual_Graph.h | 60 ++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 1b81ffd..9e17c2c 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -236,13 +236,11 @@ public:
    * @return True if the graph is connected, false if it is not connected
    */
   bool check_connectivity() {
-    for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
-      _visited.push_back(false);
-    }
-    if (_number_of_cells == 1) {
+    _visited.assign(_number_of_cells, false);
+    if (_number_of_cells <= 1) {
       return (true);
     }
-    DFS(_m_CRS_Col_Ind[0]);
+    DFS(0);
     for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
       if (!_visited[i]) {
         return (false);
@@ -404,13 +402,16 @@ public:
     // Use the mapping
     // local vector of neighbourhood
     ContainerIndexType v_l_neigh{};
+    // weights of the local neighbours
+    ContainerWeightType v_l_weight{};
     // @todo this solution clearly help in the connection of the subnode BUT can
     // bring to instability and errors.
-    for (const auto &elem : v_neigh) {
+    for (auto i = decltype(v_neigh.size()){0}; i < v_neigh.size(); ++i) {
       const auto low1 =
-        std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), elem);
+        std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), v_neigh[i]);
       if (low1 != _mapping_l_to_g.end()) {
         v_l_neigh.push_back(low1 - _mapping_l_to_g.begin());
+        v_l_weight.push_back(weight[i]);
       }
     }
     // variable to add weight for each face
@@ -431,11 +432,11 @@ public:
       );
       this->_m_CRS_Values.insert(
         this->_m_CRS_Values.begin() + this->_m_CRS_Row_Ptr[elem],
-        weight[iter_weight]
+        v_l_weight[iter_weight]
       );
       // We modify the row pointer as far it is related with what we have done
       // before
-      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem;
+      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem + 1;
            it != this->_m_CRS_Row_Ptr.end();
            ++it) {
         ++(*it);
@@ -443,14 +444,15 @@ public:
       // we do the same.
       this->_m_CRS_Col_Ind.insert(this->_m_CRS_Col_Ind.end(), elem);
       this->_m_CRS_Values.insert(
-        this->_m_CRS_Values.end(), weight[iter_weight]
+        this->_m_CRS_Values.end(), v_l_weight[iter_weight]
       );
       // We increment the weight flag iterator
       ++iter_weight;
     }
-    this->_m_CRS_Row_Ptr.push_back(*row_end + v_neigh.size());
+    this->_m_CRS_Row_Ptr.push_back(*row_end + v_l_neigh.size());
     this->_volumes.push_back(volume);
     _mapping_l_to_g.push_back(i_fc);
+    update_size();
   }
 
   /** @brief Remove a node from the CRS representation and automatically adjust
@@ -484,24 +486,23 @@ public:
                ++it_bis) {
             *it_bis = *it_bis - 1;
           }
+          // Iterators are no longer valid, and there is only one such entry
+          break;
         }
       }
+      pos_col = this->_m_CRS_Col_Ind.begin();
+      pos_Values = this->_m_CRS_Values.begin();
     }
     // reduce the row ptr value of the deleted value
     // do the same with i_fc
     CoMMAIndexType ind = this->_m_CRS_Row_Ptr[i_fc];
     CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[i_fc + 1];
-    for (auto it = pos_col + ind; it != pos_col + ind_p_one; ++it) {
-      this->_m_CRS_Col_Ind.erase(it);
-      // define the exact position of the element for the processing of the
-      // weight later.
-      this->_m_CRS_Values.erase(pos_Values + (it - pos_col));
-      // for each found i decrease the successive of 1 for the offset
-      for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
-           it_bis != this->_m_CRS_Row_Ptr.end();
-           ++it_bis) {
-        *it_bis = *it_bis - 1;
-      }
+    this->_m_CRS_Col_Ind.erase(pos_col + ind, pos_col + ind_p_one);
+    this->_m_CRS_Values.erase(pos_Values + ind, pos_Values + ind_p_one);
+    for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
+         it_bis != this->_m_CRS_Row_Ptr.end();
+         ++it_bis) {
+      *it_bis = *it_bis - (ind_p_one - ind);
     }
     // Get rid of the col element
     auto Col_pointer = this->_m_CRS_Row_Ptr.begin() + i_fc;
@@ -531,6 +532,21 @@ public:
       assert(internal_mapping[actual].has_value());
       actual = internal_mapping[actual].value();
     }
+    update_size();
+  }
+
+private:
+  /** @brief Update what depends on the number of nodes and edges */
+  void update_size() {
+    this->_number_of_cells =
+      static_cast<CoMMAIndexType>(_mapping_l_to_g.size());
+    _cardinality = static_cast<CoMMAIntType>(this->_number_of_cells);
+    _compactness = _cardinality;
+    for (auto c = decltype(this->_number_of_cells){0};
+         c < this->_number_of_cells;
+         ++c) {
+      _compactness = std::min(_compactness, this->get_nb_of_neighbours(c));
+    }
   }
 };
 
-- 
2.43.0


From 76cfce3965140eba3fc73459b02210f6be3d8196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:54 +0000
Subject: [PATCH 13/19] fix: preserve the boundary layer only when tagging 3D
 anisotropic cells

The case for 3D fell through to the one tagging every anisotropic cell.
---
 include/CoMMA/Dual_Graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 9e17c2c..483e7a3 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -846,6 +846,7 @@ public:
               if ((is_on_boundary(i_fc) > 0 && nb_neighbours == 5)
                   || nb_neighbours == 6)
                 aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
+              break;
             case 0:
             default:
               // If the ratio is more than the given threshold of the biggest
-- 
2.43.0


From 1170008163965c14c7db31765cc578869f54b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:54 +0000
Subject: [PATCH 14/19] fix: deletion and search in the legacy tree

Deleting a node other than the last one changed links through a pointer
that had just been reassigned, and deleting the only node dereferenced a
null pointer. Searching an empty list did too.
---
 include/CoMMA/deprecated/Tree.h | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/CoMMA/deprecated/Tree.h b/include/CoMMA/deprecated/Tree.h
index 02c00b9..1b3f67d 100644
--- a/include/CoMMA/deprecated/Tree.h
+++ b/include/CoMMA/deprecated/Tree.h
@@ -119,10 +119,13 @@ public:
   std::shared_ptr<NodeType> search(
     std::shared_ptr<NodeType> &node, const CoMMAIndexType &value
   ) {
+    if (node == nullptr) {
+      return nullptr;
+    }
     if (node->_index == value && node->_father != nullptr) {
       return node;
     }
-    if (node == nullptr || node->_right_idx == nullptr) {
+    if (node->_right_idx == nullptr) {
       return nullptr;
     }
     return (search(node->_right_idx, value));
@@ -157,20 +160,18 @@ public:
       return;
     }
     if (searched_node->_index == value) {
-      // case 0: leftest node
-      if (searched_node->_left_idx == nullptr) {
-        searched_node->_father->_sonc--;
-        searched_node->_father->_left_son_idx = searched_node->_right_idx;
-        searched_node->_right_idx->_left_idx = nullptr;
-      }
-      // case 1: rightest node
-      else if (searched_node->_right_idx == nullptr) {
-        searched_node->_father->_sonc = searched_node->_father->_sonc - 1;
-        searched_node->_left_idx->_right_idx.reset();
+      // The given pointer might be one of those that are changed here
+      const auto left = searched_node->_left_idx;
+      const auto right = searched_node->_right_idx;
+      const auto father = searched_node->_father;
+      father->_sonc--;
+      if (left == nullptr) {
+        father->_left_son_idx = right;
       } else {
-        searched_node->_father->_sonc--;
-        searched_node->_left_idx->_right_idx = searched_node->_right_idx;
-        searched_node->_right_idx->_left_idx = searched_node->_left_idx;
+        left->_right_idx = right;
+      }
+      if (right != nullptr) {
+        right->_left_idx = left;
       }
       return;
     }
-- 
2.43.0


From 8c86eff2a9aaee47304abddcd9875333bd23738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:01 +0000
Subject: [PATCH 15/19] fix: raising to an integer power

The function did not compile for arguments that are not constants.
---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 64b2841..636e512 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -76,7 +76,7 @@ inline T constexpr int_power(const T x) {
   if constexpr (p == 2) return x * x;
   if constexpr (p == 3) return x * x * x;
 
-  constexpr int tmp = int_power<p / 2>(x);
+  const T tmp = int_power<p / 2>(x);
   if constexpr ((p % 2) == 0) {
     return tmp * tmp;
   } else {
-- 
2.43.0


From 69b577d1d5447e631a4fa818dd274205464caa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:02 +0000
Subject: [PATCH 16/19] fix: count and identifiers of coarse cells after a
 correction

---
 include/CoMMA/Coarse_Cell_Container.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index aff8230..79e4570 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -256,13 +256,17 @@ Not used anymore but we leave it for example purposes
           _fc_2_cc[i_fc] = new_ID;
         }
         // Update coarse cell ID
+        it_cc->second->_idx = new_ID;
         auto node = _ccs.extract(it_cc);
         if (!node.empty()) {
           node.key() = new_ID;
           _ccs.insert(std::move(node));
         }
       }
+      _cc_counter = static_cast<CoMMAIndexType>(_ccs.size());
     }
+    // All of them have been treated and their IDs are out of date
+    _singular_cc.clear();
   }
 
   /** @brief Choose among the neighbouring coarse cells, the one to which a
-- 
2.43.0


From 843d500eb886d6ced16d625d70726d43188a86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:42 +0000
Subject: [PATCH 17/19] fix: connectivity of coarse cells

---
 include/CoMMA/Coarse_Cell.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Coarse_Cell.h b/include/CoMMA/Coarse_Cell.h
index b69959c..6309b36 100644
--- a/include/CoMMA/Coarse_Cell.h
+++ b/include/CoMMA/Coarse_Cell.h
@@ -14,6 +14,7 @@
  * file, You can obtain one at https://mozilla.org/MPL/2.0/.
  */
 
+#include <deque>
 #include <memory>
 #include <optional>
 #include <unordered_set>
@@ -91,7 +92,22 @@ public:
    *  @return true if the subgraph is connected, false if the subgraph is not
    * connected
    */
-  inline bool is_connected() { return _compactness > 0; }
+  inline bool is_connected() {
+    if (_s_fc.empty()) return true;
+    std::unordered_set<CoMMAIndexType> visited{*_s_fc.begin()};
+    std::deque<CoMMAIndexType> to_visit{*_s_fc.begin()};
+    while (!to_visit.empty()) {
+      const auto i_fc = to_visit.front();
+      to_visit.pop_front();
+      for (auto n_it = _fc_graph->neighbours_cbegin(i_fc);
+           n_it != _fc_graph->neighbours_cend(i_fc);
+           ++n_it) {
+        if (_s_fc.count(*n_it) > 0 && visited.insert(*n_it).second)
+          to_visit.push_back(*n_it);
+      }
+    }
+    return visited.size() == _s_fc.size();
+  }
 
   /** @brief Insert a FC in the CC (and update sub-graph if necessary)
    *  @param[in] i_fc Index of the fine cell to add
@@ -170,7 +186,7 @@ public:
     bool is_isotropic = true
   ) :
     BaseClass(fc_graph, i_cc, s_fc, compactness, is_isotropic),
-    _is_connected(compactness > 0),
+    _is_connected(this->is_connected()),
     _is_connectivity_up_to_date(true) {
     // initialization vectors
     CoMMAIndexType position = 0;
@@ -225,6 +241,7 @@ public:
       ? new_compactness.value()
       : this->_fc_graph->compute_min_fc_compactness_inside_a_cc(this->_s_fc);
     // ...but now add to the subgraph
+    _is_connectivity_up_to_date = false;
     _cc_graph->insert_node(
       this->_fc_graph->get_neighbours(i_fc),
       i_fc,
@@ -249,6 +266,7 @@ public:
       ? new_compactness.value()
       : this->_fc_graph->compute_min_fc_compactness_inside_a_cc(this->_s_fc);
     // ...but now add to the subgraph
+    _is_connectivity_up_to_date = false;
     for (const auto &i_fc : fcs) {
       _cc_graph->insert_node(
         this->_fc_graph->get_neighbours(i_fc),
-- 
2.43.0


From 1d4d63d5cd47c9384e52d4029044905789f78e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:23 +0000
Subject: [PATCH 18/19] fix: returning the partition from an agglomerator

---
 include/CoMMA/Agglomerator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 85cf1ab..7a473db 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -95,7 +95,11 @@ public:
    * cell graphs class
    */
   inline std::vector<CoMMAIndexType> get_fc_2_cc() const {
-    return _cc_graph->_fc_2_cc;
+    std::vector<CoMMAIndexType> fc_2_cc;
+    fc_2_cc.reserve(_cc_graph->_fc_2_cc.size());
+    for (const auto &cc : _cc_graph->_fc_2_cc)
+      fc_2_cc.push_back(cc.value());
+    return fc_2_cc;
   }
 
   /** @brief Pure virtual function which implementation is specified in the
-- 
2.43.0


From 3c03ea09ff2c7f691b0d6fde965d87a041c6e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:19 +0000
Subject: [PATCH 19/19] fix: connectivity query of large graphs

The depth-first search recursed once per cell, so that the query overflowed
the call stack on graphs of about 100 000 cells. Keep the cells to visit in
a container instead.
---
 include/CoMMA/Dual_Graph.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 483e7a3..218525d 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -101,14 +101,22 @@ public:
   /** @brief Vector of volumes */
   ContainerWeightType _volumes;
 
-  /** @brief Depth First Search (DFS) recursive function
-   *  @param[in] i_fc Index of the node to print
+  /** @brief Depth First Search (DFS) function. The nodes to visit are kept in a
+   * container rather than on the call stack, which large graphs would exhaust
+   *  @param[in] i_fc Index of the node from which the search starts
    */
   void DFS(const CoMMAIndexType &i_fc) {
+    ContainerIndexType to_visit{i_fc};
     _visited[i_fc] = true;
-    for (auto it = neighbours_cbegin(i_fc); it != neighbours_cend(i_fc); ++it) {
-      if (!_visited[*it]) {
-        DFS(*it);
+    while (!to_visit.empty()) {
+      const CoMMAIndexType node = to_visit.back();
+      to_visit.pop_back();
+      for (auto it = neighbours_cbegin(node); it != neighbours_cend(node);
+           ++it) {
+        if (!_visited[*it]) {
+          _visited[*it] = true;
+          to_visit.push_back(*it);
+        }
       }
     }
   }
-- 
2.43.0

