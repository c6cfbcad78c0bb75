From 9af13f24afffd92bb2c4afaf5236c67d647a701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 01/40] fix: report a duplicate element id after the critical
 section instead of terminating

---
 queso/containers/background_grid.hpp | 41 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/queso/containers/background_grid.hpp b/queso/containers/background_grid.hpp
index ad66735..103e897 100644
--- a/queso/containers/background_grid.hpp
+++ b/queso/containers/background_grid.hpp
@@ -327,27 +327,32 @@ public:
         QuESo_ASSERT(!mElementsLocked, "Cannot add elements after LockElements() was called.");
         auto result = rBuilder.Build(Id, rBounds);
         if (!result) return false;
+        // An exception must not leave the critical section. Thus, the duplicate is reported after it.
+        bool id_exists = false;
 #pragma omp critical
         {
-            QuESo_ERROR_IF(mElementIdMap.contains(Id)) << "Element ID '" << Id << "' already exists.\n";
-            const auto location = [&]() {
-                if constexpr (TBuilderType::Builds == ElementFilter::trimmed) {
-                    const IndexType index = mTrimmedElements.size();
-                    mTrimmedElements.emplace_back(std::move(*result));
-                    return ElementStorageLocation{ true, index };
-                } else {
-                    static_assert(
-                        TBuilderType::Builds == ElementFilter::untrimmed,
-                        "The builder must either support trimmed or untrimmed element construction."
-                    );
-
-                    const IndexType index = mUntrimmedElements.size();
-                    mUntrimmedElements.emplace_back(std::move(*result));
-                    return ElementStorageLocation{ false, index };
-                }
-            }();
-            mElementIdMap.emplace(Id, location);
+            id_exists = mElementIdMap.contains(Id);
+            if (!id_exists) {
+                const auto location = [&]() {
+                    if constexpr (TBuilderType::Builds == ElementFilter::trimmed) {
+                        const IndexType index = mTrimmedElements.size();
+                        mTrimmedElements.emplace_back(std::move(*result));
+                        return ElementStorageLocation{ true, index };
+                    } else {
+                        static_assert(
+                            TBuilderType::Builds == ElementFilter::untrimmed,
+                            "The builder must either support trimmed or untrimmed element construction."
+                        );
+
+                        const IndexType index = mUntrimmedElements.size();
+                        mUntrimmedElements.emplace_back(std::move(*result));
+                        return ElementStorageLocation{ false, index };
+                    }
+                }();
+                mElementIdMap.emplace(Id, location);
+            }
         }
+        QuESo_ERROR_IF(id_exists) << "Element ID '" << Id << "' already exists.\n";
         return true;
     }
 
-- 
2.43.0


From e088fe0822cac32d678bde362f1775d1aac47e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 02/40] fix: classify a group of cells without votes by a point
 query instead of as outside

---
 queso/embedding/flood_fill.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index 8f72f86..105e157 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -108,6 +108,11 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
     // Mark states
     for( auto& r_group : rGroupsOutput ){
         int inside_count = std::get<2>(r_group);
+        if( inside_count == 0 ){ // No (clear) vote, e.g., if no element is trimmed. All elements of a group share the same state.
+            const auto box = mGridIndexer.GetBoundingBoxXYZFromIndex(*std::get<1>(r_group).begin());
+            const PointType center = (0.5 * (box.lower + box.upper));
+            inside_count = mpBrepOperator->IsInside(center) ? 1 : -1;
+        }
         auto state = (inside_count > 0) ? IntersectionState::inside : IntersectionState::outside;
         for( auto group_it = std::get<1>(r_group).begin(); group_it !=  std::get<1>(r_group).end(); ++group_it){
             states[*group_it] = state;
-- 
2.43.0


From 3f7f04c024577fe924813f38774e5096daf3bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 03/40] fix: let only one thread store the number of threads in
 FloodFill (data race)

---
 queso/embedding/flood_fill.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index 105e157..e643860 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -69,6 +69,7 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
     IndexType num_threads = 1;
     #pragma omp parallel
     {
+        #pragma omp master
         num_threads = static_cast<IndexType>(omp_get_num_threads());
     }
 
-- 
2.43.0


From 3fa7e3bfb9cbda3839190f313e5ca095b8904114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 04/40] fix: test for a parallel ray before using the
 intersection parameters in IsInsideClosed (uninitialised read)

---
 queso/embedding/geometry_query.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/queso/embedding/geometry_query.cpp b/queso/embedding/geometry_query.cpp
index bddc9a0..fc46c29 100644
--- a/queso/embedding/geometry_query.cpp
+++ b/queso/embedding/geometry_query.cpp
@@ -119,6 +119,10 @@ namespace queso {
             // Test for actual intersection, if area is area is not zero.
             if( TriangleUtilities::Area(tri) > 100.0*ZEROTOL
                     && rRay.intersect(tri.P1, tri.P2, tri.P3, t, u, v, back_facing, parallel) ) {
+                if( parallel ){ // Triangle is parallel to ray. Note: t, u, and v are not set in this case.
+                    final_result = std::make_pair(false, false);
+                    return TriangleMeshView::VisitToken::stop_loop;
+                }
                 intersection_count++;
                 const double sum_u_v = u+v;
                 if( t < ZEROTOL ){ // Origin lies on boundary
@@ -130,10 +134,6 @@ namespace queso {
                     final_result = std::make_pair(false, false);
                     return TriangleMeshView::VisitToken::stop_loop;
                 }
-                if( parallel ){ // Triangle is parallel to ray.
-                    final_result = std::make_pair(false, false);
-                    return TriangleMeshView::VisitToken::stop_loop;
-                }
             }
             return TriangleMeshView::VisitToken::continue_loop;
         });
-- 
2.43.0


From 56f688676922979c4bb041d800031963f7133785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 05/40] fix: do not treat the next cell line as neighbour when
 grouping cells for generalized Gauss rules

---
 queso/quadrature/multiple_elements.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queso/quadrature/multiple_elements.hpp b/queso/quadrature/multiple_elements.hpp
index aa38a2f..cd5ba07 100644
--- a/queso/quadrature/multiple_elements.hpp
+++ b/queso/quadrature/multiple_elements.hpp
@@ -306,6 +306,9 @@ private:
     /// @return ElementType*
 	/// TODO: Remove this function.
     static ElementType* pNextElement(BackgroundGridType& rElements, IndexType CurrentId, Direction Dir ) {
+        if( rElements.IsEnd(CurrentId, Dir) ) {
+            return nullptr; // At the end of the line, the next element lies on another line and is not a neighbour.
+        }
         return rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir).p_element;
     }
 
-- 
2.43.0


From 14e442892f6b1fd06191ba39733ac42ebbf29d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 06/40] fix: reject polynomial orders above eight, for which no
 Gauss points and Legendre polynomials are tabulated

---
 queso/utilities/check_dictionary_utilities.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queso/utilities/check_dictionary_utilities.hpp b/queso/utilities/check_dictionary_utilities.hpp
index 3e8eca2..6673ed3 100644
--- a/queso/utilities/check_dictionary_utilities.hpp
+++ b/queso/utilities/check_dictionary_utilities.hpp
@@ -36,6 +36,8 @@ namespace CheckDictionaryUtilities {
         const IndexType min_order =  Math::Min( order );
         const IndexType max_order =  Math::Max( order );
         QuESo_ERROR_IF(min_order < 1) << "Invalid Input. The polynomial order must be p > 0. \n";
+        // Gauss points and Legendre polynomials are only tabulated up to this order.
+        QuESo_ERROR_IF(max_order > 8) << "Invalid Input. The polynomial order must be p <= 8. \n";
         QuESo_INFO_IF(max_order > 4) << "Warning :: QuESo is designed to construct efficient quadrature rules for 1 <= p <= 4. "
             << "For higher polynomial degrees, the process might become slow. It is recommended to use quadratic bases. Generally, they offer the best performance and accuracy.\n";
 
-- 
2.43.0


From b5e6dda3657c75eec08e6379823e174277483fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:38 +0000
Subject: [PATCH 07/40] fix: keep the B-rep operator and the mesh alive that
 trimmed elements use for point queries after the model is created (dangling
 pointer)

---
 queso/embedded_model.cpp | 15 +++++++++++++--
 queso/embedded_model.h   |  3 +++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 5e279f3..24e2be8 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -44,8 +44,19 @@ void EmbeddedModel::ComputeVolume(const TriangleMeshView& rTriangleMesh)
     Timer timer_total{};
     const IndexType global_number_of_elements = mGridIndexer.NumberOfElements();
 
-    // Construct BRepOperator.
-    BRepOperator brep_operator(rTriangleMesh);
+    // Construct BRepOperator. The trimmed elements keep using it for inside/outside queries. Hence, it is stored together
+    // with a copy of the mesh it refers to, as rTriangleMesh may not outlive this function.
+    mpTriangleMesh = MakeUnique<TriangleMesh>();
+    mpTriangleMesh->Reserve(rTriangleMesh.NumOfTriangles() * 3);
+    rTriangleMesh.VisitEachTriangle<WithNormals>([this](const auto& rTriangle) {
+        const auto to_point = [](const auto& rVector) { return PointType{ rVector[0], rVector[1], rVector[2] }; };
+        const IndexType v1 = mpTriangleMesh->AddVertex(to_point(rTriangle.P1));
+        const IndexType v2 = mpTriangleMesh->AddVertex(to_point(rTriangle.P2));
+        const IndexType v3 = mpTriangleMesh->AddVertex(to_point(rTriangle.P3));
+        mpTriangleMesh->AddTriangle({ v1, v2, v3 }, to_point(rTriangle.Normal));
+    });
+    mpBRepOperator = MakeUnique<BRepOperator>(*mpTriangleMesh);
+    const auto& brep_operator = *mpBRepOperator;
 
     // Classify all elements.
     Timer timer_check_intersect{};
diff --git a/queso/embedded_model.h b/queso/embedded_model.h
index e91de2f..84bd520 100644
--- a/queso/embedded_model.h
+++ b/queso/embedded_model.h
@@ -17,6 +17,7 @@
 /// Project includes
 #include "queso/containers/background_grid.hpp"
 #include "queso/containers/boundary_integration_point.hpp"
+#include "queso/embedding/brep_operator.h"
 #include "queso/io/io_utilities.h"
 #include "queso/includes/dictionary_factory.hpp"
 #include "queso/utilities/check_dictionary_utilities.hpp"
@@ -239,6 +240,8 @@ private:
     ///@{
     Unique<const MainDictionaryType> mpSettings;
     GridIndexer mGridIndexer;
+    Unique<TriangleMesh> mpTriangleMesh{}; // Mesh of the volume. Referenced by mpBRepOperator.
+    Unique<BRepOperator> mpBRepOperator{}; // Referenced by the trimmed elements in mBackgroundGrid.
     BackgroundGridType mBackgroundGrid;
     Unique<MainDictionaryType> mpModelInfo;
     ///@}
-- 
2.43.0


From fe5cd96f3cc858745c25e5f2968b83f7b6d0ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 08/40] fix: scale the offset that assigns triangles on cell
 faces with the coordinate (surface parts on cell faces were lost far from the
 origin)

---
 queso/embedding/brep_operator.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/queso/embedding/brep_operator.cpp b/queso/embedding/brep_operator.cpp
index 552d9a6..880970e 100644
--- a/queso/embedding/brep_operator.cpp
+++ b/queso/embedding/brep_operator.cpp
@@ -13,6 +13,7 @@
 
 //// STL includes
 #include <cmath>
+#include <limits>
 #include <random>
 
 //// Project includes
@@ -242,9 +243,16 @@ ClippedTriangleMesh BRepOperator::ClipTriangleMesh(
 
 
 ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound ) const {
-    const PointType offset{30*ZEROTOL, 30*ZEROTOL, 30*ZEROTOL};
-    const auto lower_bound = rLowerBound + offset;
-    const auto upper_bound = rUpperBound + offset;
+    // Shift bounds in positive direction. The offset must scale with the coordinate. Otherwise, it is lost to rounding.
+    const auto shift = [](PointView rBound) {
+        PointType bound{};
+        for( IndexType i = 0; i < 3; ++i ){
+            bound[i] = rBound[i] + 30*ZEROTOL + 8*std::numeric_limits<double>::epsilon() * std::abs(rBound[i]);
+        }
+        return bound;
+    };
+    const auto lower_bound = shift(rLowerBound);
+    const auto upper_bound = shift(rUpperBound);
     double snap_tolerance = 1.0*ZEROTOL;
 
     const auto intersected_triangle_ids = mGeometryQuery.GetIntersectedTriangleIds(lower_bound, upper_bound, snap_tolerance);
-- 
2.43.0


From 4c4e5ca58735d3805a760e78ef706cf554b4f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 09/40] fix: assign condition triangles on the negative planes
 of the grid to the first cells (they were lost)

---
 queso/embedded_model.cpp          |  8 +++++++-
 queso/embedding/brep_operator.cpp | 13 ++++++++-----
 queso/embedding/brep_operator.h   |  5 ++++-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 24e2be8..d98b48c 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -251,7 +251,13 @@ void EmbeddedModel::ComputeCondition(
         const auto index = static_cast<IndexType>(for_index);
         // Clip embedded geoemetry with the current element (bounding box).
         const auto bounding_box_xyz = mGridIndexer.GetBoundingBoxXYZFromIndex(index);
-        auto new_mesh = brep_operator.ClipTriangleMeshUnique(bounding_box_xyz.lower, bounding_box_xyz.upper);
+        // The first cells in each direction have no neighbour that takes the triangles on their negative planes.
+        const auto matrix_indices = mGridIndexer.GetMatrixIndicesFromVectorIndex(index);
+        auto new_mesh = brep_operator.ClipTriangleMeshUnique(
+            bounding_box_xyz.lower,
+            bounding_box_xyz.upper,
+            { matrix_indices[0] == 0, matrix_indices[1] == 0, matrix_indices[2] == 0 }
+        );
 
         if (new_mesh.NumOfTriangles() > 0) {
             const auto p_el = mBackgroundGrid.GetElementView(index + 1);
diff --git a/queso/embedding/brep_operator.cpp b/queso/embedding/brep_operator.cpp
index 880970e..e4b7a38 100644
--- a/queso/embedding/brep_operator.cpp
+++ b/queso/embedding/brep_operator.cpp
@@ -242,17 +242,20 @@ ClippedTriangleMesh BRepOperator::ClipTriangleMesh(
 }
 
 
-ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound ) const {
+ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound,
+        const std::array<bool, 3>& rIncludeNegativePlanes ) const {
     // Shift bounds in positive direction. The offset must scale with the coordinate. Otherwise, it is lost to rounding.
-    const auto shift = [](PointView rBound) {
+    // Included negative planes are shifted in negative direction.
+    const auto shift = [](PointView rBound, const std::array<bool, 3>& rNegative) {
         PointType bound{};
         for( IndexType i = 0; i < 3; ++i ){
-            bound[i] = rBound[i] + 30*ZEROTOL + 8*std::numeric_limits<double>::epsilon() * std::abs(rBound[i]);
+            const double offset = 30*ZEROTOL + 8*std::numeric_limits<double>::epsilon() * std::abs(rBound[i]);
+            bound[i] = rNegative[i] ? rBound[i] - offset : rBound[i] + offset;
         }
         return bound;
     };
-    const auto lower_bound = shift(rLowerBound);
-    const auto upper_bound = shift(rUpperBound);
+    const auto lower_bound = shift(rLowerBound, rIncludeNegativePlanes);
+    const auto upper_bound = shift(rUpperBound, {false, false, false});
     double snap_tolerance = 1.0*ZEROTOL;
 
     const auto intersected_triangle_ids = mGeometryQuery.GetIntersectedTriangleIds(lower_bound, upper_bound, snap_tolerance);
diff --git a/queso/embedding/brep_operator.h b/queso/embedding/brep_operator.h
index 4bd7e74..1d464a8 100644
--- a/queso/embedding/brep_operator.h
+++ b/queso/embedding/brep_operator.h
@@ -142,8 +142,11 @@ public:
     ///@see ClipTriangleMesh()
     ///@param rLowerBound Lower bound of AABB.
     ///@param rUpperBound Upper bound of AABB.
+    ///@param rIncludeNegativePlanes Negative planes (-x, -y, -z), whose triangles are kept as well. Required if there is
+    ///       no adjacent AABB they could be assigned to.
     ///@return ClippedTriangleMesh. Clipped mesh.
-    ClippedTriangleMesh ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound ) const;
+    ClippedTriangleMesh ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound,
+        const std::array<bool, 3>& rIncludeNegativePlanes = {false, false, false} ) const;
     ///@}
 
 private:
-- 
2.43.0


From 953a68179b7558976a5527d9c39338b2f1ec708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 10/40] fix: do not read a node of an empty bounding volume
 tree (out of bounds read)

---
 queso/embedding/aabb_tree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/aabb_tree.cpp b/queso/embedding/aabb_tree.cpp
index 52dcb03..c5eea17 100644
--- a/queso/embedding/aabb_tree.cpp
+++ b/queso/embedding/aabb_tree.cpp
@@ -45,12 +45,12 @@ std::vector<IndexType> AABB_tree::Query(const AABB_primitive_base& rAABB_primiti
         IndexType node = stack.back();
         stack.pop_back();
 
+        if (node == NULL_NODE) continue;
+
         /// TODO: remove this copy (pass lower_bound and upper_bound to intersect())
         const auto& r_aabb_base = BaseTreeType::Nodes()[node].aabb_base;
         const AABB_primitive aabb{r_aabb_base.lowerBound, r_aabb_base.upperBound};
 
-        if (node == NULL_NODE) continue;
-
         // Test for overlap between the AABBs.
         if (rAABB_primitive.intersect(aabb) )
         {
-- 
2.43.0


From 0618ee43624ac36963ce4b4da61d0854b0f3f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 11/40] fix: appending a mesh to itself read freed memory

---
 queso/utilities/mesh_utilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/queso/utilities/mesh_utilities.cpp b/queso/utilities/mesh_utilities.cpp
index d6e65fb..fbd0330 100644
--- a/queso/utilities/mesh_utilities.cpp
+++ b/queso/utilities/mesh_utilities.cpp
@@ -97,6 +97,11 @@ void Refine(TriangleMesh &rTriangleMesh, IndexType MinNumberOfTriangles)
 
 void Append(TriangleMesh &rTriangleMesh, const TriangleMesh &rNewMesh)
 {
+    if (&rTriangleMesh == &rNewMesh) { // The spans below would dangle if the mesh was appended to itself.
+        Append(rTriangleMesh, TriangleMesh(rNewMesh));
+        return;
+    }
+
     const IndexType initial_vertex_count = rTriangleMesh.NumOfVertices();
     const IndexType target_capacity = rTriangleMesh.NumOfTriangles() + rNewMesh.NumOfTriangles();
     rTriangleMesh.Reserve(target_capacity);
-- 
2.43.0


From cbaaf7a48740729dec7fb88e98d5860a2c446880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 12/40] fix: binary STL files were taken for Ascii files
 depending on the text in their header

---
 queso/io/io_utilities.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index c33ba8c..b0b2ffe 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -180,19 +180,7 @@ IO::EncodingType IO::GetEncodingType(const std::string& rFilename) {
         return EncodingType::binary;
     }
 
-    // Check for Ascii-specific keywords in the next 20 lines.
-    std::string line;
-    int lineCount = 0;
-    while (std::getline(file, line) && lineCount++ < 20) {
-        if (line.find("facet normal") != std::string::npos ||
-            line.find("outer loop") != std::string::npos ||
-            line.find("normal") != std::string::npos ||
-            line.find("facet") != std::string::npos )  {
-            return EncodingType::ascii;
-        }
-    }
-
-    // If "solid" was found but no Ascii markers, check for non-printable characters.
+    // Binary files may start with "solid" and may contain any text in their header, but Ascii files contain no zeros.
     file.clear();
     file.seekg(0, std::ios::beg);
     char buffer[512];
-- 
2.43.0


From 7b9fe15f868369d86121396050fb2a10d776baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 13/40] fix: damaged or truncated Ascii STL files were read as
 a mesh with missing or altered triangles

---
 queso/io/io_utilities.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index b0b2ffe..91ea84b 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -210,17 +210,18 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
 
     std::string line;
 
-    // Skip lines until we hit the first "facet"
+    // A file may contain several solids.
+    bool is_within_solid = false;
     while (std::getline(file, line)) {
-        if (line.find("facet") != std::string::npos) {
-            break; // We've found the start of the actual STL data
-        }
-    }
-    do {
-        if (line.find("endsolid") != std::string::npos) {
-            break;
-        }
-        if (line.find("facet") != std::string::npos) {
+        std::string keyword;
+        std::istringstream(line) >> keyword;
+        if (keyword.starts_with("solid")) {
+            is_within_solid = true;
+        } else if (keyword == "endsolid") {
+            is_within_solid = false;
+        } else if (keyword != "facet") {
+            QuESo_ERROR_IF(is_within_solid && !keyword.empty()) << "Expected 'facet' but got: " << line << '.' << std::endl;
+        } else {
             std::getline(file, line); // Expect "outer loop"
             if (!file.good() || line.find("outer loop") == std::string::npos) {
                 QuESo_ERROR << "Expected 'outer loop' but got: " << line << '.' << std::endl;
@@ -237,7 +238,9 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
                 std::string word;
                 iss >> word; // "vertex"
                 float xf, yf, zf;
-                iss >> xf >> yf >> zf;
+                if( word != "vertex" || !(iss >> xf >> yf >> zf) || (iss >> word) ) {
+                    QuESo_ERROR << "Expected 'vertex' with three coordinates but got: " << line << '.' << std::endl;
+                }
                 PointType vertex = PointType{static_cast<double>(xf),
                                              static_cast<double>(yf),
                                              static_cast<double>(zf)};
@@ -269,7 +272,8 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
                 QuESo_ERROR << "Expected 'endfacet' but got: " << line << '.' << std::endl;
             }
         }
-    } while (std::getline(file, line));
+    }
+    QuESo_ERROR_IF(is_within_solid) << "Unexpected EOF: 'endsolid' is missing." << std::endl;
 
     rTriangleMesh.Check();
 }
-- 
2.43.0


From 818c579e73afa0e735793cb0e6735df1e5434406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 14/40] fix: binary STL files with invalid vertices or more
 triangles than announced were read as a different mesh

---
 queso/io/io_utilities.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 91ea84b..57bee2d 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -12,6 +12,7 @@
 //  Authors:    Manuel Messmer
 
 //// STL includes
+#include <cmath>
 #include <map>
 //// Project includes
 #include "queso/io/io_utilities.h"
@@ -319,6 +320,8 @@ void IO::ReadMeshFromSTL_Binary(TriangleMesh& rTriangleMesh,
             float coords[3];
             file.read(reinterpret_cast<char*>(coords), sizeof(coords));
             QuESo_ERROR_IF(!file) << "Couldn't read triangle vertex." << std::endl;
+            QuESo_ERROR_IF(!std::isfinite(coords[0]) || !std::isfinite(coords[1]) || !std::isfinite(coords[2]))
+                << "Triangle vertex is not finite." << std::endl;
 
             Vector3d vertex = {static_cast<double>(coords[0]),
                                static_cast<double>(coords[1]),
@@ -349,6 +352,11 @@ void IO::ReadMeshFromSTL_Binary(TriangleMesh& rTriangleMesh,
         QuESo_ERROR_IF(!file) << "Couldn't read attribute byte count." << std::endl;
     }
 
+    // The number of triangles must not be smaller than the number of stored triangles.
+    char next_triangle[50];
+    file.read(next_triangle, sizeof(next_triangle));
+    QuESo_ERROR_IF(file.good()) << "File contains more than " << num_triangles << " triangles." << std::endl;
+
     rTriangleMesh.Check();
 }
 
-- 
2.43.0


From 640adbdcf841eb4d849638ff5cca5bc149499c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 15/40] fix: a failed write of a binary file terminated the
 program instead of reporting an error

---
 queso/io/binary_buffer_writer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/queso/io/binary_buffer_writer.hpp b/queso/io/binary_buffer_writer.hpp
index f160a0e..8135fc9 100644
--- a/queso/io/binary_buffer_writer.hpp
+++ b/queso/io/binary_buffer_writer.hpp
@@ -54,9 +54,11 @@ public:
     {
     }
 
-    /// Destructor
+    /// Destructor. Does not throw: if the last write fails, the filestream is left in its error state.
     ~BinaryBufferWriter() {
-        Flush();
+        if (mBufferPos > 0) {
+            mOut.write(mBuffer.data(), static_cast<long int>(mBufferPos));
+        }
     }
 
     /// Delete copy and move operators.
-- 
2.43.0


From a7fa31d2678f9c0a0e13ad5192f65a2694dec29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 16/40] fix: coordinates of Ascii STL files that are not
 separated by whitespace were read as several coordinates

---
 queso/io/io_utilities.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 57bee2d..695b05c 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -12,6 +12,7 @@
 //  Authors:    Manuel Messmer
 
 //// STL includes
+#include <cctype>
 #include <cmath>
 #include <map>
 //// Project includes
@@ -239,7 +240,11 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
                 std::string word;
                 iss >> word; // "vertex"
                 float xf, yf, zf;
-                if( word != "vertex" || !(iss >> xf >> yf >> zf) || (iss >> word) ) {
+                // Coordinates must be separated by whitespace: "0-1" or "0.1.2" are not two coordinates.
+                const auto read_coordinate = [&iss](float& rCoordinate) {
+                    return (iss >> rCoordinate) && (iss.peek() == std::char_traits<char>::eof() || std::isspace(iss.peek()));
+                };
+                if( word != "vertex" || !read_coordinate(xf) || !read_coordinate(yf) || !read_coordinate(zf) || (iss >> word) ) {
                     QuESo_ERROR << "Expected 'vertex' with three coordinates but got: " << line << '.' << std::endl;
                 }
                 PointType vertex = PointType{static_cast<double>(xf),
-- 
2.43.0


From a36d85efa400186d1a1aeb679f36897614b685d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 17/40] fix: an input/output error while reading an Ascii STL
 file was taken for the end of the file

---
 queso/io/io_utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 695b05c..25909f8 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -279,6 +279,7 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
             }
         }
     }
+    QuESo_ERROR_IF(file.bad()) << "Failed to read file: " << rFilename << '.' << std::endl;
     QuESo_ERROR_IF(is_within_solid) << "Unexpected EOF: 'endsolid' is missing." << std::endl;
 
     rTriangleMesh.Check();
-- 
2.43.0


From 0524c315ffc433dbe19e7d05c5cc7e4fbaf81c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 18/40] fix: settings without conditions written to JSON could
 not be read back

---
 queso/python/scripts/json_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/scripts/json_io.py b/queso/python/scripts/json_io.py
index 05dd0e3..c2dc68d 100644
--- a/queso/python/scripts/json_io.py
+++ b/queso/python/scripts/json_io.py
@@ -78,7 +78,7 @@ class JsonIO():
             value (list): The list of values from JSON.
             queso_settings (QuESo.Dictionary): The settings object to modify.
         """
-        if( isinstance(value[0], dict) ):
+        if( len(value) == 0 or isinstance(value[0], dict) ):
             queso_list = queso_settings.GetList(string_key) # Just called to check key, and throw an error if necessary.
             cls._read_conditions_settings_list(value, queso_list)
         else:
-- 
2.43.0


From 071b67b501d542ef62a7fc062fee130e5314e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 19/40] fix: unknown keys in a settings file were accepted if
 their value is "Not Set."

---
 queso/python/scripts/json_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queso/python/scripts/json_io.py b/queso/python/scripts/json_io.py
index c2dc68d..92348a3 100644
--- a/queso/python/scripts/json_io.py
+++ b/queso/python/scripts/json_io.py
@@ -127,6 +127,8 @@ class JsonIO():
                 queso_settings.SetValue(string_key, enum_value )
             else:
                 queso_settings.SetValue(string_key, value )
+        else:
+            queso_settings.IsSet(string_key) # Just called to check key, and throw an error if necessary.
 
     @classmethod
     def _get_enum(cls,
-- 
2.43.0


From 1e974727a969cef23dd8e95ebf3673ebaa2b0c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 20/40] fix: negative integers were stored as a bool instead of
 a double, and None and negative integers were accepted for bool

---
 queso/python/bindings/dictionary_binder_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/bindings/dictionary_binder_helper.hpp b/queso/python/bindings/dictionary_binder_helper.hpp
index aa8f2cf..eecdf94 100644
--- a/queso/python/bindings/dictionary_binder_helper.hpp
+++ b/queso/python/bindings/dictionary_binder_helper.hpp
@@ -50,7 +50,7 @@ void DictionaryBinderHelper(py::class_<TDictType, Unique<TDictType>>& binder) {
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, const Vector3i& rValue){
         StringAccess::SetValue(rDictionary, rKeyName, rValue); });
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, bool rValue){
-        StringAccess::SetValue(rDictionary, rKeyName, rValue); });
+        StringAccess::SetValue(rDictionary, rKeyName, rValue); }, py::arg(), py::arg().noconvert() );
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, double rValue){
         StringAccess::SetValue(rDictionary, rKeyName, rValue); });
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, IndexType rValue){
-- 
2.43.0


From dba187a57903d9bcf25388d6fac0494935c44cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 21/40] fix: strings with quotes, backslashes or control
 characters were written as invalid or different JSON strings

---
 queso/containers/data_set.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/queso/containers/data_set.hpp b/queso/containers/data_set.hpp
index 3e40f73..16c2006 100644
--- a/queso/containers/data_set.hpp
+++ b/queso/containers/data_set.hpp
@@ -95,7 +95,20 @@ public:
         void operator()(const Vector3i& rValue){mOstream << '[' << rValue[0] << ", " << rValue[1] << ", " << rValue[2] << ']';};
         void operator()(const IndexType& rValue){ mOstream << rValue;};
         void operator()(const double& rValue){mOstream << rValue;};
-        void operator()(const std::string& rValue){mOstream << '\"' << rValue << '\"';};
+        void operator()(const std::string& rValue){
+            mOstream << '\"';
+            for( const char c : rValue ) {
+                if( c == '\"' || c == '\\' ) {
+                    mOstream << '\\' << c;
+                } else if( static_cast<unsigned char>(c) < 0x20 ) { // JSON does not allow control characters in strings.
+                    constexpr char hex[] = "0123456789abcdef";
+                    mOstream << "\\u00" << hex[(c >> 4) & 0xf] << hex[c & 0xf];
+                } else {
+                    mOstream << c;
+                }
+            }
+            mOstream << '\"';
+        };
         void operator()(const bool& rValue){std::string out = (rValue) ? "true" : "false"; mOstream << out; };
         void operator()(const IntegrationMethodType& rValue){ mOstream << '\"' << rValue << '\"'; };
         void operator()(const GridTypeType& rValue){ mOstream << '\"' << rValue << '\"'; };
-- 
2.43.0


From a328d0d5d1e56eead85c9ec95defd59dd445487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 22/40] fix: doubles were written to JSON with ten digits only
 and read back as other values

---
 queso/containers/dictionary.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queso/containers/dictionary.hpp b/queso/containers/dictionary.hpp
index cf3e3b6..dbe53f8 100644
--- a/queso/containers/dictionary.hpp
+++ b/queso/containers/dictionary.hpp
@@ -17,6 +17,7 @@
 //// STL includes
 #include <functional>
 #include <iostream>
+#include <limits>
 #include <optional>
 #include <cassert>
 #include <vector>
@@ -516,7 +517,7 @@ private:
 template<typename Tag>
 inline std::ostream& operator<< (std::ostream& rOStream, const Dictionary<Tag>& rDictionary) {
     std::string indent = "";
-    rOStream << std::setprecision(10);
+    rOStream << std::setprecision(std::numeric_limits<double>::max_digits10);
     rOStream << "{\n";
     rDictionary.PrintInfo(rOStream, indent);
     rOStream << '}';
-- 
2.43.0


From 62fba7be10169e1fa795b23c47e245012b74fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 23/40] fix: PyQuESo.GetIntegrationPoints failed for every
 model with trimmed elements, as points have no method Weight()

---
 queso/python/PyQuESo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/PyQuESo.py b/queso/python/PyQuESo.py
index 2b1c58e..b05cdb3 100644
--- a/queso/python/PyQuESo.py
+++ b/queso/python/PyQuESo.py
@@ -91,7 +91,7 @@ class PyQuESo:
         for element in self.GetElements():
             if element.IsTrimmed():
                 for point_trimmed_reduced in element.GetIntegrationPoints():
-                    weight = point_trimmed_reduced.Weight()
+                    weight = point_trimmed_reduced.weight
                     if( weight > 0):
                         integration_points.append(point_trimmed_reduced)
             else:
-- 
2.43.0


From 03a7f267cf3d5b942316b28090e3da4d742afdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 24/40] fix: elements outlived the model they belong to, and
 BackgroundGrid.GetElements raised TypeError

---
 .../bindings/add_containers_to_python.cpp     | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 1eca5a2..bdc95f4 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -76,6 +76,19 @@ inline std::tuple<double, double, double> ToTuple3(const Vector3d &rV)
     return { rV[0], rV[1], rV[2] };
 }
 
+/// Returns a list of element views. Each view keeps the owner of the elements alive.
+template<class TViews>
+inline py::list ElementList(const py::object& rOwner, const TViews& rViews)
+{
+    py::list elements;
+    for( const ElementViewType& r_view : rViews ) {
+        py::object element = py::cast(r_view);
+        py::detail::keep_alive_impl(element, rOwner);
+        elements.append(element);
+    }
+    return elements;
+}
+
 } // namespace
 
 using namespace pybind11::literals;
@@ -226,14 +239,9 @@ void AddContainersToPython(pybind11::module& m) {
 		.def(py::init<const GridType::MainDictionaryType&>())
 		.def(
 			"GetElements",
-			[](const GridType& rGrid) {
-				std::vector<ElementViewType> elements;
-				const auto views = rGrid.GetElementViews();
-				elements.reserve(views.size());
-				std::ranges::copy(views, std::back_inserter(elements));
-				return elements;
-			},
-			py::keep_alive<0, 1>()
+			[](const py::object& rSelf) {
+				return ElementList(rSelf, rSelf.cast<const GridType&>().GetElementViews());
+			}
 		)
 		.def("NumberOfActiveElements", &GridType::NumberOfActiveElements)
 		.def("GetConditions", &GridType::GetConditions, py::return_value_policy::reference_internal)
@@ -276,12 +284,8 @@ void AddContainersToPython(pybind11::module& m) {
         }))
         .def("CreateAllFromSettings", &EmbeddedModel::CreateAllFromSettings)
 		.def("GetElements",
-			[](const EmbeddedModel& rEmbeddedModel) {
-				std::vector<ElementViewType> elements;
-				const auto views = rEmbeddedModel.GetElementViews();
-				elements.reserve(views.size());
-				std::ranges::copy(views, std::back_inserter(elements));
-				return elements;
+			[](const py::object& rSelf) {
+				return ElementList(rSelf, rSelf.cast<const EmbeddedModel&>().GetElementViews());
 			})
         .def("GetConditions", &EmbeddedModel::GetConditions, py::return_value_policy::reference_internal)
         .def("GetSettings", &EmbeddedModel::GetSettings, py::return_value_policy::reference_internal)
-- 
2.43.0


From 439d7f16821a65cd13855574b49bcad26f57a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 25/40] fix: iterators over condition segments and triangles of
 a mesh outlived the data they refer to

---
 queso/python/bindings/add_containers_to_python.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index bdc95f4..479236a 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -101,7 +101,7 @@ void AddContainersToPython(pybind11::module& m) {
                 throw py::stop_iteration();
             }
             return self.mpMesh->Triangle<WithNormals>(self.mIndex++);
-        })
+        }, py::keep_alive<0, 1>())
     ;
 
     py::class_<PythonVertexIterator>(m, "VertexIterator")
@@ -259,7 +259,7 @@ void AddContainersToPython(pybind11::module& m) {
         .def("__len__", [](const ConditionSegmentVectorType &self) { return self.size(); })
         .def("__iter__", [](ConditionSegmentVectorType &self) {
             return py::make_iterator(self.begin(), self.end());
-        })
+        }, py::keep_alive<0, 1>())
     ;
 
     /// Export Condition
-- 
2.43.0


From 29416918b978c55fbc30705220d1533d35bf0835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 26/40] fix: ConditionSegmentVector read behind its end

---
 queso/python/bindings/add_containers_to_python.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 479236a..4e95b0f 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -255,7 +255,11 @@ void AddContainersToPython(pybind11::module& m) {
     // Export ConditionSegment Vector
     py::class_<ConditionSegmentVectorType>(m, "ConditionSegmentVector")
         .def("__getitem__", [](const ConditionSegmentVectorType &self, const IndexType i)
-            { return &self[i]; }, py::return_value_policy::reference_internal)
+            {
+                if( i >= self.size() )
+                    throw py::index_error();
+                return &self[i];
+            }, py::return_value_policy::reference_internal)
         .def("__len__", [](const ConditionSegmentVectorType &self) { return self.size(); })
         .def("__iter__", [](ConditionSegmentVectorType &self) {
             return py::make_iterator(self.begin(), self.end());
-- 
2.43.0


From 6df5e7d7e78df63550bbca88b33acbf207f1216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 27/40] fix: DictionaryList read behind its end

---
 queso/python/bindings/add_dictionary_to_python.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/queso/python/bindings/add_dictionary_to_python.cpp b/queso/python/bindings/add_dictionary_to_python.cpp
index dd2d9a6..0443500 100644
--- a/queso/python/bindings/add_dictionary_to_python.cpp
+++ b/queso/python/bindings/add_dictionary_to_python.cpp
@@ -54,7 +54,11 @@ void AddDictionaryToPython(pybind11::module& m) {
     // Export vector
     py::class_<DictionaryVectorPtrType>(m, "DictionaryList")
         .def("__getitem__", [](DictionaryVectorPtrType &self, IndexType i)
-            { return &(*self[i]); }, py::return_value_policy::reference_internal)
+            {
+                if( i >= self.size() )
+                    throw py::index_error();
+                return &(*self[i]);
+            }, py::return_value_policy::reference_internal)
         .def("__len__", [](const DictionaryVectorPtrType &self) { return self.size(); })
         .def("__iter__", [](DictionaryVectorPtrType &self) {
             return py::make_iterator( dereference_iterator(self.begin()), dereference_iterator(self.end()) );
-- 
2.43.0


From 9c20c9c8d25fdeb6e49e2b5f28034653b51991d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 28/40] fix: dictionaries obtained before their holder was
 released outlived the model or list that took them over

---
 queso/python/bindings/add_containers_to_python.cpp | 2 +-
 queso/python/bindings/add_dictionary_to_python.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 4e95b0f..9c3a250 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -285,7 +285,7 @@ void AddContainersToPython(pybind11::module& m) {
     py::class_<EmbeddedModel>(m,"EmbeddedModel")
         .def(py::init([](MainDictionaryHolderType& rSettings) {
             return MakeUnique<EmbeddedModel>(EmbeddedModel::Create(rSettings.Release()));
-        }))
+        }), py::keep_alive<2, 1>()) // Settings obtained from the holder refer to the model from now on.
         .def("CreateAllFromSettings", &EmbeddedModel::CreateAllFromSettings)
 		.def("GetElements",
 			[](const py::object& rSelf) {
diff --git a/queso/python/bindings/add_dictionary_to_python.cpp b/queso/python/bindings/add_dictionary_to_python.cpp
index 0443500..976b4ea 100644
--- a/queso/python/bindings/add_dictionary_to_python.cpp
+++ b/queso/python/bindings/add_dictionary_to_python.cpp
@@ -65,7 +65,7 @@ void AddDictionaryToPython(pybind11::module& m) {
         }, py::keep_alive<0, 1>() )
         .def("append", [](DictionaryVectorPtrType& self, MainDictionaryHolderType& rDictionaryHolder){
             self.push_back(std::move(rDictionaryHolder.Release()));
-        } )
+        }, py::keep_alive<2, 1>() ) // Dictionaries obtained from the holder refer to the list from now on.
     ;
 
 } // End AddDictionaryToPython
-- 
2.43.0


From 7bcf657772c5b7e9d7e717e21e9e0ea40afe01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 29/40] fix: elimination of points erased behind the end when
 there are fewer points than functions

---
 queso/quadrature/trimmed_element.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/queso/quadrature/trimmed_element.hpp b/queso/quadrature/trimmed_element.hpp
index 3a4ff4c..c5b1335 100644
--- a/queso/quadrature/trimmed_element.hpp
+++ b/queso/quadrature/trimmed_element.hpp
@@ -424,10 +424,13 @@ protected:
                     }
                 );
                 // Only keep #number_of_functions integration points.
-                rIntegrationPoint.erase(
-                    rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
-                    rIntegrationPoint.end()
-                );
+                // Note: There may be fewer points than functions.
+                if (rIntegrationPoint.size() > number_of_functions) {
+                    rIntegrationPoint.erase(
+                        rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
+                        rIntegrationPoint.end()
+                    );
+                }
 
                 // Additionally remove all points that are zero.
                 rIntegrationPoint.erase(
-- 
2.43.0


From 5030e7d0f09f96078d04642916e1bcb05a3a09ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 30/40] fix: points in global space referred to the element
 view they were obtained from

---
 queso/containers/element_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/containers/element_view.hpp b/queso/containers/element_view.hpp
index 1a05559..f47b626 100644
--- a/queso/containers/element_view.hpp
+++ b/queso/containers/element_view.hpp
@@ -98,9 +98,9 @@ public:
                 "Global integration-point access requires IntegrationPointType(PointType, double)."
             );
             const auto& r_core = mCore.get();
-            return r_core.integration_points | std::views::transform([this, &r_core](const auto& rPoint) {
+            return r_core.integration_points | std::views::transform([&r_core, det_j = mDetJ](const auto& rPoint) {
                        return IntegrationPointType(
-                           mapping::ToGlobal(rPoint.Point(), r_core.bounds), rPoint.Weight() * mDetJ
+                           mapping::ToGlobal(rPoint.Point(), r_core.bounds), rPoint.Weight() * det_j
                        );
                    });
         }
-- 
2.43.0


From 82de16fb4b7f8325f6d5df69dd1afde779f74b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 31/40] fix: percentages of an empty volume or surface were
 written as nan, which is no valid JSON

---
 queso/embedded_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index d98b48c..9de44aa 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -183,7 +183,7 @@ void EmbeddedModel::ComputeVolume(const TriangleMeshView& rTriangleMesh)
     r_model_info[MainInfo::quadrature_info].SetValue(QuadratureInfo::tot_num_points, tot_num_points);
     r_model_info[MainInfo::quadrature_info].SetValue(QuadratureInfo::represented_volume, represented_volume);
     r_model_info[MainInfo::quadrature_info].SetValue(
-        QuadratureInfo::percentage_of_geometry_volume, represented_volume / volume * 100.0
+        QuadratureInfo::percentage_of_geometry_volume, (volume != 0.0) ? represented_volume / volume * 100.0 : 0.0
     );
     const double num_of_points_per_full_element =
         (num_full_elements > 0) ? static_cast<double>(tot_num_points_full) / static_cast<double>(num_full_elements)
@@ -282,7 +282,8 @@ void EmbeddedModel::ComputeCondition(
 
     // ConditionInfo::
     r_new_condition_info.SetValue(
-        ConditionInfo::perc_surf_area_in_active_domain, surf_area_in_active_domain / surface_area * 100.0
+        ConditionInfo::perc_surf_area_in_active_domain,
+        (surface_area > 0.0) ? surf_area_in_active_domain / surface_area * 100.0 : 0.0
     );
 
     // ElapsedTimeInfo::
-- 
2.43.0


From e28ee84d7b2f0aeb1e502ebf3569f4032ae7c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 32/40] fix: a second volume, or a condition before the volume,
 terminated the process

---
 queso/embedded_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 9de44aa..899364c 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -26,6 +26,7 @@ namespace queso {
 
 void EmbeddedModel::ComputeVolume(const TriangleMeshView& rTriangleMesh)
 {
+    QuESo_ERROR_IF(mpBRepOperator) << "The volume of this model was already created.\n";
 
     CheckIfMeshIsWithinBoundingBox(rTriangleMesh);
 
@@ -210,6 +211,7 @@ void EmbeddedModel::ComputeCondition(
     const MainDictionaryType& rConditionSettings
 )
 {
+    QuESo_ERROR_IF(!mpBRepOperator) << "The volume must be created before the conditions.\n";
 
     CheckIfMeshIsWithinBoundingBox(rTriangleMesh);
 
-- 
2.43.0


From 2e3a07002b239f33d93f7121b8731bc806378357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:30 +0000
Subject: [PATCH 33/40] fix: settings without elements or with degenerate
 bounds crashed or terminated the process

---
 .../utilities/check_dictionary_utilities.hpp  | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/queso/utilities/check_dictionary_utilities.hpp b/queso/utilities/check_dictionary_utilities.hpp
index 6673ed3..ec50e1f 100644
--- a/queso/utilities/check_dictionary_utilities.hpp
+++ b/queso/utilities/check_dictionary_utilities.hpp
@@ -14,6 +14,10 @@
 #ifndef CHECK_DICTIONARY_UTILITIES_INCLUDE_HPP
 #define CHECK_DICTIONARY_UTILITIES_INCLUDE_HPP
 
+//// STL includes
+#include <cmath>
+#include <limits>
+
 //// Project includes
 #include "queso/includes/define.hpp"
 #include "queso/containers/dictionary.hpp"
@@ -49,9 +53,26 @@ namespace CheckDictionaryUtilities {
 
         // Check 'number_of_elements' related settings.
         const Vector3i num_elements = rSettings[MainSettings::background_grid_settings].GetRequiredValue<Vector3i>(BackgroundGridSettings::number_of_elements);
+        QuESo_ERROR_IF(Math::Min( num_elements ) < 1) << "Invalid Input. The number of elements must be n > 0 in all directions. \n";
+        QuESo_ERROR_IF(num_elements[0] > std::numeric_limits<IndexType>::max() / num_elements[1] / num_elements[2])
+            << "Invalid Input. The number of elements is too large. \n";
         const IndexType tot_num_elements = num_elements[0]*num_elements[1]*num_elements[2];
         QuESo_INFO_IF( tot_num_elements < 2 && echo_level > 0 ) << "You are using only one single element.\n";
 
+        // Check bounds: All elements must have a (finite) positive extent in both spaces.
+        const auto check_bounds = [&num_elements](const PointType& rLower, const PointType& rUpper, const char* pSpace) {
+            for( IndexType i = 0; i < 3; ++i ){
+                const double extent = rUpper[i] - rLower[i];
+                QuESo_ERROR_IF( !std::isfinite(extent) || !(extent / static_cast<double>(num_elements[i]) > ZEROTOL) )
+                    << "Invalid Input. The 'upper_bound_" << pSpace << "' must be larger than the 'lower_bound_" << pSpace << "' in all directions. \n";
+            }
+        };
+        const auto& r_grid_settings = rSettings[MainSettings::background_grid_settings];
+        check_bounds( r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::lower_bound_xyz),
+            r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::upper_bound_xyz), "xyz" );
+        check_bounds( r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::lower_bound_uvw),
+            r_grid_settings.GetRequiredValue<PointType>(BackgroundGridSettings::upper_bound_uvw), "uvw" );
+
         const IntegrationMethod integration_method = rSettings[MainSettings::non_trimmed_quadrature_rule_settings]
             .GetRequiredValue<IntegrationMethod>(NonTrimmedQuadratureRuleSettings::integration_method);
 
-- 
2.43.0


From 901e36e95f8ad57e81c7b99d61c132a3e66bbd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 34/40] fix: a run with output deleted the working directory
 for some names of the output directory

---
 queso/python/PyQuESo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/queso/python/PyQuESo.py b/queso/python/PyQuESo.py
index b05cdb3..2bbbfe7 100644
--- a/queso/python/PyQuESo.py
+++ b/queso/python/PyQuESo.py
@@ -22,10 +22,13 @@ class PyQuESo:
         write_output_to_file = settings["general_settings"].GetBool("write_output_to_file")
         output_directory_name = settings["general_settings"].GetString("output_directory_name")
         if write_output_to_file:
-            folder_path = "./" + output_directory_name + '/'
+            folder_path = os.path.abspath(output_directory_name)
+            # The output directory is replaced, and must therefore not contain the current working directory.
+            if os.path.commonpath([os.getcwd(), folder_path]) == folder_path:
+                raise Exception(f"PyQuESo :: Given 'output_directory_name': '{output_directory_name}' is not a valid output directory.")
             if os.path.exists(folder_path):
                 shutil.rmtree(folder_path)
-            os.mkdir(folder_path)
+            os.makedirs(folder_path)
 
     def Run(self) -> None:
         """Runs the QuESo embedded model initialization and generation.
-- 
2.43.0


From d701be926542a66e254d23d85d9ad9a8c3362db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:00 +0000
Subject: [PATCH 35/40] fix: Python: triangles with unknown vertices and GGQ
 rules without a table crashed the process

---
 queso/python/bindings/add_containers_to_python.cpp            | 1 +
 .../integration_points_1d/integration_points_factory_1d.cpp   | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 9c3a250..fcf3de9 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -211,6 +211,7 @@ void AddContainersToPython(pybind11::module& m) {
         .def("AddTriangle", [](TriangleMesh& self, const std::array<IndexType,3>& rTriangle){
             const Vector3i triangle_indices(rTriangle);
             const auto &vertices = self.Vertices();
+            QuESo_ERROR_IF( Math::Max(triangle_indices) >= self.NumOfVertices() ) << "The given triangle refers to an unknown vertex.\n";
             const TriangleProxy<WithoutNormals> triangle {
                 std::span<const double, 3>(vertices[triangle_indices[0]].data(), 3),
                 std::span<const double, 3>(vertices[triangle_indices[1]].data(), 3),
diff --git a/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp b/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp
index 6774502..a942fff 100644
--- a/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp
+++ b/queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp
@@ -27,6 +27,10 @@ typedef IntegrationPointFactory1D::Ip1DVectorPtrType Ip1DVectorPtrType;
 
 // Public member functions
 Ip1DVectorPtrType IntegrationPointFactory1D::GetGGQ(SizeType PolynomialDegree, SizeType NumberKnotSpans, IntegrationMethodType Method ){
+    // The rules are only tabulated for these degrees.
+    QuESo_ERROR_IF(PolynomialDegree < 2 || PolynomialDegree > 4) << "Generalized Gauss Quadrature (GGQ) rules are only available for 2 <= p <= 4.\n";
+    QuESo_ERROR_IF(NumberKnotSpans < 1) << "At least one knot span is required.\n";
+
     const double a = 0.0;
     const double b = 1.0;
 
-- 
2.43.0


From b6c9e4bf1f3360f50383efb422624fbdd33befbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 36/40] fix: Python: a triangle read freed memory after a
 change of its mesh

---
 .../bindings/add_containers_to_python.cpp     | 41 +++++++++++--------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index fcf3de9..5c8eb7f 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -56,7 +56,16 @@ namespace py = pybind11;
 
 namespace {
 
-using PythonTriangleProxy = TriangleProxy<WithNormals>;
+/// Triangle that owns its points. It remains valid, when the mesh is changed.
+struct PythonTriangle {
+    explicit PythonTriangle(const TriangleProxy<WithNormals>& rTriangle)
+        : P1{rTriangle.P1[0], rTriangle.P1[1], rTriangle.P1[2]}, P2{rTriangle.P2[0], rTriangle.P2[1], rTriangle.P2[2]},
+          P3{rTriangle.P3[0], rTriangle.P3[1], rTriangle.P3[2]}, Normal{rTriangle.Normal[0], rTriangle.Normal[1], rTriangle.Normal[2]} {}
+
+    TriangleProxy<WithNormals> Proxy() const { return { P1, P2, P3, Normal }; }
+
+    Vector3d P1, P2, P3, Normal;
+};
 
 struct TriangleIteratorTag {};
 
@@ -100,8 +109,8 @@ void AddContainersToPython(pybind11::module& m) {
             if (self.mIndex >= self.mpMesh->NumOfTriangles()) {
                 throw py::stop_iteration();
             }
-            return self.mpMesh->Triangle<WithNormals>(self.mIndex++);
-        }, py::keep_alive<0, 1>())
+            return PythonTriangle(self.mpMesh->Triangle<WithNormals>(self.mIndex++));
+        })
     ;
 
     py::class_<PythonVertexIterator>(m, "VertexIterator")
@@ -114,22 +123,22 @@ void AddContainersToPython(pybind11::module& m) {
         })
     ;
 
-    py::class_<PythonTriangleProxy>(m, "Triangle")
-        .def_property_readonly("p1", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P1[0], self.P1[1], self.P1[2]}); })
-        .def_property_readonly("p2", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P2[0], self.P2[1], self.P2[2]}); })
-        .def_property_readonly("p3", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P3[0], self.P3[1], self.P3[2]}); })
-        .def_property_readonly("normal", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.Normal[0], self.Normal[1], self.Normal[2]}); })
-        .def("Area", [](const PythonTriangleProxy &self){
-            return TriangleUtilities::Area(self);
+    py::class_<PythonTriangle>(m, "Triangle")
+        .def_property_readonly("p1", [](const PythonTriangle &self){ return ToTuple3(self.P1); })
+        .def_property_readonly("p2", [](const PythonTriangle &self){ return ToTuple3(self.P2); })
+        .def_property_readonly("p3", [](const PythonTriangle &self){ return ToTuple3(self.P3); })
+        .def_property_readonly("normal", [](const PythonTriangle &self){ return ToTuple3(self.Normal); })
+        .def("Area", [](const PythonTriangle &self){
+            return TriangleUtilities::Area(self.Proxy());
         })
-        .def("Center", [](const PythonTriangleProxy &self){
-            return ToTuple3(TriangleUtilities::Center(self));
+        .def("Center", [](const PythonTriangle &self){
+            return ToTuple3(TriangleUtilities::Center(self.Proxy()));
         })
-        .def("AspectRatio", [](const PythonTriangleProxy &self){
-            return TriangleUtilities::AspectRatio(self);
+        .def("AspectRatio", [](const PythonTriangle &self){
+            return TriangleUtilities::AspectRatio(self.Proxy());
         })
-        .def("GetIPsGlobal", [](const PythonTriangleProxy &self, IndexType Method){
-            return TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPointType>(self, Method);
+        .def("GetIPsGlobal", [](const PythonTriangle &self, IndexType Method){
+            return TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPointType>(self.Proxy(), Method);
         }, py::return_value_policy::move)
     ;
 
-- 
2.43.0


From ede74606bb202b217314012aa74935e3c5cc74ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:06 +0000
Subject: [PATCH 37/40] fix: a surface load without direction was accepted and
 gave NaN forces

---
 kratos_interface/weak_bcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kratos_interface/weak_bcs.py b/kratos_interface/weak_bcs.py
index bc0b9eb..7f3ef50 100644
--- a/kratos_interface/weak_bcs.py
+++ b/kratos_interface/weak_bcs.py
@@ -215,7 +215,7 @@ class SurfaceLoad(WeakBcsBase):
         direction_array = np.array(direction)
         norm_direction = np.linalg.norm(direction_array)
         if norm_direction < 1e-10:
-            Exception("SurfaceLoad :: Norm of 'direction' is close to zero.")
+            raise Exception("SurfaceLoad :: Norm of 'direction' is close to zero.")
         normalized_direction = direction_array / norm_direction
         self.force = modulus * normalized_direction
 
-- 
2.43.0


From 2b86ac7be923815a074f1d212c00b73324b4306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:06 +0000
Subject: [PATCH 38/40] fix: the message about an unknown type of entities
 failed with a NameError

---
 kratos_interface/model_part_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kratos_interface/model_part_utilities.py b/kratos_interface/model_part_utilities.py
index 4bac39d..d18911a 100644
--- a/kratos_interface/model_part_utilities.py
+++ b/kratos_interface/model_part_utilities.py
@@ -96,7 +96,7 @@ class ModelPartUtilities:
             entity_list = KratosModelPart.Conditions
         else:
             message = (
-                f"Given condition type '{type_name}' is not available. "
+                f"Given type '{type}' is not available. "
                 f"Available options are: 'Elements' and 'Conditions'.")
             raise Exception(message)
 
-- 
2.43.0


From bb2278269cf84a7c428d62e597c6d74669f1926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:06 +0000
Subject: [PATCH 39/40] fix: triangles read from a model part referred to
 vertices that the mesh had before

---
 kratos_interface/model_part_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kratos_interface/model_part_utilities.py b/kratos_interface/model_part_utilities.py
index d18911a..96a2f01 100644
--- a/kratos_interface/model_part_utilities.py
+++ b/kratos_interface/model_part_utilities.py
@@ -86,7 +86,7 @@ class ModelPartUtilities:
         Raises:
             Exception: If the type is not one of the allowed options or if the geometry does not consist of triangles.
         """
-        id_map = {node.Id: queso_id for queso_id, node in enumerate(KratosModelPart.Nodes)}
+        id_map = {node.Id: queso_id for queso_id, node in enumerate(KratosModelPart.Nodes, TriangleMesh.NumOfVertices())}
         for node in KratosModelPart.Nodes: # type: ignore
             TriangleMesh.AddVertex((node.X, node.Y, node.Z))
 
-- 
2.43.0


From 411e0f3581d297cfa7a0d58c3a3fd2bf96a1a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:06 +0000
Subject: [PATCH 40/40] fix: GetAnalysis failed with an AttributeError if no
 analysis had been created

---
 queso/python/PyQuESo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queso/python/PyQuESo.py b/queso/python/PyQuESo.py
index 2bbbfe7..86ac11c 100644
--- a/queso/python/PyQuESo.py
+++ b/queso/python/PyQuESo.py
@@ -17,6 +17,7 @@ class PyQuESo:
         Args:
             json_filename (str): Path to the JSON configuration file.
         """
+        self.analysis = None
         self._settings_holder = JsonIO.read_settings(json_filename)
         settings = self._settings_holder.GetObject()
         write_output_to_file = settings["general_settings"].GetBool("write_output_to_file")
-- 
2.43.0

