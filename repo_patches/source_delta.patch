From ae618aeaf3a5e91f2f035210bac228dea8fd1188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:31 +0000
Subject: [PATCH 01/53] fix: masked per-feature variance reads every selected
 sample instead of the first one only

---
 include/ffcl/common/math/statistics/Statistics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c6cbf31..c180269 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -315,7 +315,7 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
+            const auto temp = samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
                               mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
@@ -417,7 +417,7 @@ std::size_t argmax_variance_per_feature(const IndicesIterator&          indices_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
+            const auto temp = samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
                               mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
-- 
2.43.0


From 20c73815af81d70c2978e435eff1ee84c8b6857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:26 +0000
Subject: [PATCH 02/53] fix: default KDTree max_depth is unbounded instead of
 zero, so that the default bucket_size is honoured

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 23b2ad7..9b16f91 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <array>
 #include <cstddef>  // std::size_t
+#include <limits>
 #include <memory>
 #include <tuple>
 
@@ -60,7 +61,7 @@ class KDTree {
     struct Options {
         Options()
           : bucket_size_{40}
-          , max_depth_{common::infinity<std::size_t>()}
+          , max_depth_{std::numeric_limits<std::size_t>::max()}
           , axis_selection_policy_ptr_{std::make_shared<
                 kdtree::policy::HighestVarianceBuild<IndicesIteratorType, SamplesIteratorType, BoundType>>()}
           , splitting_rule_policy_ptr_{
@@ -113,7 +114,7 @@ class KDTree {
                 writer.Int64(bucket_size_);
 
                 writer.String("max_depth");
-                writer.Int64(max_depth_);
+                writer.Uint64(max_depth_);
             }
             writer.EndObject();
         }
-- 
2.43.0


From c26e83343dfab1beaa322224c464b0e6f079a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 03/53] fix: kdtree axis selection with a feature mask never
 selects an axis outside of the mask

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 487673b..bea60df 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -30,7 +30,7 @@ std::size_t select_longest_axis(const Bound& bound, const std::vector<std::size_
     static_assert(std::is_trivial_v<DataType>, "DataType must be trivial.");
 
     // feature index of the greatest range dimension in the kd bounding box at the indices of the feature_mask
-    std::size_t current_max_range_feature_index = 0;
+    std::size_t current_max_range_feature_index = feature_mask.empty() ? 0 : feature_mask.front();
     DataType    current_max_range               = 0;
 
     // "feature_index"s are only the ones specified in the feature_mask
@@ -152,7 +152,7 @@ std::size_t select_largest_variance_axis(const IndicesIterator&          indices
         return select_longest_axis(bound, feature_mask);
     }
     // return a random axis if theres only one sample left
-    return common::math::random::uniform_distribution<std::size_t>(0, n_features - 1)();
+    return feature_mask[common::math::random::uniform_distribution<std::size_t>(0, feature_mask.size() - 1)()];
 }
 template <typename ForwardedIndicesIteratorPair, typename SamplesIterator>
 auto shift_median_to_leftmost_equal_value(std::size_t                    median_index,
-- 
2.43.0


From 2169e52750dc24459055becb6f1af7ffbdfe7680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:51 +0000
Subject: [PATCH 04/53] fix: the variance axis selection of two samples looks
 at these two samples, not at the whole dataset

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index bea60df..59d6553 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -88,7 +88,8 @@ std::size_t select_largest_variance_axis(const IndicesIterator& indices_range_fi
     // select the axis according to the dimension with the most spread between 2 points
     if (n_samples == 2) {
         // otherwise apply the bounding box method
-        auto bound = make_tight_bound<SamplesIterator, Bound>(samples_range_first, samples_range_last, n_features);
+        auto bound = make_tight_bound<IndicesIterator, SamplesIterator, Bound>(
+            indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features);
 
         return select_longest_axis(bound);
     }
@@ -147,7 +148,8 @@ std::size_t select_largest_variance_axis(const IndicesIterator&          indices
     // select the axis according to the dimension with the most spread between 2 points
     if (n_samples == 2) {
         // otherwise apply the bounding box method
-        auto bound = make_tight_bound<SamplesIterator, Bound>(samples_range_first, samples_range_last, n_features);
+        auto bound = make_tight_bound<IndicesIterator, SamplesIterator, Bound>(
+            indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features);
 
         return select_longest_axis(bound, feature_mask);
     }
-- 
2.43.0


From 3c5bd235764f923fb9603ba8abb1a70d979c25b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:33 +0000
Subject: [PATCH 05/53] fix: partitioning compares coordinates exactly, samples
 closer than epsilon ended on the wrong side of the cut

---
 include/ffcl/common/algorithms/Sorting.hpp               | 6 ++----
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/common/algorithms/Sorting.hpp b/include/ffcl/common/algorithms/Sorting.hpp
index e70a5fe..4e8ee8f 100644
--- a/include/ffcl/common/algorithms/Sorting.hpp
+++ b/include/ffcl/common/algorithms/Sorting.hpp
@@ -107,8 +107,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // left_index (!= || ==) pivot_index && pivot_index (!= || ==) right_index
 
         // pivot_value > right_value
-        if (inequality(pivot_value,
-                       samples_range_first[indices_range_first[right_index] * n_features + feature_index])) {
+        if (samples_range_first[indices_range_first[right_index] * n_features + feature_index] < pivot_value) {
             // swap left_value and right_value
             std::iter_swap(indices_range_first + left_index, indices_range_first + right_index);
             // if the pivot was swapped because left index was equal to pivot index, update it to the index it was
@@ -123,8 +122,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // else if pivot_value == right_value
         else {
             // if left_value == pivot_value
-            if (equality(samples_range_first[indices_range_first[left_index] * n_features + feature_index],
-                         pivot_value)) {
+            if (samples_range_first[indices_range_first[left_index] * n_features + feature_index] == pivot_value) {
                 // dont swap if the left_index == pivot_index
                 if (static_cast<std::size_t>(left_index) != pivot_index) {
                     // swap the ranges so that the range of the left index is put at the right of the pivot
diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 59d6553..8a75d90 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -208,7 +208,7 @@ auto shift_median_to_leftmost_equal_value(std::size_t                    median_
         // Decrement the iterators while the left range isn't empty and the neighbor value at the left of the median is
         // still equal to the cut value at the corresponding feature index
         while (left_neighbor_it >= left_indices_range.first &&
-               common::equality(samples_range_first[left_neighbor_it[0] * n_features + feature_index], cut_value)) {
+               samples_range_first[left_neighbor_it[0] * n_features + feature_index] == cut_value) {
             --left_neighbor_it;
         }
         // Update the ranges accordingly
-- 
2.43.0


From 18adef2f250eb8d5a2976a1410a140c8b946cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:03 +0000
Subject: [PATCH 06/53] fix: per-feature mean and variance of signed integer
 samples do not divide by an unsigned count

---
 include/ffcl/common/math/statistics/Statistics.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c180269..0c7cb1e 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -154,7 +154,7 @@ auto compute_mean_per_feature(const SamplesIterator& samples_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
     return mean_per_feature;
 }
 
@@ -180,7 +180,7 @@ auto compute_mean_per_feature(const IndicesIterator& indices_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
     return mean_per_feature;
 }
 
@@ -209,7 +209,7 @@ auto compute_mean_per_feature(const IndicesIterator&          indices_range_firs
         /**/ mean_per_feature.begin(),
         /**/ mean_per_feature.end(),
         /**/ mean_per_feature.begin(),
-        [n_samples](const auto& feature) { return feature / n_samples; });
+        [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
     return mean_per_feature;
 }
 
@@ -246,7 +246,7 @@ auto compute_variance_per_feature(const SamplesIterator& samples_range_first,
     std::transform(variance_per_feature.begin(),
                    variance_per_feature.end(),
                    variance_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / (n_samples - 1); });
+                   [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples - 1); });
 
     return variance_per_feature;
 }
@@ -290,7 +290,7 @@ auto compute_variance_per_feature(const IndicesIterator& indices_range_first,
     std::transform(variance_per_feature.begin(),
                    variance_per_feature.end(),
                    variance_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / (n_samples - 1); });
+                   [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples - 1); });
 
     return variance_per_feature;
 }
@@ -323,7 +323,7 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
     std::transform(variance_per_feature.begin(),
                    variance_per_feature.end(),
                    variance_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / (n_samples - 1); });
+                   [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples - 1); });
 
     return variance_per_feature;
 }
-- 
2.43.0


From 98beb56790973d70004cd2dc54e23a08e8f6ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:50 +0000
Subject: [PATCH 07/53] fix: a search buffer without a capacity is unbounded
 even while it is empty, integer searches pruned every sibling

---
 include/ffcl/search/buffer/StaticBuffer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/search/buffer/StaticBuffer.hpp b/include/ffcl/search/buffer/StaticBuffer.hpp
index 205fd86..0ef1c65 100644
--- a/include/ffcl/search/buffer/StaticBuffer.hpp
+++ b/include/ffcl/search/buffer/StaticBuffer.hpp
@@ -8,6 +8,7 @@
 #include "ffcl/datastruct/bounds/UnboundedBall.hpp"  // default bound
 
 #include <cstddef>
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -48,7 +49,9 @@ class StaticBuffer {
       , closest_distance_{common::infinity<DistanceType>()}
       , buffer_index_of_furthest_index_{0}
       , furthest_distance_{common::infinity<DistanceType>()}
-      , max_capacity_{max_capacity} {}
+      // infinity is zero for the integral types: an unbounded capacity is stored as the greatest capacity instead
+      , max_capacity_{max_capacity == common::infinity<IndexType>() ? std::numeric_limits<IndexType>::max()
+                                                                    : max_capacity} {}
 
     constexpr auto centroid_begin() const {
         return bound_.centroid_begin();
-- 
2.43.0


From 05c74fa83d9805904410303309d2a7c2cdd8fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 08/53] fix: a search buffer that owns its visited indices
 keeps filtering them after being moved

---
 include/ffcl/search/buffer/WithMemory.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/search/buffer/WithMemory.hpp b/include/ffcl/search/buffer/WithMemory.hpp
index 8f84c03..74a326d 100644
--- a/include/ffcl/search/buffer/WithMemory.hpp
+++ b/include/ffcl/search/buffer/WithMemory.hpp
@@ -34,21 +34,21 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     explicit WithMemory(BoundType&& bound, const IndexType& max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , external_visited_indices_{nullptr} {}
 
     WithMemory(BoundType&&           bound,
                const VisitedIndices& visited_indices_reference,
                const IndexType&      max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_reference} {}
+      , external_visited_indices_{&visited_indices_reference} {}
 
     WithMemory(BoundType&&      bound,
                VisitedIndices&& visited_indices,
                const IndexType& max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{std::move(visited_indices)}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , external_visited_indices_{nullptr} {}
 
     WithMemory(BoundType&&                       bound,
                const VisitedIndicesIteratorType& visited_indices_first,
@@ -89,8 +89,9 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
 
     void update_impl(const IndexType& index_candidate, const DistanceType& distance_candidate) {
         // consider an update only if the candidate hasnt been visited
-        const bool is_candidate_valid =
-            visited_indices_const_reference_.find(index_candidate) == visited_indices_const_reference_.end();
+        const auto& visited_indices = external_visited_indices_ ? *external_visited_indices_ : visited_indices_;
+
+        const bool is_candidate_valid = visited_indices.find(index_candidate) == visited_indices.end();
 
         if (is_candidate_valid) {
             this->update_static_buffers(index_candidate, distance_candidate);
@@ -120,8 +121,10 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     }
 
   private:
-    VisitedIndices        visited_indices_;
-    const VisitedIndices& visited_indices_const_reference_;
+    // the visited indices owned by the buffer
+    VisitedIndices visited_indices_;
+    // the visited indices owned by the caller, nullptr when the buffer owns them
+    const VisitedIndices* external_visited_indices_;
 };
 
 // Declare and define a static_base_traits specialization for WithMemory:
-- 
2.43.0


From c03b875972924aa1268d3a5d984813e5269978c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:13 +0000
Subject: [PATCH 09/53] fix: moving the lower bound of a lower-bound-and-length
 segment keeps its upper bound

---
 include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp b/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
index 989ec1d..da2a101 100644
--- a/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
+++ b/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
@@ -47,6 +47,8 @@ constexpr auto LowerBoundAndLength<Value>::lower_bound_impl() const {
 
 template <typename Value>
 void LowerBoundAndLength<Value>::update_lower_bound_impl(const ValueType& new_lower_bound) {
+    // the length follows so that the upper bound stays where it is
+    segment_representation_.second += segment_representation_.first - new_lower_bound;
     segment_representation_.first = new_lower_bound;
 }
 
-- 
2.43.0


From 9f6d4a6608ed5e8ae4541e48a9cb96215441aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:22 +0000
Subject: [PATCH 10/53] fix: the center of an integer interval with an even
 negative sum is its exact middle

---
 include/ffcl/common/Utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index 51d5707..1ea86e7 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -447,7 +447,8 @@ constexpr auto compute_center_with_left_rounding(const T& lower, const U& upper)
     const auto lower_plus_upper = lower + upper;
 
     if constexpr (std::is_integral_v<std::common_type_t<T, U>>) {
-        return lower_plus_upper < 0 ? lower_plus_upper / 2 - 1 : lower_plus_upper / 2;
+        // an odd negative sum is rounded towards the left, an even one is already exact
+        return lower_plus_upper < 0 && lower_plus_upper % 2 != 0 ? lower_plus_upper / 2 - 1 : lower_plus_upper / 2;
 
     } else {
         // For floating point, regular calculation suffices
-- 
2.43.0


From 81d3b79f703fc82588762162d237307208097195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 11/53] fix: the distance from the centroid of a box to its
 furthest bound is not truncated to an integer

---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index b21ec72..e7d49d4 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -161,7 +161,7 @@ constexpr auto AABBWithCentroid<Segment, NFeatures>::compute_distance_to_centroi
 
 template <typename Segment, std::size_t NFeatures>
 constexpr auto AABBWithCentroid<Segment, NFeatures>::centroid_to_furthest_bound_distance_impl() const {
-    auto furthest_distance = 0;
+    ValueType furthest_distance = 0;
 
     for (const auto& segment : segments_) {
         const auto candidate_furthest_distance = segment.centroid_to_bound_distance();
-- 
2.43.0


From 523d12b07071f7bb283a051a14e416e3c4e4fbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:11 +0000
Subject: [PATCH 12/53] fix: the k-th closest pair search keeps filling its
 queue until it holds k pairs

---
 include/ffcl/search/buffer/IndicesToBuffersMap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index 93917d6..51e9057 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -428,7 +428,8 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
     // be to find the nth_elemnts from the buffer and emplace only those to the priority queue. The first method's
     // drawback is that it requires management of the emplace/pop-ed elements. The second method's drawback is that
     // it would require a deep copy of the indices and distances of buffer.
-    if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.empty()
+    // Any candidate is valid as long as the priority queue is not full.
+    if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.size() < buffer.max_capacity()
                                          ? common::infinity<DistanceType>()
                                          : std::get<2>(kth_closest_edge_priority_queue_.top()))) {
         // Iterate over all the buffer indices as we dont know which elements could be valid candidates.
@@ -436,7 +437,7 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
             const auto candidate_index    = buffer_indices[buffer_index];
             const auto candidate_distance = buffer_distances[buffer_index];
 
-            const auto pq_furthest_distance = kth_closest_edge_priority_queue_.empty()
+            const auto pq_furthest_distance = kth_closest_edge_priority_queue_.size() < buffer.max_capacity()
                                                   ? common::infinity<DistanceType>()
                                                   : std::get<2>(kth_closest_edge_priority_queue_.top());
 
-- 
2.43.0


From a4ab5b877aa91d0a6a86f2e3a5e62442048c3b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:06 +0000
Subject: [PATCH 13/53] fix: the default edge of integer distances is the
 longest one, spanning trees of integer samples never ended

---
 .../datastruct/graph/spanning_tree/MinimumSpanningTree.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp b/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
index 5f105ea..3671ffd 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp
@@ -3,6 +3,7 @@
 #include "ffcl/common/Utils.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -23,7 +24,11 @@ constexpr auto make_edge(const Index& index_1, const Index& index_2, const Dista
 
 template <typename Index, typename Distance>
 constexpr auto make_default_edge() {
-    return make_edge(common::infinity<Index>(), common::infinity<Index>(), common::infinity<Distance>());
+    // integral types have no representation of infinity: their largest value is used instead
+    constexpr auto largest_distance =
+        std::numeric_limits<Distance>::has_infinity ? common::infinity<Distance>() : std::numeric_limits<Distance>::max();
+
+    return make_edge(common::infinity<Index>(), common::infinity<Index>(), Distance{largest_distance});
 }
 
 template <typename Index, typename Distance>
-- 
2.43.0


From 916c9951affb4490ce74d3a4d89b131db4008654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 14/53] fix: the mutual reachability spanning tree considers
 every sample that can beat the nearest neighbor, it was not minimal

---
 .../graph/spanning_tree/BoruvkasAlgorithm.hpp | 103 ++++++++++++------
 1 file changed, 68 insertions(+), 35 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
index 007c037..0425f9f 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
@@ -215,6 +215,12 @@ class BoruvkasAlgorithm {
                                         const CoreDistancesArrayType&    core_distances,
                                         Forest&                          forest) const;
 
+    EdgeType shortest_k_mutual_reachability_edge(const search::Searcher<Indexer>& searcher,
+                                                 const CoreDistancesArrayType&    core_distances,
+                                                 const Forest&                    forest,
+                                                 const IndexType&                 component_representative,
+                                                 const IndexType&                 query_index) const;
+
     void step_dual_tree_sequential(const search::Searcher<Indexer>& searcher,
                                    const CoreDistancesArrayType&    core_distances,
                                    Forest&                          forest) const;
@@ -277,6 +283,60 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
     }
 }
 
+template <typename Indexer>
+typename BoruvkasAlgorithm<Indexer>::EdgeType BoruvkasAlgorithm<Indexer>::shortest_k_mutual_reachability_edge(
+    const search::Searcher<Indexer>& searcher,
+    const CoreDistancesArrayType&    core_distances,
+    const Forest&                    forest,
+    const IndexType&                 component_representative,
+    const IndexType&                 query_index) const {
+    const auto query_first = searcher.features_range_first(query_index);
+    const auto query_last  = searcher.features_range_last(query_index);
+
+    // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
+    // the same component using the UnionFind data structure
+    const auto nn_buffer_query =
+        searcher(search::buffer::WithUnionFind(query_first,
+                                               query_last,
+                                               forest.get_union_find_const_reference(),
+                                               component_representative,
+                                               /*max_capacity=*/static_cast<IndexType>(1)));
+
+    // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
+    const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
+    const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
+
+    auto shortest_edge = EdgeType{
+        query_index,
+        nearest_neighbor_index,
+        std::max({core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance})};
+
+    // When the core distance of the nearest neighbor is what makes the edge that long, samples that are further away but
+    // that have a shorter core distance could be closer in terms of k-mutual reachability.
+    if (std::get<2>(shortest_edge) > std::max(core_distances[query_index], nearest_neighbor_distance)) {
+        using BoundType = datastruct::bounds::BallView<SamplesIteratorType>;
+
+        const auto candidates = searcher(search::buffer::WithUnionFind<SamplesIteratorType, BoundType>(
+            BoundType(query_first, query_last, std::get<2>(shortest_edge)),
+            forest.get_union_find_const_reference(),
+            component_representative));
+
+        const auto candidates_indices   = candidates.indices();
+        const auto candidates_distances = candidates.distances();
+
+        for (std::size_t candidate = 0; candidate < candidates_indices.size(); ++candidate) {
+            const auto k_mutual_reachability_distance = std::max({core_distances[query_index],
+                                                                  core_distances[candidates_indices[candidate]],
+                                                                  candidates_distances[candidate]});
+
+            if (k_mutual_reachability_distance < std::get<2>(shortest_edge)) {
+                shortest_edge = EdgeType{query_index, candidates_indices[candidate], k_mutual_reachability_distance};
+            }
+        }
+    }
+    return shortest_edge;
+}
+
 template <typename Indexer>
 void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>& searcher,
                                                  const CoreDistancesArrayType&    core_distances,
@@ -290,28 +350,15 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
         components_closest_edge[component_representative] = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
         for (const auto& query_index : component) {
-            // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-            // the same component using the UnionFind data structure
-            auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                          searcher.features_range_last(query_index),
-                                                                          forest.get_union_find_const_reference(),
-                                                                          component_representative,
-                                                                          /*max_capacity=*/static_cast<IndexType>(1)));
-
-            // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-            const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-            const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
+            const auto candidate_edge = shortest_k_mutual_reachability_edge(
+                searcher, core_distances, forest, component_representative, query_index);
 
             const auto current_closest_edge_distance = std::get<2>(components_closest_edge[component_representative]);
 
-            const auto k_mutual_reachability_distance = std::max(
-                {core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
-
             // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the
             // current shortest edge distance
-            if (k_mutual_reachability_distance < current_closest_edge_distance) {
-                components_closest_edge[component_representative] =
-                    EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
+            if (std::get<2>(candidate_edge) < current_closest_edge_distance) {
+                components_closest_edge[component_representative] = candidate_edge;
             }
         }
     }
@@ -390,27 +437,13 @@ void BoruvkasAlgorithm<Indexer>::dual_component_step_sequential(const search::Se
     auto closest_edge = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
     for (const auto& query_index : smallest_component) {
-        // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-        // the same component using the UnionFind data structure
-        auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                      searcher.features_range_last(query_index),
-                                                                      forest.get_union_find_const_reference(),
-                                                                      smallest_component_representative,
-                                                                      /*max_capacity=*/static_cast<IndexType>(1)));
-
-        // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-        const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-        const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
-
-        const auto current_closest_edge_distance = std::get<2>(closest_edge);
-
-        const auto k_mutual_reachability_distance =
-            std::max({core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
+        const auto candidate_edge = shortest_k_mutual_reachability_edge(
+            searcher, core_distances, forest, smallest_component_representative, query_index);
 
         // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the current
         // shortest edge distance
-        if (k_mutual_reachability_distance < current_closest_edge_distance) {
-            closest_edge = EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
+        if (std::get<2>(candidate_edge) < std::get<2>(closest_edge)) {
+            closest_edge = candidate_edge;
         }
     }
     // merge components based on the best edge found
-- 
2.43.0


From 991ec55af0e5a639f9c2aa293c4ea9c0cf04bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:43 +0000
Subject: [PATCH 15/53] fix: cutting the single linkage tree gives a label of
 its own to each cluster below the cut

---
 .../SingleLinkageClusterTree.hpp                            | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index de72049..59dded3 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -153,9 +153,11 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     ClusterIndexType                   cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     std::vector<ClusterIndexType>&     flat_cluster) const {
-    // consider updating the cluster label for the descendant nodes only if we are above or at the desired cut level
+    // consider updating the cluster label for the descendant nodes only if the current node is root or if its parent is
+    // above or at the desired cut level (the cut then separates the node from its sibling)
     // else the same cluster label will be used for all the descendant nodes from the current node
-    if (single_linkage_cluster_node->level_ >= options_.cut_level_) {
+    if (!single_linkage_cluster_node->has_parent() ||
+        single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
         // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
         // else set the cluster label as the one at the current level
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
-- 
2.43.0


From 29e41e44445480d4c6d639c2da6806d1ded9259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:43 +0000
Subject: [PATCH 16/53] fix: the single linkage cluster represented by sample 0
 is not labeled as noise

---
 .../single_linkage_cluster_tree/SingleLinkageClusterTree.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 59dded3..a710b1e 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -159,10 +159,10 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     if (!single_linkage_cluster_node->has_parent() ||
         single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
         // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
-        // else set the cluster label as the one at the current level
+        // else set the cluster label as the one at the current level, shifted by one since 0 denotes noise
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
                             ? 0
-                            : single_linkage_cluster_node->representative_;
+                            : single_linkage_cluster_node->representative_ + 1;
     }
     // continue to traverse the tree if the current node is not leaf
     // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
-- 
2.43.0


From 5609a9a91df7c2f2e029cf242e22265e90cf97a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:34 +0000
Subject: [PATCH 17/53] fix: identical samples are infinitely dense in the
 condensed tree, their clusters had a negative stability

---
 .../CondensedClusterNode.hpp                      | 15 +++++++++++++--
 .../CondensedClusterTree.hpp                      |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
index ee2593e..5098cba 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
@@ -32,6 +32,9 @@ struct CondensedClusterNode {
 
     std::size_t size() const;
 
+    // the density at which a cluster splits: 1 / distance. Samples that are all at the same place are infinitely dense.
+    static constexpr ValueType lambda(const ValueType& level);
+
     void add_excess_of_mass(const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
                             const ValueType&                   lambda_value);
 
@@ -54,7 +57,7 @@ CondensedClusterNode<IndexType, ValueType>::CondensedClusterNode(
     SingleLinkageClusterNodePtr single_linkage_cluster_node)
   : single_linkage_cluster_node_root_{single_linkage_cluster_node}
   , lambda_min_{single_linkage_cluster_node_root_->has_parent()
-                    ? common::division(1, single_linkage_cluster_node_root_->parent_->level_)
+                    ? lambda(single_linkage_cluster_node_root_->parent_->level_)
                     : 0}
   , stability_{0}
   , is_selected_{false} {}
@@ -80,11 +83,19 @@ std::size_t CondensedClusterNode<IndexType, ValueType>::size() const {
     return single_linkage_cluster_node_root_->size();
 }
 
+template <typename IndexType, typename ValueType>
+constexpr ValueType CondensedClusterNode<IndexType, ValueType>::lambda(const ValueType& level) {
+    return level > 0 ? 1 / level : common::infinity<ValueType>();
+}
+
 template <typename IndexType, typename ValueType>
 void CondensedClusterNode<IndexType, ValueType>::add_excess_of_mass(
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     const ValueType&                   lambda_value) {
-    stability_ += single_linkage_cluster_node->size() * (lambda_value - lambda_min_);
+    // samples that leave the cluster at the density it was created with don't persist (both can be infinite)
+    if (lambda_value > lambda_min_) {
+        stability_ += single_linkage_cluster_node->size() * (lambda_value - lambda_min_);
+    }
 }
 
 }  // namespace ffcl::datastruct
\ No newline at end of file
diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
index fd6628a..38be7dd 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
@@ -152,7 +152,7 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
             single_linkage_cluster_node->right_->size() >= options_.min_cluster_size_;
 
         // the lambda value needs to be computed for any of the if/else branches
-        const auto lambda_value = common::division(1, single_linkage_cluster_node->level_);
+        const auto lambda_value = CondensedClusterNodeType::lambda(single_linkage_cluster_node->level_);
 
         // if both children are split candidates (they hold enough samples to be considered as their own cluster), we
         // consider the event as a true split and split the condensed cluster node in two new condensed cluster nodes
-- 
2.43.0


From 97c348955d54b03fde060e2c744550486f4c9224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:07 +0000
Subject: [PATCH 18/53] fix: DBSCAN adds to a cluster the samples it reaches
 that were visited before as noise

---
 include/ffcl/dbscan/DBSCAN.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/dbscan/DBSCAN.hpp b/include/ffcl/dbscan/DBSCAN.hpp
index b8baa24..8d79812 100644
--- a/include/ffcl/dbscan/DBSCAN.hpp
+++ b/include/ffcl/dbscan/DBSCAN.hpp
@@ -174,12 +174,14 @@ void DBSCAN<Indexer>::predict_inner(NeighborsIndices&                neighbors_i
                 auto inner_neighbors_indices = std::move(inner_neighbors_buffer).indices();
 
                 // iterate over each neighbor's neighbors and add them to the neighbors to visit only if
-                // they havent been visited already
+                // they havent been assigned to a cluster already. The samples that were visited before as noise are
+                // kept since they can be reached by the cluster.
                 std::copy_if(std::make_move_iterator(inner_neighbors_indices.begin()),
                              std::make_move_iterator(inner_neighbors_indices.end()),
                              std::back_inserter(neighbors_indices),
-                             [&visited_indices](const auto& inner_neighbor_index) {
-                                 return !visited_indices[inner_neighbor_index];
+                             [&predictions](const auto& inner_neighbor_index) {
+                                 return predictions[inner_neighbor_index] ==
+                                        static_cast<LabelType>(SampleStatus::noise);
                              });
             }
         }
-- 
2.43.0


From c65ba37d80e374e874cbbbeafa05e9fd16b590d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:13 +0000
Subject: [PATCH 19/53] fix: a Lloyd centroid without any sample stays where it
 is instead of moving to the origin

---
 include/ffcl/kmeans/Lloyd.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/kmeans/Lloyd.hpp b/include/ffcl/kmeans/Lloyd.hpp
index d1ca740..a2a3c26 100644
--- a/include/ffcl/kmeans/Lloyd.hpp
+++ b/include/ffcl/kmeans/Lloyd.hpp
@@ -111,13 +111,9 @@ void Lloyd<SamplesIterator>::update_centroids() {
         const auto feature_index_start = centroid_index * n_features;
         const auto feature_index_end   = feature_index_start + n_features;
 
-        if (cluster_sizes[centroid_index] == 0) {
-            // For centroids with only 1 associated sample, the new position is the same as the previous one
-            std::copy(cluster_position_sums.begin() + feature_index_start,
-                      cluster_position_sums.begin() + feature_index_end,
-                      centroids_.begin() + feature_index_start);
-        } else {
-            // Compute the new centroid position for the centroid that has more than 1 associated sample
+        // For centroids without any associated sample, the new position is the same as the previous one
+        if (cluster_sizes[centroid_index]) {
+            // Compute the new centroid position for the centroid that has at least 1 associated sample
             std::transform(cluster_position_sums.begin() + feature_index_start,
                            cluster_position_sums.begin() + feature_index_end,
                            centroids_.begin() + feature_index_start,
-- 
2.43.0


From e6d9ec5190bae2da23ca366264f3792224b35c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:38 +0000
Subject: [PATCH 20/53] fix: integer samples are assigned to their nearest
 centroid, their integer infinity was zero

---
 include/ffcl/kmeans/Hamerly.hpp     | 2 +-
 include/ffcl/kmeans/KMeansUtils.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/kmeans/Hamerly.hpp b/include/ffcl/kmeans/Hamerly.hpp
index 244daf3..4e7fa01 100644
--- a/include/ffcl/kmeans/Hamerly.hpp
+++ b/include/ffcl/kmeans/Hamerly.hpp
@@ -152,7 +152,7 @@ void Hamerly<SamplesIterator>::swap_bounds() {
 
             // second bound test
             if (samples_to_nearest_centroid_distances[sample_index] > upper_bound_comparison) {
-                auto lower_bound = common::infinity<DataType>();
+                auto lower_bound = std::numeric_limits<DataType>::max();
 
                 const std::size_t n_centroids = common::get_n_samples(centroids_.begin(), centroids_.end(), n_features);
 
diff --git a/include/ffcl/kmeans/KMeansUtils.hpp b/include/ffcl/kmeans/KMeansUtils.hpp
index ef5d56c..8631e57 100644
--- a/include/ffcl/kmeans/KMeansUtils.hpp
+++ b/include/ffcl/kmeans/KMeansUtils.hpp
@@ -21,7 +21,7 @@ std::vector<std::size_t> samples_to_nearest_centroid_indices(
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         // distance buffer for a given data sample to each cluster
-        auto        min_distance = ffcl::common::infinity<DataType>();
+        auto        min_distance = std::numeric_limits<DataType>::max();
         std::size_t min_index    = 0;
 
         for (std::size_t centroid_index = 0; centroid_index < n_centroids; ++centroid_index) {
@@ -56,7 +56,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
     auto nearest_centroid_distances = std::vector<DataType>(n_samples);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
-        auto min_distance = ffcl::common::infinity<DataType>();
+        auto min_distance = std::numeric_limits<DataType>::max();
 
         for (std::size_t centroid_index = 0; centroid_index < n_centroids; ++centroid_index) {
             const auto nearest_candidate = ffcl::common::math::heuristics::auto_distance(
@@ -174,7 +174,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> nearest_
     auto neighbor_distances = std::vector<DataType>(n_rows);
 
     for (std::size_t row_index = 0; row_index < n_rows; ++row_index) {
-        auto min_distance = ffcl::common::infinity<DataType>();
+        auto min_distance = std::numeric_limits<DataType>::max();
 
         for (std::size_t other_row_index = 0; other_row_index < n_rows; ++other_row_index) {
             if (row_index != other_row_index) {
-- 
2.43.0


From 33adcc026be95f2b061aa2818df4b0938b6abb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:15 +0000
Subject: [PATCH 21/53] fix: the total deviation of Hamerly is the one of its
 centroids, it selected the wrong K-Means candidate

---
 include/ffcl/kmeans/Hamerly.hpp | 48 +++++++++++----------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/include/ffcl/kmeans/Hamerly.hpp b/include/ffcl/kmeans/Hamerly.hpp
index 4e7fa01..0a1364b 100644
--- a/include/ffcl/kmeans/Hamerly.hpp
+++ b/include/ffcl/kmeans/Hamerly.hpp
@@ -24,10 +24,6 @@ class Hamerly {
 
     Hamerly(const DatasetDescriptorType& dataset_descriptor, const std::vector<DataType>& centroids);
 
-    Hamerly(const DatasetDescriptorType& dataset_descriptor,
-            const std::vector<DataType>& centroids,
-            const DataType&              loss);
-
     Hamerly(const Hamerly&) = delete;
 
     auto total_deviation() const;
@@ -62,37 +58,33 @@ class Hamerly {
 
     void update_centroids_velocities(const std::vector<DataType>& previous_centroids);
 
-    auto update_bounds();
+    void update_bounds();
 
     DatasetDescriptorType    dataset_descriptor_;
     std::vector<DataType>    centroids_;
     std::unique_ptr<Buffers> buffers_ptr_;
-    DataType                 loss_;
 };
 
 template <typename SamplesIterator>
 Hamerly<SamplesIterator>::Hamerly(const DatasetDescriptorType& dataset_descriptor,
                                   const std::vector<DataType>& centroids)
-  : Hamerly<SamplesIterator>::Hamerly(dataset_descriptor, centroids, common::infinity<DataType>()) {
-    // compute initial loss
-    loss_ = std::reduce(buffers_ptr_->samples_to_nearest_centroid_distances_.begin(),
-                        buffers_ptr_->samples_to_nearest_centroid_distances_.end(),
-                        static_cast<DataType>(0),
-                        std::plus<>());
-}
-
-template <typename SamplesIterator>
-Hamerly<SamplesIterator>::Hamerly(const DatasetDescriptorType& dataset_descriptor,
-                                  const std::vector<DataType>& centroids,
-                                  const DataType&              loss)
   : dataset_descriptor_{dataset_descriptor}
   , centroids_{centroids}
-  , buffers_ptr_{std::make_unique<Buffers>(dataset_descriptor, centroids_)}
-  , loss_{loss} {}
+  , buffers_ptr_{std::make_unique<Buffers>(dataset_descriptor, centroids_)} {}
 
 template <typename SamplesIterator>
 auto Hamerly<SamplesIterator>::total_deviation() const {
-    return loss_;
+    // the distances in the buffers are only bounds once the centroids have moved
+    const auto samples_to_nearest_centroid_distances =
+        kmeans::utils::samples_to_nearest_centroid_distances(std::get<0>(dataset_descriptor_),
+                                                             std::get<1>(dataset_descriptor_),
+                                                             std::get<2>(dataset_descriptor_),
+                                                             centroids_);
+
+    return std::reduce(samples_to_nearest_centroid_distances.begin(),
+                       samples_to_nearest_centroid_distances.end(),
+                       static_cast<DataType>(0),
+                       std::plus<>());
 }
 
 template <typename SamplesIterator>
@@ -109,8 +101,8 @@ auto Hamerly<SamplesIterator>::step() {
     // upate the centroids velocities based on the previous centroids and the updated centroids
     update_centroids_velocities(previous_centroids);
 
-    // recompute the loss w.r.t. the updated buffers
-    loss_ = update_bounds();
+    // move the bounds w.r.t. the updated centroids
+    update_bounds();
 
     return centroids_;
 }
@@ -146,8 +138,6 @@ void Hamerly<SamplesIterator>::swap_bounds() {
                 centroids_.begin() + assigned_centroid_index * n_features,
                 centroids_.begin() + assigned_centroid_index * n_features + n_features);
 
-            const auto previous_assigned_centroid_distance = samples_to_nearest_centroid_distances[sample_index];
-
             samples_to_nearest_centroid_distances[sample_index] = upper_bound;
 
             // second bound test
@@ -205,10 +195,6 @@ void Hamerly<SamplesIterator>::swap_bounds() {
                                    samples_range_first + sample_index * n_features,
                                    cluster_position_sums.begin() + assigned_centroid_index * n_features,
                                    std::plus<>());
-
-                    // update the loss by removing its previous contribution and adding the new one
-                    loss_ -= previous_assigned_centroid_distance;
-                    loss_ += upper_bound;
                 }
             }
         }
@@ -258,7 +244,7 @@ void Hamerly<SamplesIterator>::update_centroids_velocities(const std::vector<Dat
 }
 
 template <typename SamplesIterator>
-auto Hamerly<SamplesIterator>::update_bounds() {
+void Hamerly<SamplesIterator>::update_bounds() {
     const auto [furthest_moving_centroid_index, furthest_moving_centroid_distance] =
         common::math::statistics::get_max_index_value_pair(buffers_ptr_->centroid_velocities_.begin(),
                                                            buffers_ptr_->centroid_velocities_.end());
@@ -287,8 +273,6 @@ auto Hamerly<SamplesIterator>::update_bounds() {
     }
     buffers_ptr_->centroid_to_nearest_centroid_distances_ = kmeans::utils::nearest_neighbor_distances(
         centroids_.begin(), centroids_.end(), std::get<2>(dataset_descriptor_));
-
-    return loss_;
 }
 
 template <typename SamplesIterator>
-- 
2.43.0


From b46116585507e49620bcfeaf34415389bd9839e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:33 +0000
Subject: [PATCH 22/53] fix: the second nearest centroid can be as far as the
 nearest one, Hamerly skipped reassignments

---
 include/ffcl/kmeans/KMeansUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ffcl/kmeans/KMeansUtils.hpp b/include/ffcl/kmeans/KMeansUtils.hpp
index 8631e57..f492c44 100644
--- a/include/ffcl/kmeans/KMeansUtils.hpp
+++ b/include/ffcl/kmeans/KMeansUtils.hpp
@@ -104,8 +104,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
-- 
2.43.0


From 55c488536a3adcb53e40f3afb4b7e7cafb0fc372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:28 +0000
Subject: [PATCH 23/53] fix: FasterPAM considers every sample that is not a
 medoid, it compared the sample with the slot of its medoid

---
 include/ffcl/kmedoids/FasterPAM.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterPAM.hpp b/include/ffcl/kmedoids/FasterPAM.hpp
index 191bd33..ead8bc1 100644
--- a/include/ffcl/kmedoids/FasterPAM.hpp
+++ b/include/ffcl/kmedoids/FasterPAM.hpp
@@ -136,11 +136,9 @@ auto FasterPAM<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterPAM<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (common::is_element_not_in(medoids_.begin(), medoids_.end(), medoid_candidate_index)) {
             // the total deviation change for the best swap candidate and its index in the dataset
             const auto [best_swap_delta_td, best_swap_index] = find_best_swap(medoid_candidate_index);
 
-- 
2.43.0


From 813862f44773440685ca3c24c45813280b3f2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:10 +0000
Subject: [PATCH 24/53] fix: the second and third nearest medoids can be as far
 as the nearest one, their ties were skipped

---
 include/ffcl/kmedoids/PAMUtils.hpp | 40 +++++++++---------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index be5c117..2926ac7 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -127,8 +127,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(const SamplesI
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -169,8 +168,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -222,16 +220,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(const SamplesIt
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -276,16 +271,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -453,8 +445,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -490,8 +481,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -537,14 +527,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
@@ -582,14 +569,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
-- 
2.43.0


From efa79fa61aa07204a2e218d288fcb510c39ae9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 25/53] fix: the initial loss of FasterMSC is on the same scale
 as the loss of its swaps

---
 include/ffcl/kmedoids/FasterMSC.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 4af7854..940982c 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -104,9 +104,13 @@ FasterMSC<SamplesIterator>::FasterMSC(const DatasetDescriptorType&    dataset_de
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(dataset_descriptor, medoids, common::infinity<DataType>()) {
     // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    loss_ = std::inner_product(
+        buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
+        buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
+        buffers_ptr_->samples_to_second_nearest_medoid_distances_.begin(),
+        static_cast<DataType>(0),
+        std::plus<DataType>(),
+        [](const auto& distance_1, const auto& distance_2) { return common::division(distance_1, distance_2); });
 }
 
 template <typename SamplesIterator>
@@ -124,9 +128,13 @@ FasterMSC<SamplesIterator>::FasterMSC(const SecondVariantType&        pairwise_d
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(pairwise_distance_matrix, medoids, common::infinity<DataType>()) {
     // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    loss_ = std::inner_product(
+        buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
+        buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
+        buffers_ptr_->samples_to_second_nearest_medoid_distances_.begin(),
+        static_cast<DataType>(0),
+        std::plus<DataType>(),
+        [](const auto& distance_1, const auto& distance_2) { return common::division(distance_1, distance_2); });
 }
 
 template <typename SamplesIterator>
-- 
2.43.0


From 26f78bf5b7a0dcc71ac95af23ec1797f9674db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:13 +0000
Subject: [PATCH 26/53] fix: FasterMSC considers every sample that is not a
 medoid, it compared the sample with the slot of its medoid

---
 include/ffcl/kmedoids/FasterMSC.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 940982c..9b0c35f 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -154,11 +154,9 @@ auto FasterMSC<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterMSC<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (common::is_element_not_in(medoids_.begin(), medoids_.end(), medoid_candidate_index)) {
             // handle the case chen the number of medoids is 2
             if (medoids_.size() == 2) {
                 // the total deviation change for the best medoid index 0 or 1
-- 
2.43.0


From 47decd5ffdf7cb672f8b8b626e1f9a243a615fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:21 +0000
Subject: [PATCH 27/53] fix: the medoid in slot 0 can be the third nearest one,
 FasterMSC took it for a missing one

---
 include/ffcl/kmedoids/FasterMSC.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 9b0c35f..8d773fc 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -341,7 +341,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_1    = index_2;
                 distance_1 = distance_2;
                 index_2    = best_swap_index;
@@ -381,7 +381,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
@@ -425,7 +425,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_3    = best_swap_index;
                 distance_3 = distance_oc;
 
-- 
2.43.0


From a80d11ebb311586e52eb87ea1e6c0f138ea741b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:39 +0000
Subject: [PATCH 28/53] fix: FasterMSC with two medoids does not mix up the
 distances to its nearest medoid and to its first medoid

---
 include/ffcl/kmedoids/FasterMSC.hpp | 43 ++++++++++++-----------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 8d773fc..ef690a5 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -260,6 +260,7 @@ FasterMSC<SamplesIterator>::find_best_swap_k2(std::size_t medoid_candidate_index
     // and reassigning all objects closest to this new medoid
     DataType delta_td_xc = 0;
 
+    const auto& samples_to_nearest_medoid_indices          = buffers_ptr_->samples_to_nearest_medoid_indices_;
     const auto& samples_to_nearest_medoid_distances        = buffers_ptr_->samples_to_nearest_medoid_distances_;
     const auto& samples_to_second_nearest_medoid_distances = buffers_ptr_->samples_to_second_nearest_medoid_distances_;
 
@@ -275,12 +276,15 @@ FasterMSC<SamplesIterator>::find_best_swap_k2(std::size_t medoid_candidate_index
         // other_sample_to_second_nearest_medoid_distance
         const auto& distance_2 = samples_to_second_nearest_medoid_distances[other_sample_index];
 
-        // We do not use the assignment here, because we stored d0/d1 by medoid position, not closeness
-        delta_td_mi[0] += (distance_oc < distance_2) ? common::division(distance_oc, distance_2)
-                                                     : common::division(distance_2, distance_oc);
+        // the distances are stored by closeness and each candidate swap keeps the medoid at the other position
+        const auto distance_m0 = samples_to_nearest_medoid_indices[other_sample_index] == 0 ? distance_1 : distance_2;
+        const auto distance_m1 = samples_to_nearest_medoid_indices[other_sample_index] == 0 ? distance_2 : distance_1;
+
+        delta_td_mi[0] += (distance_oc < distance_m1) ? common::division(distance_oc, distance_m1)
+                                                      : common::division(distance_m1, distance_oc);
 
-        delta_td_mi[1] += (distance_oc < distance_1) ? common::division(distance_oc, distance_1)
-                                                     : common::division(distance_1, distance_oc);
+        delta_td_mi[1] += (distance_oc < distance_m0) ? common::division(distance_oc, distance_m0)
+                                                      : common::division(distance_m0, distance_oc);
     }
     // i ← argmin(∆TD_i), with i: index of medoids elements
     const auto [best_swap_index, best_swap_distance] =
@@ -477,36 +481,25 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
         // other_sample_to_second_nearest_medoid_distance
         auto& distance_2 = samples_to_second_nearest_medoid_distances[other_sample_index];
 
-        if (other_sample_index == medoid_candidate_index) {
-            index_1    = best_swap_index;
-            distance_1 = distance_2 = 0;
-            continue;
-        }
         // candidate_to_other_distance
         const auto distance_oc =
             std::holds_alternative<FirstVariantType>(storage_variant_)
                 ? std::get<FirstVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index)
                 : std::get<SecondVariantType>(storage_variant_)(medoid_candidate_index, other_sample_index);
 
-        if (best_swap_index == 0) {
+        // distance to the medoid that is not swapped
+        const auto distance_kept = index_1 == best_swap_index ? distance_2 : distance_1;
+
+        if (distance_oc < distance_kept) {
+            index_1    = best_swap_index;
             distance_1 = distance_oc;
-            if (distance_oc < distance_2 || (common::equality(distance_oc, distance_2) && index_1 == 0)) {
-                index_1 = 0;
-                loss += common::division(distance_oc, distance_2);
-            } else {
-                index_1 = 1;
-                loss += common::division(distance_2, distance_oc);
-            }
+            distance_2 = distance_kept;
         } else {
+            index_1    = 1 - best_swap_index;
+            distance_1 = distance_kept;
             distance_2 = distance_oc;
-            if (distance_oc < distance_1 || (common::equality(distance_oc, distance_1) && index_1 == 1)) {
-                index_1 = 1;
-                loss += common::division(distance_oc, distance_1);
-            } else {
-                index_1 = 0;
-                loss += common::division(distance_1, distance_oc);
-            }
         }
+        loss += common::division(distance_1, distance_2);
     }
     return loss;
 }
-- 
2.43.0


From 2450fe1f960b176efd3fd95c3460afb453665c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:53 +0000
Subject: [PATCH 29/53] fix: random selections draw from all the elements, they
 only shuffled the first ones

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 08c13f9..cc90804 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -17,7 +17,7 @@ auto select_n_elements(const Iterator& first, const Iterator& last, std::size_t
     // Perform a partial shuffle of the first n_elements elements
     for (std::size_t element_index = 0; element_index < n_elements; ++element_index) {
         std::swap(selected_elements[element_index],
-                  selected_elements[uniform_distribution{element_index, n_elements - 1}()]);
+                  selected_elements[uniform_distribution{element_index, selected_elements.size() - 1}()]);
     }
     // Resize the vector to keep only the first n_elements elements
     selected_elements.resize(n_elements);
-- 
2.43.0


From 4c827ed951d1fd848465e03ce00ec41f6dcb2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:59 +0000
Subject: [PATCH 30/53] fix: the distance of integer features from the origin
 is returned by value and compiles for unsigned ones

---
 .../ffcl/common/math/heuristics/Distances.hpp    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/common/math/heuristics/Distances.hpp b/include/ffcl/common/math/heuristics/Distances.hpp
index 827c173..c6c362d 100644
--- a/include/ffcl/common/math/heuristics/Distances.hpp
+++ b/include/ffcl/common/math/heuristics/Distances.hpp
@@ -78,11 +78,13 @@ auto euclidean_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                     const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
+    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
     static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
                   "Input must be signed.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
@@ -119,11 +121,13 @@ auto manhattan_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto unsigned_manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                              const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
-    static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
-                  "Input must be signed.");
+    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
+    static_assert(std::is_unsigned_v<typename std::iterator_traits<FeaturesIterator>::value_type>,
+                  "Input must be unsigned integer.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
-- 
2.43.0


From 5b61e1a14fe3bd3332b7a6465f6e68718eaf5b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 31/53] fix: the cosine similarity of small vectors is not
 infinite

---
 include/ffcl/common/math/heuristics/Distances.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/heuristics/Distances.hpp b/include/ffcl/common/math/heuristics/Distances.hpp
index c6c362d..fbca332 100644
--- a/include/ffcl/common/math/heuristics/Distances.hpp
+++ b/include/ffcl/common/math/heuristics/Distances.hpp
@@ -193,7 +193,7 @@ auto cosine_similarity(const LeftFeaturesIterator&  left_features_range_first,
                                                                 /**/ right_features_range_first,
                                                                 /**/ static_cast<ResultType>(0)));
     // returns "infinity" if the denominator is zero
-    return division(dot_product, magnitude_1 * magnitude_2, infinity<ResultType>());
+    return magnitude_1 * magnitude_2 == 0 ? infinity<ResultType>() : dot_product / (magnitude_1 * magnitude_2);
 }
 
 // Iterative with two matrix rows https://en.wikipedia.org/wiki/Levenshtein_distance
-- 
2.43.0


From d771de22672994a7b0cbcbb8efb0c435fb3aa9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:18 +0000
Subject: [PATCH 32/53] fix: the silhouette of a sample alone in its cluster is
 zero as documented

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index 395c49b..dc7bf13 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -238,13 +238,19 @@ auto silhouette(const SamplesIterator&       samples_range_first,
                                               /**/ cluster_labels_range_first,
                                               /**/ cluster_labels_range_last);
 
+    const auto cluster_sizes = get_cluster_sizes(cluster_labels_range_first, cluster_labels_range_last);
+
     auto samples_silhouette_scores = std::vector<ElementType>(n_samples);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         const auto coh = cohesion_values[sample_index];
         const auto sep = separation_values[sample_index];
 
-        if (coh < sep) {
+        // the score of a sample alone in its cluster is zero
+        if (cluster_sizes[cluster_labels_range_first[sample_index]] == 1) {
+            samples_silhouette_scores[sample_index] = 0;
+
+        } else if (coh < sep) {
             samples_silhouette_scores[sample_index] = static_cast<ElementType>(1) - coh / sep;
 
         } else if (coh > sep) {
-- 
2.43.0


From 3cd4b93bae45d62f938519e3da866473916bc85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:25 +0000
Subject: [PATCH 33/53] fix: cluster sizes are not counted with the type of the
 labels

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index dc7bf13..da5fef2 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -39,7 +39,7 @@ auto get_cluster_sizes(const ClusterLabelsIterator& cluster_labels_range_first,
     // n_centroids = 1 + greatest_centroid_index
     const auto n_centroids = 1 + *std::max_element(cluster_labels_range_first, cluster_labels_range_last);
     // n_labels = 1 + largest_label_index
-    auto labels_histogram = std::vector<ClusterLabelType>(n_centroids);
+    auto labels_histogram = std::vector<std::size_t>(n_centroids);
 
     auto cluster_labels_range_it = cluster_labels_range_first;
 
-- 
2.43.0


From 69fd486127a921417c2606b4dc2745f8d02eea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:27 +0000
Subject: [PATCH 34/53] fix: the second largest element is not the largest one
 when the others are the lowest value

---
 include/ffcl/common/math/statistics/Statistics.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index 0c7cb1e..0ffd107 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -97,17 +97,16 @@ auto get_second_max_index_value_pair(const Iterator& first, const Iterator& last
     if (std::distance(first, last) < 2) {
         return {max_idx, max_value};
     }
-    // Replace the maximum element with the lowest possible value
-    *max_it = std::numeric_limits<DataType>::lowest();
+    // Get the largest element among the ones before and the ones after the maximum element
+    const auto before_max_it = std::max_element(first, max_it);
+    const auto after_max_it  = std::max_element(std::next(max_it), last);
 
-    // Get the index of the second maximum element
-    const auto     second_max_it    = std::max_element(first, last);
+    const auto second_max_it =
+        after_max_it == last || (before_max_it != max_it && !(*before_max_it < *after_max_it)) ? before_max_it
+                                                                                                 : after_max_it;
     std::size_t    second_max_idx   = std::distance(first, second_max_it);
     const DataType second_max_value = *second_max_it;
 
-    // Restore the original maximum value
-    *max_it = max_value;
-
     return {second_max_idx, second_max_value};
 }
 
-- 
2.43.0


From 1e4a6484631e7936527277d4864bef2c18e25e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:27 +0000
Subject: [PATCH 35/53] fix: argmin and argmax return an index, not a value of
 the type of the elements

---
 include/ffcl/common/math/statistics/Statistics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index 0ffd107..33785d6 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -49,13 +49,13 @@ void min_container_inplace_left(Container& left_container, const Container& righ
 }
 
 template <typename Iterator>
-auto argmin(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmin(const Iterator& first, const Iterator& last) {
     auto min_it = std::min_element(first, last);
     return std::distance(first, min_it);
 }
 
 template <typename Iterator>
-auto argmax(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmax(const Iterator& first, const Iterator& last) {
     auto max_it = std::max_element(first, last);
     return std::distance(first, max_it);
 }
-- 
2.43.0


From 738441f5ae81278fa60b61ef123cb46c01ac8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:51 +0000
Subject: [PATCH 36/53] fix: the min-max normalization of integers does not
 divide integers

---
 include/ffcl/common/math/statistics/Statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index 33785d6..ae2b8e4 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -21,7 +21,7 @@ std::vector<DataType> normalize_min_max(const Iterator& first, const Iterator& l
     auto res = std::vector<DataType>(last - first);
     // closest objects get a higher score. Distance zero -> 1
     std::transform(first, last, res.begin(), [&min, &max](const auto& dist) {
-        return static_cast<DataType>(1) - (dist - *min) / (*max - *min);
+        return static_cast<DataType>(1) - static_cast<DataType>(dist - *min) / static_cast<DataType>(*max - *min);
     });
     return res;
 }
-- 
2.43.0


From 1e44538a6231f960303ffa3acf30a27a05fa0085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:01 +0000
Subject: [PATCH 37/53] fix: random samples selected from indices compile, the
 number of choices was not passed

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index cc90804..f86327d 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -99,7 +99,7 @@ auto select_n_random_samples_from_indices(const IndicesIterator& index_first,
     // clip n_choices to prevent overflows
     n_choices = std::min(n_choices, n_samples);
     // return n_choices distinctive indices from the pool of indices defined by the desired indices range
-    const auto random_distinct_indices = select_n_elements(index_first, index_last);
+    const auto random_distinct_indices = select_n_elements(index_first, index_last, n_choices);
 
     auto random_samples = std::vector<DataType>(n_choices * n_features);
 
-- 
2.43.0


From 64cc42c78cfc041476364cc6b27c2192b8020f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:42 +0000
Subject: [PATCH 38/53] fix: spatially uniform centroids of negative samples
 stay within their bounds

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index f86327d..c386be4 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -125,7 +125,7 @@ auto init_spatial_uniform(const SamplesIterator& samples_range_first,
 
     // row vector buffers to keep track of min-max values
     auto min_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::max());
-    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::min());
+    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::lowest());
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
-- 
2.43.0


From 5dc9dec10809996b57b334b8f017fa21caeb89ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:00 +0000
Subject: [PATCH 39/53] fix: the normal distribution of doubles compiles

---
 include/ffcl/common/math/random/Distributions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ffcl/common/math/random/Distributions.hpp b/include/ffcl/common/math/random/Distributions.hpp
index 4a4d226..50b2608 100644
--- a/include/ffcl/common/math/random/Distributions.hpp
+++ b/include/ffcl/common/math/random/Distributions.hpp
@@ -75,6 +75,8 @@ class normal_distribution {
     normal_distribution(DataType mean, DataType sd)
       : distribution_(mean, sd) {}
 
+    // both constructors are the same one when the numbers to generate are doubles
+    template <typename T = DataType, typename = std::enable_if_t<!std::is_same_v<T, double>>>
     normal_distribution(DataType n_trials, double success_rate)
       : distribution_(n_trials, success_rate) {}
 
-- 
2.43.0


From b346ade133bc81a70ab72b23759565afdeab0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:59 +0000
Subject: [PATCH 40/53] fix: a moved kdtree keeps its number of samples

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 9b16f91..81f7c44 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -245,6 +245,7 @@ KDTree<IndicesIterator, SamplesIterator>::KDTree(KDTree&& other) noexcept
   : options_{std::move(other.options_)}
   , samples_range_first_{std::move(other.samples_range_first_)}
   , samples_range_last_{std::move(other.samples_range_last_)}
+  , n_samples_{std::move(other.n_samples_)}
   , n_features_{std::move(other.n_features_)}
   , bound_{std::move(other.bound_)}
   , root_{std::move(other.root_)} {}
-- 
2.43.0


From de68c02588b9c26a78b9eadbdbb172a33564a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:50 +0000
Subject: [PATCH 41/53] fix: serialized trees keep all the digits of their
 values

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp                  | 2 +-
 .../single_linkage_cluster_tree/SingleLinkageClusterTree.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 81f7c44..c24d53d 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -452,7 +452,7 @@ void KDTree<IndicesIterator, SamplesIterator>::serialize(const fs::path& filepat
     }
     writer.EndObject();
 
-    document.Parse(buffer.GetString());
+    document.Parse<rapidjson::kParseFullPrecisionFlag>(buffer.GetString());
 
     std::ofstream output_file(filepath);
 
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index a710b1e..65c2874 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -273,7 +273,7 @@ void SingleLinkageClusterTree<IndexType, ValueType>::serialize(const fs::path& f
     }
     writer.EndObject();
 
-    document.Parse(buffer.GetString());
+    document.Parse<rapidjson::kParseFullPrecisionFlag>(buffer.GetString());
 
     std::ofstream output_file(filepath);
 
-- 
2.43.0


From d48a784e0c8cce1e41b93e73bf2c2b6f9efab42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:45 +0000
Subject: [PATCH 42/53] fix: ranges are remapped by narrow indices whatever
 their number

---
 include/ffcl/common/Utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index 1ea86e7..f6f5235 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -599,9 +599,9 @@ InputContainer remap_ranges_from_indices(const IndicesContainer& indices,
     }
     // Create a copy container to store the elements (overlapping indices wont be copied)
     auto swapped = flattened_matrix;
-    for (IndicesType i = 0; i < static_cast<IndicesType>(indices.size()); ++i) {
+    for (std::size_t i = 0; i < indices.size(); ++i) {
         // indices must be non overlapping
-        if (indices[i] != i) {
+        if (static_cast<std::size_t>(indices[i]) != i) {
             std::copy(flattened_matrix.begin() + indices[i] * n_features,
                       flattened_matrix.begin() + indices[i] * n_features + n_features,
                       swapped.begin() + i * n_features);
-- 
2.43.0


From 28e205f36882859a005be4538b50748c9f5405c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:04 +0000
Subject: [PATCH 43/53] fix: pam::build compiles, its helpers were not found
 and distance matrices were taken for tuples

Any call of pam::build failed to compile.
---
 include/ffcl/kmedoids/PAMBuild.hpp | 68 ++++++++++++++++++++++++++----
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMBuild.hpp b/include/ffcl/kmedoids/PAMBuild.hpp
index 01c1657..52ce3b8 100644
--- a/include/ffcl/kmedoids/PAMBuild.hpp
+++ b/include/ffcl/kmedoids/PAMBuild.hpp
@@ -3,8 +3,10 @@
 #include "ffcl/common/Utils.hpp"
 #include "ffcl/common/math/heuristics/Distances.hpp"
 #include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
+#include "ffcl/kmedoids/PAMUtils.hpp"
 
 #include <algorithm>
+#include <tuple>
 #include <vector>
 
 namespace pam {
@@ -23,12 +25,12 @@ build(const SamplesIterator& samples_range_first,
 
     // the first medoid chosen associated with the current total deviation cost
     auto [total_deviation, medoid_index_first] =
-        first_medoid_td_index_pair(samples_range_first, samples_range_last, n_features);
+        utils::first_medoid_td_index_pair(samples_range_first, samples_range_last, n_features);
     // Create and put the first chosen medoid index in the medoid indices vector
     auto medoids_indices = std::vector<std::size_t>(1, medoid_index_first);
 
     // initialize the distance from the first medoid to all samples
-    auto sample_to_nearest_medoid_distances = samples_to_nth_nearest_medoid_distances(
+    auto sample_to_nearest_medoid_distances = utils::samples_to_nth_nearest_medoid_distances(
         samples_range_first, samples_range_last, n_features, medoids_indices, /*nth_closest*/ 1);
 
     auto compute_distance = [&](std::size_t left_idx, std::size_t right_idx) -> DataType {
@@ -75,7 +77,7 @@ build(const SamplesIterator& samples_range_first,
         total_deviation += selected_deviation_candidate;
         // Update the distances from each non medoid sample to its nearest medoid.
         // No need to take care about the medoids indices bc they are not swapped.
-        sample_to_nearest_medoid_distances = samples_to_nth_nearest_medoid_distances(
+        sample_to_nearest_medoid_distances = utils::samples_to_nth_nearest_medoid_distances(
             samples_range_first, samples_range_last, n_features, medoids_indices, /*nth_closest=*/1);
     }
     return {total_deviation, medoids_indices, sample_to_nearest_medoid_distances};
@@ -87,10 +89,60 @@ std::tuple<typename std::iterator_traits<SamplesIterator>::value_type,
            std::vector<typename std::iterator_traits<SamplesIterator>::value_type>>
 build(const ffcl::datastruct::PairwiseDistanceMatrix<SamplesIterator>& pairwise_distance_matrix,
       std::size_t                                                      n_medoids) {
-    return build(std::get<0>(pairwise_distance_matrix),
-                 std::get<1>(pairwise_distance_matrix),
-                 std::get<2>(pairwise_distance_matrix),
-                 n_medoids);
+    using DataType = typename std::iterator_traits<SamplesIterator>::value_type;
+
+    const std::size_t n_samples = pairwise_distance_matrix.n_rows();
+
+    // the first medoid chosen associated with the current total deviation cost
+    auto [total_deviation, medoid_index_first] = utils::first_medoid_td_index_pair(pairwise_distance_matrix);
+    // Create and put the first chosen medoid index in the medoid indices vector
+    auto medoids_indices = std::vector<std::size_t>(1, medoid_index_first);
+
+    // initialize the distance from the first medoid to all samples
+    auto sample_to_nearest_medoid_distances = utils::samples_to_nth_nearest_medoid_distances(
+        pairwise_distance_matrix, medoids_indices, /*nth_closest*/ 1);
+
+    // select the remaining medoids
+    for (std::size_t medoid_index = 1; medoid_index < n_medoids; ++medoid_index) {
+        // (∆TD*, x∗) ← (∞, null);
+        auto selected_deviation_candidate = ffcl::common::infinity<DataType>();
+        // the index of the next chosen medoid
+        std::size_t selected_medoid_index = 0;
+        // foreach x_c !∈ {m_1 , ..., m_i}
+        for (std::size_t medoid_candidate_idx = 0; medoid_candidate_idx < n_samples; ++medoid_candidate_idx) {
+            // execute only if the current candidate is not already selected as a medoid
+            if (ffcl::common::is_element_not_in(medoids_indices.begin(), medoids_indices.end(), medoid_candidate_idx)) {
+                DataType loss_accumulator = 0;
+
+                // foreach x_o !∈ {m_0, ..., m_i, x c}
+                for (std::size_t other_sample_idx = 0; other_sample_idx < n_samples; ++other_sample_idx) {
+                    if (medoid_candidate_idx != other_sample_idx &&
+                        ffcl::common::is_element_not_in(
+                            medoids_indices.begin(), medoids_indices.end(), other_sample_idx)) {
+                        const auto candidate_to_other_distance =
+                            pairwise_distance_matrix(medoid_candidate_idx, other_sample_idx);
+
+                        if (candidate_to_other_distance < sample_to_nearest_medoid_distances[other_sample_idx]) {
+                            // "-" to accumulate positive loss (acc of reduction of total deviation)
+                            loss_accumulator -=
+                                candidate_to_other_distance - sample_to_nearest_medoid_distances[other_sample_idx];
+                        }
+                    }
+                }
+                if (loss_accumulator < selected_deviation_candidate) {
+                    selected_deviation_candidate = loss_accumulator;
+                    selected_medoid_index        = medoid_candidate_idx;
+                }
+            }
+        }
+        medoids_indices.emplace_back(selected_medoid_index);
+        total_deviation += selected_deviation_candidate;
+        // Update the distances from each non medoid sample to its nearest medoid.
+        // No need to take care about the medoids indices bc they are not swapped.
+        sample_to_nearest_medoid_distances = utils::samples_to_nth_nearest_medoid_distances(
+            pairwise_distance_matrix, medoids_indices, /*nth_closest=*/1);
+    }
+    return {total_deviation, medoids_indices, sample_to_nearest_medoid_distances};
 }
 
-}  // namespace pam
\ No newline at end of file
+}  // namespace pam
-- 
2.43.0


From 5f63a9e91d19a38ad3ce8fe7bbe9f99b23a6dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:04 +0000
Subject: [PATCH 44/53] fix: pam::build selects the medoids that decrease the
 total deviation the most

It selected the sample that decreased it the least and increased the total deviation by that amount: with samples 0, 1, 2, 10 and two
medoids, it selected 1 and 2 instead of 1 and 10. The deviation of the selected sample itself, that becomes null, was not counted either.
---
 include/ffcl/kmedoids/PAMBuild.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMBuild.hpp b/include/ffcl/kmedoids/PAMBuild.hpp
index 52ce3b8..73c76e6 100644
--- a/include/ffcl/kmedoids/PAMBuild.hpp
+++ b/include/ffcl/kmedoids/PAMBuild.hpp
@@ -52,17 +52,16 @@ build(const SamplesIterator& samples_range_first,
             if (ffcl::common::is_element_not_in(medoids_indices.begin(), medoids_indices.end(), medoid_candidate_idx)) {
                 DataType loss_accumulator = 0;
 
-                // foreach x_o !∈ {m_0, ..., m_i, x c}
+                // foreach x_o !∈ {m_0, ..., m_i}, the candidate itself included since its deviation becomes null
                 for (std::size_t other_sample_idx = 0; other_sample_idx < n_samples; ++other_sample_idx) {
-                    if (medoid_candidate_idx != other_sample_idx &&
-                        ffcl::common::is_element_not_in(
+                    if (ffcl::common::is_element_not_in(
                             medoids_indices.begin(), medoids_indices.end(), other_sample_idx)) {
                         const auto candidate_to_other_distance =
                             compute_distance(medoid_candidate_idx, other_sample_idx);
 
                         if (candidate_to_other_distance < sample_to_nearest_medoid_distances[other_sample_idx]) {
-                            // "-" to accumulate positive loss (acc of reduction of total deviation)
-                            loss_accumulator -=
+                            // accumulate the (negative) variation of the total deviation
+                            loss_accumulator +=
                                 candidate_to_other_distance - sample_to_nearest_medoid_distances[other_sample_idx];
                         }
                     }
@@ -114,17 +113,16 @@ build(const ffcl::datastruct::PairwiseDistanceMatrix<SamplesIterator>& pairwise_
             if (ffcl::common::is_element_not_in(medoids_indices.begin(), medoids_indices.end(), medoid_candidate_idx)) {
                 DataType loss_accumulator = 0;
 
-                // foreach x_o !∈ {m_0, ..., m_i, x c}
+                // foreach x_o !∈ {m_0, ..., m_i}, the candidate itself included since its deviation becomes null
                 for (std::size_t other_sample_idx = 0; other_sample_idx < n_samples; ++other_sample_idx) {
-                    if (medoid_candidate_idx != other_sample_idx &&
-                        ffcl::common::is_element_not_in(
+                    if (ffcl::common::is_element_not_in(
                             medoids_indices.begin(), medoids_indices.end(), other_sample_idx)) {
                         const auto candidate_to_other_distance =
                             pairwise_distance_matrix(medoid_candidate_idx, other_sample_idx);
 
                         if (candidate_to_other_distance < sample_to_nearest_medoid_distances[other_sample_idx]) {
-                            // "-" to accumulate positive loss (acc of reduction of total deviation)
-                            loss_accumulator -=
+                            // accumulate the (negative) variation of the total deviation
+                            loss_accumulator +=
                                 candidate_to_other_distance - sample_to_nearest_medoid_distances[other_sample_idx];
                         }
                     }
-- 
2.43.0


From f505e24f2216281dd58c7a3663b5ee45f5683292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:04 +0000
Subject: [PATCH 45/53] fix: the first medoid of integer samples is the one of
 smallest total deviation

The integer infinity is zero, so that sample 0 was selected with a total deviation of zero whatever the samples were.
---
 include/ffcl/kmedoids/PAMBuild.hpp | 5 +++--
 include/ffcl/kmedoids/PAMUtils.hpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMBuild.hpp b/include/ffcl/kmedoids/PAMBuild.hpp
index 73c76e6..2457435 100644
--- a/include/ffcl/kmedoids/PAMBuild.hpp
+++ b/include/ffcl/kmedoids/PAMBuild.hpp
@@ -6,6 +6,7 @@
 #include "ffcl/kmedoids/PAMUtils.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -43,7 +44,7 @@ build(const SamplesIterator& samples_range_first,
     // select the remaining medoids
     for (std::size_t medoid_index = 1; medoid_index < n_medoids; ++medoid_index) {
         // (∆TD*, x∗) ← (∞, null);
-        auto selected_deviation_candidate = ffcl::common::infinity<DataType>();
+        auto selected_deviation_candidate = std::numeric_limits<DataType>::max();
         // the index of the next chosen medoid
         std::size_t selected_medoid_index = 0;
         // foreach x_c !∈ {m_1 , ..., m_i}
@@ -104,7 +105,7 @@ build(const ffcl::datastruct::PairwiseDistanceMatrix<SamplesIterator>& pairwise_
     // select the remaining medoids
     for (std::size_t medoid_index = 1; medoid_index < n_medoids; ++medoid_index) {
         // (∆TD*, x∗) ← (∞, null);
-        auto selected_deviation_candidate = ffcl::common::infinity<DataType>();
+        auto selected_deviation_candidate = std::numeric_limits<DataType>::max();
         // the index of the next chosen medoid
         std::size_t selected_medoid_index = 0;
         // foreach x_c !∈ {m_1 , ..., m_i}
diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index 2926ac7..4cc6172 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -701,7 +701,7 @@ std::pair<typename std::iterator_traits<SamplesIterator>::value_type, std::size_
     const std::size_t n_samples = ffcl::common::get_n_samples(samples_range_first, samples_range_last, n_features);
 
     std::size_t selected_medoid = 0;
-    auto        total_deviation = ffcl::common::infinity<DataType>();
+    auto        total_deviation = std::numeric_limits<DataType>::max();
     // choose the first medoid
     for (std::size_t medoid_candidate_idx = 0; medoid_candidate_idx < n_samples; ++medoid_candidate_idx) {
         // total deviation accumulator w.r.t. current candidate medoid and all the other points
@@ -734,7 +734,7 @@ std::pair<typename std::iterator_traits<SamplesIterator>::value_type, std::size_
     const std::size_t n_samples = pairwise_distance_matrix.n_rows();
 
     std::size_t selected_medoid = 0;
-    auto        total_deviation = ffcl::common::infinity<DataType>();
+    auto        total_deviation = std::numeric_limits<DataType>::max();
     // choose the first medoid
     for (std::size_t medoid_candidate_idx = 0; medoid_candidate_idx < n_samples; ++medoid_candidate_idx) {
         // total deviation accumulator w.r.t. current candidate medoid and all the other points
-- 
2.43.0


From 38f314f54a13fd4d9abc55e20975e25a16b4d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:41 +0000
Subject: [PATCH 46/53] fix: boxes with a fixed number of features derive from
 their own bound

AABBWithCentroid<Segment, N> inherited the interface of
AABBWithCentroid<Segment, 0>: every call through it reinterpreted the fixed
size arrays as vectors and read out of bounds.
---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index e7d49d4..8090dba 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -11,7 +11,7 @@
 namespace ffcl::datastruct::bounds {
 
 template <typename Segment, std::size_t NFeatures = 0>
-class AABBWithCentroid : public StaticBoundWithCentroid<AABBWithCentroid<Segment>> {
+class AABBWithCentroid : public StaticBoundWithCentroid<AABBWithCentroid<Segment, NFeatures>> {
     static_assert(common::is_crtp_of<Segment, segment::StaticSegment>::value,
                   "Provided a Segment that does not inherit from segment::StaticSegment<Derived>");
 
-- 
2.43.0


From 3e74c6d0ee22881a8fdbfe51891e3b41dd9f978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:18 +0000
Subject: [PATCH 47/53] fix: unsigned samples do not wrap around when the nodes
 of a kd-tree are compared

---
 include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp     | 10 ++++++----
 .../ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp   |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
index e20740b..0af7d78 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
@@ -229,14 +229,16 @@ auto KDNodeView<IndicesIterator, Bound>::select_sibling_node(
         const auto query_split_value = query_buffer.centroid_begin()[parent_node->cut_axis_feature_index_];
 
         const bool is_left_child_ret = is_left_child();
+        // larger value minus smaller one: the absolute value of a difference wraps around for unsigned values
+        const auto axiswise_distance = pivot_split_value < query_split_value ? query_split_value - pivot_split_value
+                                                                             : pivot_split_value - query_split_value;
         // if the axiswise distance is equal to the current furthest nearest neighbor distance, there could be a
         // nearest neighbor to the other side of the hyperrectangle since the values that are equal to the pivot are
         // put to the right
         auto visit_sibling = [&]() {
-            return is_left_child_ret ? common::abs(pivot_split_value - query_split_value) <=
-                                           query_buffer.furthest_distance(parent_node->cut_axis_feature_index_)
-                                     : common::abs(pivot_split_value - query_split_value) <
-                                           query_buffer.furthest_distance(parent_node->cut_axis_feature_index_);
+            return is_left_child_ret
+                       ? axiswise_distance <= query_buffer.furthest_distance(parent_node->cut_axis_feature_index_)
+                       : axiswise_distance < query_buffer.furthest_distance(parent_node->cut_axis_feature_index_);
         };
         return query_buffer.remaining_capacity() || visit_sibling()
                    ? (is_left_child_ret ? parent_node->right_ : parent_node->left_)
diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 8a75d90..cc2e858 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -17,7 +17,7 @@ namespace ffcl::datastruct::kdtree::algorithms {
 template <typename Bound>
 std::size_t select_longest_axis(const Bound& bound) {
     const auto comparison = [](const auto& lhs, const auto& rhs) {
-        return common::abs(lhs.lower_bound() - lhs.upper_bound()) < common::abs(rhs.lower_bound() - rhs.upper_bound());
+        return common::abs(lhs.upper_bound() - lhs.lower_bound()) < common::abs(rhs.upper_bound() - rhs.lower_bound());
     };
     const auto it = std::max_element(bound.segments_begin(), bound.segments_end(), comparison);
     return std::distance(bound.segments_begin(), it);
-- 
2.43.0


From bafd11269831b0d26a223cc53ac4f73ea12724f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:18 +0000
Subject: [PATCH 48/53] fix: dual tree searches find the closest pair of
 integer samples

---
 .../search/buffer/IndicesToBuffersMap.hpp     | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index 51e9057..fcce669 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -6,6 +6,7 @@
 #include "ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp"  // for ffcl::datastruct::mst::Edge
 
 #include <cstddef>
+#include <limits>
 #include <optional>
 #include <queue>
 #include <unordered_map>
@@ -136,6 +137,11 @@ class IndicesToBuffersMap {
     bool emplace_nodes_combination_if_not_found(const QueryNodePtr& query_node, const ReferenceNodePtr& reference_node);
 
   private:
+    // integral types have no representation of infinity: their largest value is used instead
+    static constexpr DistanceType largest_distance_ = std::numeric_limits<DistanceType>::has_infinity
+                                                          ? common::infinity<DistanceType>()
+                                                          : std::numeric_limits<DistanceType>::max();
+
     struct BoundsLimits {
         void try_update_closest_limit(const DistanceType& closest_limit_candidate) {
             closest_limit = std::min(closest_limit, closest_limit_candidate);
@@ -151,12 +157,19 @@ class IndicesToBuffersMap {
         }
 
         auto compute_adjusted_bound(const DistanceType& node_diameter) const -> DistanceType {
-            return (closest_limit < common::infinity<DistanceType>() - node_diameter)
-                       ? std::min(furthest_limit, closest_limit + node_diameter)
-                       : common::infinity<DistanceType>();
+            // the diameter is an euclidean distance: it does not bound the manhattan distances of the integral types
+            if constexpr (std::is_integral_v<DistanceType>) {
+                common::ignore_parameters(node_diameter);
+                return furthest_limit;
+
+            } else {
+                return (closest_limit < largest_distance_ - node_diameter)
+                           ? std::min(furthest_limit, closest_limit + node_diameter)
+                           : largest_distance_;
+            }
         }
 
-        DistanceType closest_limit  = common::infinity<DistanceType>();
+        DistanceType closest_limit  = largest_distance_;
         DistanceType furthest_limit = 0;
     };
 
@@ -364,8 +377,6 @@ auto IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::query_node_fur
 template <typename Buffer, typename QueryIndexer, typename ReferenceIndexer>
 auto IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_bounds_limits(const QueryNodePtr& query_node)
     -> typename std::unordered_map<QueryNodePtr, BoundsLimits>::iterator {
-    static constexpr auto infinity = common::infinity<DistanceType>();
-
     // Try to emplace if the 'query_node' key is not already present. Return 'first' to discard the bool (not) inserted.
     auto query_node_to_bound_limits_it = query_nodes_to_bounds_limits_map_.emplace(query_node, BoundsLimits{}).first;
 
@@ -375,12 +386,12 @@ auto IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_bounds_
         // default. We also don't need to iterate further since the next nodes will never be greater than
         // infinity.
         if (index_to_buffer_it == queries_to_buffers_map_.cend()) {
-            query_node_to_bound_limits_it->second.furthest_limit = infinity;
+            query_node_to_bound_limits_it->second.furthest_limit = largest_distance_;
         }
         // If there's remaining space in the buffers, then candidates might potentially be further than the
         // buffer's current furthest distance.
         else if (index_to_buffer_it->second.remaining_capacity()) {
-            query_node_to_bound_limits_it->second.furthest_limit = infinity;
+            query_node_to_bound_limits_it->second.furthest_limit = largest_distance_;
 
         } else {
             const auto query_buffer_furthest_distance = index_to_buffer_it->second.furthest_distance();
@@ -430,7 +441,7 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
     // it would require a deep copy of the indices and distances of buffer.
     // Any candidate is valid as long as the priority queue is not full.
     if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.size() < buffer.max_capacity()
-                                         ? common::infinity<DistanceType>()
+                                         ? largest_distance_
                                          : std::get<2>(kth_closest_edge_priority_queue_.top()))) {
         // Iterate over all the buffer indices as we dont know which elements could be valid candidates.
         for (std::size_t buffer_index = 0; buffer_index < buffer.size(); ++buffer_index) {
@@ -438,7 +449,7 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
             const auto candidate_distance = buffer_distances[buffer_index];
 
             const auto pq_furthest_distance = kth_closest_edge_priority_queue_.size() < buffer.max_capacity()
-                                                  ? common::infinity<DistanceType>()
+                                                  ? largest_distance_
                                                   : std::get<2>(kth_closest_edge_priority_queue_.top());
 
             if (candidate_distance < pq_furthest_distance) {
-- 
2.43.0


From 4612a33d1db7b6503e0947fb843c6f90cfd611cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:18 +0000
Subject: [PATCH 49/53] fix: the closest pair of integer samples starts from
 the largest distance

---
 include/ffcl/search/ClosestPairOfSamples.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/search/ClosestPairOfSamples.hpp b/include/ffcl/search/ClosestPairOfSamples.hpp
index 57de4dc..1628f76 100644
--- a/include/ffcl/search/ClosestPairOfSamples.hpp
+++ b/include/ffcl/search/ClosestPairOfSamples.hpp
@@ -33,9 +33,8 @@ auto simple_dual_set_shortest_edge(
     std::size_t                                                                              other_n_features,
     const datastruct::mst::Edge<typename std::iterator_traits<IndicesIterator>::value_type,
                                 typename std::iterator_traits<SamplesIterator>::value_type>& initial_shortest_edge =
-        datastruct::mst::make_edge(common::infinity<typename std::iterator_traits<IndicesIterator>::value_type>(),
-                                   common::infinity<typename std::iterator_traits<IndicesIterator>::value_type>(),
-                                   common::infinity<typename std::iterator_traits<SamplesIterator>::value_type>()))
+        datastruct::mst::make_default_edge<typename std::iterator_traits<IndicesIterator>::value_type,
+                                           typename std::iterator_traits<SamplesIterator>::value_type>())
     -> datastruct::mst::Edge<typename std::iterator_traits<IndicesIterator>::value_type,
                              typename std::iterator_traits<SamplesIterator>::value_type> {
     common::ignore_parameters(samples_range_last, other_samples_range_last);
-- 
2.43.0


From c7f23f7ec192f67bc9051bd67eae78d9eaa9ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:18 +0000
Subject: [PATCH 50/53] fix: a single linkage tree of integer edges is not cut
 by default

---
 .../single_linkage_cluster_tree/SingleLinkageClusterTree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 65c2874..94fc13a 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -4,6 +4,7 @@
 #include "ffcl/datastruct/graph/spanning_tree/MinimumSpanningTree.hpp"
 #include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp"
 
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <unordered_map>
@@ -56,7 +57,9 @@ class SingleLinkageClusterTree {
             return *this;
         }
 
-        ValueType   cut_level_        = common::infinity<ValueType>();
+        // integral types have no representation of infinity: their largest value is used instead
+        ValueType   cut_level_ = std::numeric_limits<ValueType>::has_infinity ? common::infinity<ValueType>()
+                                                                              : std::numeric_limits<ValueType>::max();
         std::size_t min_cluster_size_ = 1;
     };
 
-- 
2.43.0


From bd2b34238a07f1ed3d339b4ff83dcdca3d308e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:51 +0000
Subject: [PATCH 51/53] fix: the lower bounds of Hamerly's algorithm do not go
 below zero

---
 include/ffcl/kmeans/Hamerly.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/kmeans/Hamerly.hpp b/include/ffcl/kmeans/Hamerly.hpp
index 0a1364b..124ccde 100644
--- a/include/ffcl/kmeans/Hamerly.hpp
+++ b/include/ffcl/kmeans/Hamerly.hpp
@@ -267,9 +267,13 @@ void Hamerly<SamplesIterator>::update_bounds() {
         // move the upper bound by the same distance its assigned centroid has moved
         samples_to_nearest_centroid_distances[sample_index] += centroid_velocities[assigned_centroid_index];
 
-        samples_to_second_nearest_centroid_distances[sample_index] -=
-            (assigned_centroid_index == furthest_moving_centroid_index) ? second_furthest_moving_centroid_distance
-                                                                        : furthest_moving_centroid_distance;
+        const auto furthest_displacement = (assigned_centroid_index == furthest_moving_centroid_index)
+                                               ? second_furthest_moving_centroid_distance
+                                               : furthest_moving_centroid_distance;
+
+        auto& lower_bound = samples_to_second_nearest_centroid_distances[sample_index];
+        // a distance is never lower than zero, which is also the smallest value of the unsigned types
+        lower_bound = lower_bound > furthest_displacement ? lower_bound - furthest_displacement : static_cast<DataType>(0);
     }
     buffers_ptr_->centroid_to_nearest_centroid_distances_ = kmeans::utils::nearest_neighbor_distances(
         centroids_.begin(), centroids_.end(), std::get<2>(dataset_descriptor_));
-- 
2.43.0


From a48f178642e69c80c80c61333568b8db450267d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:40 +0000
Subject: [PATCH 52/53] fix: the distance between two overlapping balls of
 unsigned values is zero

---
 .../bounds/distances/MinDistance.hpp           | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/datastruct/bounds/distances/MinDistance.hpp b/include/ffcl/datastruct/bounds/distances/MinDistance.hpp
index e3c4085..b556bdf 100644
--- a/include/ffcl/datastruct/bounds/distances/MinDistance.hpp
+++ b/include/ffcl/datastruct/bounds/distances/MinDistance.hpp
@@ -60,9 +60,12 @@ constexpr auto min_distance(const Ball<FirstValue, NFeatures>&  first_ball,
                                                                             second_ball.centroid_begin(),
                                                                             second_ball.centroid_begin());
 
-    return std::max(static_cast<ValueType>(0),
-                    centroids_distance - (first_ball.centroid_to_furthest_bound_distance() +
-                                          second_ball.centroid_to_furthest_bound_distance()));
+    const auto radii_sum =
+        first_ball.centroid_to_furthest_bound_distance() + second_ball.centroid_to_furthest_bound_distance();
+
+    // compared before they are subtracted: the difference wraps around for unsigned values
+    return radii_sum < centroids_distance ? static_cast<ValueType>(centroids_distance - radii_sum)
+                                          : static_cast<ValueType>(0);
 }
 
 template <typename FirstFeaturesIterator, typename SecondFeaturesIterator>
@@ -76,9 +79,12 @@ constexpr auto min_distance(const BallView<FirstFeaturesIterator>&  first_ball_v
                                                                             second_ball_view.centroid_begin(),
                                                                             second_ball_view.centroid_begin());
 
-    return std::max(static_cast<ValueType>(0),
-                    centroids_distance - (first_ball_view.centroid_to_furthest_bound_distance() +
-                                          second_ball_view.centroid_to_furthest_bound_distance()));
+    const auto radii_sum =
+        first_ball_view.centroid_to_furthest_bound_distance() + second_ball_view.centroid_to_furthest_bound_distance();
+
+    // compared before they are subtracted: the difference wraps around for unsigned values
+    return radii_sum < centroids_distance ? static_cast<ValueType>(centroids_distance - radii_sum)
+                                          : static_cast<ValueType>(0);
 }
 
 template <typename FirstValue, typename SecondValue, std::size_t NFeatures = 0>
-- 
2.43.0


From 746cee294a7fcacebd86633fee0fd46a422b78ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:46 +0000
Subject: [PATCH 53/53] fix: unsigned values and bucket sizes are serialized as
 unsigned values

---
 include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp        | 5 ++++-
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp            | 8 ++++++--
 .../SingleLinkageClusterNode.hpp                          | 5 ++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
index 0af7d78..8b1bd17 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
@@ -289,7 +289,10 @@ void KDNodeView<IndicesIterator, Bound>::serialize(rapidjson::Writer<rapidjson::
     for (auto subrange_index_it = indices_range_first; subrange_index_it != indices_range_last; ++subrange_index_it) {
         writer.StartArray();
         for (std::size_t feature_index = 0; feature_index < reference_n_features; ++feature_index) {
-            if constexpr (std::is_integral_v<DataType>) {
+            if constexpr (std::is_unsigned_v<DataType>) {
+                writer.Uint64(reference_samples_range_first[*subrange_index_it * reference_n_features + feature_index]);
+
+            } else if constexpr (std::is_integral_v<DataType>) {
                 writer.Int64(reference_samples_range_first[*subrange_index_it * reference_n_features + feature_index]);
 
             } else if constexpr (std::is_floating_point_v<DataType>) {
diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index c24d53d..bf32749 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -111,7 +111,7 @@ class KDTree {
             writer.StartObject();
             {
                 writer.String("bucket_size");
-                writer.Int64(bucket_size_);
+                writer.Uint64(bucket_size_);
 
                 writer.String("max_depth");
                 writer.Uint64(max_depth_);
@@ -435,7 +435,11 @@ void KDTree<IndicesIterator, SamplesIterator>::serialize(const fs::path& filepat
         for (std::size_t feature_index = 0; feature_index < n_features_; ++feature_index) {
             writer.StartArray();
 
-            if constexpr (std::is_integral_v<DataType>) {
+            if constexpr (std::is_unsigned_v<DataType>) {
+                writer.Uint64(bound_.segment_at(feature_index).lower_bound());
+                writer.Uint64(bound_.segment_at(feature_index).upper_bound());
+
+            } else if constexpr (std::is_integral_v<DataType>) {
                 writer.Int64(bound_.segment_at(feature_index).lower_bound());
                 writer.Int64(bound_.segment_at(feature_index).upper_bound());
 
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
index fe44a12..03b786a 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
@@ -75,7 +75,10 @@ void SingleLinkageClusterNode<IndexType, ValueType>::serialize(
     writer.Int64(representative_);
 
     writer.String("level");
-    if constexpr (std::is_integral_v<ValueType>) {
+    if constexpr (std::is_unsigned_v<ValueType>) {
+        writer.Uint64(level_);
+
+    } else if constexpr (std::is_integral_v<ValueType>) {
         writer.Int64(level_);
 
     } else if constexpr (std::is_floating_point_v<ValueType>) {
-- 
2.43.0

