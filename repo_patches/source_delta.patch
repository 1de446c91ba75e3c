From 1bd27224bf81a7e0380063fd18de69ced2d728d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:32 +0000
Subject: [PATCH 01/57] fix: binary operations follow the dynamic operand's
 shape also when it holds one element

---
 dwave/optimization/src/nodes/mathematical.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index de0a08d..d375d3a 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -81,7 +81,7 @@ void BinaryOpNode<BinaryOp>::initialize_state(State& state) const {
     auto func = op();
     std::vector<double> values;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // This is the easy case - all we need to do is iterate over both as flat arrays
         values.reserve(lhs_ptr->size(state));
 
@@ -267,7 +267,7 @@ void BinaryOpNode<BinaryOp>::propagate(State& state) const {
     auto& values = ptr->buffer;
     auto& changes = ptr->updates;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // The easy case, just go through both predecessors making updates.
         if (lhs_ptr->diff(state).size() && rhs_ptr->diff(state).size()) {
             // Both modified
@@ -366,12 +366,12 @@ template <class BinaryOp>
 std::span<const ssize_t> BinaryOpNode<BinaryOp>::shape(const State& state) const {
     if (!this->dynamic()) return this->shape();
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || operands_[1]->size(state) == 1);
+    assert(operands_[0]->size() == 1 || operands_[1]->size() == 1);
 
-    return (lhs_size == 1) ? operands_[1]->shape(state) : operands_[0]->shape(state);
+    // Exactly one of the operands is dynamic, the other is broadcast to it. Note that
+    // the dynamic operand can currently have a size of 1 as well.
+    return operands_[0]->dynamic() ? operands_[0]->shape(state) : operands_[1]->shape(state);
 }
 
 template <class BinaryOp>
@@ -380,13 +380,10 @@ ssize_t BinaryOpNode<BinaryOp>::size(const State& state) const {
         return size;
     }
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-    const ssize_t rhs_size = operands_[1]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || rhs_size == 1);
+    assert(operands_[0]->size() == 1 || operands_[1]->size() == 1);
 
-    return (lhs_size == 1) ? rhs_size : lhs_size;
+    return operands_[0]->dynamic() ? operands_[0]->size(state) : operands_[1]->size(state);
 }
 
 template <class BinaryOp>
-- 
2.43.0


From 1fa355f52bacab628955d2e0cd0223bdda47d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:39 +0000
Subject: [PATCH 02/57] fix: Concatenate records the overwritten value of the
 element that changed

---
 dwave/optimization/src/nodes/manipulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index b6584dc..7c3413a 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -160,7 +160,7 @@ void ConcatenateNode::propagate(State& state) const {
             auto update_it = view_it + diff.index;
             ssize_t buffer_index = &*update_it - ptr->buffer.data();
             assert(*update_it == diff.old);
-            ptr->updates.emplace_back(buffer_index, *view_it, diff.value);
+            ptr->updates.emplace_back(buffer_index, *update_it, diff.value);
             *update_it = diff.value;
         }
     }
-- 
2.43.0


From 71e3f5b3c0e9d940953299f7760823070ec923a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:08 +0000
Subject: [PATCH 03/57] fix: Permutation propagates changes of the order for
 arrays that are not 2-dimensional

---
 dwave/optimization/src/nodes/indexing.cpp | 38 +++++++++++++----------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 36f4615..ef995b3 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1658,7 +1658,7 @@ void PermutationNode::initialize_state(State& state) const {
 
     // first work out all of the offsets in the array
     std::vector<ssize_t> offsets;
-    {
+    if (n > 0) {
         assert(this->size() >= 0);
         offsets.reserve(this->size());
 
@@ -1715,31 +1715,37 @@ void PermutationNode::propagate(State& state) const {
         const std::span<const ssize_t> strides = array_ptr_->strides();
         const double* start = array_ptr_->buff(state);
 
-        ssize_t mul = std::pow(n, ndim - 1);
-        ssize_t step = 1;
+        // For each axis, the indices of the flattened array with a given position along that axis
+        // come in `num_blocks` blocks of `block_size` contiguous elements.
+        ssize_t num_blocks = 1;
+        ssize_t block_size = this->size() / n;
 
         for (ssize_t dim = 0; dim < ndim; ++dim) {
+            const ssize_t stride = strides[dim] / array_ptr_->itemsize();
+
             for (auto& [index, old, neo] : order_diff) {
-                ssize_t stride = strides[dim] / array_ptr_->itemsize();
+                for (ssize_t block = 0; block < num_blocks; ++block) {
+                    const ssize_t begin = (block * n + index) * block_size;
 
-                for (ssize_t i = index * mul, end = i + step * n; i < end; i += step) {
-                    old_offsets.emplace_back(offsets[i]);
+                    for (ssize_t i = begin, end = begin + block_size; i < end; ++i) {
+                        old_offsets.emplace_back(offsets[i]);
 
-                    offsets[i] += stride * (neo - old);
+                        offsets[i] += stride * (neo - old);
 
-                    // We do end up updating some of the indices more than once. We could
-                    // instead put placeholder values, then later do a deduplication step
-                    // and then value update. If we find that we're doing lots of redundant
-                    // work
-                    double old_value = values[i];
-                    values[i] = start[offsets[i]];
+                        // We do end up updating some of the indices more than once. We could
+                        // instead put placeholder values, then later do a deduplication step
+                        // and then value update. If we find that we're doing lots of redundant
+                        // work
+                        double old_value = values[i];
+                        values[i] = start[offsets[i]];
 
-                    updates.emplace_back(i, old_value, values[i]);
+                        updates.emplace_back(i, old_value, values[i]);
+                    }
                 }
             }
 
-            mul /= n;
-            step *= n;
+            num_blocks *= n;
+            block_size /= n;
         }
     }
 
-- 
2.43.0


From 6b3cba7697dbe92e628235d09e1b8fd02a24620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:08 +0000
Subject: [PATCH 04/57] fix: Permutation refuses an order whose values can be
 outside of the array

---
 dwave/optimization/src/nodes/indexing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index ef995b3..8a0aae7 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1627,7 +1627,7 @@ PermutationNode::PermutationNode(ArrayNode* array_ptr, ArrayNode* order_ptr)
     if (array_shape[0] != order_ptr_->size()) {
         throw std::invalid_argument("array shape and order size mismatch");
     }
-    if (order_ptr_->max() > array_ptr_->size()) {
+    if (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0]) {
         throw std::invalid_argument("order may have values out of range");
     }
 
-- 
2.43.0


From fae2bffe430b0f73962663369f24bc53267f995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 05/57] fix: BasicIndexing propagates strided,
 multi-dimensional and dynamic slices

Views that are not contiguous mapped the updates of their array to the wrong
elements, and slices of dynamic arrays other than contiguous slices of 1d
arrays were not propagated, reverted or started correctly.
---
 dwave/optimization/src/nodes/indexing.cpp | 98 ++++++++++-------------
 1 file changed, 43 insertions(+), 55 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 8a0aae7..0db2769 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1061,7 +1061,12 @@ struct BasicIndexingNodeData : NodeStateData {
 
     Slice fitted_first_slice;
 
-    // This will be used to cache the full output in the case of a negative start index.
+    // Whether changes are found by comparing the output to the cached committed output.
+    // This handles every dynamic case except for contiguous slices of 1d arrays that
+    // begin at a fixed index.
+    bool compare_to_cache = false;
+
+    // This will be used to cache the full output, e.g., in the case of a negative start index.
     // Keeping a full cache not only keeps the implementation simpler, but because any
     // change of size to the predecessor array means (most definitely) that the entire
     // output of the BasicIndexingNode will change, it is likely close to optimal (unless
@@ -1185,7 +1190,10 @@ void BasicIndexingNode::initialize_state(State& state) const {
         auto node_data = data_ptr<BasicIndexingNodeData>(state);
         node_data->previous_size = size(state);
 
-        if (axis0_slice_.value().start < 0) {
+        node_data->compare_to_cache =
+                !contiguous_ || axis0_slice_.value().start < 0 || array_ptr_->ndim() > 1;
+
+        if (node_data->compare_to_cache) {
             // Initialize the full output cache
             node_data->full_cache_.assign(begin(state), end(state));
         }
@@ -1193,7 +1201,8 @@ void BasicIndexingNode::initialize_state(State& state) const {
 }
 
 ssize_t BasicIndexingNode::dynamic_start(ssize_t slice_start) const {
-    return slice_start * strides_[0] / static_cast<ssize_t>(sizeof(double));
+    // the start is in terms of the rows of the array, so the step does not matter here
+    return slice_start * array_ptr_->strides()[0] / static_cast<ssize_t>(sizeof(double));
 }
 
 ssize_t get_smallest_size_during_diff(ssize_t initial_size, const std::span<const Update> diff) {
@@ -1217,15 +1226,11 @@ void BasicIndexingNode::propagate(State& state) const {
     auto& diff = node_data->diff;
     assert(diff.size() == 0 && "calling propagate on an node with pending updates");
 
-    if (contiguous_ && dynamic() && axis0_slice_.value().start < 0) {
-        assert(this->start_ == 0);
+    if (dynamic() && node_data->compare_to_cache) {
         // Do a full recompute of the output using the current data. This could be avoided
         // when the size of the parent array hasn't changed.
         auto& full_cache = node_data->full_cache_;
-        assert(full_cache.size() ==
-                       axis0_slice_.value()
-                               .fit(array_ptr_->size(state) - array_ptr_->size_diff(state))
-                               .size() &&
+        assert(static_cast<ssize_t>(full_cache.size()) == node_data->previous_size &&
                "cache is the wrong size");
 
         update_dynamic_shape(state);
@@ -1438,56 +1443,42 @@ void BasicIndexingNode::propagate(State& state) const {
             diff.emplace_back(index - start, old, value);
         }
 
-    } else if (!dynamic() || (axis0_slice_.value().start >= 0 && axis0_slice_.value().stop >= 0)) {
-        // Handle all other cases of static sized arrays (contiguous and non-contiguous), and the
-        // case of dynamic but with positive start and end
-        assert(!this->contiguous());
+    } else if (this->size() > 0) {
+        // Handle the remaining non-contiguous case of static sized arrays
+        assert(!dynamic());
         assert(array_ptr_->contiguous() && "doesn't support non-contiguous arrays");
 
-        if (dynamic()) update_dynamic_shape(state);
-
-        const ssize_t start = this->start_;
-        // distance between pointers in the parent array. Relies on parent
-        // being contiguous
-        assert(array_ptr_->contiguous());
-        const ssize_t stop = &*this->end(state) - &*this->begin(state);
+        const std::vector<slice_or_int> indices = infer_indices();
+        const auto array_strides = array_ptr_->strides();
 
-        // A few sanity checks...
-        assert(start >= 0);
-        assert(stop >= start);
-        assert(this->ndim() > 0);  // if we're not contiguous we cannot be a scalar
-        // some strided stop after the end to make the math work out.
-        assert(stop <= array_ptr_->size(state) + this->strides()[0] / this->itemsize());
-
-        for (auto [index, old, value] : array_ptr_->diff(state)) {
-            if (index < start) continue;  // before the range we care about
-            if (index >= stop) continue;  // after the range we care about
-
-            index -= start;
-
-            bool skip = false;
-            for (ssize_t stride : this->strides()) {
-                assert(stride % this->itemsize() == 0);
-                // again, we rely on the parent being contiguous!
-                assert(array_ptr_->contiguous());
-                const ssize_t div = stride / this->itemsize();
-
-                if (index % div) {
-                    // we are "between" steps
-                    skip = true;
-                    break;
+        for (const auto& [index, old, value] : array_ptr_->diff(state)) {
+            // walk through the axes of the array, checking whether the updated
+            // element is part of the view and if so where
+            ssize_t remainder = index;
+            ssize_t view_index = 0;
+            bool in_view = true;
+
+            for (std::size_t axis = 0; axis < indices.size() && in_view; ++axis) {
+                const ssize_t num_per_row = array_strides[axis] / itemsize();
+                const ssize_t axis_index = remainder / num_per_row;
+                remainder %= num_per_row;
+
+                if (std::holds_alternative<Slice>(indices[axis])) {
+                    const Slice& slice = std::get<Slice>(indices[axis]);
+                    in_view = axis_index >= slice.start && axis_index < slice.stop &&
+                              (axis_index - slice.start) % slice.step == 0;
+                    view_index = view_index * static_cast<ssize_t>(slice.size()) +
+                                 (axis_index - slice.start) / slice.step;
+                } else {
+                    in_view = axis_index == std::get<ssize_t>(indices[axis]);
                 }
-
-                index /= div;
             }
-            if (skip) continue;
+            if (!in_view) continue;
 
-            assert(index >= 0 && index < this->size(state));
+            assert(view_index >= 0 && view_index < this->size(state));
 
-            diff.emplace_back(index, old, value);
+            diff.emplace_back(view_index, old, value);
         }
-    } else {
-        assert(false && "not yet implemented");
     }
 
     // Only signal successors if we actually have something to propagate
@@ -1500,11 +1491,8 @@ void BasicIndexingNode::revert(State& state) const {
     if (dynamic()) {
         // todo this is only safe if revert() has been called on the predecessor array
         // first, which isn't safe to assume
+        // the cache still holds the committed output
         update_dynamic_shape(state);
-        if (axis0_slice_.value().start < 0) {
-            assert(contiguous_ && "not yet implemented");
-            node_data->full_cache_.resize(node_data->previous_size);
-        }
     }
 }
 
-- 
2.43.0


From 29673d10ba74386977c6bcda2feb9b79ece96cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 06/57] fix: AdvancedIndexing places and removes the elements
 of a dynamic array in order

With an axis between the first one and the indexing arrays, the elements of the
subspaces are interleaved, so placing them subspace by subspace stored them at
the wrong positions.
---
 dwave/optimization/src/nodes/indexing.cpp | 29 ++++++++++++++---------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 0db2769..44d7896 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -837,25 +837,32 @@ void AdvancedIndexingNode::propagate(State& state) const {
         ssize_t unchanged_axis0_size = std::min(new_axis0_size, old_axis0_size);
         // First handle any changes to the size of the parent array
         if (new_axis0_size > old_axis0_size) {
-            // Growing, so need placements
+            // Growing, so need placements. There can be axes between the first axis and the
+            // one of the indexing arrays, in which case the elements of the subspaces are
+            // interleaved. So we fill in the values first and then place them in order.
+            const ssize_t old_data_size = data.size();
+            data.resize(new_axis0_size * (strides()[0] / itemsize()));
+
+            std::vector<Update> unused;
             for (ssize_t axis0_idx = old_axis0_size; axis0_idx < new_axis0_size; ++axis0_idx) {
                 for (ssize_t offset_idx = 0; offset_idx < node_data->offsets_size(); ++offset_idx) {
-                    fill_axis0_subspace<true, false>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
+                    fill_axis0_subspace<false, false>(state, axis0_idx,
+                                                      node_data->offsets()[offset_idx], data,
+                                                      offset_idx, unused);
                 }
             }
+
+            for (ssize_t i = old_data_size, stop = data.size(); i < stop; ++i) {
+                diff.emplace_back(Update::placement(i, data[i]));
+            }
         }
 
         if (new_axis0_size < old_axis0_size) {
             // Shrinking, so need removals
-            for (ssize_t axis0_idx = old_axis0_size - 1; axis0_idx >= new_axis0_size; --axis0_idx) {
-                for (ssize_t offset_idx = node_data->offsets_size() - 1; offset_idx >= 0;
-                     --offset_idx) {
-                    fill_axis0_subspace<false, true>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
-                }
+            const ssize_t new_data_size = new_axis0_size * (strides()[0] / itemsize());
+            for (ssize_t i = static_cast<ssize_t>(data.size()) - 1; i >= new_data_size; --i) {
+                diff.emplace_back(Update::removal(i, data[i]));
+                data.pop_back();
             }
         }
 
-- 
2.43.0


From 2a5dd3a3c83b8d97df8211e5993575319cbc5454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 07/57] fix: AdvancedIndexing refuses slicing a dynamic axis
 together with scalar indices

The combination is not supported but was accepted, and then creating a state
failed with an allocation error.
---
 dwave/optimization/src/nodes/indexing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 44d7896..49a1b9d 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -331,7 +331,9 @@ struct AdvancedIndexingNode::IndexParser_ {
                     "there must be at least one array-type index to use AdvancedIndexingNode");
         }
 
-        if (bullet1mode && array_ptr->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
+        // Note that scalar indexing arrays are handled by bullet1mode as well, see below
+        if ((bullet1mode || indexing_arrays_ndim == 0) && array_ptr->dynamic() &&
+            std::holds_alternative<Slice>(indices_[0])) {
             throw std::invalid_argument(
                     "Indexed Array cannot be dynamic with an empty slice in the first dimension");
         }
-- 
2.43.0


From 852b2aadedb38bb70480c881111404c773b55c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 08/57] fix: the bounds of Square account for negative values

---
 dwave/optimization/src/nodes/mathematical.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index d375d3a..2353372 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1794,8 +1794,9 @@ double UnaryOpNode<std::negate<double>>::max() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::max() const {
-    const double max = array_ptr_->max();
-    if (std::abs(max) >= std::sqrt(Array::max())) {
+    // the value with the largest magnitude has the largest square
+    const double max = std::max(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (max >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
@@ -1843,8 +1844,12 @@ double UnaryOpNode<std::negate<double>>::min() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::min() const {
-    const double min = array_ptr_->min();
-    if (std::abs(min) >= std::sqrt(Array::max())) {
+    // if 0 is within the range then it has the smallest square
+    if (array_ptr_->min() <= 0 && array_ptr_->max() >= 0) return 0;
+
+    // otherwise it's the value with the smallest magnitude
+    const double min = std::min(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (min >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
-- 
2.43.0


From 1b004dab9eb89d2a0f2bd3a1914f72e1a2f155e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 09/57] fix: the bounds of Max and Min account for empty arrays

---
 dwave/optimization/src/nodes/mathematical.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 2353372..4b1c070 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1294,6 +1294,13 @@ bool ReduceNode<BinaryOp>::integral() const {
     unreachable();
 }
 
+// Whether there is no state for which the given array is empty
+bool never_empty(const Array* array_ptr) {
+    if (!array_ptr->dynamic()) return array_ptr->size() > 0;
+    // 100 is a magic number, see the use of sizeinfo in ReduceNode
+    return array_ptr->sizeinfo().substitute(100).min.value_or(0) > 0;
+}
+
 template <class BinaryOp>
 double ReduceNode<BinaryOp>::max() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
@@ -1309,6 +1316,8 @@ double ReduceNode<BinaryOp>::max() const {
         return array_ptr_->max();
     }
     if constexpr (std::is_same<BinaryOp, functional::min<double>>::value) {
+        // the minimum of an empty array is init
+        if (init.has_value() && !never_empty(array_ptr_)) return init.value();
         if (init.has_value()) return std::min(init.value(), array_ptr_->max());
         return array_ptr_->max();
     }
@@ -1392,6 +1401,8 @@ double ReduceNode<BinaryOp>::min() const {
     // These can results in inf. If we fix that in initialization/propagation we
     // should also fix it here.
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value) {
+        // the maximum of an empty array is init
+        if (init.has_value() && !never_empty(array_ptr_)) return init.value();
         if (init.has_value()) return std::max(init.value(), array_ptr_->min());
         return array_ptr_->min();
     }
-- 
2.43.0


From d370b49b0f05dc342076448e5e9674f8f8b2d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 10/57] fix: Prod of integers stays an integer when one of them
 changes

---
 dwave/optimization/src/nodes/mathematical.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 4b1c070..52197de 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1648,7 +1648,9 @@ void ReduceNode<std::multiplies<double>>::propagate(State& state) const {
             num_zero += 1;
         } else {
             // something else to something else
-            nonzero *= (update.value / update.old);
+            // divide first, so that the product of integers stays an integer
+            nonzero /= update.old;
+            nonzero *= update.value;
         }
     }
 
-- 
2.43.0


From ef4289f81e87462616e29b4790d3651bd2ef2be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:09 +0000
Subject: [PATCH 11/57] fix: the size information of slices and indexing is
 sound

SizeInfo::substitute() applied offsets and multipliers repeatedly and rounded
upper bounds down, slices of arrays with several elements per row or with a step
had a wrong offset or bound, advanced indexing ignored the size of its subspaces
and array_shape_equal() only compared sizes, including ones that differ.
---
 dwave/optimization/src/array.cpp          |  94 ++++++++++------
 dwave/optimization/src/nodes/indexing.cpp | 130 ++++++++++++----------
 2 files changed, 132 insertions(+), 92 deletions(-)

diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index d4fb85a..675de51 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -45,6 +45,9 @@ bool SizeInfo::operator==(const SizeInfo& other) const {
 SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
     if (max_depth <= 0) return *this;
 
+    // Fixed sizes don't depend on any array
+    if (this->multiplier == 0 || this->array_ptr == nullptr) return *this;
+
     SizeInfo sizeinfo = this->array_ptr->sizeinfo();
 
     // Check if substitution will do nothing, and return if so
@@ -55,11 +58,12 @@ SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
         return *this;
     }
 
-    sizeinfo.multiplier *= this->multiplier;
-    assert((this->multiplier * sizeinfo.offset).denominator() == 1);
-    sizeinfo.offset = static_cast<ssize_t>(this->multiplier * sizeinfo.offset);
-    sizeinfo.offset += this->offset;
+    // Work our way up from the source(s) of our array's size. In this way sizeinfo.min and
+    // sizeinfo.max are bounds on the size of our array, and each of the multipliers and offsets
+    // is applied to them exactly once.
+    if (sizeinfo.array_ptr != this->array_ptr) sizeinfo = sizeinfo.substitute(max_depth - 1);
 
+    // Tighten the bounds on the size of our array
     if (this->max) {
         if (sizeinfo.max) {
             sizeinfo.max = std::min<ssize_t>(*max, *sizeinfo.max);
@@ -76,7 +80,10 @@ SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
         }
     }
 
+    // And then turn them into bounds on the resulting size. A multiplier with a denominator
+    // can come with a remainder, in which case we need to round outwards.
     if (sizeinfo.min) {
+        if (sizeinfo.max) sizeinfo.min = std::min<ssize_t>(*sizeinfo.min, *sizeinfo.max);
         if (this->multiplier != 1) {
             sizeinfo.min = static_cast<ssize_t>(this->multiplier * *sizeinfo.min);
         }
@@ -84,20 +91,28 @@ SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
     }
     if (sizeinfo.max) {
         if (this->multiplier != 1) {
-            sizeinfo.max = static_cast<ssize_t>(this->multiplier * *sizeinfo.max);
+            fraction max = this->multiplier * *sizeinfo.max;
+            sizeinfo.max = static_cast<ssize_t>(max) + (max.denominator() != 1);
         }
         sizeinfo.max = std::max<ssize_t>(0, *sizeinfo.max + this->offset);
     }
 
+    // Now update the expression itself, unless it cannot be expressed in terms of the source
+    if (fraction offset = this->multiplier * sizeinfo.offset; offset.denominator() == 1) {
+        sizeinfo.multiplier *= this->multiplier;
+        sizeinfo.offset = static_cast<ssize_t>(offset) + this->offset;
+    } else {
+        sizeinfo.array_ptr = this->array_ptr;
+        sizeinfo.multiplier = this->multiplier;
+        sizeinfo.offset = this->offset;
+    }
+
     // Adjust the minimum based on the offset
     if (sizeinfo.min && sizeinfo.max && sizeinfo.min == sizeinfo.max) {
         sizeinfo.offset = *sizeinfo.min;
         sizeinfo.multiplier = 0;
     }
 
-    // in the future we can/should do an iterative rather than recurisive
-    // version
-    if (max_depth > 1) return sizeinfo.substitute(max_depth - 1);
     return sizeinfo;
 }
 
@@ -162,35 +177,44 @@ std::string shape_to_string(const std::span<const ssize_t> shape) {
     return out;
 }
 
-bool array_shape_equal(const Array* lhs_ptr, const Array* rhs_ptr) {
-    auto lhs_size = lhs_ptr->sizeinfo();
-    auto rhs_size = rhs_ptr->sizeinfo();
-
-    if (lhs_size == rhs_size) return true;
-    if (lhs_size.array_ptr == nullptr || rhs_size.array_ptr == nullptr) return false;
-
-    // This first loop is redundant, but often we get diamond structures
-    // of predecessors so by going back together we might get to short circuit the
-    // dfs
-    while (lhs_size.array_ptr != lhs_ptr && rhs_size.array_ptr != rhs_ptr) {
-        lhs_ptr = lhs_size.array_ptr;
-        lhs_size = lhs_size.substitute();
-        rhs_ptr = rhs_size.array_ptr;
-        rhs_size = rhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
-    }
-    while (lhs_size.array_ptr != lhs_ptr) {
-        lhs_ptr = lhs_size.array_ptr;
-        lhs_size = lhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
-    }
-    while (rhs_size.array_ptr != rhs_ptr) {
-        rhs_ptr = rhs_size.array_ptr;
-        rhs_size = rhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
+// Express the size of a dynamic array in terms of the array that it ultimately gets its size
+// from. As opposed to SizeInfo::substitute(), which is also used to derive bounds, we only follow
+// the predecessors for as long as the expression is exact.
+SizeInfo exact_sizeinfo(const Array* array_ptr) {
+    SizeInfo sizeinfo(array_ptr);
+
+    while (true) {
+        const SizeInfo source = sizeinfo.array_ptr->sizeinfo();
+        if (source.array_ptr == sizeinfo.array_ptr || source.multiplier == 0 || source.min) break;
+
+        if (sizeinfo.multiplier == 1 && sizeinfo.offset == 0 && !sizeinfo.max) {
+            // the size is exactly the source's
+            sizeinfo = source;
+        } else if (source.multiplier.denominator() == 1 && source.offset == 0 && !sizeinfo.max) {
+            sizeinfo.array_ptr = source.array_ptr;
+            sizeinfo.multiplier *= source.multiplier;
+            sizeinfo.max = source.max;
+        } else if (source.multiplier == 1 && source.offset <= 0 && sizeinfo.multiplier == 1 &&
+                   sizeinfo.offset <= 0) {
+            sizeinfo.array_ptr = source.array_ptr;
+            if (sizeinfo.max) sizeinfo.max = *sizeinfo.max - source.offset;
+            if (source.max) sizeinfo.max = std::min(sizeinfo.max.value_or(*source.max), *source.max);
+            sizeinfo.offset += source.offset;
+        } else {
+            break;
+        }
     }
 
-    return false;
+    return sizeinfo;
+}
+
+bool array_shape_equal(const Array* lhs_ptr, const Array* rhs_ptr) {
+    // The axes of a fixed size. For dynamic arrays that's all of them except for the first, which
+    // then is given by the total size.
+    if (!std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) return false;
+    if (!lhs_ptr->dynamic()) return true;
+
+    return lhs_ptr == rhs_ptr || exact_sizeinfo(lhs_ptr) == exact_sizeinfo(rhs_ptr);
 }
 bool array_shape_equal(const Array& lhs, const Array& rhs) {
     return array_shape_equal(&lhs, &rhs);
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 49a1b9d..6f5673f 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -646,9 +646,21 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
     if (!dynamic()) return SizeInfo(size());
     // when we get around to supporting broadcasting this will need to change
     assert(predecessors().size() >= 2);
-    assert(!dynamic_cast<ArrayNode*>(predecessors()[0])->dynamic() &&
-           "sizeinfo for dynamic base arrays not supported");
-    return SizeInfo(dynamic_cast<ArrayNode*>(predecessors()[1]));
+
+    const ssize_t num_per_row = strides()[0] / itemsize();
+
+    if (array_ptr_->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
+        // We have one row for each row of the array
+        SizeInfo sizeinfo(array_ptr_);
+        sizeinfo.multiplier *= num_per_row;
+        sizeinfo.multiplier /= array_item_strides()[0];
+        return sizeinfo;
+    }
+
+    // We have one row for each value in the indexing array(s)
+    SizeInfo sizeinfo(std::get<ArrayNode*>(indices_[first_array_index_]));
+    sizeinfo.multiplier *= num_per_row;
+    return sizeinfo;
 }
 
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
@@ -1516,64 +1528,68 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
 
     auto sizeinfo = SizeInfo(array_ptr_);
 
-    // Get the multiplier on the size of the array
-    {
-        // Determine how many elements are in each row of the array. Where "row" here means the
-        // first axis.
-        // We use the fact that the parent is contiguous to simplify this calculation.
-        assert(array_ptr_->contiguous());
-        assert(this->ndim() > 0);
-        ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
-
-        sizeinfo.multiplier /= array_num_per_row;
-
-        // Determine how many elements are in each row of the resulting array.
-        // Here we may be strided, so we use the shape to figure it out.
-        auto shape = this->shape();
-        ssize_t num_per_row =
-                std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
-
-        sizeinfo.multiplier *= num_per_row;
-
-        // handle the step
-        assert(axis0_slice_);            // dynamic so this should be present
-        assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
+    assert(axis0_slice_);            // dynamic so this should be present
+    assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
+    const Slice& slice = *axis0_slice_;
+
+    // This is where having Slice's values be optional<ssize_t> would be useful.
+    // For now let's just hard code it.
+    constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
+
+    // Determine how many elements are in each row of the array. Where "row" here means the
+    // first axis.
+    // We use the fact that the parent is contiguous to simplify this calculation.
+    assert(array_ptr_->contiguous());
+    assert(this->ndim() > 0);
+    const ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
+
+    // Determine how many elements are in each row of the resulting array.
+    // Here we may be strided, so we use the shape to figure it out.
+    auto shape = this->shape();
+    const ssize_t num_per_row =
+            std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
+
+    // There are cases where our size is not a multiple of the array's size, in which
+    // case the best we can do is to give bounds.
+    const bool strided = slice.step != 1 && (slice.start != 0 || slice.stop != MAX ||
+                                             array_num_per_row != 1 || num_per_row != 1);
+    const bool sliding = slice.start < 0 && slice.stop >= 0 && slice.stop != MAX;
+    if (strided || sliding || array_num_per_row == 0) {
+        ssize_t max_rows = MAX;
+        if (array_num_per_row != 0) {
+            // 100 is a magic number. It's how far back in the predecessor chain to check.
+            const SizeInfo array_sizeinfo = sizeinfo.substitute(100);
+            if (array_sizeinfo.max) max_rows = *array_sizeinfo.max / array_num_per_row;
+        }
+        if (slice.start < 0) max_rows = std::min(max_rows, -slice.start);
+        if (slice.stop >= 0) max_rows = std::min(max_rows, slice.stop);
+        if (max_rows == MAX) return SizeInfo(this);
 
-        sizeinfo.multiplier /= axis0_slice_->step;
+        max_rows = max_rows / slice.step + (max_rows % slice.step != 0);
+        return SizeInfo(this, 0, max_rows * num_per_row);
     }
 
-    // Get the offset and bounds
-    {
-        assert(axis0_slice_);  // dynamic so this should be present
-
-        if (axis0_slice_->step > 0) {
-            if (axis0_slice_->start > 0) {
-                // having a positive start imposes a size offset
-                assert((sizeinfo.multiplier * axis0_slice_->start).denominator() == 1);
-                sizeinfo.offset -= static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->start);
-
-            } else if (axis0_slice_->start < 0) {
-                // a negative start imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * -1 * axis0_slice_->start);
-            }
-
-            // This is where having Slice's values be optional<ssize_t> would be useful.
-            // For now let's just hard code it.
-            constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
-
-            if (axis0_slice_->stop > 0 && axis0_slice_->stop != MAX) {
-                // having a positive stop imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            } else if (axis0_slice_->stop < 0) {
-                // having a negative stop imposes a size offset
-                sizeinfo.offset += static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            }
+    // Get the multiplier on the size of the array
+    sizeinfo.multiplier *= num_per_row;
+    sizeinfo.multiplier /= array_num_per_row;
+    sizeinfo.multiplier /= slice.step;
+
+    // Get the offset and bounds. Note that the bounds are on the size of the array, whereas
+    // the offset is added to the resulting size
+    if (slice.start > 0) {
+        // having a positive start imposes a size offset
+        sizeinfo.offset -= num_per_row * slice.start;
+    } else if (slice.start < 0) {
+        // a negative start imposes a max size
+        sizeinfo.max = array_num_per_row * -slice.start;
+    }
 
-        } else {
-            // this is currently disallowed by the constructor
-            assert(false && "not implemented yet");
-            unreachable();
-        }
+    if (slice.stop >= 0 && slice.stop != MAX) {
+        // having a positive stop imposes a max size
+        sizeinfo.max = array_num_per_row * slice.stop;
+    } else if (slice.stop < 0) {
+        // having a negative stop imposes a size offset
+        sizeinfo.offset += num_per_row * slice.stop;
     }
 
     return sizeinfo;
-- 
2.43.0


From 73b40e5ff72c7968add57a24bd1ffbdc63d0eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:35 +0000
Subject: [PATCH 12/57] fix: the distance between strided iterators does not
 move them

Calculating it zeroed the location of the iterators themselves rather than of
the copies, so e.g. reductions over strided views read the wrong elements.
---
 dwave/optimization/include/dwave-optimization/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index 73d3462..a19ea7f 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -452,8 +452,8 @@ class Array {
             difference_type offset = 0;
             ssize_t incs_per_step = 1;  // for each step in the axis how many increment operations
             {
-                ssize_t* target_loc = a.shape_->loc.get();
-                ssize_t* source_loc = b.shape_->loc.get();
+                ssize_t* target_loc = target.shape_->loc.get();
+                ssize_t* source_loc = source.shape_->loc.get();
 
                 for (ssize_t axis = shapeinfo.ndim - 1; axis > 0; --axis) {
                     const ssize_t stride = shapeinfo.strides[axis] / itemsize;
-- 
2.43.0


From d485e399f87b94c2752c68e2ea0286964f93a914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:30 +0000
Subject: [PATCH 13/57] fix: AdvancedIndexing supports arrays with empty rows

Creating a state divided by the size of the rows, which crashed.
---
 dwave/optimization/src/nodes/indexing.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 6f5673f..e90be63 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -613,7 +613,7 @@ void AdvancedIndexingNode::initialize_state(State& state) const {
         }
     }
 
-    ssize_t array_axis0_size = array_ptr_->size(state) / array_item_strides()[0];
+    ssize_t array_axis0_size = array_ptr_->shape(state)[0];
 
     // Now get the values
     ssize_t data_size = bullet1mode_ ? size * (subspace_stride_ / itemsize())
@@ -648,6 +648,7 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
     assert(predecessors().size() >= 2);
 
     const ssize_t num_per_row = strides()[0] / itemsize();
+    if (!num_per_row) return SizeInfo(this, 0, 0);
 
     if (array_ptr_->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
         // We have one row for each row of the array
@@ -666,7 +667,14 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
     if (!dynamic()) return shape();
     assert(this->ndim() >= 1);
-    dynamic_shape_[0] = this->size(state) / (strides()[0] / itemsize());
+    if (const ssize_t num_per_row = strides()[0] / itemsize()) {
+        dynamic_shape_[0] = this->size(state) / num_per_row;
+    } else if (bullet1mode_) {
+        // the rows are empty, so we cannot get their number from the size
+        dynamic_shape_[0] = data_ptr<AdvancedIndexingNodeData>(state)->offsets_size();
+    } else {
+        dynamic_shape_[0] = array_ptr_->shape(state)[0];
+    }
     return std::span<const ssize_t>(dynamic_shape_.get(), this->ndim());
 }
 
@@ -846,6 +854,9 @@ void AdvancedIndexingNode::propagate(State& state) const {
         ssize_t old_parent_size = new_parent_size - array_ptr_->size_diff(state);
         ssize_t unchanged_parent_size = std::min(new_parent_size, old_parent_size);
 
+        // an array with empty rows never has any elements to change
+        if (!array_item_strides()[0]) return;
+
         ssize_t old_axis0_size = old_parent_size / array_item_strides()[0];
         ssize_t new_axis0_size = new_parent_size / array_item_strides()[0];
         ssize_t unchanged_axis0_size = std::min(new_axis0_size, old_axis0_size);
-- 
2.43.0


From b73c5d495312ab7916717e270751b70934535a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:12 +0000
Subject: [PATCH 14/57] fix: DisjointBitSets refuses sets that are not disjoint

Only the total number of elements was checked, so an element could be in
several sets when another one was in none.
---
 dwave/optimization/src/nodes/collections.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 6dc0ce3..fc38c0b 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -13,6 +13,7 @@
 //    limitations under the License.
 #include "dwave-optimization/nodes/collections.hpp"
 
+#include <algorithm>
 #include <ranges>
 #include <unordered_set>
 #include <utility>
@@ -244,7 +245,8 @@ struct DisjointBitSetsNodeData : NodeStateData {
         data.resize(primary_set_size * num_disjoint_sets, 0);
         diffs.resize(num_disjoint_sets);
 
-        ssize_t num_elements = 0;
+        // the number of sets that contain each of the elements
+        std::vector<ssize_t> num_sets(primary_set_size, 0);
 
         for (ssize_t set_index = 0; set_index < num_disjoint_sets; ++set_index) {
             if (static_cast<ssize_t>(contents[set_index].size()) != primary_set_size) {
@@ -256,11 +258,11 @@ struct DisjointBitSetsNodeData : NodeStateData {
                     throw std::invalid_argument("provided set must be binary valued");
                 }
                 data[set_index * primary_set_size + el_index] = contents[set_index][el_index];
-                num_elements += static_cast<ssize_t>(contents[set_index][el_index]);
+                num_sets[el_index] += static_cast<ssize_t>(contents[set_index][el_index]);
             }
         }
 
-        if (num_elements != primary_set_size) {
+        if (!std::ranges::all_of(num_sets, [](ssize_t count) { return count == 1; })) {
             throw std::invalid_argument(
                     "disjoint set elements must be in exactly one bit-set once");
         }
-- 
2.43.0


From cf8d7bd9e9b5c568f4339f84dfdbc009ddaeef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:17 +0000
Subject: [PATCH 15/57] fix: indexing refuses indices whose bounds are not
 numbers

---
 dwave/optimization/src/nodes/indexing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index e90be63..c4f6d04 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -262,7 +262,9 @@ struct AdvancedIndexingNode::IndexParser_ {
                             std::string("index may not contain non-integer values for axis ") +
                             std::to_string(idx));
                 }
-                if (indexing_array_ptr->min() < 0) {
+                // the bounds may be NaN (e.g. inf - inf), in which case nothing is known about the
+                // values. So these tests are written such that NaN is refused.
+                if (!(indexing_array_ptr->min() >= 0)) {
                     // todo: support negative values
                     auto msg = std::string("index's smallest possible value ") +
                                std::to_string(static_cast<ssize_t>(indexing_array_ptr->min())) +
@@ -286,14 +288,14 @@ struct AdvancedIndexingNode::IndexParser_ {
                     ssize_t min_axis_size = (sizeinfo.min.value() * array_ptr->itemsize()) /
                                             array_ptr->strides()[0];
 
-                    if (indexing_array_ptr->max() >= min_axis_size) {
+                    if (!(indexing_array_ptr->max() < min_axis_size)) {
                         throw std::out_of_range(
                                 std::string("index's largest possible value ") +
                                 std::to_string(static_cast<ssize_t>(indexing_array_ptr->max())) +
                                 std::string(" is out of bounds for axis ") + std::to_string(idx) +
                                 std::string(" with minimum size ") + std::to_string(min_axis_size));
                     }
-                } else if (indexing_array_ptr->max() >= array_ptr->shape()[idx]) {
+                } else if (!(indexing_array_ptr->max() < array_ptr->shape()[idx])) {
                     throw std::out_of_range(
                             std::string("index's largest possible value ") +
                             std::to_string(static_cast<ssize_t>(indexing_array_ptr->max())) +
@@ -1651,7 +1653,7 @@ PermutationNode::PermutationNode(ArrayNode* array_ptr, ArrayNode* order_ptr)
     if (array_shape[0] != order_ptr_->size()) {
         throw std::invalid_argument("array shape and order size mismatch");
     }
-    if (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0]) {
+    if (!(order_ptr_->min() >= 0) || !(order_ptr_->max() < array_shape[0])) {
         throw std::invalid_argument("order may have values out of range");
     }
 
-- 
2.43.0


From fd0530597579be9d1cecd6a38e437c8f4ce152e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:09 +0000
Subject: [PATCH 16/57] fix: the bounds of products are numbers also when the
 bounds of a factor overflow

---
 dwave/optimization/src/nodes/mathematical.cpp | 85 +++++++++++--------
 1 file changed, 51 insertions(+), 34 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 52197de..9b5d43d 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -14,6 +14,7 @@
 
 #include "dwave-optimization/nodes/mathematical.hpp"
 
+#include <cmath>
 #include <ranges>
 
 #include "_state.hpp"
@@ -21,6 +22,16 @@
 
 namespace dwave::optimization {
 
+// The bounds of arrays can overflow to inf, and 0 * inf and inf / inf are NaN which would poison
+// every bound derived from it. An infinite bound stands for an arbitrarily large value, and both
+// the product with 0 and the quotient of a finite value by it are (arbitrarily close to) 0.
+static double bound_product(double lhs, double rhs) {
+    return (lhs == 0 || rhs == 0) ? 0 : lhs * rhs;
+}
+static double bound_quotient(double lhs, double rhs) {
+    return (std::isinf(lhs) && std::isinf(rhs)) ? 0 : lhs / rhs;
+}
+
 // BinaryOpNode ************************************************************
 
 template <class BinaryOp>
@@ -172,8 +183,8 @@ double BinaryOpNode<BinaryOp>::max() const {
         assert(lhs_high != 0);
         assert(rhs_low != 0);
         assert(rhs_high != 0);
-        return std::max(
-                {lhs_low / rhs_low, lhs_low / rhs_high, lhs_high / rhs_low, lhs_high / rhs_high});
+        return std::max({bound_quotient(lhs_low, rhs_low), bound_quotient(lhs_low, rhs_high),
+                         bound_quotient(lhs_high, rhs_low), bound_quotient(lhs_high, rhs_high)});
     }
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value ||
                   std::is_same<BinaryOp, functional::min<double>>::value ||
@@ -195,8 +206,8 @@ double BinaryOpNode<BinaryOp>::max() const {
         double rhs_low = rhs_ptr->min();
         double rhs_high = rhs_ptr->max();
 
-        return std::max(
-                {lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high});
+        return std::max({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
+                         bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
     }
 
     assert(false && "not implemeted yet");
@@ -225,8 +236,8 @@ double BinaryOpNode<BinaryOp>::min() const {
         double rhs_high = rhs_ptr->max();
 
         // TODO: How do we want to handle cases where a denominator is zero?
-        return std::min(
-                {lhs_low / rhs_low, lhs_low / rhs_high, lhs_high / rhs_low, lhs_high / rhs_high});
+        return std::min({bound_quotient(lhs_low, rhs_low), bound_quotient(lhs_low, rhs_high),
+                         bound_quotient(lhs_high, rhs_low), bound_quotient(lhs_high, rhs_high)});
     }
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value ||
                   std::is_same<BinaryOp, functional::min<double>>::value ||
@@ -248,8 +259,8 @@ double BinaryOpNode<BinaryOp>::min() const {
         double rhs_low = rhs_ptr->min();
         double rhs_high = rhs_ptr->max();
 
-        return std::min(
-                {lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high});
+        return std::min({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
+                         bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
     }
 
     assert(false && "not implemeted yet");
@@ -578,11 +589,13 @@ double NaryOpNode<BinaryOp>::max() const {
             double rhs_low = rhs_ptr->min();
             double rhs_high = rhs_ptr->max();
 
-            double tmp = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                   lhs_high * rhs_high});
+            double tmp =
+                    std::min({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
+                              bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
 
-            lhs_high = std::max({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                 lhs_high * rhs_high});
+            lhs_high =
+                    std::max({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
+                              bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
 
             lhs_low = tmp;
         }
@@ -629,11 +642,13 @@ double NaryOpNode<BinaryOp>::min() const {
             double rhs_low = rhs_ptr->min();
             double rhs_high = rhs_ptr->max();
 
-            double tmp = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                   lhs_high * rhs_high});
+            double tmp =
+                    std::min({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
+                              bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
 
-            lhs_high = std::max({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                 lhs_high * rhs_high});
+            lhs_high =
+                    std::max({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
+                              bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
 
             lhs_low = tmp;
         }
@@ -950,7 +965,7 @@ double PartialReduceNode<BinaryOp>::max() const {
 
     ssize_t axis = axes_[0];
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
-        return this->init.value_or(0) + array_ptr_->shape()[axis] * array_ptr_->max();
+        return this->init.value_or(0) + bound_product(array_ptr_->shape()[axis], array_ptr_->max());
     }
 
     assert(false && "not implemented yet");
@@ -967,7 +982,7 @@ double PartialReduceNode<BinaryOp>::min() const {
 
     ssize_t axis = axes_[0];
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
-        return this->init.value_or(0) + array_ptr_->shape()[axis] * array_ptr_->min();
+        return this->init.value_or(0) + bound_product(array_ptr_->shape()[axis], array_ptr_->min());
     }
 
     assert(false && "not implemented yet");
@@ -1337,16 +1352,17 @@ double ReduceNode<BinaryOp>::max() const {
         const double high = array_ptr_->max();
 
         // exactly one element, handle the sign of init
-        if (array_ptr_->size() == 1) return std::max(init * low, init * high);
+        if (array_ptr_->size() == 1)
+            return std::max(bound_product(init, low), bound_product(init, high));
 
         const ssize_t size = array_ptr_->size();
 
         // more than one element
         return std::max({
-            init * std::pow(low, size),
-            init * std::pow(high, size),
-            init * low * std::pow(high, size - 1),
-            init * high * std::pow(low, size - 1),
+                bound_product(init, std::pow(low, size)),
+                bound_product(init, std::pow(high, size)),
+                bound_product(bound_product(init, low), std::pow(high, size - 1)),
+                bound_product(bound_product(init, high), std::pow(low, size - 1)),
         });
     }
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
@@ -1359,7 +1375,7 @@ double ReduceNode<BinaryOp>::max() const {
         // if the array has a fixed size, then just multiply the largest value
         // by that size
         if (const ssize_t size = array_ptr_->size(); size >= 0) {
-            return init + size * high;
+            return init + bound_product(size, high);
         }
 
         // our predecessor array is dynamic. So there are a few more cases
@@ -1378,11 +1394,11 @@ double ReduceNode<BinaryOp>::max() const {
             // default max.
             if (!sizeinfo.max.has_value()) return Array::max();
 
-            return init + sizeinfo.max.value() * high;
+            return init + bound_product(sizeinfo.max.value(), high);
         } else {
             // if high is negative, then we're interested in the minimum size
             // of the array
-            return init + sizeinfo.min.value_or(0) * high;
+            return init + bound_product(sizeinfo.min.value_or(0), high);
         }
     }
 
@@ -1426,16 +1442,17 @@ double ReduceNode<BinaryOp>::min() const {
         const double high = array_ptr_->max();
 
         // exactly one element, handle the sign of init
-        if (array_ptr_->size() == 1) return std::min(init * low, init * high);
+        if (array_ptr_->size() == 1)
+            return std::min(bound_product(init, low), bound_product(init, high));
 
         const ssize_t size = array_ptr_->size();
 
         // more than one element
         return std::min({
-            init * std::pow(low, size),
-            init * std::pow(high, size),
-            init * low * std::pow(high, size - 1),
-            init * high * std::pow(low, size - 1),
+                bound_product(init, std::pow(low, size)),
+                bound_product(init, std::pow(high, size)),
+                bound_product(bound_product(init, low), std::pow(high, size - 1)),
+                bound_product(bound_product(init, high), std::pow(low, size - 1)),
         });
     }
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
@@ -1448,7 +1465,7 @@ double ReduceNode<BinaryOp>::min() const {
         // if the array has a fixed size, then just multiply the smallest value
         // by that size
         if (const ssize_t size = array_ptr_->size(); size >= 0) {
-            return init + size * low;
+            return init + bound_product(size, low);
         }
 
         // our predecessor array is dynamic. So there are a few more cases
@@ -1467,11 +1484,11 @@ double ReduceNode<BinaryOp>::min() const {
             // default min.
             if (!sizeinfo.max.has_value()) return Array::min();
 
-            return init + sizeinfo.max.value() * low;
+            return init + bound_product(sizeinfo.max.value(), low);
         } else {
             // if low is positive, then we're interested in the minimum size
             // of the array
-            return init + sizeinfo.min.value_or(0) * low;
+            return init + bound_product(sizeinfo.min.value_or(0), low);
         }
     }
 
-- 
2.43.0


From aeb0ebe1603615989b313e406a9f77185f2b2419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:36 +0000
Subject: [PATCH 17/57] fix: merging updates that all cancel out does not read
 before the first one

---
 dwave/optimization/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/utils.cpp b/dwave/optimization/src/utils.cpp
index e2ff43d..ae44ea2 100644
--- a/dwave/optimization/src/utils.cpp
+++ b/dwave/optimization/src/utils.cpp
@@ -63,7 +63,7 @@ void deduplicate_diff(std::vector<Update>& diff) {
         }
 
         // In case the very last value is a place and removal, discard it
-        if (diff[new_index].null()) {
+        if (new_index >= 0 && diff[new_index].null()) {
             new_index--;
         }
     }
-- 
2.43.0


From 4f94b34c5d6eea9d94d58c4a2ee810441ad58b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:43 +0000
Subject: [PATCH 18/57] fix: a partial sum validates its axis before it uses it

---
 dwave/optimization/src/nodes/mathematical.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 9b5d43d..1eb2309 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -779,6 +779,9 @@ template class NaryOpNode<std::plus<double>>;
 // PartialReduceNode *****************************************************************
 std::vector<ssize_t> partial_reduce_shape(const std::span<const ssize_t> input_shape,
                                           const ssize_t axis) {
+    if (axis < 0 || axis >= static_cast<ssize_t>(input_shape.size())) {
+        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
+    }
     std::vector<ssize_t> shape(input_shape.begin(), input_shape.end());
     shape.erase(shape.begin() + axis);
     return shape;
-- 
2.43.0


From 68d1ed2783237cf25a309cbdf9c3e03260d621ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:39 +0000
Subject: [PATCH 19/57] fix: a refused n-ary operation or concatenation leaves
 no trace on its operands

---
 .../dwave-optimization/nodes/mathematical.hpp     |  8 +++++++-
 dwave/optimization/src/nodes/manipulation.cpp     |  3 +++
 dwave/optimization/src/nodes/mathematical.cpp     | 15 ++++++++++++---
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
index 6e453ef..00d6529 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
@@ -159,7 +159,10 @@ class NaryOpNode : public ArrayOutputMixin<ArrayNode> {
     explicit NaryOpNode(ArrayNode* node_ptr);
     explicit NaryOpNode(std::span<ArrayNode*> node_ptrs);
     explicit NaryOpNode(ArrayNode* node_ptr, std::convertible_to<ArrayNode*> auto... node_ptrs)
-            : NaryOpNode(node_ptr) {
+            : ArrayOutputMixin(node_ptr->shape()) {
+        check_node(node_ptr);
+        (check_node(node_ptrs), ...);
+        add_node(node_ptr);
         (add_node(node_ptrs), ...);
     }
 
@@ -189,6 +192,9 @@ class NaryOpNode : public ArrayOutputMixin<ArrayNode> {
  private:
     using op = BinaryOp;
 
+    // Throw an error if the given node cannot be added as an operand.
+    void check_node(const ArrayNode* node_ptr) const;
+
     std::vector<Array*> operands_;
 };
 
diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index 7c3413a..0d2acb5 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -45,7 +45,10 @@ ConcatenateNode::ConcatenateNode(std::span<ArrayNode*> array_ptrs, const ssize_t
             throw std::invalid_argument(
                 "concatenate input arrays cannot be dynamic");
         }
+    }
 
+    // only once all of them are known to be valid
+    for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {
         this->add_predecessor((*it));
     }
 }
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 1eb2309..305cf55 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -502,6 +502,10 @@ ArrayNode* nonempty(std::span<ArrayNode*> node_ptrs) {
 template <class BinaryOp>
 NaryOpNode<BinaryOp>::NaryOpNode(std::span<ArrayNode*> node_ptrs)
         : ArrayOutputMixin(nonempty(node_ptrs)->shape()) {
+    // check all of them first, so that none is left with a successor that was never constructed
+    for (const ArrayNode* ptr : node_ptrs) {
+        check_node(ptr);
+    }
     for (ArrayNode* ptr : node_ptrs) {
         add_node(ptr);
     }
@@ -509,6 +513,14 @@ NaryOpNode<BinaryOp>::NaryOpNode(std::span<ArrayNode*> node_ptrs)
 
 template <class BinaryOp>
 void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
+    check_node(node_ptr);
+
+    this->add_predecessor(node_ptr);
+    operands_.emplace_back(node_ptr);
+}
+
+template <class BinaryOp>
+void NaryOpNode<BinaryOp>::check_node(const ArrayNode* node_ptr) const {
     if (this->topological_index() >= 0 && node_ptr->topological_index() >= 0 &&
         this->topological_index() < node_ptr->topological_index()) {
         throw std::logic_error("this operation would invalidate the topological ordering");
@@ -521,9 +533,6 @@ void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
     if (!std::ranges::equal(this->shape(), node_ptr->shape())) {
         throw std::invalid_argument("arrays must all be the same shape");
     }
-
-    this->add_predecessor(node_ptr);
-    operands_.emplace_back(node_ptr);
 }
 
 template <class BinaryOp>
-- 
2.43.0


From bcb7e3153b7461a6a09f4572c00ba5ee04eca19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:39 +0000
Subject: [PATCH 20/57] fix: None given in the place of a symbol or model is
 refused

---
 dwave/optimization/_model.pyx  | 7 +++----
 dwave/optimization/symbols.pyx | 1 +
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 3ffc592..ca7d2ab 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 # Copyright 2024 D-Wave Inc.
 #
 #    Licensed under the Apache License, Version 2.0 (the "License");
@@ -1002,11 +1003,9 @@ cdef class Symbol:
         Returns:
             True if the two symbols share memory.
         """
-        cdef Symbol other_
-        try:
-            other_ = other
-        except TypeError:
+        if not isinstance(other, Symbol):
             return False
+        cdef Symbol other_ = other
         return not self.expired() and self.id() == other_.id()
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index ce69812..267e5e9 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 # distutils: language = c++
 
 # Copyright 2024 D-Wave Systems Inc.
-- 
2.43.0


From 83093406aa4e9ceff1afd81a4308cc65fdd8c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:39 +0000
Subject: [PATCH 21/57] fix: a quadratic model refuses coordinates that are not
 pairs

---
 dwave/optimization/symbols.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 267e5e9..3dba7cb 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2605,6 +2605,8 @@ cdef class QuadraticModel(ArraySymbol):
         cdef double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
         cdef int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
 
+        if coords.shape[0] != 2:
+            raise ValueError("expected coords to have one row of row and one of column indices")
         if data.shape[0] != coords.shape[1]:
             # SciPy's error message
             raise ValueError("row, column, and data array must all be the same length")
-- 
2.43.0


From ca54eaa4e54a881ac0ec3472b5770a49e8c02cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:39 +0000
Subject: [PATCH 22/57] fix: objectives and constraints of another model, or of
 no fixed size, are refused

---
 dwave/optimization/_model.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index ca7d2ab..02ab610 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -89,6 +89,8 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("value must be a symbol of this model")
         # TODO: shall we accept array valued constraints?
         self._graph.add_constraint(value.array_ptr)
         return value
@@ -457,6 +459,10 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("value must be a symbol of this model")
+        if value.array_ptr.dynamic():
+            raise ValueError("the value of an array with a state-dependent size is ambiguous")
         if value.size() < 1:
             raise ValueError("the value of an empty array is ambiguous")
         if value.size() > 1:
-- 
2.43.0


From 95feaf56463a32c4091aa4cded228f3eafbc60cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:39 +0000
Subject: [PATCH 23/57] fix: the power of a product does not change the product
 itself

---
 dwave/optimization/_model.pyx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 02ab610..3e6976b 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -1245,12 +1245,11 @@ cdef class ArraySymbol(Symbol):
             return Square(self)
         # check if exponent is an integer greater than 0
         elif isinstance(exponent, numbers.Real) and exponent > 0 and int(exponent) == exponent:
-            expanded = itertools.repeat(self, int(exponent))
-            out = next(expanded)  # get the first one
+            if exponent == 1:
+                return self
             # multiply self by itself exponent times
-            for symbol in expanded:
-                out *= symbol
-            return out
+            from dwave.optimization.symbols import NaryMultiply  # avoid circular import
+            return NaryMultiply(*itertools.repeat(self, int(exponent)))
         raise ValueError("only integer exponents of 1 or greater are supported")
 
     def __sub__(self, rhs):
-- 
2.43.0


From ec8287d0ecc076cd20f5fafff30f28667c7281cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:39 +0000
Subject: [PATCH 24/57] fix: += and *= change no symbol that is already in use,
 locked or of another model

---
 dwave/optimization/symbols.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 3dba7cb..ccae8a1 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2162,6 +2162,13 @@ cdef class NaryAdd(ArraySymbol):
 
     def __iadd__(self, rhs):
         if isinstance(rhs, ArraySymbol):
+            if (<ArraySymbol>rhs).model is not self.model:
+                raise ValueError("all predecessors must be from the same model")
+            if self.model.is_locked():
+                raise ValueError("cannot change a symbol of a locked model")
+            if self.node_ptr.successors().size() or self.shares_memory(rhs):
+                # other symbols are already defined in terms of this one's value
+                return NaryAdd(self, rhs)
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
             return self
 
@@ -2318,6 +2325,13 @@ cdef class NaryMultiply(ArraySymbol):
 
     def __imul__(self, rhs):
         if isinstance(rhs, ArraySymbol):
+            if (<ArraySymbol>rhs).model is not self.model:
+                raise ValueError("all predecessors must be from the same model")
+            if self.model.is_locked():
+                raise ValueError("cannot change a symbol of a locked model")
+            if self.node_ptr.successors().size() or self.shares_memory(rhs):
+                # other symbols are already defined in terms of this one's value
+                return NaryMultiply(self, rhs)
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
             return self
 
-- 
2.43.0


From 57d3e47abf16c8cac0b3293ce9cd4d00f48a37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 25/57] fix: job_shop_scheduling leaves the given machines
 unchanged

---
 dwave/optimization/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 2948659..e50ab4e 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -815,7 +815,8 @@ def job_shop_scheduling(times: numpy.typing.ArrayLike, machines: numpy.typing.Ar
         # In that case we reindex to 0. This is OK because we know from our earlier
         # checking that we're non-negative, so combined with .all() we must be
         # strictly positive
-        machines -= 1
+        # (as a copy, so that we don't change the caller's array)
+        machines = machines - 1
 
         # the validity will be checked in the next for-loop
 
-- 
2.43.0


From 449632e605390653b41a6df2225d96cebf3dd492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 26/57] fix: the time-window routing objective travels from
 each customer to the next

---
 dwave/optimization/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index e50ab4e..91dbdc2 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -646,7 +646,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
     for r in range(number_of_vehicles):
         route_costs.append(t_from_depo[routes[r][:1]].sum())
         route_costs.append(t_to_depo[routes[r][-1:]].sum())
-        route_costs.append(t_cust[routes[r][1:], routes[r][:-1]].sum())
+        route_costs.append(t_cust[routes[r][:-1], routes[r][1:]].sum())
 
     model.minimize(add(*route_costs))
 
-- 
2.43.0


From e6de0bf976b0aeee5b0ac474bdc377fb85d6fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:54 +0000
Subject: [PATCH 27/57] fix: time-window routing works for any number of
 vehicles

---
 dwave/optimization/generators.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 91dbdc2..f5a3fdd 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -572,8 +572,13 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
     for c in capacity_constraints:
         model.add_constraint(c)
 
-    rh = np.arange(num_customers + 1).astype(int)
-    range_helper = model.constant(rh)
+    # each vehicle visits at most three times the average number of locations
+    max_loc_per_route = 3 * max(1, num_customers // number_of_vehicles)
+
+    range_helper = model.constant(np.arange(max_loc_per_route).astype(int))
+
+    # the index of the last (0) element of the extended arrays
+    pad_idx = model.constant(num_customers)
 
     # this is number of clients each vehicle visits
     num_clients_in_route = {}
@@ -581,7 +586,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
         num_clients_in_route[f'route{i}'] = routes[i].size()
 
     # Constrain the number of locations per route
-    max_loc_per_route_constant = model.constant(3 * int(num_customers / number_of_vehicles))
+    max_loc_per_route_constant = model.constant(max_loc_per_route)
     max_loc_per_route_constraints = [(num_clients_in_route[f'route{v}'] <= max_loc_per_route_constant)
                                      for v in range(number_of_vehicles)]
     for mlpr in max_loc_per_route_constraints:
@@ -599,7 +604,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
         this_t_windows_c = []
         this_t_serving_time = []
 
-        for client_idx in range(max_loc_per_route_constant):
+        for client_idx in range(max_loc_per_route):
 
             # the condition here allows us to choose whether to choose a used index or to fall back to the last one
             # that points to a zero in the extended array
@@ -608,16 +613,16 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
             if client_idx == 0:
                 # index of the first customer visited, if length of the route is zero,
                 # points to the last (0) element
-                idx = where(condition, routes[vehicle_idx][:1].sum(), range_helper[-1])
+                idx = where(condition, routes[vehicle_idx][:1].sum(), pad_idx)
                 this_t_serving_time.append(maximum(t_from_depo[idx], t_open[idx]))
                 this_t_leaving.append(this_t_serving_time[-1] + t_service[idx])
 
             else:
                 # index of the previous customer visited
-                previous_idx = where(condition, routes[vehicle_idx][client_idx - 1:client_idx].sum(), range_helper[-1])
+                previous_idx = where(condition, routes[vehicle_idx][client_idx - 1:client_idx].sum(), pad_idx)
 
                 # index of the current customer visited
-                idx = where(condition, routes[vehicle_idx][client_idx:client_idx + 1].sum(), range_helper[-1])
+                idx = where(condition, routes[vehicle_idx][client_idx:client_idx + 1].sum(), pad_idx)
 
                 this_t_serving_time.append(maximum(this_t_leaving[-1] + t_cust[previous_idx, idx], t_open[idx]))
                 this_t_leaving.append(this_t_serving_time[-1] + t_service[idx])
@@ -626,7 +631,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
             this_t_windows_c.append(this_t_leaving[-1] <= t_close[idx])
 
         condition = (num_clients_in_route[f'route{vehicle_idx}'] >= one)
-        last_cust_idx = where(condition, routes[vehicle_idx][-1:].sum(), range_helper[-1])
+        last_cust_idx = where(condition, routes[vehicle_idx][-1:].sum(), pad_idx)
 
         times_back.append(this_t_leaving[-1] + t_to_depo[last_cust_idx])
         time_leaving.append(this_t_leaving)
-- 
2.43.0


From 995172d6a53871be08667577e771a0c305533885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:54 +0000
Subject: [PATCH 28/57] fix: time-window routing accepts closing times of any
 magnitude

---
 dwave/optimization/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index f5a3fdd..db1b091 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -547,7 +547,8 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
 
     time_close_ext = np.zeros(num_customers + 1)
     time_close_ext[:num_customers] = time_window_close[1:]
-    time_close_ext[-1] = 1e6
+    # a route that has ended is never too late for the (non-existent) next customer
+    time_close_ext[-1] = time_window_close.max()
     t_close = model.constant(time_close_ext)
 
     service_time_ext = np.zeros(num_customers + 1)
-- 
2.43.0


From 26452c166203875e28a0e0732b8672ccd52afc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:35 +0000
Subject: [PATCH 29/57] fix: the inferred indices of views without elements are
 in range

---
 .../dwave-optimization/nodes/indexing.hpp     |  3 +
 dwave/optimization/src/nodes/indexing.cpp     | 71 +++++--------------
 2 files changed, 19 insertions(+), 55 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 79ef55d..47f40fb 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -251,6 +251,9 @@ class BasicIndexingNode : public ArrayNode {
     // is dynamic
     const std::optional<Slice> axis0_slice_;
 
+    // The indices that induced the view, one per dimension of the array
+    const std::vector<slice_or_int> indices_;
+
     const bool contiguous_;
 };
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index c4f6d04..3d7a865 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1000,6 +1000,7 @@ struct BasicIndexingNode::IndexParser_ {
                     this->strides[view_dim] = slice.step * array_strides[array_dim];
 
                     this->axis0_slice = slice;
+                    this->indices.emplace_back(slice);
 
                     // Skip start for dynamic axis 0 as it will be adjusted later with
                     // the predecessor's state
@@ -1013,6 +1014,14 @@ struct BasicIndexingNode::IndexParser_ {
                     // Fit the slice to the actual dimension size to get the new size
                     this->shape[view_dim] = fitted.size();
 
+                    // Save the slice in terms of the elements that it actually selects
+                    ssize_t stop = fitted.start;
+                    if (fitted.size()) {
+                        stop += (fitted.size() - 1) * fitted.step;  // the last element
+                        stop += std::min(fitted.step, array_shape[array_dim] - stop);
+                    }
+                    this->indices.emplace_back(Slice(fitted.start, stop, fitted.step));
+
                     // For the strides, we only care about the slice's step times the
                     // array's strides
                     this->strides[view_dim] = fitted.step * array_strides[array_dim];
@@ -1043,6 +1052,8 @@ struct BasicIndexingNode::IndexParser_ {
                     throw std::invalid_argument("index out of range");
                 }
 
+                this->indices.emplace_back(idx);
+
                 // Integer indices only affect the start, they drop the dimension
                 // so there is no strides/shape to worry about for this axis
                 this->start += idx * array_strides[array_dim] / array_ptr->itemsize();
@@ -1059,6 +1070,9 @@ struct BasicIndexingNode::IndexParser_ {
     ssize_t start = 0;
 
     std::optional<Slice> axis0_slice;
+
+    // The indices with negative values etc resolved, except for a slice on a dynamic axis
+    std::vector<slice_or_int> indices;
 };
 
 BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, std::vector<slice_or_int> indices)
@@ -1072,6 +1086,7 @@ BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, IndexParser_&& parser
           start_(parser.start),
           size_(Array::shape_to_size(ndim_, shape_.get())),
           axis0_slice_(parser.axis0_slice),
+          indices_(std::move(parser.indices)),
           contiguous_(Array::is_contiguous(ndim_, shape_.get(), strides_.get())) {
     add_predecessor(array_ptr);
 }
@@ -1154,61 +1169,7 @@ std::span<const Update> BasicIndexingNode::diff(const State& state) const {
 }
 
 std::vector<BasicIndexingNode::slice_or_int> BasicIndexingNode::infer_indices() const {
-    std::vector<slice_or_int> indices;
-
-    ssize_t view_dim = 0;
-    const ssize_t view_ndim = this->ndim();
-
-    ssize_t array_dim = 0;
-    const ssize_t array_ndim = array_ptr_->ndim();
-
-    if (dynamic()) {
-        indices.emplace_back(*axis0_slice_);
-
-        view_dim += 1;
-        array_dim += 1;
-    }
-
-    auto array_strides = array_ptr_->strides();
-    auto view_strides = this->strides();
-
-    auto array_shape = array_ptr_->shape();
-    auto view_shape = this->shape();
-
-    ssize_t flat_start = start_;
-
-    // we don't currently have support for views with a greater number of dimensions
-    // than their viewed array. Once we do, the logic here will need to be revisted
-    assert(view_ndim <= array_ndim && "not implemented yet");
-    if (view_ndim > array_ndim) throw std::logic_error("not implemented (yet)");
-
-    // ok, let's traverse the remaining dimensions to find the strides
-    for (; array_dim < array_ndim; ++array_dim) {
-        // calculate the start of this dimension.
-        const ssize_t num_per_row = array_strides[array_dim] / itemsize();
-        const ssize_t start = flat_start / num_per_row;
-        flat_start %= num_per_row;
-
-        if (view_dim >= view_ndim || view_strides[view_dim] < array_strides[array_dim]) {
-            // The strides are smaller in the view, or not present at all, which
-            // means we have a constant index.
-            assert(view_ndim < array_ndim);
-            indices.emplace_back(start);
-
-        } else {
-            // Otherwise we must be a slice
-            assert(view_dim < view_ndim);  // still within range
-
-            const ssize_t step = view_strides[view_dim] / array_strides[array_dim];
-            const ssize_t stop = start + view_shape[view_dim] * step;
-            Slice slice = Slice(start, stop, step).fit(array_shape[array_dim]);
-            indices.emplace_back(slice);
-
-            ++view_dim;
-        }
-    }
-
-    return indices;
+    return indices_;
 }
 
 void BasicIndexingNode::initialize_state(State& state) const {
-- 
2.43.0


From e24f8e9b2db9a0002995bda192d0098f72a15321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:23 +0000
Subject: [PATCH 30/57] fix: indexing both dimensions of a square constant
 works for any index

---
 dwave/optimization/symbols.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index ccae8a1..92c3fd3 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -463,7 +463,7 @@ cdef class AdvancedIndexing(ArraySymbol):
     def __getitem__(self, index):
         # There is a very specific case we want to handle, when we are [x, :] or [:, x]
         # and we're doing the inverse indexing operation, and where the main array is
-        # constant square matrix
+        # constant square matrix and x permutes all of its rows/columns
 
         array = next(self.iter_predecessors())
 
@@ -479,7 +479,8 @@ cdef class AdvancedIndexing(ArraySymbol):
 
             # check the [x, :][:, x] case
             if (isinstance(i0, slice) and _empty_slice(i0) and
-                    isinstance(i1, ArraySymbol) and
+                    isinstance(i1, ListVariable) and
+                    i1.shape() == array.shape()[:1] and
                     holds_alternative[cppArrayNodePtr](self.ptr.indices()[0]) and
                     get[cppArrayNodePtr](self.ptr.indices()[0]) == (<ArraySymbol>i1).array_ptr and
                     holds_alternative[cppSlice](self.ptr.indices()[1])):
@@ -488,7 +489,8 @@ cdef class AdvancedIndexing(ArraySymbol):
 
             # check the [:, x][x, :] case
             if (isinstance(i1, slice) and _empty_slice(i1) and
-                    isinstance(i0, ArraySymbol) and
+                    isinstance(i0, ListVariable) and
+                    i0.shape() == array.shape()[:1] and
                     holds_alternative[cppArrayNodePtr](self.ptr.indices()[1]) and
                     get[cppArrayNodePtr](self.ptr.indices()[1]) == (<ArraySymbol>i0).array_ptr and
                     holds_alternative[cppSlice](self.ptr.indices()[0])):
-- 
2.43.0


From 04d41778f243368913094b72677e7c774c828e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 31/57] fix: quadratic models without interactions can be saved

---
 dwave/optimization/symbols.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 92c3fd3..dfe3a7d 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2769,7 +2769,8 @@ cdef class QuadraticModel(ArraySymbol):
             coords[1, i] = i
 
         # this works because each row of coords is contiguous!
-        qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
+        if num_terms > num_variables:
+            qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
 
         with zf.open(directory + "linear.npy", mode="w", force_zip64=True) as f:
             np.save(f, ldata, allow_pickle=False)
-- 
2.43.0


From 0759a2d4bc34602211347d75569dbcc4762023b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 32/57] fix: a quadratic model refuses indices that are far out
 of range

---
 dwave/optimization/symbols.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index dfe3a7d..e82b5ab 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2691,8 +2691,13 @@ cdef class QuadraticModel(ArraySymbol):
         cdef Py_ssize_t u
         with cython.boundscheck(False):
             # Cython will handle the type checks
-            # We'll defer checking that u, v are in range to _init_from_coords
             for (u, v), bias in quadratic.items():
+                # coords might not be able to hold indices that are out of range
+                if u < 0 or v < 0:
+                    raise ValueError("negative index found")
+                if u >= num_variables or v >= num_variables:
+                    raise ValueError("index greater than or equal to x.size() found")
+
                 coords[0, i] = u
                 coords[1, i] = v
                 data[i] = bias
-- 
2.43.0


From 616fe7bc79e13ede86ea227cfc9711bf309fabbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:03 +0000
Subject: [PATCH 33/57] fix: symbols with different parameters do not compare
 equal

---
 dwave/optimization/symbols.pyx | 118 ++++++++++++++++++++++++++-------
 1 file changed, 94 insertions(+), 24 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index e82b5ab..6962406 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -528,6 +528,10 @@ cdef class AdvancedIndexing(ArraySymbol):
 
         return cls(predecessors[0], *indices)
 
+    def _index_types(self):
+        """For each axis, whether it is indexed by an array (rather than a slice)."""
+        return [holds_alternative[cppArrayNodePtr](variant) for variant in self.ptr.indices()]
+
     def _into_zipfile(self, zf, directory):
         super()._into_zipfile(zf, directory)
 
@@ -549,6 +553,14 @@ cdef class AdvancedIndexing(ArraySymbol):
 
         zf.writestr(directory + "indices.json", encoder.encode(indices))
 
+    def maybe_equals(self, other):
+        # note: docstring inherited from Symbol.maybe_equal()
+        cdef Py_ssize_t maybe = super().maybe_equals(other)
+        cdef Py_ssize_t MAYBE = 1
+        if maybe == MAYBE and self._index_types() != other._index_types():
+            return 0
+        return maybe
+
     cdef cppAdvancedIndexingNode* ptr
 
 _register(AdvancedIndexing, typeid(cppAdvancedIndexingNode))
@@ -652,6 +664,14 @@ cdef class BasicIndexing(ArraySymbol):
 
         zf.writestr(directory + "indices.json", encoder.encode(indices))
 
+    def maybe_equals(self, other):
+        # note: docstring inherited from Symbol.maybe_equal()
+        cdef Py_ssize_t maybe = super().maybe_equals(other)
+        cdef Py_ssize_t MAYBE = 1
+        if maybe == MAYBE and self._infer_indices() != other._infer_indices():
+            return 0
+        return maybe
+
     cdef cppBasicIndexingNode* ptr
 
 _register(BasicIndexing, typeid(cppBasicIndexingNode))
@@ -848,6 +868,14 @@ cdef class Concatenate(ArraySymbol):
     def axis(self):
         return self.ptr.axis()
 
+    def maybe_equals(self, other):
+        # note: docstring inherited from Symbol.maybe_equal()
+        cdef Py_ssize_t maybe = super().maybe_equals(other)
+        cdef Py_ssize_t MAYBE = 1
+        if maybe == MAYBE and self.axis() != other.axis():
+            return 0
+        return maybe
+
     cdef cppConcatenateNode* ptr
 
 _register(Concatenate, typeid(cppConcatenateNode))
@@ -1297,6 +1325,14 @@ cdef class DisjointBitSet(ArraySymbol):
 
         zf.writestr(directory + "index.json", encoder.encode(self.set_index()))
 
+    def maybe_equals(self, other):
+        # note: docstring inherited from Symbol.maybe_equal()
+        cdef Py_ssize_t maybe = super().maybe_equals(other)
+        cdef Py_ssize_t MAYBE = 1
+        if maybe == MAYBE and self.set_index() != other.set_index():
+            return 0
+        return maybe
+
     def set_index(self):
         """Return the index for the set."""
         return self.ptr.set_index()
@@ -1554,6 +1590,14 @@ cdef class DisjointList(ArraySymbol):
         """Return the index for the list."""
         return self.ptr.list_index()
 
+    def maybe_equals(self, other):
+        # note: docstring inherited from Symbol.maybe_equal()
+        cdef Py_ssize_t maybe = super().maybe_equals(other)
+        cdef Py_ssize_t MAYBE = 1
+        if maybe == MAYBE and self.list_index() != other.list_index():
+            return 0
+        return maybe
+
     # An observing pointer to the C++ DisjointListNode
     cdef cppDisjointListNode* ptr
 
@@ -2480,6 +2524,14 @@ cdef class PartialSum(ArraySymbol):
         encoder = json.JSONEncoder(separators=(',', ':'))
         zf.writestr(directory + "axes.json", encoder.encode(self.axes()))
 
+    def maybe_equals(self, other):
+        # note: docstring inherited from Symbol.maybe_equal()
+        cdef Py_ssize_t maybe = super().maybe_equals(other)
+        cdef Py_ssize_t MAYBE = 1
+        if maybe == MAYBE and self.axes() != other.axes():
+            return 0
+        return maybe
+
     cdef cppPartialSumNode* ptr
 
 _register(PartialSum, typeid(cppPartialSumNode))
@@ -2595,6 +2647,36 @@ cdef class QuadraticModel(ArraySymbol):
         if self.ptr == NULL or self.node_ptr == NULL or self.array_ptr == NULL:
             raise RuntimeError("QuadraticModel is malformed")
 
+    def _coefficients(self):
+        """The linear biases, the quadratic biases, and the coordinates of the latter."""
+
+        # This is a format that can be reconstructed using _init_coords
+        # The square terms will be stored as quadratic, which is why we add
+        # num_variables to the number of interactions
+        cdef Py_ssize_t num_variables = self.num_variables()
+        cdef Py_ssize_t num_terms = self.num_interactions() + num_variables
+
+        cdef double[::1] ldata = np.empty(num_variables, dtype=np.double)
+        cdef double[::1] qdata = np.empty(num_terms, dtype=np.double)
+        cdef int[:,::1] coords = np.empty((2, num_terms), dtype=np.intc)
+
+        # observing pointer
+        cdef cppQuadraticModel* qm = self.ptr.get_quadratic_model()
+
+        cdef Py_ssize_t i
+        for i in range(num_variables):
+            ldata[i] = qm.get_linear(i)
+
+            qdata[i] = qm.get_quadratic(i, i)
+            coords[0, i] = i
+            coords[1, i] = i
+
+        # this works because each row of coords is contiguous!
+        if num_terms > num_variables:
+            qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
+
+        return np.asarray(ldata), np.asarray(qdata), np.asarray(coords)
+
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def _init_from_coords(self, ArraySymbol x, quadratic, linear):
@@ -2752,30 +2834,7 @@ cdef class QuadraticModel(ArraySymbol):
     def _into_zipfile(self, zf, directory):
         """Save the QuadraticModel into a zipfile"""
 
-        # Save it in a format that can be reconstructed using _init_coords
-        # The square terms will be stored as quadratic, which is why we add
-        # num_variables to the number of interactions
-        cdef Py_ssize_t num_variables = self.num_variables()
-        cdef Py_ssize_t num_terms = self.num_interactions() + num_variables
-
-        cdef double[::1] ldata = np.empty(num_variables, dtype=np.double)
-        cdef double[::1] qdata = np.empty(num_terms, dtype=np.double)
-        cdef int[:,::1] coords = np.empty((2, num_terms), dtype=np.intc)
-
-        # observing pointer
-        cdef cppQuadraticModel* qm = self.ptr.get_quadratic_model()
-
-        cdef Py_ssize_t i
-        for i in range(num_variables):
-            ldata[i] = qm.get_linear(i)
-
-            qdata[i] = qm.get_quadratic(i, i)
-            coords[0, i] = i
-            coords[1, i] = i
-
-        # this works because each row of coords is contiguous!
-        if num_terms > num_variables:
-            qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
+        ldata, qdata, coords = self._coefficients()
 
         with zf.open(directory + "linear.npy", mode="w", force_zip64=True) as f:
             np.save(f, ldata, allow_pickle=False)
@@ -2786,6 +2845,17 @@ cdef class QuadraticModel(ArraySymbol):
         with zf.open(directory + "coords.npy", mode="w", force_zip64=True) as f:
             np.save(f, coords, allow_pickle=False)
 
+    def maybe_equals(self, other):
+        # note: docstring inherited from Symbol.maybe_equal()
+        cdef Py_ssize_t maybe = super().maybe_equals(other)
+        cdef Py_ssize_t MAYBE = 1
+        if maybe == MAYBE and not all(
+                np.array_equal(a, b)
+                for a, b in zip(self._coefficients(), other._coefficients())
+                ):
+            return 0
+        return maybe
+
     cpdef Py_ssize_t num_interactions(self) noexcept:
         """The number of quadratic interactions in the quadratic model"""
         return self.ptr.get_quadratic_model().num_interactions()
-- 
2.43.0


From 6dddd3154ef31dc4d35eb76e88b899fa7f8b392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:29 +0000
Subject: [PATCH 34/57] fix: a refused assignment leaves the previous state in
 place

---
 dwave/optimization/symbols.pyx | 74 +++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 18 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 6962406..7256484 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -97,6 +97,7 @@ from dwave.optimization.libcpp.nodes cimport (
     WhereNode as cppWhereNode,
     XorNode as cppXorNode,
     )
+from dwave.optimization.libcpp.state cimport State as cppState
 from dwave.optimization.model cimport ArraySymbol, _Graph, Symbol
 from dwave.optimization.states cimport States
 
@@ -218,6 +219,31 @@ cdef vector[Py_ssize_t] _as_cppshape(object shape):
     return shape
 
 
+cdef cppState _new_state(Symbol symbol, Py_ssize_t index) except *:
+    """A state in which the given symbol can be initialized.
+
+    The index is the one of the model's state that it will be used for.
+    """
+    cdef States states = symbol.model.states
+
+    states.resolve()
+
+    if not 0 <= index < states.size():
+        raise ValueError(f"index out of range: {index}")
+
+    cdef cppState new_state
+    new_state.resize(symbol.node_ptr.topological_index() + 1)
+    return move(new_state)
+
+
+cdef void _replace_state(Symbol symbol, Py_ssize_t index, cppState& new_state) except *:
+    """Replace the symbol's state, which also resets the state of its successors."""
+    symbol.reset_state(index)
+
+    cdef Py_ssize_t i = symbol.node_ptr.topological_index()
+    (<States>symbol.model.states)._states[index][i].swap(new_state[i])
+
+
 cdef bool _empty_slice(object slice_) noexcept:
     return slice_.start is None and slice_.stop is None and slice_.step is None
 
@@ -789,8 +815,8 @@ cdef class BinaryVariable(ArraySymbol):
         # We go ahead and do the translation to integer now
         cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp).flatten()
 
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
+        # Check that it's possible to set the state
+        cdef cppState new_state = _new_state(self, index)
 
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
@@ -801,7 +827,9 @@ cdef class BinaryVariable(ArraySymbol):
             items.push_back(arr[i])
 
         # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
+        self.ptr.initialize_state(new_state, move(items))
+
+        _replace_state(self, index, new_state)
 
     # An observing pointer to the C++ BinaryNode
     cdef cppBinaryNode* ptr
@@ -1184,8 +1212,8 @@ cdef class DisjointBitSets(Symbol):
             state:
                 Assignment of values for the state.
         """
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
+        # Check that it's possible to set the state
+        cdef cppState new_state = _new_state(self, index)
 
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
@@ -1202,7 +1230,9 @@ cdef class DisjointBitSets(Symbol):
                 sets[i].push_back(arr[i, j])
 
         # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(sets))
+        self.ptr.initialize_state(new_state, move(sets))
+
+        _replace_state(self, index, new_state)
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
         arrays = []
@@ -1446,8 +1476,8 @@ cdef class DisjointLists(Symbol):
             state:
                 Assignment of values for the state.
         """
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
+        # Check that it's possible to set the state
+        cdef cppState new_state = _new_state(self, index)
 
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
@@ -1463,7 +1493,9 @@ cdef class DisjointLists(Symbol):
                 items[i].push_back(arr[j])
 
         # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
+        self.ptr.initialize_state(new_state, move(items))
+
+        _replace_state(self, index, new_state)
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
         arrays = []
@@ -1758,8 +1790,8 @@ cdef class IntegerVariable(ArraySymbol):
         # We go ahead and do the translation to integer now
         cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp).flatten()
 
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
+        # Check that it's possible to set the state
+        cdef cppState new_state = _new_state(self, index)
 
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
@@ -1770,7 +1802,9 @@ cdef class IntegerVariable(ArraySymbol):
             items.push_back(arr[i])
 
         # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
+        self.ptr.initialize_state(new_state, move(items))
+
+        _replace_state(self, index, new_state)
 
     def upper_bound(self):
         """The highest value allowed for the integer symbol."""
@@ -1883,8 +1917,8 @@ cdef class ListVariable(ArraySymbol):
         # We go ahead and do the translation to integer now
         cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
 
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
+        # Check that it's possible to set the state
+        cdef cppState new_state = _new_state(self, index)
 
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
@@ -1895,7 +1929,9 @@ cdef class ListVariable(ArraySymbol):
             items.push_back(arr[i])
 
         # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
+        self.ptr.initialize_state(new_state, move(items))
+
+        _replace_state(self, index, new_state)
 
     # An observing pointer to the C++ ListNode
     cdef cppListNode* ptr
@@ -2997,8 +3033,8 @@ cdef class SetVariable(ArraySymbol):
         # We go ahead and do the translation to integer now
         cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
 
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
+        # Check that it's possible to set the state
+        cdef cppState new_state = _new_state(self, index)
 
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
@@ -3009,7 +3045,9 @@ cdef class SetVariable(ArraySymbol):
             items.push_back(arr[i])
 
         # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
+        self.ptr.initialize_state(new_state, move(items))
+
+        _replace_state(self, index, new_state)
 
     # Observing pointer to the node
     cdef cppSetNode* ptr
-- 
2.43.0


From 7ffd5501532ee3051a7cd34906433133d959e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:48 +0000
Subject: [PATCH 35/57] fix: the bounds of integers are rounded inwards

---
 dwave/optimization/symbols.pyx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 7256484..381043b 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -27,7 +27,8 @@ import numpy as np
 
 from cpython.ref cimport PyObject
 from cython.operator cimport dereference as deref, typeid
-from libc.math cimport modf
+from libc.limits cimport INT_MAX, INT_MIN
+from libc.math cimport ceil, floor, modf
 from libcpp cimport bool
 from libcpp.cast cimport dynamic_cast
 from libcpp.optional cimport nullopt, optional
@@ -1727,6 +1728,17 @@ cdef class IntegerVariable(ArraySymbol):
     def __init__(self, _Graph model, shape=None, lower_bound=None, upper_bound=None):
         cdef vector[Py_ssize_t] vshape = _as_cppshape(tuple() if shape is None else shape )
 
+        # The bounds need not be integers themselves. The supported range is checked in C++,
+        # but here we make sure that we can pass the bounds there
+        if lower_bound is not None:
+            lower_bound = ceil(lower_bound)
+            if not INT_MIN <= lower_bound <= INT_MAX:
+                raise ValueError("range provided for integers exceeds supported range")
+        if upper_bound is not None:
+            upper_bound = floor(upper_bound)
+            if not INT_MIN <= upper_bound <= INT_MAX:
+                raise ValueError("range provided for integers exceeds supported range")
+
         if lower_bound is None and upper_bound is None:
             self.ptr = model._graph.emplace_node[cppIntegerNode](vshape)
         elif lower_bound is None:
-- 
2.43.0


From 231fac771f79693d7f3c62426210d09689d59827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:06 +0000
Subject: [PATCH 36/57] fix: disjoint sets and lists can be saved with only
 some of their states

---
 dwave/optimization/symbols.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 381043b..c115ad6 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1236,6 +1236,10 @@ cdef class DisjointBitSets(Symbol):
         _replace_state(self, index, new_state)
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # check if there is any state data saved (it can be sparse)
+        if directory + "set0" not in zf.NameToInfo:
+            return
+
         arrays = []
         for i in range(self.num_disjoint_sets()):
             with zf.open(directory+f"set{i}", mode="r") as f:
@@ -1499,6 +1503,10 @@ cdef class DisjointLists(Symbol):
         _replace_state(self, index, new_state)
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # check if there is any state data saved (it can be sparse)
+        if directory + "list0" not in zf.NameToInfo:
+            return
+
         arrays = []
         for i in range(self.num_disjoint_lists()):
             with zf.open(directory+f"list{i}", mode="r") as f:
-- 
2.43.0


From 16eb5f83fd41257527dd695b0e7f977aaa787f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:06 +0000
Subject: [PATCH 37/57] fix: check_header is respected also for files that are
 given by name

---
 dwave/optimization/_model.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 3e6976b..b7aeef1 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -131,7 +131,7 @@ cdef class _Graph:
 
         if isinstance(file, str):
             with open(file, "rb") as f:
-                return cls.from_file(f)
+                return cls.from_file(f, check_header=check_header)
 
         prefix = b"DWNL"
 
-- 
2.43.0


From 410077ae1b5805d084475803a604c198f4d30c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:06 +0000
Subject: [PATCH 38/57] fix: the ids in a model file are checked before they
 are used

---
 dwave/optimization/_model.pyx  | 12 ++++++++++--
 dwave/optimization/symbols.pyx |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index b7aeef1..81b949d 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -178,19 +178,27 @@ cdef class _Graph:
                     # and the fact that we (currently) encode them all by name
                     cls = getattr(symbols, classname, None)
 
-                    if not issubclass(cls, Symbol):
+                    if not isinstance(cls, type) or not issubclass(cls, Symbol):
                         raise ValueError("encoded model has an unsupported node type")
 
                     cls._from_zipfile(zf, directory, model, predecessors=predecessors)
 
+                    if model.num_nodes() != node_id + 1:
+                        raise ValueError("expected each encoded symbol to add one node")
+
+            if model.num_nodes() != num_nodes:
+                raise ValueError(f"expected {num_nodes} nodes but got {model.num_nodes()}")
+
             objective_buff = zf.read("objective.json")
             if objective_buff:
                 objective_id = json.loads(objective_buff)
-                if not isinstance(objective_id, int) or objective_id >= model.num_nodes():
+                if not isinstance(objective_id, int) or not 0 <= objective_id < model.num_nodes():
                     raise ValueError("objective must be an integer and a valid node id")
                 model.minimize(symbol_from_ptr(model, model._graph.nodes()[objective_id].get()))
 
             for cid in json.loads(zf.read("constraints.json")):
+                if not isinstance(cid, int) or not 0 <= cid < model.num_nodes():
+                    raise ValueError("constraints must be integers and valid node ids")
                 model.add_constraint(symbol_from_ptr(model, model._graph.nodes()[cid].get()))
 
             # Read any states that have been encoded
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index c115ad6..bd2cc25 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -546,6 +546,8 @@ cdef class AdvancedIndexing(ArraySymbol):
             for index in json.load(f):
                 if isinstance(index, numbers.Integral):
                     # lower topological index, so must exist
+                    if not 0 <= index < model.num_nodes():
+                        raise ValueError("unexpected index")
                     ptr = model._graph.nodes()[<Py_ssize_t>(index)].get()
                     indices.append(symbol_from_ptr(model, ptr))
                 elif isinstance(index, list):
-- 
2.43.0


From 778a4994b48862371fd251a3f2548f345f060eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:05 +0000
Subject: [PATCH 39/57] fix: states are only loaded from a file when they are
 valid for the model

---
 dwave/optimization/states.pyx | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/dwave/optimization/states.pyx b/dwave/optimization/states.pyx
index c05760e..7c959c4 100644
--- a/dwave/optimization/states.pyx
+++ b/dwave/optimization/states.pyx
@@ -13,6 +13,7 @@
 #    limitations under the License.
 
 import weakref
+import zipfile
 
 from libcpp.utility cimport move
 
@@ -158,18 +159,31 @@ cdef class States:
         if not replace:
             raise NotImplementedError("appending states is not (yet) implemented")
 
+        if isinstance(file, str):
+            with open(file, "rb") as f:
+                return self.from_file(f, replace=replace, check_header=check_header)
+
         # todo: we don't need to actually construct a model, but this is nice and
         # abstract. We should performance test and then potentially re-implement
         cdef _Graph model = Model.from_file(file, check_header=check_header)
-        cdef States states = model.states
 
         # Check that the model is compatible
-        for n0, n1 in zip(model.iter_symbols(), self._model().iter_symbols()):
-            # todo: replace with proper node quality testing once we have it
-            if not isinstance(n0, type(n1)):
-                raise ValueError("cannot load states into a model with mismatched decisions")
-
-        self.attach_states(move(states.detach_states()))
+        decisions = list(self._model().iter_decisions())
+        if [type(n) for n in model.iter_decisions()] != [type(n) for n in decisions]:
+            raise ValueError("cannot load states into a model with mismatched decisions")
+
+        # Set the states of our own decisions, because that also checks that the values
+        # are valid for them
+        cdef vector[cppState] previous = self.detach_states()
+        try:
+            self.resize(model.states.size())
+            with zipfile.ZipFile(file, mode="r") as zf:
+                for node_id, symbol in enumerate(decisions):
+                    for i in range(self.size()):
+                        symbol._state_from_zipfile(zf, f"nodes/{node_id}/states/{i}/", i)
+        except:
+            self.attach_states(move(previous))
+            raise
 
     def from_future(self, future, result_hook):
         """Populate the states from the result of a future computation.
-- 
2.43.0


From 579b39d925f302fb05c576833d267ab0a1d58aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:45 +0000
Subject: [PATCH 40/57] fix: a dynamic array cannot be broadcast to more
 dimensions

Combining a dynamic array with a single-element array with more dimensions
gave the result a shape like (1, -1), and reading it ran over its buffer.
---
 dwave/optimization/src/nodes/mathematical.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 305cf55..a2fb73e 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -52,6 +52,13 @@ BinaryOpNode<BinaryOp>::BinaryOpNode(ArrayNode* a_ptr, ArrayNode* b_ptr)
         throw std::invalid_argument("arrays must have the same shape or one must be a scalar");
     }
 
+    // Only the first axis can have a dynamic size, so it's not possible to prepend axes to
+    // a dynamic array
+    if ((lhs_ptr->dynamic() && rhs_ptr->ndim() > lhs_ptr->ndim()) ||
+        (rhs_ptr->dynamic() && lhs_ptr->ndim() > rhs_ptr->ndim())) {
+        throw std::invalid_argument("cannot broadcast a dynamic array to more dimensions");
+    }
+
     if constexpr (std::is_same<BinaryOp, std::divides<double>>::value) {
         bool strictly_negative = rhs_ptr->min() < 0 && rhs_ptr->max() < 0;
         bool strictly_positive = rhs_ptr->min() > 0 && rhs_ptr->max() > 0;
-- 
2.43.0


From 1d2fc081fd25c4a2470ba33ea771b10d3c4985fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:23 +0000
Subject: [PATCH 41/57] fix: the size of unary operations and of where is known

state_size() and into_file raised "size is unbounded" for models with a unary
operation on (or a where between) dynamic arrays, although their sizes are
exactly those of their operands.
---
 .../include/dwave-optimization/nodes/flow.hpp |  1 +
 .../dwave-optimization/nodes/mathematical.hpp |  2 ++
 dwave/optimization/src/nodes/flow.cpp         | 20 +++++++++++++++++++
 dwave/optimization/src/nodes/mathematical.cpp |  6 ++++++
 4 files changed, 29 insertions(+)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/flow.hpp b/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
index 5004cb7..439e3c5 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
@@ -44,6 +44,7 @@ class WhereNode : public ArrayOutputMixin<ArrayNode> {
     using Array::size;
     ssize_t size(const State& state) const override;
     ssize_t size_diff(const State& state) const override;
+    SizeInfo sizeinfo() const override;
 
  private:
     // these are redundant, but convenient
diff --git a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
index 00d6529..389cd80 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
@@ -353,6 +353,8 @@ class UnaryOpNode : public ArrayOutputMixin<ArrayNode> {
     ssize_t size(const State& state) const override;
     ssize_t size_diff(const State& state) const override;
 
+    SizeInfo sizeinfo() const override;
+
     void commit(State& state) const override;
     void revert(State& state) const override;
     void initialize_state(State& state) const override;
diff --git a/dwave/optimization/src/nodes/flow.cpp b/dwave/optimization/src/nodes/flow.cpp
index 73d527f..0ed024f 100644
--- a/dwave/optimization/src/nodes/flow.cpp
+++ b/dwave/optimization/src/nodes/flow.cpp
@@ -258,4 +258,24 @@ ssize_t WhereNode::size_diff(const State& state) const {
     return data_ptr<WhereNodeData>(state)->size_diff();
 }
 
+SizeInfo WhereNode::sizeinfo() const {
+    if (!dynamic()) return SizeInfo(size());
+
+    // If x and y always have the same size then so do we
+    if (array_shape_equal(x_ptr_, y_ptr_)) return SizeInfo(x_ptr_);
+
+    // Otherwise we have the size of one of them, 100 is a magic number
+    const SizeInfo x_sizeinfo = x_ptr_->sizeinfo().substitute(100);
+    const SizeInfo y_sizeinfo = y_ptr_->sizeinfo().substitute(100);
+
+    SizeInfo sizeinfo(this);
+    if (x_sizeinfo.min && y_sizeinfo.min) {
+        sizeinfo.min = std::min<ssize_t>(*x_sizeinfo.min, *y_sizeinfo.min);
+    }
+    if (x_sizeinfo.max && y_sizeinfo.max) {
+        sizeinfo.max = std::max<ssize_t>(*x_sizeinfo.max, *y_sizeinfo.max);
+    }
+    return sizeinfo;
+}
+
 }  // namespace dwave::optimization
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index a2fb73e..909737d 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1963,6 +1963,12 @@ ssize_t UnaryOpNode<UnaryOp>::size_diff(const State& state) const {
     return data_ptr<ArrayNodeStateData>(state)->size_diff();
 }
 
+template <class UnaryOp>
+SizeInfo UnaryOpNode<UnaryOp>::sizeinfo() const {
+    if (!dynamic()) return SizeInfo(size());
+    return SizeInfo(array_ptr_);
+}
+
 template class UnaryOpNode<functional::abs<double>>;
 template class UnaryOpNode<functional::logical<double>>;
 template class UnaryOpNode<functional::square<double>>;
-- 
2.43.0


From 22d6088a30379ce668f15e702b47a147a8e6f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:47 +0000
Subject: [PATCH 42/57] fix: the size of a slice without elements is known

A slice of a dynamic array that leaves no element per row is always empty,
but state_size() and into_file raised "size is unbounded" for it.
---
 dwave/optimization/src/nodes/indexing.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 3d7a865..8838ce1 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1523,6 +1523,9 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
     const ssize_t num_per_row =
             std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
 
+    // Without elements per row there are no elements at all, however many rows there are.
+    if (num_per_row == 0) return SizeInfo(0);
+
     // There are cases where our size is not a multiple of the array's size, in which
     // case the best we can do is to give bounds.
     const bool strided = slice.step != 1 && (slice.start != 0 || slice.stop != MAX ||
-- 
2.43.0


From 7c4cffd68cb228cf68eddd4c07f3dcf34252f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:05 +0000
Subject: [PATCH 43/57] fix: a slice with a step of zero raises an error

The exception of the Slice constructor was not declared, so that x[::0]
terminated the process.
---
 dwave/optimization/libcpp/array.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/libcpp/array.pxd b/dwave/optimization/libcpp/array.pxd
index abea195..4fb62e1 100644
--- a/dwave/optimization/libcpp/array.pxd
+++ b/dwave/optimization/libcpp/array.pxd
@@ -54,7 +54,7 @@ cdef extern from "dwave-optimization/array.hpp" namespace "dwave::optimization"
         Slice()
         Slice(optional[Py_ssize_t] stop)
         Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop)
-        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step)
+        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step) except +
 
         Py_ssize_t start
         Py_ssize_t stop
-- 
2.43.0


From 82f97f8046dda36362e6d84e84428740a0aa0599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:05 +0000
Subject: [PATCH 44/57] fix: the model can be changed while its symbols are
 iterated over

The iterators held on to pointers into vectors that are reallocated when
symbols are added or removed.
---
 dwave/optimization/_model.pyx | 46 +++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 81b949d..88c34d4 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -25,7 +25,7 @@ import zipfile
 import numpy as np
 
 from cpython cimport Py_buffer
-from cython.operator cimport dereference as deref, preincrement as inc
+from cython.operator cimport dereference as deref
 from cython.operator cimport typeid
 from libcpp cimport bool
 from libcpp.utility cimport move
@@ -393,8 +393,13 @@ cdef class _Graph:
             <dwave.optimization.symbols.LessEqual at ...>
             >>> constraints = next(model.iter_constraints())
         """
-        for ptr in self._graph.constraints():
-            yield symbol_from_ptr(self, ptr)
+        # The model may be changed between two iterations, so we cannot hold on to a
+        # C++ iterator. The same goes for the other iterators below.
+        cdef Py_ssize_t i = 0
+        cdef Py_ssize_t stop = self._graph.num_constraints()
+        while i < stop and i < self._graph.num_constraints():
+            yield symbol_from_ptr(self, self._graph.constraints()[i])
+            i += 1
 
     def iter_decisions(self):
         """Iterate over all decision variables in the model.
@@ -410,8 +415,11 @@ cdef class _Graph:
             <dwave.optimization.symbols.LessEqual at ...>
             >>> decisions = next(model.iter_decisions())
         """
-        for ptr in self._graph.decisions():
-            yield symbol_from_ptr(self, ptr)
+        cdef Py_ssize_t i = 0
+        cdef Py_ssize_t stop = self._graph.num_decisions()
+        while i < stop and i < self._graph.num_decisions():
+            yield symbol_from_ptr(self, self._graph.decisions()[i])
+            i += 1
 
     def iter_symbols(self):
         """Iterate over all symbols in the model.
@@ -427,9 +435,11 @@ cdef class _Graph:
         """
         # Because nodes() is a span of unique_ptr, we can't just iterate over
         # it cythonically. Cython would try to do a copy/move assignment.
-        nodes = self._graph.nodes()
-        for i in range(nodes.size()):
-            yield symbol_from_ptr(self, nodes[i].get())
+        cdef Py_ssize_t i = 0
+        cdef Py_ssize_t stop = self._graph.num_nodes()
+        while i < stop and i < self._graph.num_nodes():
+            yield symbol_from_ptr(self, self._graph.nodes()[i].get())
+            i += 1
 
     def lock(self):
         """Lock the model.
@@ -869,11 +879,11 @@ cdef class Symbol:
             >>> a.equals(next(b.iter_predecessors()))
             True
         """
-        cdef vector[cppNode*].const_iterator it = self.node_ptr.predecessors().begin()
-        cdef vector[cppNode*].const_iterator end = self.node_ptr.predecessors().end()
-        while it != end:
-            yield symbol_from_ptr(self.model, deref(it))
-            inc(it)
+        cdef size_t i = 0
+        cdef size_t stop = self.node_ptr.predecessors().size()
+        while i < stop and i < self.node_ptr.predecessors().size():
+            yield symbol_from_ptr(self.model, self.node_ptr.predecessors()[i])
+            i += 1
 
     def iter_successors(self):
         """Iterate over a symbol's successors in the model.
@@ -891,11 +901,11 @@ cdef class Symbol:
             >>> lsymbol_lists[0].equals(next(lsymbol.iter_successors()))
             True
         """
-        cdef vector[cppNode.SuccessorView].const_iterator it = self.node_ptr.successors().begin()
-        cdef vector[cppNode.SuccessorView].const_iterator end = self.node_ptr.successors().end()
-        while it != end:
-            yield symbol_from_ptr(self.model, deref(it).ptr)
-            inc(it)
+        cdef size_t i = 0
+        cdef size_t stop = self.node_ptr.successors().size()
+        while i < stop and i < self.node_ptr.successors().size():
+            yield symbol_from_ptr(self.model, self.node_ptr.successors()[i].ptr)
+            i += 1
 
     def maybe_equals(self, other):
         """Compare to another symbol.
-- 
2.43.0


From 69e5b3cd3b6fff4a0350133a0595b235dba9a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:05 +0000
Subject: [PATCH 45/57] fix: a constant can be created from a read-only array

---
 dwave/optimization/symbols.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index bd2cc25..92b1bb7 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -933,10 +933,11 @@ cdef class Constant(ArraySymbol):
         cdef vector[Py_ssize_t] strides = array.strides  # not used because contiguous for now
 
         # Get a pointer to the first element
-        cdef double[:] flat = array.ravel()
+        # (constants are never written to, so the array may be read-only)
+        cdef const double[:] flat = array.ravel()
         cdef double* start = NULL
         if flat.size:
-            start = &flat[0]
+            start = <double*>&flat[0]
 
         # Get an observing pointer to the C++ ConstantNode
         self.ptr = model._graph.emplace_node[cppConstantNode](start, shape)
-- 
2.43.0


From 490b59324af8128bcaf4fec1d2e3101c1b3261b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:05 +0000
Subject: [PATCH 46/57] fix: a quadratic model can be created from read-only
 arrays

So that also constrained quadratic models with a quadratic objective can be
converted, whose arrays are read-only.
---
 dwave/optimization/symbols.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 92b1bb7..f51cfb4 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2747,7 +2747,7 @@ cdef class QuadraticModel(ArraySymbol):
         if linear is None:
             linear = []
         # Let NumPy handle type checking
-        cdef double[::1] ldata = np.ascontiguousarray(linear, dtype=np.double)
+        cdef const double[::1] ldata = np.ascontiguousarray(linear, dtype=np.double)
 
         if ldata.shape[0] > num_variables:
             raise ValueError("linear index out of range of x")
@@ -2759,8 +2759,8 @@ cdef class QuadraticModel(ArraySymbol):
         if len(quadratic) != 2:
             raise ValueError("expected a length 2 tuple")
 
-        cdef double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
-        cdef int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
+        cdef const double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
+        cdef const int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
 
         if coords.shape[0] != 2:
             raise ValueError("expected coords to have one row of row and one of column indices")
-- 
2.43.0


From 1f8624ccea5ba39acafdc5b04f9d1b37cf75f977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:15 +0000
Subject: [PATCH 47/57] fix: the generators refuse a capacity that is not a
 number

---
 dwave/optimization/generators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index db1b091..3244b71 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -176,7 +176,7 @@ def bin_packing(weights: numpy.typing.ArrayLike,
     if weights.shape[0] == 0:
         raise ValueError("the number of items must be positive")
 
-    if capacity <= 0:
+    if not capacity > 0:
         raise ValueError("`capacity` must be a positive number")
 
     if any(weight > capacity for weight in weights):
@@ -279,7 +279,7 @@ def capacitated_vehicle_routing(demand: numpy.typing.ArrayLike,
         raise ValueError("`number_of_vehicles` must be at least 1."
                          f" Got {number_of_vehicles}.")
 
-    if vehicle_capacity <= 0:
+    if not vehicle_capacity > 0:
         raise ValueError("`vehicle_capacity` must be a positive number."
                          f" Got {vehicle_capacity}.")
 
@@ -467,7 +467,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
         raise ValueError("`number_of_vehicles` must be at least 1."
                          f" Got {number_of_vehicles}.")
 
-    if vehicle_capacity <= 0:
+    if not vehicle_capacity > 0:
         raise ValueError("`vehicle_capacity` must be a positive number."
                          f" Got {vehicle_capacity}.")
 
@@ -932,7 +932,7 @@ def knapsack(values: numpy.typing.ArrayLike,
     if weights.shape != values.shape:
         raise ValueError("`weights` and `values` must be equal in length")
 
-    if capacity <= 0:
+    if not capacity > 0:
         raise ValueError("`capacity` must be a positive number")
 
     # Construct the model
-- 
2.43.0


From 3a8d6608647288ee8ce32067a7248096fefe4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:15 +0000
Subject: [PATCH 48/57] fix: time-window routing refuses a service time at the
 depot

It is documented to be zero, and was ignored.
---
 dwave/optimization/generators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 3244b71..aa64304 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -510,6 +510,9 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
     if demand[0] != 0:
         raise ValueError("`demand[0]` must be zero.")
 
+    if service_time[0] != 0:
+        raise ValueError("`service_time[0]` must be zero.")
+
     customer_demand = demand[1:]
 
     if (customer_demand == 0).any():
-- 
2.43.0


From cae41ee2a9254aac102b54254874eac296b60f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:15 +0000
Subject: [PATCH 49/57] fix: vehicle routing uses the validated coordinates

Unsigned coordinates wrapped around, and a depot with more or fewer than two
coordinates was accepted or raised an IndexError.
---
 dwave/optimization/generators.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index aa64304..9385af8 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -51,7 +51,7 @@ def _require(argname: str,
     """
     try:
         array = np.asarray(array_like, order="C", dtype=dtype)
-    except (ValueError, TypeError) as err:
+    except (ValueError, TypeError, OverflowError) as err:
         raise ValueError(f"`{argname}` must be an array-like of numbers") from err
 
     if not np.issubdtype(array.dtype, np.number) or np.issubdtype(array.dtype, np.complexfloating):
@@ -335,14 +335,14 @@ def capacitated_vehicle_routing(demand: numpy.typing.ArrayLike,
                                  f" be at least 2 when `demand[0]=0`.")
 
             customer_demand = demand[1:]
-            customer_locations_x = locations_x[1:]
-            customer_locations_y = locations_y[1:]
+            customer_locations_x = x[1:]
+            customer_locations_y = y[1:]
 
             if depot_x_y is not None:
                 raise ValueError("`depot_x_y` cannot be provided when "
                                  "`demand[0]` is zero.")
 
-            depot_x_y = np.asarray([locations_x[0], locations_y[0]])
+            depot_x_y = np.asarray([x[0], y[0]])
 
         else:
 
@@ -350,9 +350,13 @@ def capacitated_vehicle_routing(demand: numpy.typing.ArrayLike,
                 raise ValueError("`depot_x_y` must be provided when `demand[0]` is not"
                                  " 0 and `locations_x` and `locations_y` are specified.")
             customer_demand = demand
-            customer_locations_x = locations_x
-            customer_locations_y = locations_y
-            depot_x_y = np.asarray([depot_x_y[0], depot_x_y[1]])
+            customer_locations_x = x
+            customer_locations_y = y
+            depot_x_y = _require("depot_x_y", depot_x_y, ndim=1, dtype=float)
+
+            if len(depot_x_y) != 2:
+                raise ValueError("`depot_x_y` must have exactly two elements."
+                                 f" Got {len(depot_x_y)}.")
 
         customer_locations_x = customer_locations_x - depot_x_y[0]
         customer_locations_y = customer_locations_y - depot_x_y[1]
-- 
2.43.0


From 6f78b69159f1e48b6ad0a6f282ee8cbdc7bd514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 50/57] fix: AdvancedIndexing refuses a scalar without indices

Without dimensions the parser returned before setting anything up, so the
node was accepted and crashed when its state was initialised.
---
 dwave/optimization/src/nodes/indexing.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 8838ce1..c64f615 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -234,8 +234,6 @@ struct AdvancedIndexingNode::IndexParser_ {
                                         std::to_string(indices_.size()) + " were indexed");
         }
 
-        if (array_ptr->ndim() == 0) return;
-
         bool encountered_array = false;
         bool encountered_slice_after_array = false;
         Array* first_array = nullptr;
-- 
2.43.0


From fd5ae2fd9f3230cccb04774756fddfd9fbee58a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 51/57] fix: the size of arrays with more than 2^31 elements

The products were accumulated in an int, so that sizes were truncated to 32 bits: an array of
2^32 elements was reported to be empty, one of 2^31 to be of dynamic size.
---
 dwave/optimization/include/dwave-optimization/array.hpp | 2 +-
 dwave/optimization/src/nodes/indexing.cpp               | 2 +-
 dwave/optimization/src/nodes/manipulation.cpp           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index a19ea7f..ee5430c 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -841,7 +841,7 @@ class Array {
     static ssize_t shape_to_size(const ssize_t ndim, const ssize_t* shape) noexcept {
         if (ndim <= 0) return 1;
         if (shape[0] < 0) return DYNAMIC_SIZE;
-        return std::reduce(shape, shape + ndim, 1, std::multiplies<ssize_t>());
+        return std::reduce(shape, shape + ndim, ssize_t(1), std::multiplies<ssize_t>());
     }
 
     // Determine the strides from the shape.
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index c64f615..f8dc4bb 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1519,7 +1519,7 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
     // Here we may be strided, so we use the shape to figure it out.
     auto shape = this->shape();
     const ssize_t num_per_row =
-            std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
+            std::reduce(shape.begin() + 1, shape.end(), ssize_t(1), std::multiplies<ssize_t>());
 
     // Without elements per row there are no elements at all, however many rows there are.
     if (num_per_row == 0) return SizeInfo(0);
diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index 0d2acb5..fc3d670 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -36,7 +36,7 @@ ConcatenateNode::ConcatenateNode(std::span<ArrayNode*> array_ptrs, const ssize_t
     array_starts_.emplace_back(0);
     for (ssize_t arr_i = 1, stop = array_ptrs.size(); arr_i < stop; ++arr_i) {
         auto subshape = array_ptrs_[arr_i - 1]->shape().last(this->ndim() - axis_);
-        ssize_t prod = std::accumulate(subshape.begin(), subshape.end(), 1, std::multiplies<ssize_t>());
+        ssize_t prod = std::accumulate(subshape.begin(), subshape.end(), ssize_t(1), std::multiplies<ssize_t>());
         array_starts_.emplace_back(prod + array_starts_[arr_i - 1]);
     }
 
-- 
2.43.0


From cf20b054c4525e174254e3dd47a320940e065f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 52/57] fix: default moves of integers with negative lower
 bounds

The bounds were converted to std::size_t, which is undefined for negative values and gives a
distribution whose lower bound is larger than its upper bound.
---
 dwave/optimization/src/nodes/numbers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 674dca8..9417c34 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -140,7 +140,7 @@ bool IntegerNode::set_value(State& state, ssize_t i, int value) const {
 
 void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
-    std::uniform_int_distribution<std::size_t> value_dist(lower_bound_, upper_bound_);
+    std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);
     this->set_value(state, index_dist(rng), value_dist(rng));
 }
 
-- 
2.43.0


From d97d513f87e85996dc9e482ad4ed7f54629d5aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:38 +0000
Subject: [PATCH 53/57] fix: a refused combined index leaves no symbol behind

x[i, a] is built from a basic and an advanced indexing symbol. When the latter was refused,
the former stayed in the model.
---
 dwave/optimization/_model.pyx                    |  7 ++++++-
 .../include/dwave-optimization/graph.hpp         |  6 ++++++
 dwave/optimization/libcpp/graph.pxd              |  1 +
 dwave/optimization/src/graph.cpp                 | 16 ++++++++++++++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 88c34d4..b83cc1a 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -1197,7 +1197,12 @@ cdef class ArraySymbol(Symbol):
 
                 basic_indices, advanced_indices = _split_indices(index)
                 basic = dwave.optimization.symbols.BasicIndexing(self, *basic_indices)
-                return dwave.optimization.symbols.AdvancedIndexing(basic, *advanced_indices)
+                try:
+                    return dwave.optimization.symbols.AdvancedIndexing(basic, *advanced_indices)
+                except Exception:
+                    # don't leave the intermediate symbol behind
+                    self.model._graph.remove_last_node()
+                    raise
 
             else:
                 # todo: consider supporting NumPy arrays directly
diff --git a/dwave/optimization/include/dwave-optimization/graph.hpp b/dwave/optimization/include/dwave-optimization/graph.hpp
index 02b9b8b..1bd5030 100644
--- a/dwave/optimization/include/dwave-optimization/graph.hpp
+++ b/dwave/optimization/include/dwave-optimization/graph.hpp
@@ -172,6 +172,11 @@ class Graph {
     // Returns the number of nodes removed from the graph.
     ssize_t remove_unused_nodes(bool ignore_listeners = false);
 
+    // Remove the node that was added last, for instance because the operation it was
+    // created for turned out to be invalid. The node must be unused and removable, and
+    // the graph must not be topologically sorted.
+    void remove_last_node();
+
  private:
     static void visit_(Node* n_ptr, int* count_ptr);
 
@@ -249,6 +254,7 @@ class Node {
     template <class NodeType, class... Args>
     friend NodeType* Graph::emplace_node(Args&&... args);
     friend ssize_t Graph::remove_unused_nodes(bool ignore_listeners);
+    friend void Graph::remove_last_node();
 
  protected:
     // For use by non-dynamic node constructors.
diff --git a/dwave/optimization/libcpp/graph.pxd b/dwave/optimization/libcpp/graph.pxd
index 6c9d561..3d695fb 100644
--- a/dwave/optimization/libcpp/graph.pxd
+++ b/dwave/optimization/libcpp/graph.pxd
@@ -63,4 +63,5 @@ cdef extern from "dwave-optimization/graph.hpp" namespace "dwave::optimization"
         void add_constraint(ArrayNode*) except+
         void topological_sort()
         bool topologically_sorted() const
+        void remove_last_node() except +
         Py_ssize_t remove_unused_nodes()
diff --git a/dwave/optimization/src/graph.cpp b/dwave/optimization/src/graph.cpp
index 9084ad9..27c496d 100644
--- a/dwave/optimization/src/graph.cpp
+++ b/dwave/optimization/src/graph.cpp
@@ -364,6 +364,22 @@ ssize_t Graph::remove_unused_nodes(bool ignore_listeners) {
     return num_nodes_before - this->num_nodes();
 }
 
+void Graph::remove_last_node() {
+    if (topologically_sorted_) throw std::logic_error("cannot remove a symbol from a locked model");
+
+    Node* ptr = nodes_.empty() ? nullptr : nodes_.back().get();
+    if (!ptr || !ptr->removable() || ptr->successors().size() > 0 || ptr == objective_ptr_ ||
+        std::ranges::find(constraints_, ptr) != constraints_.end()) {
+        throw std::logic_error("the last symbol of the model cannot be removed");
+    }
+
+    for (Node* pred_ptr : ptr->predecessors_) {
+        std::erase_if(pred_ptr->successors_,
+                      [&ptr](const Node::SuccessorView& sv) { return sv.ptr == ptr; });
+    }
+    nodes_.pop_back();
+}
+
 // Node ***********************************************************************
 
 void Node::initialize_state(State& state) const {
-- 
2.43.0


From 30d960caf065f8acc547cab52054dc1926c26c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 54/57] fix: constants beyond the range of Py_ssize_t as an
 index

A double that is larger than any Py_ssize_t was converted with undefined behaviour, so that for
instance operator.index(model.constant(1e300)) was negative.
---
 dwave/optimization/symbols.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index f51cfb4..0d8bef6 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -972,7 +972,8 @@ cdef class Constant(ArraySymbol):
             # https://github.com/numpy/numpy/blob/66e1e3/numpy/_core/src/multiarray/number.c#L833
             raise TypeError("only integer scalar constants can be converted to a scalar index")
 
-        return <Py_ssize_t>deref(self.ptr.buff())
+        # go by Python's integers, because a double can exceed the range of Py_ssize_t
+        return int(deref(self.ptr.buff()))
 
     def __richcmp__(self, rhs, int op):
         # __richcmp__ is a special Cython method
-- 
2.43.0


From 47585b3bc8687f58473e982ce823170a374e2a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:56 +0000
Subject: [PATCH 55/57] fix: states of deep models and of models with many
 shared symbols

Initializing and resetting states used the stack for every symbol on a path, and resetting followed
every path to every successor, of which there can be exponentially many.
---
 dwave/optimization/src/graph.cpp | 51 ++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/dwave/optimization/src/graph.cpp b/dwave/optimization/src/graph.cpp
index 27c496d..e8f0e0d 100644
--- a/dwave/optimization/src/graph.cpp
+++ b/dwave/optimization/src/graph.cpp
@@ -126,12 +126,32 @@ void Graph::recursive_initialize(State& state, const Node* ptr) {
 
     if (state[index]) return;  // it's been created already
 
-    // otherwise, make sure all predecessors are initialized
-    for (const dwave::optimization::Node* pred_ptr : ptr->predecessors()) {
-        recursive_initialize(state, pred_ptr);
-    }
+    // Otherwise, make sure all predecessors are initialized. The depth of the graph is not limited
+    // so we keep track of the nodes to initialize, and of how many of their predecessors have been
+    // handled, ourselves.
+    std::vector<std::pair<const Node*, std::size_t>> stack{{ptr, 0}};
+    while (!stack.empty()) {
+        auto& [node_ptr, num_handled] = stack.back();
+
+        if (num_handled >= node_ptr->predecessors().size()) {
+            node_ptr->initialize_state(state);
+            stack.pop_back();
+            continue;
+        }
+
+        const Node* pred_ptr = node_ptr->predecessors()[num_handled++];
+        const ssize_t pred_index = pred_ptr->topological_index();
+
+        if (pred_index < 0) {
+            throw std::logic_error("cannot initialize a node that has not been topologically sorted");
+        }
+        if (pred_index >= static_cast<ssize_t>(state.size())) {
+            state.resize(pred_index + 1);
+        }
+        if (state[pred_index]) continue;  // it's been created already
 
-    ptr->initialize_state(state);
+        stack.emplace_back(pred_ptr, 0);
+    }
 }
 
 void Graph::recursive_reset(State& state, const Node* ptr) {
@@ -146,12 +166,25 @@ void Graph::recursive_reset(State& state, const Node* ptr) {
         return;
     }
 
-    // Otherwise, reset our own state and then all of our successors
+    // Otherwise, reset our own state and then all of our successors. There can be many paths to
+    // the same successor, but a node that has no state doesn't have successors with one either.
     state[index].reset();
 
-    for (const dwave::optimization::Node* successor_ptr : ptr->successors()) {
-        if (successor_ptr->topological_index() < 0) continue;  // nothing to reset
-        recursive_reset(state, successor_ptr);
+    std::vector<const Node*> stack{ptr};
+    while (!stack.empty()) {
+        const Node* node_ptr = stack.back();
+        stack.pop_back();
+
+        for (const Node* successor_ptr : node_ptr->successors()) {
+            const ssize_t successor_index = successor_ptr->topological_index();
+
+            if (successor_index < 0) continue;  // nothing to reset
+            if (successor_index >= static_cast<ssize_t>(state.size())) continue;
+            if (!state[successor_index]) continue;
+
+            state[successor_index].reset();
+            stack.push_back(successor_ptr);
+        }
     }
 }
 
-- 
2.43.0


From 5cd9cb826e491467ec1023aee641cf5a547dede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 56/57] fix: comparing symbols with many shared or very deep
 predecessors

---
 dwave/optimization/_model.pyx | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index b83cc1a..94b13e0 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -723,8 +723,24 @@ cdef class Symbol:
         if maybe != 1:
             return True if maybe else False
 
-        # todo: caching
-        return all(p.equals(q) for p, q in zip(self.iter_predecessors(), other.iter_predecessors()))
+        # Compare all of the ancestors, but every pair of them only once
+        compared = set()
+        stack = [(self, other)]
+        while stack:
+            lhs, rhs = stack.pop()
+            for p, q in zip(lhs.iter_predecessors(), rhs.iter_predecessors()):
+                pair = (p.id(), q.id())
+                if pair in compared:
+                    continue
+                compared.add(pair)
+
+                maybe = p.maybe_equals(q)
+                if maybe == 0:
+                    return False
+                if maybe == 1:
+                    stack.append((p, q))
+
+        return True
 
     cpdef bool expired(self) noexcept:
         return deref(self.expired_ptr)
-- 
2.43.0


From 12908d6e374df619b5cc4befab70da5540ca2d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:34 +0000
Subject: [PATCH 57/57] fix: bounds of products, shared operands etc are no
 longer exponential to query

The bounds and integrality of an array were recalculated by following every path to the decisions,
so that e.g. adding a product of 60 binary variables as a constraint would never finish.
They are derived once, and an n-ary operation that's in use can no longer change.
---
 .../include/dwave-optimization/array.hpp      |   7 +
 .../include/dwave-optimization/nodes/flow.hpp |   8 +-
 .../dwave-optimization/nodes/mathematical.hpp |  60 +++--
 dwave/optimization/src/nodes/flow.cpp         |   9 +-
 dwave/optimization/src/nodes/mathematical.cpp | 208 +++++-------------
 5 files changed, 121 insertions(+), 171 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index ee5430c..9d61f6a 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -38,6 +38,13 @@ namespace dwave::optimization {
 
 class Array;
 
+/// What is known about the values of an array, see Array::min(), Array::max(), Array::integral()
+struct ValuesInfo {
+    double min;
+    double max;
+    bool integral;
+};
+
 // Information about where a dynamic array gets its size.
 struct SizeInfo {
     SizeInfo() : SizeInfo(0) {}
diff --git a/dwave/optimization/include/dwave-optimization/nodes/flow.hpp b/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
index 439e3c5..ee50228 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
@@ -34,9 +34,9 @@ class WhereNode : public ArrayOutputMixin<ArrayNode> {
     void commit(State& state) const override;
     std::span<const Update> diff(const State& state) const override;
     void initialize_state(State& state) const override;
-    bool integral() const override;
-    double max() const override;
-    double min() const override;
+    bool integral() const override { return values_info_.integral; }
+    double max() const override { return values_info_.max; }
+    double min() const override { return values_info_.min; }
     void propagate(State& state) const override;
     void revert(State& state) const override;
     using Array::shape;
@@ -51,6 +51,8 @@ class WhereNode : public ArrayOutputMixin<ArrayNode> {
     const Array* condition_ptr_;
     const Array* x_ptr_;
     const Array* y_ptr_;
+
+    ValuesInfo values_info_;
 };
 
 }  // namespace dwave::optimization
diff --git a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
index 389cd80..c7d3948 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
@@ -99,9 +99,9 @@ class BinaryOpNode : public ArrayOutputMixin<ArrayNode> {
 
     double const* buff(const State& state) const override;
     std::span<const Update> diff(const State& state) const override;
-    bool integral() const override;
-    double max() const override;
-    double min() const override;
+    bool integral() const override { return values_info_.integral; }
+    double max() const override { return values_info_.max; }
+    double min() const override { return values_info_.min; }
 
     using ArrayOutputMixin::shape;
     std::span<const ssize_t> shape(const State& state) const override;
@@ -134,6 +134,13 @@ class BinaryOpNode : public ArrayOutputMixin<ArrayNode> {
     // There are redundant, because we could dynamic_cast each time from
     // predecessors(), but this is more performant
     std::array<Array* const, 2> operands_;
+
+    // Derived from our predecessor(s) by the constructor. Calculating these every time would need
+    // to follow every path back to the decisions, of which there can be exponentially many.
+    bool calculate_integral() const;
+    double calculate_max() const;
+    double calculate_min() const;
+    ValuesInfo values_info_;
 };
 
 // We follow NumPy naming convention rather than C++ to distinguish between
@@ -170,9 +177,9 @@ class NaryOpNode : public ArrayOutputMixin<ArrayNode> {
 
     double const* buff(const State& state) const override;
     std::span<const Update> diff(const State& state) const override;
-    bool integral() const override;
-    double max() const override;
-    double min() const override;
+    bool integral() const override { return values_info_.integral; }
+    double max() const override { return values_info_.max; }
+    double min() const override { return values_info_.min; }
 
     void commit(State& state) const override;
     void revert(State& state) const override;
@@ -196,6 +203,9 @@ class NaryOpNode : public ArrayOutputMixin<ArrayNode> {
     void check_node(const ArrayNode* node_ptr) const;
 
     std::vector<Array*> operands_;
+
+    // Derived from the operands we have so far
+    ValuesInfo values_info_;
 };
 
 using NaryAddNode = NaryOpNode<std::plus<double>>;
@@ -226,9 +236,9 @@ class PartialReduceNode : public ArrayOutputMixin<ArrayNode> {
     std::span<const Update> diff(const State& state) const override;
     void initialize_state(State& state) const override;
 
-    bool integral() const override;
-    double max() const override;
-    double min() const override;
+    bool integral() const override { return values_info_.integral; }
+    double max() const override { return values_info_.max; }
+    double min() const override { return values_info_.min; }
 
     // The predecessor of the reduction, as an Array*.
     std::span<Array* const> operands() {
@@ -279,6 +289,12 @@ class PartialReduceNode : public ArrayOutputMixin<ArrayNode> {
     // Calculate the output value based on the state of the predecessor
     double reduce(const State& state, ssize_t index) const;
 
+    // Derived from our predecessor(s) by the constructor. Calculating these every time would need
+    // to follow every path back to the decisions, of which there can be exponentially many.
+    bool calculate_integral() const;
+    double calculate_max() const;
+    double calculate_min() const;
+    ValuesInfo values_info_;
 };
 
 using PartialSumNode = PartialReduceNode<std::plus<double>>;
@@ -295,9 +311,9 @@ class ReduceNode : public ScalarOutputMixin<ArrayNode> {
 
     double const* buff(const State& state) const override;
     std::span<const Update> diff(const State& state) const override;
-    bool integral() const override;
-    double max() const override;
-    double min() const override;
+    bool integral() const override { return values_info_.integral; }
+    double max() const override { return values_info_.max; }
+    double min() const override { return values_info_.min; }
 
     void commit(State& state) const override;
     void revert(State& state) const override;
@@ -325,6 +341,13 @@ class ReduceNode : public ScalarOutputMixin<ArrayNode> {
     // There are redundant, because we could dynamic_cast each time from
     // predecessors(), but this is more performant
     Array* const array_ptr_;
+
+    // Derived from our predecessor(s) by the constructor. Calculating these every time would need
+    // to follow every path back to the decisions, of which there can be exponentially many.
+    bool calculate_integral() const;
+    double calculate_max() const;
+    double calculate_min() const;
+    ValuesInfo values_info_;
 };
 
 // We follow NumPy naming convention rather than C++ to distinguish between
@@ -344,9 +367,9 @@ class UnaryOpNode : public ArrayOutputMixin<ArrayNode> {
 
     double const* buff(const State& state) const override;
     std::span<const Update> diff(const State& state) const override;
-    bool integral() const override;
-    double max() const override;
-    double min() const override;
+    bool integral() const override { return values_info_.integral; }
+    double max() const override { return values_info_.max; }
+    double min() const override { return values_info_.min; }
     using ArrayOutputMixin::shape;
     std::span<const ssize_t> shape(const State& state) const override;
     using ArrayOutputMixin::size;
@@ -376,6 +399,13 @@ class UnaryOpNode : public ArrayOutputMixin<ArrayNode> {
     // There are redundant, because we could dynamic_cast each time from
     // predecessors(), but this is more performant
     Array* const array_ptr_;
+
+    // Derived from our predecessor(s) by the constructor. Calculating these every time would need
+    // to follow every path back to the decisions, of which there can be exponentially many.
+    bool calculate_integral() const;
+    double calculate_max() const;
+    double calculate_min() const;
+    ValuesInfo values_info_;
 };
 
 using AbsoluteNode = UnaryOpNode<functional::abs<double>>;
diff --git a/dwave/optimization/src/nodes/flow.cpp b/dwave/optimization/src/nodes/flow.cpp
index 0ed024f..7b4b1c2 100644
--- a/dwave/optimization/src/nodes/flow.cpp
+++ b/dwave/optimization/src/nodes/flow.cpp
@@ -128,6 +128,9 @@ WhereNode::WhereNode(ArrayNode* condition_ptr, ArrayNode* x_ptr, ArrayNode* y_pt
     add_predecessor(condition_ptr);
     add_predecessor(x_ptr);
     add_predecessor(y_ptr);
+
+    values_info_ = {std::min(x_ptr_->min(), y_ptr_->min()), std::max(x_ptr_->max(), y_ptr_->max()),
+                    x_ptr_->integral() && y_ptr_->integral()};
 }
 
 double const* WhereNode::buff(const State& state) const {
@@ -173,12 +176,6 @@ void WhereNode::initialize_state(State& state) const {
     }
 }
 
-bool WhereNode::integral() const { return x_ptr_->integral() && y_ptr_->integral(); }
-
-double WhereNode::max() const { return std::max(x_ptr_->max(), y_ptr_->max()); }
-
-double WhereNode::min() const { return std::min(x_ptr_->min(), y_ptr_->min()); }
-
 // Given a list of updates on a single `conditional`, did we end up flipping?
 bool _flipped(std::span<const Update> diff) {
     bool flip = false;
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 909737d..d985e12 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -14,8 +14,10 @@
 
 #include "dwave-optimization/nodes/mathematical.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <ranges>
+#include <tuple>
 
 #include "_state.hpp"
 #include "dwave-optimization/utils.hpp"
@@ -69,6 +71,8 @@ BinaryOpNode<BinaryOp>::BinaryOpNode(ArrayNode* a_ptr, ArrayNode* b_ptr)
 
     this->add_predecessor(a_ptr);
     this->add_predecessor(b_ptr);
+
+    values_info_ = {calculate_min(), calculate_max(), calculate_integral()};
 }
 
 template <class BinaryOp>
@@ -137,7 +141,7 @@ void BinaryOpNode<BinaryOp>::initialize_state(State& state) const {
 }
 
 template <class BinaryOp>
-bool BinaryOpNode<BinaryOp>::integral() const {
+bool BinaryOpNode<BinaryOp>::calculate_integral() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
 
     if constexpr (std::is_integral<result_type>::value) {
@@ -166,7 +170,7 @@ bool BinaryOpNode<BinaryOp>::integral() const {
 }
 
 template <class BinaryOp>
-double BinaryOpNode<BinaryOp>::max() const {
+double BinaryOpNode<BinaryOp>::calculate_max() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
 
     if constexpr (std::is_same<result_type, bool>::value) {
@@ -222,7 +226,7 @@ double BinaryOpNode<BinaryOp>::max() const {
 }
 
 template <class BinaryOp>
-double BinaryOpNode<BinaryOp>::min() const {
+double BinaryOpNode<BinaryOp>::calculate_min() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
 
     if constexpr (std::is_same<result_type, bool>::value) {
@@ -524,10 +528,36 @@ void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
 
     this->add_predecessor(node_ptr);
     operands_.emplace_back(node_ptr);
+
+    const ValuesInfo rhs{node_ptr->min(), node_ptr->max(), node_ptr->integral()};
+
+    if (operands_.size() == 1) {
+        values_info_ = rhs;
+        return;
+    }
+
+    // these can result in inf. If we update propagation/initialization to handle
+    // that case we should update these as well.
+    const ValuesInfo lhs = values_info_;
+    values_info_.integral = lhs.integral && rhs.integral;
+    if constexpr (std::is_same<BinaryOp, std::multiplies<double>>::value) {
+        // we need to be a bit careful with our signs
+        std::tie(values_info_.min, values_info_.max) =
+                std::minmax({bound_product(lhs.min, rhs.min), bound_product(lhs.min, rhs.max),
+                             bound_product(lhs.max, rhs.min), bound_product(lhs.max, rhs.max)});
+    } else {
+        // addition, minimum and maximum are all monotonic
+        values_info_.min = op()(lhs.min, rhs.min);
+        values_info_.max = op()(lhs.max, rhs.max);
+    }
 }
 
 template <class BinaryOp>
 void NaryOpNode<BinaryOp>::check_node(const ArrayNode* node_ptr) const {
+    if (!this->successors().empty()) {
+        throw std::logic_error("cannot add an operand to an array that is already used by another");
+    }
+
     if (this->topological_index() >= 0 && node_ptr->topological_index() >= 0 &&
         this->topological_index() < node_ptr->topological_index()) {
         throw std::logic_error("this operation would invalidate the topological ordering");
@@ -552,130 +582,6 @@ std::span<const Update> NaryOpNode<BinaryOp>::diff(const State& state) const {
     return data_ptr<NaryOpNodeData>(state)->diff();
 }
 
-template <class BinaryOp>
-bool NaryOpNode<BinaryOp>::integral() const {
-    using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
-
-    if constexpr (std::is_integral<result_type>::value) {
-        return true;
-    }
-    if constexpr (std::is_same<BinaryOp, functional::max<double>>::value ||
-                  std::is_same<BinaryOp, functional::min<double>>::value ||
-                  std::is_same<BinaryOp, std::multiplies<double>>::value ||
-                  std::is_same<BinaryOp, std::plus<double>>::value) {
-        return std::ranges::all_of(operands_, [](const Array* ptr) { return ptr->integral(); });
-    }
-
-    assert(false && "not implemeted yet");
-    unreachable();
-}
-
-template <class BinaryOp>
-double NaryOpNode<BinaryOp>::max() const {
-    using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
-
-    if constexpr (std::is_same<result_type, bool>::value) {
-        return true;
-    }
-
-    // these can result in inf. If we update propagation/initialization to handle
-    // that case we should update these as well.
-    if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
-        return std::accumulate(operands_.begin(), operands_.end(), 0.0,
-                               [](double lhs, const Array* rhs) { return lhs + rhs->max(); });
-    }
-    if constexpr (std::is_same<BinaryOp, functional::max<double>>::value ||
-                  std::is_same<BinaryOp, functional::min<double>>::value) {
-        assert(operands_.size() >= 1);  // checked by constructor
-        auto cmp = op();
-        double lhs = operands_[0]->max();
-        for (const Array* rhs_ptr : operands_ | std::views::drop(1)) {
-            lhs = cmp(lhs, rhs_ptr->max());
-        }
-        return lhs;
-    }
-    if constexpr (std::is_same<BinaryOp, std::multiplies<double>>::value) {
-        // we need to be a bit careful with our signs
-        assert(operands_.size() > 0);
-
-        double lhs_low = operands_[0]->min();
-        double lhs_high = operands_[0]->max();
-
-        for (const Array* rhs_ptr : operands_ | std::views::drop(1)) {
-            double rhs_low = rhs_ptr->min();
-            double rhs_high = rhs_ptr->max();
-
-            double tmp =
-                    std::min({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
-                              bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
-
-            lhs_high =
-                    std::max({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
-                              bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
-
-            lhs_low = tmp;
-        }
-
-        return lhs_high;
-    }
-
-    assert(false && "not implemeted yet");
-    unreachable();
-}
-
-template <class BinaryOp>
-double NaryOpNode<BinaryOp>::min() const {
-    using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
-
-    if constexpr (std::is_same<result_type, bool>::value) {
-        return false;
-    }
-
-    // these can result in inf. If we update propagation/initialization to handle
-    // that case we should update these as well.
-    if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
-        return std::accumulate(operands_.begin(), operands_.end(), 0.0,
-                               [](double lhs, const Array* rhs) { return lhs + rhs->min(); });
-    }
-    if constexpr (std::is_same<BinaryOp, functional::max<double>>::value ||
-                  std::is_same<BinaryOp, functional::min<double>>::value) {
-        assert(operands_.size() >= 1);  // checked by constructor
-        auto cmp = op();
-        double lhs = operands_[0]->min();
-        for (const Array* rhs_ptr : operands_ | std::views::drop(1)) {
-            lhs = cmp(lhs, rhs_ptr->min());
-        }
-        return lhs;
-    }
-    if constexpr (std::is_same<BinaryOp, std::multiplies<double>>::value) {
-        // we need to be a bit careful with our signs
-        assert(operands_.size() > 0);
-
-        double lhs_low = operands_[0]->min();
-        double lhs_high = operands_[0]->max();
-
-        for (const Array* rhs_ptr : operands_ | std::views::drop(1)) {
-            double rhs_low = rhs_ptr->min();
-            double rhs_high = rhs_ptr->max();
-
-            double tmp =
-                    std::min({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
-                              bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
-
-            lhs_high =
-                    std::max({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
-                              bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
-
-            lhs_low = tmp;
-        }
-
-        return lhs_low;
-    }
-
-    assert(false && "not implemeted yet");
-    unreachable();
-}
-
 template <class BinaryOp>
 void NaryOpNode<BinaryOp>::commit(State& state) const {
     data_ptr<NaryOpNodeData>(state)->commit();
@@ -851,6 +757,8 @@ PartialReduceNode<BinaryOp>::PartialReduceNode(ArrayNode* node_ptr, std::span<co
     }
 
     add_predecessor(node_ptr);
+
+    values_info_ = {calculate_min(), calculate_max(), calculate_integral()};
 }
 
 template <class BinaryOp>
@@ -923,7 +831,7 @@ void PartialReduceNode<BinaryOp>::initialize_state(State& state) const {
 }
 
 template <class BinaryOp>
-bool PartialReduceNode<BinaryOp>::integral() const {
+bool PartialReduceNode<BinaryOp>::calculate_integral() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
 
     if constexpr (std::is_integral<result_type>::value) {
@@ -975,7 +883,7 @@ ssize_t PartialReduceNode<BinaryOp>::map_parent_index(const State& state,
 }
 
 template <class BinaryOp>
-double PartialReduceNode<BinaryOp>::max() const {
+double PartialReduceNode<BinaryOp>::calculate_max() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
 
     if constexpr (std::is_same<result_type, bool>::value) {
@@ -992,7 +900,7 @@ double PartialReduceNode<BinaryOp>::max() const {
 }
 
 template <class BinaryOp>
-double PartialReduceNode<BinaryOp>::min() const {
+double PartialReduceNode<BinaryOp>::calculate_min() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
 
     if constexpr (std::is_same<result_type, bool>::value) {
@@ -1191,6 +1099,8 @@ template <class BinaryOp>
 ReduceNode<BinaryOp>::ReduceNode(ArrayNode* node_ptr, double init)
         : init(init), array_ptr_(node_ptr) {
     add_predecessor(node_ptr);
+
+    values_info_ = {calculate_min(), calculate_max(), calculate_integral()};
 }
 
 template <>
@@ -1219,6 +1129,8 @@ ReduceNode<BinaryOp>::ReduceNode(ArrayNode* array_ptr)
     }
 
     add_predecessor(array_ptr);
+
+    values_info_ = {calculate_min(), calculate_max(), calculate_integral()};
 }
 
 template <class BinaryOp>
@@ -1308,7 +1220,7 @@ void ReduceNode<std::multiplies<double>>::initialize_state(State& state) const {
 }
 
 template <class BinaryOp>
-bool ReduceNode<BinaryOp>::integral() const {
+bool ReduceNode<BinaryOp>::calculate_integral() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
 
     if constexpr (std::is_integral<result_type>::value) {
@@ -1336,7 +1248,7 @@ bool never_empty(const Array* array_ptr) {
 }
 
 template <class BinaryOp>
-double ReduceNode<BinaryOp>::max() const {
+double ReduceNode<BinaryOp>::calculate_max() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
 
     if constexpr (std::is_same<result_type, bool>::value) {
@@ -1426,7 +1338,7 @@ double ReduceNode<BinaryOp>::max() const {
 }
 
 template <class BinaryOp>
-double ReduceNode<BinaryOp>::min() const {
+double ReduceNode<BinaryOp>::calculate_min() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
 
     if constexpr (std::is_same<result_type, bool>::value) {
@@ -1763,6 +1675,8 @@ UnaryOpNode<UnaryOp>::UnaryOpNode(ArrayNode* node_ptr)
         }
     }
     add_predecessor(node_ptr);
+
+    values_info_ = {calculate_min(), calculate_max(), calculate_integral()};
 }
 
 template <class UnaryOp>
@@ -1798,19 +1712,19 @@ void UnaryOpNode<UnaryOp>::initialize_state(State& state) const {
 }
 
 template <>
-bool UnaryOpNode<functional::abs<double>>::integral() const {
+bool UnaryOpNode<functional::abs<double>>::calculate_integral() const {
     return array_ptr_->integral();
 }
 template <>
-bool UnaryOpNode<std::negate<double>>::integral() const {
+bool UnaryOpNode<std::negate<double>>::calculate_integral() const {
     return array_ptr_->integral();
 }
 template <>
-bool UnaryOpNode<functional::square<double>>::integral() const {
+bool UnaryOpNode<functional::square<double>>::calculate_integral() const {
     return array_ptr_->integral();
 }
 template <class UnaryOp>
-bool UnaryOpNode<UnaryOp>::integral() const {
+bool UnaryOpNode<UnaryOp>::calculate_integral() const {
     using result_type = typename std::invoke_result<UnaryOp, double&>::type;
 
     if constexpr (std::is_integral<result_type>::value) {
@@ -1821,7 +1735,7 @@ bool UnaryOpNode<UnaryOp>::integral() const {
 }
 
 template <>
-double UnaryOpNode<functional::abs<double>>::max() const {
+double UnaryOpNode<functional::abs<double>>::calculate_max() const {
     const double max = array_ptr_->max();
     const double min = array_ptr_->min();
     assert(min <= max && "min > max");
@@ -1838,11 +1752,11 @@ double UnaryOpNode<functional::abs<double>>::max() const {
     }
 }
 template <>
-double UnaryOpNode<std::negate<double>>::max() const {
+double UnaryOpNode<std::negate<double>>::calculate_max() const {
     return -(array_ptr_->min());
 }
 template <>
-double UnaryOpNode<functional::square<double>>::max() const {
+double UnaryOpNode<functional::square<double>>::calculate_max() const {
     // the value with the largest magnitude has the largest square
     const double max = std::max(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
     if (max >= std::sqrt(Array::max())) {
@@ -1854,13 +1768,13 @@ double UnaryOpNode<functional::square<double>>::max() const {
 }
 
 template <>
-double UnaryOpNode<functional::square_root<double>>::max() const {
+double UnaryOpNode<functional::square_root<double>>::calculate_max() const {
     assert(array_ptr_->max() >= 0);
     return std::sqrt(array_ptr_->max());
 }
 
 template <class UnaryOp>
-double UnaryOpNode<UnaryOp>::max() const {
+double UnaryOpNode<UnaryOp>::calculate_max() const {
     using result_type = typename std::invoke_result<UnaryOp, double&>::type;
 
     if constexpr (std::is_same<result_type, bool>::value) {
@@ -1871,7 +1785,7 @@ double UnaryOpNode<UnaryOp>::max() const {
 }
 
 template <>
-double UnaryOpNode<functional::abs<double>>::min() const {
+double UnaryOpNode<functional::abs<double>>::calculate_min() const {
     const double max = array_ptr_->max();
     const double min = array_ptr_->min();
     assert(min <= max && "min > max");
@@ -1888,11 +1802,11 @@ double UnaryOpNode<functional::abs<double>>::min() const {
     }
 }
 template <>
-double UnaryOpNode<std::negate<double>>::min() const {
+double UnaryOpNode<std::negate<double>>::calculate_min() const {
     return -(array_ptr_->max());
 }
 template <>
-double UnaryOpNode<functional::square<double>>::min() const {
+double UnaryOpNode<functional::square<double>>::calculate_min() const {
     // if 0 is within the range then it has the smallest square
     if (array_ptr_->min() <= 0 && array_ptr_->max() >= 0) return 0;
 
@@ -1906,12 +1820,12 @@ double UnaryOpNode<functional::square<double>>::min() const {
     return min * min;
 }
 template <>
-double UnaryOpNode<functional::square_root<double>>::min() const {
+double UnaryOpNode<functional::square_root<double>>::calculate_min() const {
     assert(array_ptr_->min() >= 0);
     return std::sqrt(array_ptr_->min());
 }
 template <class UnaryOp>
-double UnaryOpNode<UnaryOp>::min() const {
+double UnaryOpNode<UnaryOp>::calculate_min() const {
     using result_type = typename std::invoke_result<UnaryOp, double&>::type;
 
     if constexpr (std::is_same<result_type, bool>::value) {
-- 
2.43.0

