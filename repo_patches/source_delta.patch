From 9702e6d53518a276bb06bf143fde4a8fcc4a9cc5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 01/17] fix: split the matrix-product gradient buffer from its
 start

The writers address segment idx >> bit_width from the front, so chunking from
the back scrambled every gradient with more than 32 elements whose size is
larger than one segment.
---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 3056080..dfb369e 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -152,7 +152,7 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
         let bit_width = 5;
         let width = 1 << bit_width;
         let splits = slice.len() / width;
-        let segments: Vec<_> = slice.rchunks_mut(width).collect();
+        let segments: Vec<_> = slice.chunks_mut(width).collect();
         let (senders, receivers) = iter::repeat_with(unbounded).take(segments.len()).unzip();
         SplitArrayWriter {
             segments,
-- 
2.43.0


From 4f3cda37563ec9bafb56305b4a3c36c801d7a7d8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 02/17] fix: carry the incoming gradient through sum

The derivative of sum ignored the gradient it was given, so the gradient was
wrong unless sum was the last operation.
---
 src/tensor/autograd/jvp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 74c9ffc..fc593c6 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -74,6 +74,9 @@ pub fn ones<T: Numeric>(tensors: Vec<RcTensor<T>>, grads: Vec<RcTensor<T>>) -> V
     assert!(grads.len() == 1);
     let length_1 = tensors[0].shape().iter().product::<usize>();
     let length_2 = grads[0].shape().iter().product::<usize>();
-    let raw_tensor = RawTensor::new_with_filler(vec![length_2, length_1], T::one());
+    let mut raw_tensor = RawTensor::new_with_filler(vec![length_2, length_1], T::one());
+    for (i, elem) in raw_tensor.array.iter_mut().enumerate() {
+        *elem = grads[0].array[i / length_1];
+    }
     vec![RcTensor::from_raw(raw_tensor)]
 }
-- 
2.43.0


From c7b121d0df465fc489f7e081d804a6164e7c687a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 03/17] fix: do not seed the result of sum with a gradient

The scalar started out with a gradient of ones in the shape of the operand,
which later contributions were added to.
---
 src/tensor/raw_tensor.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 87f8c6f..8f414b1 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -320,12 +320,7 @@ where
             .array
             .iter()
             .fold(Self::Elem::zero(), |acc, x| acc + *x);
-        let scalar = RawTensor::from(v);
-        scalar.update_grad(RcTensor::new_with_filler(
-            self.shape.clone(),
-            Self::Elem::one(),
-        ));
-        scalar
+        RawTensor::from(v)
     }
 
     fn tensor(&self) -> Self::TensorRef<'_> {
-- 
2.43.0


From 2759122b5e427c7e184dfcd92e40d0c31c51fc77 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 04/17] fix: scalar multiplication of a view covers the view
 only

It multiplied every element of the underlying tensor, giving more elements than
the shape has.
---
 src/tensor/tensor_like.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_like.rs b/src/tensor/tensor_like.rs
index c1244f7..1845bdb 100644
--- a/src/tensor/tensor_like.rs
+++ b/src/tensor/tensor_like.rs
@@ -66,7 +66,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn left_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(scalar * elem);
         }
         result
@@ -74,7 +74,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn right_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(elem * scalar);
         }
         result
-- 
2.43.0


From 1675818265fea1374db3b9a7736b3bbf1595bea3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 05/17] fix: dot product of views uses the elements of the
 views

It paired up the elements of the underlying tensors.
---
 src/tensor/functional/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index dfb369e..3744f1b 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -32,8 +32,8 @@ where
     //! generalised dot product: returns to acculumulated sum of the elementwise product.
     assert!(left.same_shape(&right));
     let mut result = T::zero();
-    for i in 0..left.tensor().array.len() {
-        result += left.tensor().array[i] * right.tensor().array[i];
+    for (l, r) in ElementIterator::new(left).zip(ElementIterator::new(right)) {
+        result += l * r;
     }
     RawTensor {
         array: vec![result],
-- 
2.43.0


From cfe45f574daa8356f46baf2fc7dfc62ecaf416a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 06/17] fix: slice a view relative to the view

The slice was taken from the underlying tensor instead.
---
 src/tensor/tensor_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 4683c38..9eb11e8 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -137,7 +137,7 @@ where
     }
 
     fn slice(&self, offset: Vec<SliceRange>) -> TensorView<T> {
-        TensorView::new(self.tensor(), offset)
+        TensorView::new(self.to_tensor(), offset)
     }
 
     fn bmm<U>(&self, right: &U) -> Self::ResultTensorType<'_>
-- 
2.43.0


From d44368dc562c3a7a2f16704c0f77f4652cd85027 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 07/17] fix: look up view elements through the shape of the
 view

Lookup went to the underlying tensor with the index of the view, so reshaped
views panicked or returned the wrong element, axes sliced down to size one did
not broadcast, and an index out of range panicked instead of giving an error.
---
 src/tensor/tensor_view.rs | 18 +++++++++---------
 src/tensor/utils.rs       |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 9eb11e8..ed3d546 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -1,6 +1,6 @@
 use super::numeric::*;
 use crate::tensor::functional;
-use crate::tensor::utils::ElementIterator;
+use crate::tensor::utils::{global_index, tensor_index, ElementIterator};
 use crate::tensor::{IndexType, RcTensor, Scalar, SliceRange, TensorLike};
 
 use std::cmp::PartialEq;
@@ -33,9 +33,7 @@ where
     type Output = T;
 
     fn index(&self, index: IndexType) -> &Self::Output {
-        self.tensor
-            .get_with_offset(index, &self.view.offset)
-            .unwrap()
+        self.get(index).unwrap()
     }
 }
 
@@ -125,11 +123,13 @@ where
     }
 
     fn get(&self, index: IndexType) -> Result<&T, String> {
-        let idx = self
-            .tensor
-            .global_index(index, Some(&self.view.offset))
-            .unwrap();
-        Ok(&self.tensor.array[idx])
+        // Find the row-major position in the (possibly reshaped) view first, and then the
+        // element of the window that this position stands for.
+        let position = global_index(index, &self.view.shape, None)?;
+        let window: Vec<usize> = self.view.offset.iter().map(|r| r.end - r.start).collect();
+        let window_index = tensor_index(position, &window)?;
+        self.tensor
+            .get_with_offset(&window_index, &self.view.offset)
     }
 
     fn count(&self) -> usize {
diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 53d9f17..d8c2fd7 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -181,7 +181,7 @@ pub(in crate::tensor) fn global_index(
 ) -> Result<usize, String> {
     if index.len() < shape.len() {
         for &dim in &shape[..shape.len() - index.len()] {
-            if dim > 1 {
+            if dim != 1 {
                 return Err(format!(
                     "shapes do not match: self.shape={:?}, index={:?}
                     Need index to be at least as long as shape.
-- 
2.43.0


From a2a0e3bb50fd82da9c9475bba49c7764f76edbb7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 08/17] fix: iterate over nothing when a tensor has an empty
 axis

The iterators produced a first index that does not exist, and broadcasting an
axis of size one against an empty one claimed size one, so every operation on
an empty tensor or view panicked.
---
 src/tensor/functional/element_wise_ops.rs | 3 ++-
 src/tensor/utils.rs                       | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index be46bc2..6795313 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -269,7 +269,8 @@ fn max_shape(left_shape: &[usize], right_shape: &[usize]) -> Vec<usize> {
         .rev()
     {
         let dim = match pair {
-            Both(&l, &r) => max(l, r),
+            Both(&1, &r) => r,
+            Both(&l, _) => l,
             Left(&l) => l,
             Right(&r) => r,
         };
diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index d8c2fd7..7ea7492 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -38,6 +38,9 @@ where
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
+        if self.tensor_like.count() == 0 {
+            return None;
+        }
         if self.first {
             self.first = false;
             let &elem = self.tensor_like.get(&self.index).unwrap();
@@ -87,6 +90,9 @@ impl IndexIterator {
 impl Iterator for IndexIterator {
     type Item = Vec<usize>;
     fn next(&mut self) -> Option<Self::Item> {
+        if self.dimensions.contains(&0) {
+            return None;
+        }
         if self.first {
             self.first = false;
             return Some(self.index.clone());
-- 
2.43.0


From 03e7ae0bf7ed575f8fefa90266264794bf678e6e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 09/17] fix: build a tensor from an empty list

It indexed the first element of an empty list of shapes.
---
 src/tensor/raw_tensor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 8f414b1..80446c6 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -95,6 +95,9 @@ where
         let tensors: Vec<_> = value.into_iter().map(RawTensor::from).collect();
         let (arrays, shapes): (Vec<_>, Vec<_>) =
             tensors.into_iter().map(|t| (t.array, t.shape)).unzip();
+        if shapes.is_empty() {
+            return RawTensor::new(vec![], vec![0]);
+        }
         let valid = shapes.iter().all(|shape| *shape == shapes[0]);
         assert!(valid); // TODO: get rid of the assertion, this method should never fail. Try TryFrom instead
 
-- 
2.43.0


From 74b98169b04e936bb229563f0887a5d826988321 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 10/17] fix: start backward from a one by one jacobian

The derivatives of abs and of the matrix product need a matrix, so backward
panicked when either was the last operation.
---
 src/tensor/rc_tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index cab1716..4336da1 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -56,7 +56,7 @@ impl<T: Numeric> RcTensor<T> {
         self.grad_fn
             .as_ref()
             .unwrap()
-            .compute_jvp(vec![RcTensor::scalar(T::one())])
+            .compute_jvp(vec![RcTensor::new_with_filler(vec![1, 1], T::one())])
     }
     pub fn is_scalar(&self) -> bool {
         self.0.array.len() == 1 && self.0.shape.is_empty()
-- 
2.43.0


From 5dccc8e56d3cf857a5aa10df49f00380c608aaf3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 11/17] fix: make the derivative of dot a jacobian row

It had the shape of the operand, so backward panicked or went wrong when
anything came before or after the dot product.
---
 src/tensor/functional/misc.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 3744f1b..1dba2da 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -368,9 +368,13 @@ fn dot_jvp<T: Numeric>(inputs: Vec<RcTensor<T>>, jacobians: Vec<RcTensor<T>>) ->
     );
     let (left, right) = (inputs[0].clone(), inputs[1].clone());
     let jacobian = jacobians[0].clone();
-    let left_jvp = autograd::jvp_from_full_jacobians(jacobian.clone(), right);
-    let right_jvp = autograd::jvp_from_full_jacobians(jacobian, left);
-    vec![left_jvp, right_jvp]
+    // The dot product has a single output, so each jacobian is one row.
+    let left_jacobian = RcTensor::new(right.array.clone(), vec![1, right.count()]);
+    let right_jacobian = RcTensor::new(left.array.clone(), vec![1, left.count()]);
+    vec![
+        jacobian.bmm(&left_jacobian),
+        jacobian.bmm(&right_jacobian),
+    ]
 }
 
 #[test]
-- 
2.43.0


From 746031861b84546966e427a70a93a3ca66ea13bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 12/17] fix: differentiate the product of a batch of matrices

The derivative assumed a plain matrix on the left and panicked on a batch.
---
 src/tensor/functional/misc.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 1dba2da..43df25e 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -226,6 +226,15 @@ pub(crate) fn bmm_jvp<T: Numeric>(
         jacobians.len()
     );
 
+    // A batch on the left is one tall matrix as far as the derivative is concerned.
+    let columns = inputs[0].shape()[inputs[0].shape().len() - 1];
+    let rows = inputs[0].shape()[..inputs[0].shape().len() - 1]
+        .iter()
+        .product();
+    let inputs = vec![
+        RcTensor::new(inputs[0].array.clone(), vec![rows, columns]),
+        inputs[1].clone(),
+    ];
     assert_eq!(
         inputs[0].shape()[1],
         inputs[1].shape()[0],
-- 
2.43.0


From 4cf0335dfa8a3b9e2a9e3799d69717c054e0f345 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 13/17] fix: updated parameters start without history

Every step kept the graph of all previous steps alive, and backward ran through
all of it, changing the gradients of old parameters.
---
 src/optim/sgd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optim/sgd.rs b/src/optim/sgd.rs
index 0ba9465..c426baf 100644
--- a/src/optim/sgd.rs
+++ b/src/optim/sgd.rs
@@ -33,9 +33,9 @@ pub fn sgd_step<T: Numeric + Real, U: Module<T>>(module: &mut U, step_size: Scal
         .params()
         .iter()
         .map(|p| {
-            let new = p.clone() - &step_size * p.grad();
-            new.zero_grad();
-            new
+            // A deep clone has no gradient and no history, so the next backward pass
+            // stops at the new parameter.
+            (p.clone() - &step_size * p.grad()).deep_clone()
         })
         .collect();
     module.update_params(new_params);
-- 
2.43.0


From 76e5d09bc980eaaa36b6918f773259174c7edd1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 14/17] fix: add to a gradient under a single lock

The lock was released between reading the old gradient and storing the new one,
so concurrent contributions could be lost.
---
 src/tensor/raw_tensor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 80446c6..ddd4dd5 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -308,11 +308,13 @@ where
     }
 
     fn update_grad(&self, grad: Self::GradType) {
-        let new_grad = match self.grad.read().unwrap().as_ref() {
+        // Hold the lock from reading to writing: another thread may add its gradient too.
+        let mut slot = self.grad.write().unwrap();
+        let new_grad = match slot.as_ref() {
             None => Some(grad),
             Some(other_grad) => Some(other_grad + &grad),
         };
-        *self.grad.write().unwrap() = new_grad;
+        *slot = new_grad;
     }
     fn shape(&self) -> Self::ShapeReturn<'_> {
         &self.shape
-- 
2.43.0


From 86661e5965867ee9042ee61de519294f8730ae1f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 15/17] fix: finish the writers before starting the readers in
 the matrix-product gradient

Called from inside a worker pool, readers could occupy every worker while the
writers they were waiting for were still queued, and backward hung.
---
 src/tensor/functional/misc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 43df25e..5a20b47 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -264,9 +264,9 @@ pub(crate) fn bmm_jvp<T: Numeric>(
     // currently: loop through all the non-zero values:
     // J_A[ø[i,j], ø[i,k]] = B[k,j]
     // Consider seeing if there is a way to get this to work such that we also build the array as
+    let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
+    let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
     rayon::in_place_scope(|s| {
-        let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
-        let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
         let left_split_writer_ref = &mut left_split_writer;
         let right_split_writer_ref = &mut right_split_writer;
         for i in 0..inputs[0].shape()[0] {
@@ -330,6 +330,10 @@ pub(crate) fn bmm_jvp<T: Numeric>(
                 }
             }
         }
+    });
+    // The readers block until every writer is done, so they must not share a scope with them:
+    // with few worker threads all of those could end up waiting for a writer that is still queued.
+    rayon::in_place_scope(|s| {
         right_split_writer.start_then_join(s);
         left_split_writer.start_then_join(s);
     });
-- 
2.43.0


From b44bf621f8eec4e5e67589d569bb2e9986fbdf3b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 16/17] fix: refuse a matrix product with more than one batch
 axis

The result was given the shape and the elements of a product with one batch
axis, silently dropping rows when the leading axes had size one.
---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 5a20b47..ee61aa7 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -55,7 +55,7 @@ where
 {
     // assert!(2 <= self.shape().len() && self.shape().len() <= 3); // For now we can only do Batch matrix
     //    dbg!(left.shape(), right.shape());
-    assert!(2 <= left.shape().len()); // For now we can only do Batch matrix
+    assert!(2 <= left.shape().len() && left.shape().len() <= 3); // For now we can only do Batch matrix
     assert!(right.shape().len() == 2); // rhs must be a matrix
                                        //
     assert!(left.shape()[left.shape().len() - 1] == right.shape()[right.shape().len() - 2]);
-- 
2.43.0


From 16bc295ba89a006bc703808bb132811b0262fa21 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 17/17] fix: back-propagate through element-wise operations on
 empty tensors

The derivatives looked up a first element that does not exist, so backward
panicked although there is nothing to propagate.
---
 src/tensor/functional/element_wise_ops.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index 6795313..d04a866 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -226,6 +226,13 @@ jacobians are not matrix multipliable",
     };
     let right_jvp_shape = vec![dim_0, right.count()];
     let left_jvp_shape = vec![dim_0, left.count()];
+    if diag_length == 0 {
+        // no element of the result depends on either operand
+        return vec![
+            RcTensor::new_with_filler(left_jvp_shape, T::zero()),
+            RcTensor::new_with_filler(right_jvp_shape, T::zero()),
+        ];
+    }
 
     //    dbg!(&left.shape(), &right.shape(), &diag_shape, &broadcast_shape);
     let mut array = Vec::with_capacity(diag_length);
@@ -372,6 +379,9 @@ pub(crate) fn generic_unary_jvp<T: Numeric>(
         grad.shape()[0]
     };
     let jvp_shape = vec![dim_0, diag_length];
+    if diag_length == 0 {
+        return vec![RcTensor::new(vec![], jvp_shape)];
+    }
 
     let mut array = Vec::with_capacity(diag_length);
     let mut idx = vec![0; tensor.shape().len()];
-- 
2.43.0

