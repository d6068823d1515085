From 5913a5db01d0a83a5d45851adbbe2686f9c4f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 01/21] fix: register neg_bw_impl on the naive device (backward
 through negation panicked)

---
 prima_undine/src/devices/naive.rs     | 1 +
 prima_undine/src/devices/naive/neg.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prima_undine/src/devices/naive.rs b/prima_undine/src/devices/naive.rs
index d6514c1..a14b32f 100644
--- a/prima_undine/src/devices/naive.rs
+++ b/prima_undine/src/devices/naive.rs
@@ -138,6 +138,7 @@ impl<'dev> Naive {
         // arithmetic
 
         dev.register_fw_impl("neg_fw_impl", neg::NegFwImpl::new());
+        dev.register_bw_impl("neg_bw_impl", neg::NegBwImpl::new());
 
         dev.register_fw_impl("add_fw_impl", add::AddFwImpl::new());
         dev.register_bw_impl("add_bw_a_impl", add::AddBwAImpl::new());
diff --git a/prima_undine/src/devices/naive/neg.rs b/prima_undine/src/devices/naive/neg.rs
index 85fb32d..74bd564 100644
--- a/prima_undine/src/devices/naive/neg.rs
+++ b/prima_undine/src/devices/naive/neg.rs
@@ -1,4 +1,5 @@
 define_naive_fw_x_impl!(NegFwImpl, |x: f32| -x);
+define_naive_bw_x_impl!(NegBwImpl, |_x, _y, gy: f32| -gy);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From dbecebd17e64908a5efbdb0546d1d1c8b7f8666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 02/21] fix: shape of the scalar operators in graphs (every
 tensor-scalar node panicked)

---
 prima_undine/src/operators/add.rs    | 2 ++
 prima_undine/src/operators/common.rs | 7 ++-----
 prima_undine/src/operators/div.rs    | 3 +++
 prima_undine/src/operators/mul.rs    | 2 ++
 prima_undine/src/operators/powf.rs   | 3 +++
 prima_undine/src/operators/sub.rs    | 3 +++
 6 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/prima_undine/src/operators/add.rs b/prima_undine/src/operators/add.rs
index caa30d6..26624a4 100644
--- a/prima_undine/src/operators/add.rs
+++ b/prima_undine/src/operators/add.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Add,
     add_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.add_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.add_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -17,6 +18,7 @@ define_operator_x!(AddConst, add_const_fw, add_const_bw, k, f32);
 define_operator_ab!(
     AddScalar,
     add_scalar_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
diff --git a/prima_undine/src/operators/common.rs b/prima_undine/src/operators/common.rs
index 4c6ad14..699fe91 100644
--- a/prima_undine/src/operators/common.rs
+++ b/prima_undine/src/operators/common.rs
@@ -24,7 +24,7 @@ macro_rules! define_operator_struct {
 }
 
 macro_rules! define_operator_ab {
-    ($name:ident, $fw:ident, $bwfunc:expr) => {
+    ($name:ident, $fw:ident, $shape_op:ident, $bwfunc:expr) => {
         define_operator_struct!($name);
         impl<'arg, 'dev> crate::Operator<'arg, 'dev> for $name<'dev> {
             fn name(&self) -> String {
@@ -34,7 +34,7 @@ macro_rules! define_operator_ab {
                 self.device
             }
             fn forward_shape(&self, x: &[crate::Shape]) -> Vec<crate::Shape> {
-                vec![crate::shape_ops::elementwise(x[0], x[1])]
+                vec![crate::shape_ops::$shape_op(x[0], x[1])]
             }
             fn forward(&self, x: &[&crate::Tensor], y: &mut [&mut crate::Tensor<'arg>]) {
                 y[0].replace(self.device.$fw(x[0], x[1]));
@@ -50,9 +50,6 @@ macro_rules! define_operator_ab {
             }
         }
     };
-    ($name:ident) => {
-        define_operator_ab!($name,);
-    };
 }
 
 macro_rules! define_operator_x {
diff --git a/prima_undine/src/operators/div.rs b/prima_undine/src/operators/div.rs
index 6e6dc29..58b3022 100644
--- a/prima_undine/src/operators/div.rs
+++ b/prima_undine/src/operators/div.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Div,
     div_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.div_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.div_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -18,6 +19,7 @@ define_operator_x!(DivConstR, div_const_r_fw, div_const_r_bw, k, f32);
 define_operator_ab!(
     DivScalarL,
     div_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[0];
         *gx[0].borrow_mut() -= &(a * y[0]);
@@ -28,6 +30,7 @@ define_operator_ab!(
 define_operator_ab!(
     DivScalarR,
     div_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[1];
         *gx[0].borrow_mut() += a;
diff --git a/prima_undine/src/operators/mul.rs b/prima_undine/src/operators/mul.rs
index 402c629..9707d2e 100644
--- a/prima_undine/src/operators/mul.rs
+++ b/prima_undine/src/operators/mul.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Mul,
     mul_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.mul_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.mul_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -17,6 +18,7 @@ define_operator_x!(MulConst, mul_const_fw, mul_const_bw, k, f32);
 define_operator_ab!(
     MulScalar,
     mul_scalar_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += x[1] * gy[0];
         *gx[1].borrow_mut() += (x[0] * gy[0]).flatten().sum(0);
diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index e826677..719a54e 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Pow,
     powf_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.powf_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.powf_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -18,6 +19,7 @@ define_operator_x!(PowConstR, powf_const_r_fw, powf_const_r_bw, k, f32);
 define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1].ln();
@@ -28,6 +30,7 @@ define_operator_ab!(
 define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1] / x[0];
diff --git a/prima_undine/src/operators/sub.rs b/prima_undine/src/operators/sub.rs
index ea48903..60883cf 100644
--- a/prima_undine/src/operators/sub.rs
+++ b/prima_undine/src/operators/sub.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Sub,
     sub_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.sub_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.sub_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -18,6 +19,7 @@ define_operator_x!(SubConstR, sub_const_r_fw, sub_const_r_bw, k, f32);
 define_operator_ab!(
     SubScalarL,
     sub_scalar_l_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() -= gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
@@ -27,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     SubScalarR,
     sub_scalar_r_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() -= gy[0].flatten().sum(0);
-- 
2.43.0


From a05d54676c9b6b459a7fd66661dd42dfc6078c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 03/21] fix: ELU node computed PReLU

---
 prima_undine/src/operators/elu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/elu.rs b/prima_undine/src/operators/elu.rs
index 1d95284..13a8626 100644
--- a/prima_undine/src/operators/elu.rs
+++ b/prima_undine/src/operators/elu.rs
@@ -1,3 +1,3 @@
 use crate::functions::BasicDeviceFunctions;
 
-define_operator_x!(ELU, prelu_fw, prelu_bw, a, f32);
+define_operator_x!(ELU, elu_fw, elu_bw, a, f32);
-- 
2.43.0


From 8e65e4f48d7fdea0a827622c30b59d83637c6bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 04/21] fix: batch_slice_bw dispatched to slice_bw

---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index fee6449..c6bf26f 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -460,7 +460,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gx.device() == self);
         let sy = gy.shape;
         assert!(shape_ops::batch_slice(gx.shape, lower, lower + sy.batch()) == sy);
-        self.call_bw_impl("slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
+        self.call_bw_impl("batch_slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
     }
 
     fn batch_pick_bw(&self, gy: &Tensor, ids: &[u32], gx: &mut Tensor) {
-- 
2.43.0


From 741a013e5eafb558830e641afa7d895b62d7933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 05/21] fix: batch_pick_bw dispatched to pick_bw

---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index c6bf26f..56dadcd 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -467,7 +467,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gy.device() == self);
         assert!(gx.device() == self);
         assert!(shape_ops::batch_pick(gx.shape, ids) == gy.shape);
-        self.call_bw_impl("pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
+        self.call_bw_impl("batch_pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
     }
 }
 
-- 
2.43.0


From d2827c4586d4b9ee60018073b33d1d1e292c291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 06/21] fix: BatchSplit backward used the gradient of the first
 output for every output

---
 prima_undine/src/operators/batch_split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/batch_split.rs b/prima_undine/src/operators/batch_split.rs
index 257355e..5680a97 100644
--- a/prima_undine/src/operators/batch_split.rs
+++ b/prima_undine/src/operators/batch_split.rs
@@ -33,7 +33,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for BatchSplit<'dev> {
         let skip = total / self.n;
         for i in 0..self.n {
             self.device()
-                .batch_slice_bw(gy[0], i * skip, &mut *gx[0].borrow_mut());
+                .batch_slice_bw(gy[i as usize], i * skip, &mut *gx[0].borrow_mut());
         }
     }
 }
-- 
2.43.0


From 39df04d09bf8eae62430f1dedffce99e79165fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 07/21] fix: Sum and Logsumexp backward over a dimension beyond
 the depth panicked

---
 prima_undine/src/operators/logsumexp.rs | 2 +-
 prima_undine/src/operators/sum.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/logsumexp.rs b/prima_undine/src/operators/logsumexp.rs
index 5a14d84..2b0e5f5 100644
--- a/prima_undine/src/operators/logsumexp.rs
+++ b/prima_undine/src/operators/logsumexp.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Logsumexp<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() +=
             (x[0] - y[0].broadcast(self.dim, size)).exp() * gy[0].broadcast(self.dim, size);
     }
diff --git a/prima_undine/src/operators/sum.rs b/prima_undine/src/operators/sum.rs
index b61f1e5..58a00c3 100644
--- a/prima_undine/src/operators/sum.rs
+++ b/prima_undine/src/operators/sum.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Sum<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() += gy[0].broadcast(self.dim, size);
     }
 }
-- 
2.43.0


From 0b9657261a82ef99ab09cca57da680f31263a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 08/21] fix: backward through an operator with several outputs
 (all outputs were seeded, unused ones had no gradient)

---
 prima_undine/src/graph.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 1f26f8f..b2cd7d1 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -128,16 +128,14 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
     }
 }
 
-fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
+fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>, vid: usize) {
     let mut reached = HashSet::new();
     let mut queue = VecDeque::new();
     let mut backward_req = BinaryHeap::new();
     {
-        for ret in &op_info.rets {
-            let mut grad = ret.gradient.borrow_mut();
-            grad.alloc();
-            grad.reset(1.);
-        }
+        let mut grad = op_info.rets[vid].gradient.borrow_mut();
+        grad.alloc();
+        grad.reset(1.);
     }
     queue.push_back(op_info);
     while let Some(op_info) = queue.pop_front() {
@@ -164,7 +162,15 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         let gys = op_info
             .rets
             .iter()
-            .map(|ret| ret.gradient.borrow())
+            .map(|ret| {
+                let mut gy = ret.gradient.borrow_mut();
+                if !gy.valid() {
+                    gy.alloc();
+                    gy.reset(0.);
+                }
+                drop(gy);
+                ret.gradient.borrow()
+            })
             .collect::<Vec<Ref<Tensor<'arg>>>>();
         let gxs = op_info
             .args
@@ -218,7 +224,7 @@ impl<'arg, 'dev> Node<'arg, 'dev> {
 
     pub fn backward(&self) {
         self.forward();
-        backward(Rc::clone(&self.data.op));
+        backward(Rc::clone(&self.data.op), self.data.vid);
     }
 }
 
-- 
2.43.0


From 368a46cb38ef7ae866752e804fa06424c499d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 09/21] fix: repeated backward over shared nodes (a second call
 panicked or propagated stale gradients)

---
 prima_undine/src/graph.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index b2cd7d1..51b0647 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -132,13 +132,15 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>, vid: usize) {
     let mut reached = HashSet::new();
     let mut queue = VecDeque::new();
     let mut backward_req = BinaryHeap::new();
-    {
-        let mut grad = op_info.rets[vid].gradient.borrow_mut();
-        grad.alloc();
-        grad.reset(1.);
-    }
-    queue.push_back(op_info);
+    queue.push_back(Rc::clone(&op_info));
     while let Some(op_info) = queue.pop_front() {
+        // gradients left by an earlier backward must not be propagated again
+        for ret in &op_info.rets {
+            let mut grad = ret.gradient.borrow_mut();
+            if grad.valid() {
+                grad.reset(0.);
+            }
+        }
         for arg in &op_info.args {
             let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;
             if !reached.contains(&ptr) {
@@ -148,6 +150,13 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>, vid: usize) {
         }
         backward_req.push(OperatorInfoCmp(op_info));
     }
+    {
+        let mut grad = op_info.rets[vid].gradient.borrow_mut();
+        if !grad.valid() {
+            grad.alloc();
+        }
+        grad.reset(1.);
+    }
     while let Some(OperatorInfoCmp(op_info)) = backward_req.pop() {
         let xs = op_info
             .args
-- 
2.43.0


From cdf5a86092d6efb60828904fcec75309c79273c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 10/21] fix: reject shapes whose size does not fit in u32 (it
 wrapped around silently)

---
 prima_undine/src/shape.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 73ba745..351bb02 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -28,8 +28,9 @@ impl Shape {
             if dims[i] != 1 {
                 depth = i as u32 + 1;
             }
-            volume *= dims[i];
+            volume = u32::checked_mul(volume, dims[i]).expect("volume overflow");
         }
+        assert!(volume.checked_mul(batch).is_some());
         Shape {
             dims: dims_filled,
             batch: batch,
@@ -136,7 +137,9 @@ impl Shape {
             }
             self.depth = new_depth;
         }
-        self.volume = self.volume / self.dims[dim as usize] * m;
+        let volume = (self.volume / self.dims[dim as usize]).checked_mul(m);
+        self.volume = volume.expect("volume overflow");
+        assert!(self.volume.checked_mul(self.batch).is_some());
         self.dims[dim as usize] = m;
         while self.depth > 0 && self.dims[self.depth as usize - 1] == 1 {
             self.depth -= 1;
@@ -145,6 +148,7 @@ impl Shape {
 
     pub fn update_batch(&mut self, batch: u32) {
         assert!(batch >= 1);
+        assert!(self.volume.checked_mul(batch).is_some());
         self.batch = batch;
     }
 }
-- 
2.43.0


From c441603ef11093e1efccffd24be6029edb1c16cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 11/21] fix: reject concatenations whose extent does not fit in
 u32

---
 prima_undine/src/shape_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/shape_ops.rs b/prima_undine/src/shape_ops.rs
index a2ffced..482d9db 100644
--- a/prima_undine/src/shape_ops.rs
+++ b/prima_undine/src/shape_ops.rs
@@ -53,7 +53,7 @@ pub fn concat(xs: &[Shape], dim: u32) -> Shape {
         if !s0.has_batch() {
             s0.update_batch(s.batch());
         }
-        sum += s[dim];
+        sum = u32::checked_add(sum, s[dim]).expect("dimension overflow");
     }
     s0.resize_dim(dim, sum)
 }
@@ -80,7 +80,7 @@ pub fn batch_concat(xs: &[Shape]) -> Shape {
     for i in 1..xs.len() {
         let s = xs[i];
         assert!(s0.has_same_dims(s));
-        sum += s.batch();
+        sum = u32::checked_add(sum, s.batch()).expect("batch overflow");
     }
     s0.resize_batch(sum)
 }
-- 
2.43.0


From bb8ea7195433b4f5b27e78ed40c24499d7cb794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 12/21] fix: check the shapes in add_assign and sub_assign
 (mismatched operands accessed foreign memory)

---
 prima_undine/src/functions/arithmetic/device.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prima_undine/src/functions/arithmetic/device.rs b/prima_undine/src/functions/arithmetic/device.rs
index 104f83a..5d223c1 100644
--- a/prima_undine/src/functions/arithmetic/device.rs
+++ b/prima_undine/src/functions/arithmetic/device.rs
@@ -47,12 +47,14 @@ impl<'dev> ArithmeticDeviceFunctions for Device<'dev> {
     fn add_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("add_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
     fn sub_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("sub_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
-- 
2.43.0


From 52baa8d2db059b9ffe18dd837bae3f2211a9c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 13/21] fix: Tensor::pow with a scalar operand (panicked,
 unlike Node::pow)

---
 prima_undine/src/functions/basic/tensor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index dc0dc7e..a46a5ae 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -35,7 +35,14 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     // basic
 
     fn pow<T: Borrow<Self>>(&self, k: T) -> Self {
-        self.device().powf_fw(self, k.borrow())
+        let k = k.borrow();
+        if self.shape.is_scalar() {
+            self.device().powf_scalar_l_fw(k, self)
+        } else if k.shape.is_scalar() {
+            self.device().powf_scalar_r_fw(self, k)
+        } else {
+            self.device().powf_fw(self, k)
+        }
     }
 
     fn powf(&self, k: f32) -> Self {
-- 
2.43.0


From de79dc9ab75c830911752e7e0d04dbe491540ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 14/21] fix: Tensor::replace took over the storage of a
 referred tensor (double release)

---
 prima_undine/src/tensor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 70d3d1a..498c8e8 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -72,6 +72,12 @@ impl<'dev> Tensor<'dev> {
         assert!(!self.valid());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
+        if other.reference.is_some() {
+            // the storage belongs to the referred tensor
+            self.alloc();
+            self.device().reset_tensor_by_tensor(self, &other);
+            return;
+        }
         self.handle
             .store(other.handle.load(Ordering::Acquire), Ordering::Release);
         other.handle.store(ptr::null_mut(), Ordering::Release);
-- 
2.43.0


From 9ab3061f27183effc77718886cb8a89783dd3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 15/21] fix: triangular_l and triangular_u with an offset near
 u32::MAX wrapped around

---
 prima_undine/src/devices/naive/triangular_l.rs | 2 +-
 prima_undine/src/devices/naive/triangular_u.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/devices/naive/triangular_l.rs b/prima_undine/src/devices/naive/triangular_l.rs
index ad7d0e5..c7cb7fd 100644
--- a/prima_undine/src/devices/naive/triangular_l.rs
+++ b/prima_undine/src/devices/naive/triangular_l.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularLFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if i >= j + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if i >= j && i - j >= k { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
diff --git a/prima_undine/src/devices/naive/triangular_u.rs b/prima_undine/src/devices/naive/triangular_u.rs
index ba5ad0f..b1e2533 100644
--- a/prima_undine/src/devices/naive/triangular_u.rs
+++ b/prima_undine/src/devices/naive/triangular_u.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularUFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if j >= i + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if j >= i && j - i >= k { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
-- 
2.43.0


From 8132755496b735bff7327ae7747b99a1c1e88e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 16/21] fix: a tensor that referred to an unallocated tensor
 owns the storage it gets later

---
 prima_undine/src/tensor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 498c8e8..6d1a9b7 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -64,7 +64,9 @@ impl<'dev> Tensor<'dev> {
         assert!(self.host_values.is_none());
         self.handle
             .store(other.handle.load(Ordering::Acquire), Ordering::Release);
-        self.reference = Some(other);
+        if other.valid() {
+            self.reference = Some(other);
+        }
     }
 
     pub fn replace(&mut self, other: Tensor) {
-- 
2.43.0


From d9b28f8752cb258fdb9aa3647ee35ae4a1ef6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 17/21] fix: moving a host tensor with the wrong number of
 values is refused before it is changed

---
 prima_undine/src/tensor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 6d1a9b7..908034a 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -41,6 +41,7 @@ impl<'dev> Tensor<'dev> {
 
     pub fn move_to_device(&mut self, device: &'dev Device<'dev>) {
         assert!(self.host_values.is_some());
+        assert!(self.shape.size() as usize == self.host_values.as_ref().unwrap().len());
         self.device = Some(device);
         self.handle = self.device.unwrap().new_handle(self.shape.size());
         let values = self.host_values.take().unwrap();
-- 
2.43.0


From 05a04fcd2757fdc042eeb870baa73acc99923cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 18/21] hook: a controllable random source under cfg(vx_hooks)

---
 prima_undine/src/random.rs | 47 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/prima_undine/src/random.rs b/prima_undine/src/random.rs
index 13e5a26..fe72287 100644
--- a/prima_undine/src/random.rs
+++ b/prima_undine/src/random.rs
@@ -49,3 +49,50 @@ impl Randomizer for DefaultRandomizer {
         }
     }
 }
+
+/// A random source under the control of a checker (see `cfg(vx_hooks)`): every random word is taken
+/// from the installed function.
+#[cfg(vx_hooks)]
+pub mod hooks {
+    use ::rand::{Error, RngCore};
+    use std::sync::Mutex;
+
+    static WORDS: Mutex<Option<fn() -> u64>> = Mutex::new(None);
+
+    pub fn install(words: Option<fn() -> u64>) {
+        *WORDS.lock().unwrap() = words;
+    }
+
+    pub struct Source;
+
+    impl RngCore for Source {
+        fn next_u32(&mut self) -> u32 {
+            (self.next_u64() >> 32) as u32
+        }
+        fn next_u64(&mut self) -> u64 {
+            let words = *WORDS.lock().unwrap();
+            match words {
+                Some(f) => f(),
+                None => ::rand::thread_rng().next_u64(),
+            }
+        }
+        fn fill_bytes(&mut self, dest: &mut [u8]) {
+            for chunk in dest.chunks_mut(8) {
+                let word = self.next_u64().to_be_bytes();
+                chunk.copy_from_slice(&word[..chunk.len()]);
+            }
+        }
+        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
+            Ok(self.fill_bytes(dest))
+        }
+    }
+}
+
+#[cfg(vx_hooks)]
+mod rand {
+    pub use ::rand::*;
+
+    pub fn thread_rng() -> super::hooks::Source {
+        super::hooks::Source
+    }
+}
-- 
2.43.0


From 2361da7b55fc2ceb7973023310131e6958f82581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 19/21] hook: a controllable lock in the memory pool under
 cfg(vx_hooks)

---
 prima_undine/src/memory_pool.rs |  6 +++-
 prima_undine/src/random.rs      | 60 ++++++++++++++++++++++++++++++++-
 2 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/memory_pool.rs b/prima_undine/src/memory_pool.rs
index ca7ba27..5ccbb8f 100644
--- a/prima_undine/src/memory_pool.rs
+++ b/prima_undine/src/memory_pool.rs
@@ -2,9 +2,13 @@ use std::cmp;
 use std::collections::HashMap;
 use std::ffi::c_void;
 use std::sync::atomic::{AtomicPtr, Ordering};
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
+#[cfg(not(vx_hooks))]
+use std::sync::Mutex;
 
 use crate::device_impl::DeviceImpl;
+#[cfg(vx_hooks)]
+use crate::random::hooks::Lock as Mutex;
 
 const MAX_BITS: usize = 32;
 
diff --git a/prima_undine/src/random.rs b/prima_undine/src/random.rs
index fe72287..8840886 100644
--- a/prima_undine/src/random.rs
+++ b/prima_undine/src/random.rs
@@ -55,7 +55,7 @@ impl Randomizer for DefaultRandomizer {
 #[cfg(vx_hooks)]
 pub mod hooks {
     use ::rand::{Error, RngCore};
-    use std::sync::Mutex;
+    use std::sync::{LockResult, Mutex, MutexGuard, TryLockError, TryLockResult};
 
     static WORDS: Mutex<Option<fn() -> u64>> = Mutex::new(None);
 
@@ -86,6 +86,64 @@ pub mod hooks {
             Ok(self.fill_bytes(dest))
         }
     }
+
+    /// What a thread is about to do.
+    #[derive(Clone, Copy, PartialEq)]
+    pub enum Event {
+        Lock,
+        Wait,
+    }
+
+    static SCHEDULER: Mutex<Option<fn(Event)>> = Mutex::new(None);
+
+    pub fn install_scheduler(scheduler: Option<fn(Event)>) {
+        *SCHEDULER.lock().unwrap() = scheduler;
+    }
+
+    /// A mutex that hands control to the installed scheduler before it is locked and while it is
+    /// held by another thread.
+    #[derive(Debug, Default)]
+    pub struct Lock<T>(Mutex<T>);
+
+    impl<T> Lock<T> {
+        pub const fn new(value: T) -> Self {
+            Self(Mutex::new(value))
+        }
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            let scheduler = *SCHEDULER.lock().unwrap();
+            let scheduler = match scheduler {
+                Some(f) => f,
+                None => return self.0.lock(),
+            };
+            scheduler(Event::Lock);
+            loop {
+                match self.0.try_lock() {
+                    Ok(guard) => return Ok(guard),
+                    Err(TryLockError::Poisoned(e)) => return Err(e),
+                    Err(TryLockError::WouldBlock) => scheduler(Event::Wait),
+                }
+            }
+        }
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            let scheduler = *SCHEDULER.lock().unwrap();
+            if let Some(f) = scheduler {
+                f(Event::Lock);
+            }
+            self.0.try_lock()
+        }
+        pub fn is_poisoned(&self) -> bool {
+            self.0.is_poisoned()
+        }
+        pub fn clear_poison(&self) {
+            self.0.clear_poison()
+        }
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+    }
 }
 
 #[cfg(vx_hooks)]
-- 
2.43.0


From 49be02937cfdea74c0e109ebb548bee74a2e5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:20 +0000
Subject: [PATCH 20/21] fix: dropping a long graph overflows the stack

---
 prima_undine/src/graph.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 51b0647..2c6bed3 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -89,6 +89,19 @@ impl<'arg, 'dev> OperatorInfo<'arg, 'dev> {
     }
 }
 
+impl<'arg, 'dev> Drop for OperatorInfo<'arg, 'dev> {
+    fn drop(&mut self) {
+        // operators that nothing else refers to are dropped here one after another, because
+        // dropping them from within each other needs a stack as deep as the graph
+        let mut args = std::mem::replace(&mut self.args, vec![]);
+        while let Some(arg) = args.pop() {
+            if let Ok(mut op_info) = Rc::try_unwrap(arg.op) {
+                args.append(&mut op_info.args);
+            }
+        }
+    }
+}
+
 fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
     let mut reached = HashSet::new();
     let mut queue = VecDeque::new();
-- 
2.43.0


From ff4420b55b75951fe409758a79edf01efce5e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 21/21] fix: logsumexp over two or more minus infinities is NaN

---
 prima_undine/src/devices/naive/logsumexp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prima_undine/src/devices/naive/logsumexp.rs b/prima_undine/src/devices/naive/logsumexp.rs
index 8b9580c..9b5c004 100644
--- a/prima_undine/src/devices/naive/logsumexp.rs
+++ b/prima_undine/src/devices/naive/logsumexp.rs
@@ -22,6 +22,9 @@ impl FunctionFwImpl for LogsumexpFwImpl {
                     let arg = *src.add(offset) as f64;
                     tmp = if tmp > arg {
                         tmp + (1. + (arg - tmp).exp()).ln()
+                    } else if arg.is_infinite() && tmp == arg {
+                        // the difference of equal infinities is not a number
+                        arg
                     } else {
                         arg + (1. + (tmp - arg).exp()).ln()
                     };
-- 
2.43.0

