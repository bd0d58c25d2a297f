From 17e706231b11325bc977a2b0ce5b46992f2e5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 01/14] fix: accumulate reverse-mode seeds of dependents that
 share a value

A value marked dependent more than once (or used by several abs() calls in an
abs-normal decomposition) kept only the last seed, so rows of the reverse
Jacobian and of mul_left products were lost.
---
 src/tape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index 1ca4cb9..f2e06f2 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -93,7 +93,7 @@ pub trait Tape: Send + Sync + fmt::Debug {
         let v = self.values();
         let mut vbar = vec![0.0; v.len()];
         for (idx, vid) in self.deps().iter().enumerate() {
-            vbar[*vid] = ybar[idx];
+            vbar[*vid] += ybar[idx];
         }
         for op in self.ops_iter().rev() {
             op.first_order_reverse(v, &mut vbar);
-- 
2.43.0


From 43b386307e60de6bd0942ac57d609109f4700436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 02/14] fix: build a column vector in the abs-normal column()
 accessor

mul_right() asserts that the row count equals ncols(), so column() panicked
unless the matrix had exactly one column.
---
 src/drivers/abs_normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/abs_normal.rs b/src/drivers/abs_normal.rs
index afc34b4..1b8e665 100644
--- a/src/drivers/abs_normal.rs
+++ b/src/drivers/abs_normal.rs
@@ -220,7 +220,7 @@ macro_rules! anf_matrix {
             }
 
             pub fn column(&self, i: usize) -> DMatrix<f64> {
-                let mut ind = DMatrix::zeros(1, self.num_indeps());
+                let mut ind = DMatrix::zeros(self.num_indeps(), 1);
                 ind[i] = 1.0;
                 self.mul_right(&ind)
             }
-- 
2.43.0


From b74efa18b036bdb271d33de2711b63c69f19bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 03/14] fix: let generalized_jacobian_chain default to at least
 two checkpoints

A chain of one function panicked with the default number of checkpoints because
reverse_sequence() needs two.
---
 src/drivers/generalized_jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/generalized_jacobian.rs b/src/drivers/generalized_jacobian.rs
index e5f4d1c..aa72f08 100644
--- a/src/drivers/generalized_jacobian.rs
+++ b/src/drivers/generalized_jacobian.rs
@@ -152,7 +152,7 @@ pub fn generalized_jacobian_chain(
     dx: DVector<f64>,
     ncheckpoints: Option<usize>,
 ) -> GeneralizedJacobian {
-    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len());
+    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len().max(2));
     reverse_sequence(
         (0, x, dx),
         chain.len(),
-- 
2.43.0


From 17880e84ed406a24929451d1bac3e602ae48a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 04/14] fix: do not preallocate unused checkpoints in
 reverse_sequence

A generous checkpoint limit (e.g. usize::MAX for "unlimited") panicked with a
capacity overflow although at most nsteps + 1 checkpoints are ever stored.
---
 src/drivers/checkpointing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/checkpointing.rs b/src/drivers/checkpointing.rs
index 271afc1..2d3d0be 100644
--- a/src/drivers/checkpointing.rs
+++ b/src/drivers/checkpointing.rs
@@ -103,7 +103,7 @@ where
     assert!(ncheckpoints >= 2);
 
     // Store x at index 0 as the first checkpoint
-    let mut checkpoints: VecDeque<(usize, T)> = VecDeque::with_capacity(ncheckpoints);
+    let mut checkpoints: VecDeque<(usize, T)> = VecDeque::with_capacity(ncheckpoints.min(nsteps + 1));
     checkpoints.push_back((0, x));
 
     // Length of the not-yet reversed sequence
-- 
2.43.0


From 77c23745304ad23b59f0ed5c10b7b0953f24f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 05/14] fix: keep the fraction when converting AFloat to a
 primitive float

The default ToPrimitive::to_f64 goes through to_i64, so casting an AFloat
truncated its value (2.7 became 2.0) or failed for large values.
---
 src/afloat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 46f5c3f..45ea116 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -205,6 +205,10 @@ impl<S: Float> ToPrimitive for AFloat<S> {
     fn to_u64(&self) -> Option<u64> {
         self.v.to_u64()
     }
+
+    fn to_f64(&self) -> Option<f64> {
+        self.v.to_f64()
+    }
 }
 
 impl<S: Float> NumCast for AFloat<S> {
-- 
2.43.0


From 7fc276963f22e3d372572b0b6ae35949d1059a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 06/14] fix: make AFloat::abs_sub the positive difference

Float::abs_sub is zero when self <= other; AFloat returned the absolute
difference.
---
 src/afloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index 45ea116..a355a66 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -374,7 +374,7 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn abs_sub(self, other: Self) -> Self {
-        (self - other).abs()
+        (self - other).max(Self::zero())
     }
 
     fn cbrt(self) -> Self {
-- 
2.43.0


From 155665b94316834d6d45d5df2ae4d5cb2bbfb390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 07/14] fix: forward Float::epsilon to the underlying type

The trait default is the f32 epsilon, so generic code saw a different machine
epsilon under ADouble than under f64.
---
 src/afloat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index a355a66..6c77a75 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -296,6 +296,7 @@ impl<S: Float> Float for AFloat<S> {
     float_constant!(min_value);
     float_constant!(min_positive_value);
     float_constant!(max_value);
+    float_constant!(epsilon);
 
     float_passthrough!(bool, is_nan);
     float_passthrough!(bool, is_infinite);
-- 
2.43.0


From 853440133382ac94db6691c4db6010950b6cd18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 08/14] fix: use the right operator for scalar-left C++
 arithmetic

1.0 - a, 1.0 * a and 1.0 / a all evaluated 1.0 + a.
---
 src/cxx/ADouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index aa94070..28cd2aa 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -77,7 +77,7 @@ const void* ADouble::get_impl() const
 	ADouble operator OP(double lhs_, const ADouble& rhs) \
 	{ \
 		auto lhs = ADouble(lhs_); \
-		return lhs + rhs; \
+		return lhs OP rhs; \
 	}
 BINARY_OP_IMPL(add, +)
 BINARY_OP_IMPL(sub, -)
-- 
2.43.0


From 1c64ed0d1d031cff61218aaf25d1377337e84d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 09/14] fix: copy before freeing in C++ ADouble copy assignment

Self-assignment read the freed value.
---
 src/cxx/ADouble.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index 28cd2aa..04fb48b 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -56,8 +56,9 @@ ADouble& ADouble::operator=(ADouble&& other)
 
 ADouble& ADouble::operator=(const ADouble& other)
 {
+	auto val = ::adv_adouble_copy(other.m_impl->val);
 	::adv_adouble_free(m_impl->val);
-	m_impl->val = ::adv_adouble_copy(other.m_impl->val);
+	m_impl->val = val;
 	return *this;
 }
 
-- 
2.43.0


From 536c5ffbc2aa0d470fa1daf1db6a3436579076b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 10/14] fix: differentiate x^0 at x = 0

The power is constant there, but 0 * 0^(-1) made its derivative NaN in forward
and reverse mode.
---
 src/operation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 79f6929..4bed900 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -68,7 +68,7 @@ pub(crate) fn first_order_value<S: Float>(
             let dx = darg1;
             let dy = darg2.unwrap();
 
-            let rv1 = if dx != S::zero() {
+            let rv1 = if dx != S::zero() && y != S::zero() {
                 y * x.powf(y - S::one()) * dx
             } else {
                 S::zero()
@@ -318,7 +318,9 @@ impl Operation {
                 // vbar_k += vbar_i * ∂v_i/∂v_k = vbar_i * v_j.ln() * v_j.powf(v_k)
                 let x = v[self.arg1.unwrap()];
                 let y = v[self.arg2.unwrap()];
-                vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
+                if y != 0.0 {
+                    vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
+                }
                 vbar[self.arg2.unwrap()] += vbar[self.vid] * x.ln() * x.powf(y);
             }
             OpCode::Abs => {
-- 
2.43.0


From ec38980acc6dedd6369ad1915d48a8eb7cbdd463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 11/14] fix: differentiate 0^y with respect to the exponent

---
 src/operation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 4bed900..ebe7916 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -73,7 +73,7 @@ pub(crate) fn first_order_value<S: Float>(
             } else {
                 S::zero()
             };
-            let rv2 = if dy != S::zero() {
+            let rv2 = if dy != S::zero() && (x != S::zero() || y <= S::zero()) {
                 x.ln() * x.powf(y) * dy
             } else {
                 S::zero()
@@ -321,7 +321,9 @@ impl Operation {
                 if y != 0.0 {
                     vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
                 }
-                vbar[self.arg2.unwrap()] += vbar[self.vid] * x.ln() * x.powf(y);
+                if x != 0.0 || y <= 0.0 {
+                    vbar[self.arg2.unwrap()] += vbar[self.vid] * x.ln() * x.powf(y);
+                }
             }
             OpCode::Abs => {
                 panic!("Abs-function encountered in first_order_reverse");
-- 
2.43.0


From 2f3331d761f33ca1c96bc57a445bf4b19bfa13f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 12/14] fix: take a recording's tape under one lock

---
 src/acontext.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 19b8d3d..80fc4d3 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -189,11 +189,12 @@ impl AContext {
 
     /// Get a tape
     pub fn tape(&self) -> impl Tape + Clone {
+        let inner = self.inner.lock().unwrap();
         AContextTape {
-            indeps: self.indeps(),
-            deps: self.deps(),
-            ops: self.operations(),
-            vals: self.values(),
+            indeps: inner.indeps.clone(),
+            deps: inner.deps.clone(),
+            ops: inner.ops.clone(),
+            vals: inner.vals.clone(),
         }
     }
 }
-- 
2.43.0


From 5053990add32b37a6b2895afb7a5116d8a644ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 13/14] fix: check the result size of adv_fn! functions that
 return early

---
 src/macros.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index da363d1..61249d3 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -56,9 +56,11 @@ macro_rules! adv_fn {
             f64: $crate::Arithmetic<Scalar, Scalar>,
         {
             assert_eq!($arg_name.nrows(), $($arg_dim)*);
-            let result = {
+            // The closure makes sure that early returns do not bypass the check below
+            #[allow(clippy::redundant_closure_call)]
+            let result = (|| -> $crate::DVector<Scalar> {
                 $($tt)*
-            };
+            })();
             assert_eq!(result.nrows(), $($result_dim)*);
             result
         }
-- 
2.43.0


From c33ce040db912f27b369fcfbca648827bda69ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:30 +0000
Subject: [PATCH 14/14] fix: accept attributes on adv_fn! functions with an
 argument list

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 61249d3..09334c8 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -83,7 +83,7 @@ macro_rules! adv_fn {
         }
     } => {
         adv_fn! {
-            $(#[$attr:meta])*
+            $(#[$attr])*
             $vis fn $func_name (__input: [[0 $(+ $crate::adv_replace!($arg_name 1usize))*]] $( , $extra_arg : $extra_type)* ) -> [[$($result_dim)*]] {
                 let __arg_counter = 0;
                 $(
-- 
2.43.0

