From e12ca4da15bf96be37dcda46c3576af330ee9247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:31 +0000
Subject: [PATCH 01/24] sim: guarded simulation seam for the float type (cfg
 scarlet_sim, off by default)

---
 src/lib.rs         |   3 +
 src/math/mod.rs    |   3 +
 src/math/scalar.rs |   3 +
 src/math/sim.rs    | 315 +++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 324 insertions(+)
 create mode 100644 src/math/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index f687f07..1bd110c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// cfg(scarlet_sim) enables the simulation seam in math::sim
+#![allow(unexpected_cfgs)]
+
 pub mod cameras;
 pub mod geometry;
 pub mod math;
diff --git a/src/math/mod.rs b/src/math/mod.rs
index 25f5470..42c37fb 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -5,5 +5,8 @@ pub mod vector;
 pub mod vector_traits;
 pub mod vectori;
 
+#[cfg(scarlet_sim)]
+pub mod sim;
+
 mod interval_as_gfloat;
 mod transform_inverse_impl;
diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1b97025..c37a0ea 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -3,7 +3,10 @@ use std::{
     ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, RemAssign, Sub, SubAssign},
 };
 
+#[cfg(not(scarlet_sim))]
 pub type Float = f32;
+#[cfg(scarlet_sim)]
+pub type Float = crate::math::sim::SimFloat;
 pub type Int = i32;
 pub type UInt = u32;
 
diff --git a/src/math/sim.rs b/src/math/sim.rs
new file mode 100644
index 0000000..d08aaae
--- /dev/null
+++ b/src/math/sim.rs
@@ -0,0 +1,315 @@
+//! Simulation seam, compiled only with `--cfg scarlet_sim`.
+//!
+//! `SimFloat` is a plain `f32` whose arithmetic and math-library operations are
+//! routed through an installable hook, so that a simulator can decide how each
+//! machine operation rounds and use every operation as a scheduling or abort
+//! point. Without an installed hook it behaves exactly like `f32`.
+
+use crate::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};
+use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, RemAssign, Sub, SubAssign};
+use std::sync::OnceLock;
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
+pub enum FloatOp {
+    Add,
+    Sub,
+    Mul,
+    Div,
+    Rem,
+    Sqrt,
+    Sin,
+    Cos,
+    Tan,
+    Asin,
+    Acos,
+    Atan,
+    Atan2,
+}
+
+/// Computes `op(a, b)`; `b` is zero for operations with one argument.
+pub type FloatHook = fn(op: FloatOp, a: f32, b: f32) -> f32;
+
+static HOOK: OnceLock<FloatHook> = OnceLock::new();
+
+/// Installs the hook. It can be installed once per process.
+pub fn install_float_hook(hook: FloatHook) -> bool {
+    HOOK.set(hook).is_ok()
+}
+
+#[inline]
+fn call(op: FloatOp, a: f32, b: f32) -> f32 {
+    match HOOK.get() {
+        Some(hook) => hook(op, a, b),
+        None => native(op, a, b),
+    }
+}
+
+/// What the hardware and the platform's math library return.
+pub fn native(op: FloatOp, a: f32, b: f32) -> f32 {
+    match op {
+        FloatOp::Add => a + b,
+        FloatOp::Sub => a - b,
+        FloatOp::Mul => a * b,
+        FloatOp::Div => a / b,
+        FloatOp::Rem => a % b,
+        FloatOp::Sqrt => a.sqrt(),
+        FloatOp::Sin => a.sin(),
+        FloatOp::Cos => a.cos(),
+        FloatOp::Tan => a.tan(),
+        FloatOp::Asin => a.asin(),
+        FloatOp::Acos => a.acos(),
+        FloatOp::Atan => a.atan(),
+        FloatOp::Atan2 => a.atan2(b),
+    }
+}
+
+#[derive(Clone, Copy, Default, PartialEq, PartialOrd)]
+#[repr(transparent)]
+pub struct SimFloat(pub f32);
+
+impl std::fmt::Debug for SimFloat {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        std::fmt::Debug::fmt(&self.0, f)
+    }
+}
+impl std::fmt::Display for SimFloat {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        std::fmt::Display::fmt(&self.0, f)
+    }
+}
+impl From<f32> for SimFloat {
+    fn from(x: f32) -> Self {
+        SimFloat(x)
+    }
+}
+impl From<SimFloat> for f32 {
+    fn from(x: SimFloat) -> f32 {
+        x.0
+    }
+}
+
+macro_rules! binary_op {
+    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:expr) => {
+        impl $tr for SimFloat {
+            type Output = SimFloat;
+            fn $f(self, rhs: SimFloat) -> SimFloat {
+                SimFloat(call($op, self.0, rhs.0))
+            }
+        }
+        impl $tr<f32> for SimFloat {
+            type Output = SimFloat;
+            fn $f(self, rhs: f32) -> SimFloat {
+                SimFloat(call($op, self.0, rhs))
+            }
+        }
+        impl $tr<SimFloat> for f32 {
+            type Output = SimFloat;
+            fn $f(self, rhs: SimFloat) -> SimFloat {
+                SimFloat(call($op, self, rhs.0))
+            }
+        }
+        impl $tra for SimFloat {
+            fn $fa(&mut self, rhs: SimFloat) {
+                self.0 = call($op, self.0, rhs.0)
+            }
+        }
+        impl $tra<f32> for SimFloat {
+            fn $fa(&mut self, rhs: f32) {
+                self.0 = call($op, self.0, rhs)
+            }
+        }
+    };
+}
+binary_op!(Add, add, AddAssign, add_assign, FloatOp::Add);
+binary_op!(Sub, sub, SubAssign, sub_assign, FloatOp::Sub);
+binary_op!(Mul, mul, MulAssign, mul_assign, FloatOp::Mul);
+binary_op!(Div, div, DivAssign, div_assign, FloatOp::Div);
+binary_op!(Rem, rem, RemAssign, rem_assign, FloatOp::Rem);
+
+impl Neg for SimFloat {
+    type Output = SimFloat;
+    fn neg(self) -> SimFloat {
+        SimFloat(-self.0)
+    }
+}
+impl PartialEq<f32> for SimFloat {
+    fn eq(&self, other: &f32) -> bool {
+        self.0 == *other
+    }
+}
+impl PartialOrd<f32> for SimFloat {
+    fn partial_cmp(&self, other: &f32) -> Option<std::cmp::Ordering> {
+        self.0.partial_cmp(other)
+    }
+}
+
+// the inherent methods of f32 that take precedence over the trait methods
+impl SimFloat {
+    pub const INFINITY: SimFloat = SimFloat(f32::INFINITY);
+    pub const NEG_INFINITY: SimFloat = SimFloat(f32::NEG_INFINITY);
+    pub const NAN: SimFloat = SimFloat(f32::NAN);
+    pub const MAX: SimFloat = SimFloat(f32::MAX);
+    pub const MIN: SimFloat = SimFloat(f32::MIN);
+    pub const MIN_POSITIVE: SimFloat = SimFloat(f32::MIN_POSITIVE);
+    pub const EPSILON: SimFloat = SimFloat(f32::EPSILON);
+
+    pub fn abs(self) -> Self {
+        SimFloat(self.0.abs())
+    }
+    pub fn signum(self) -> Self {
+        SimFloat(self.0.signum())
+    }
+    pub fn copysign(self, sign: Self) -> Self {
+        SimFloat(self.0.copysign(sign.0))
+    }
+    pub fn min(self, other: Self) -> Self {
+        SimFloat(self.0.min(other.0))
+    }
+    pub fn max(self, other: Self) -> Self {
+        SimFloat(self.0.max(other.0))
+    }
+    pub fn clamp(self, lo: Self, hi: Self) -> Self {
+        SimFloat(self.0.clamp(lo.0, hi.0))
+    }
+    pub fn is_nan(self) -> bool {
+        self.0.is_nan()
+    }
+    pub fn is_finite(self) -> bool {
+        self.0.is_finite()
+    }
+    pub fn is_infinite(self) -> bool {
+        self.0.is_infinite()
+    }
+    pub fn is_sign_positive(self) -> bool {
+        self.0.is_sign_positive()
+    }
+    pub fn is_sign_negative(self) -> bool {
+        self.0.is_sign_negative()
+    }
+    pub fn to_bits(self) -> u32 {
+        self.0.to_bits()
+    }
+    pub fn from_bits(bits: u32) -> Self {
+        SimFloat(f32::from_bits(bits))
+    }
+    pub fn recip(self) -> Self {
+        SimFloat(call(FloatOp::Div, 1.0, self.0))
+    }
+    pub fn powi(self, n: i32) -> Self {
+        SimFloat(self.0.powi(n))
+    }
+    pub fn mul_add(self, a: Self, b: Self) -> Self {
+        SimFloat(self.0.mul_add(a.0, b.0))
+    }
+    pub fn hypot(self, other: Self) -> Self {
+        SimFloat(self.0.hypot(other.0))
+    }
+    pub fn floor(self) -> Self {
+        SimFloat(self.0.floor())
+    }
+    pub fn ceil(self) -> Self {
+        SimFloat(self.0.ceil())
+    }
+    pub fn sqrt(self) -> Self {
+        SimFloat(call(FloatOp::Sqrt, self.0, 0.0))
+    }
+    pub fn sin(self) -> Self {
+        SimFloat(call(FloatOp::Sin, self.0, 0.0))
+    }
+    pub fn cos(self) -> Self {
+        SimFloat(call(FloatOp::Cos, self.0, 0.0))
+    }
+    pub fn sin_cos(self) -> (Self, Self) {
+        (self.sin(), self.cos())
+    }
+    pub fn tan(self) -> Self {
+        SimFloat(call(FloatOp::Tan, self.0, 0.0))
+    }
+    pub fn asin(self) -> Self {
+        SimFloat(call(FloatOp::Asin, self.0, 0.0))
+    }
+    pub fn acos(self) -> Self {
+        SimFloat(call(FloatOp::Acos, self.0, 0.0))
+    }
+    pub fn atan(self) -> Self {
+        SimFloat(call(FloatOp::Atan, self.0, 0.0))
+    }
+    pub fn atan2(self, rhs: Self) -> Self {
+        SimFloat(call(FloatOp::Atan2, self.0, rhs.0))
+    }
+}
+
+impl Scalar for SimFloat {
+    fn zero() -> Self {
+        SimFloat(<f32 as Scalar>::zero())
+    }
+    fn one() -> Self {
+        SimFloat(<f32 as Scalar>::one())
+    }
+    fn lowest() -> Self {
+        SimFloat(<f32 as Scalar>::lowest())
+    }
+    fn highest() -> Self {
+        SimFloat(<f32 as Scalar>::highest())
+    }
+}
+impl SignedScalar for SimFloat {}
+
+macro_rules! constants {
+    ($($f:ident)*) => { $(fn $f() -> Self { SimFloat(<f32 as GFloat>::$f()) })* };
+}
+macro_rules! functions {
+    ($($f:ident)*) => { $(fn $f(self) -> Self { SimFloat::$f(self) })* };
+}
+
+impl GFloat for SimFloat {
+    fn next_up(self) -> Self {
+        SimFloat(GFloat::next_up(self.0))
+    }
+    fn next_down(self) -> Self {
+        SimFloat(GFloat::next_down(self.0))
+    }
+    fn to_i64(self) -> i64 {
+        GFloat::to_i64(self.0)
+    }
+    fn to_f32(self) -> f32 {
+        GFloat::to_f32(self.0)
+    }
+    fn to_f64(self) -> f64 {
+        GFloat::to_f64(self.0)
+    }
+    fn from_i64(rhs: i64) -> Self {
+        SimFloat(GFloat::from_i64(rhs))
+    }
+    fn from_f32(rhs: f32) -> Self {
+        SimFloat(GFloat::from_f32(rhs))
+    }
+    fn from_f64(rhs: f64) -> Self {
+        SimFloat(GFloat::from_f64(rhs))
+    }
+    fn is_nan(self) -> bool {
+        GFloat::is_nan(self.0)
+    }
+    fn is_finite(self) -> bool {
+        GFloat::is_finite(self.0)
+    }
+    fn is_infinite(self) -> bool {
+        GFloat::is_infinite(self.0)
+    }
+    constants! { nan infinity neg_infinity neg_zero min_positive_value half pi tau frac_pi_2
+    frac_pi_4 abs_epsilon rel_epsilon pi_lower pi_upper tau_lower tau_upper frac_pi_2_lower
+    frac_pi_2_upper frac_pi_4_lower frac_pi_4_upper }
+    functions! { sqrt sin cos tan asin acos atan }
+    fn sin_cos(self) -> (Self, Self) {
+        SimFloat::sin_cos(self)
+    }
+    fn atan2(self, rhs: Self) -> Self {
+        SimFloat::atan2(self, rhs)
+    }
+}
+
+impl AlmostEqual for SimFloat {
+    fn almost_eq(self, other: Self) -> bool {
+        self.fequals(other)
+    }
+}
-- 
2.43.0


From 1372df1473e19c6dfb5c63312b4411a487e4c7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 02/24] fix: PrimitiveList::intersect returned the last hit
 instead of the nearest one

---
 src/geometry/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 9adb447..57424ea 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -151,7 +151,7 @@ impl IntersectsRay for PrimitiveList {
         let mut result = None;
         let mut ray_mut = ray;
         for primitive_handle in self.primitives.iter() {
-            if let Some(intersection_result) = (*primitive_handle).intersect(ray) {
+            if let Some(intersection_result) = (*primitive_handle).intersect(ray_mut) {
                 ray_mut.tmax = intersection_result.t_ray;
                 result = Some(intersection_result);
             }
-- 
2.43.0


From 5a5054623be9291fd8600194ff49046823ee38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 03/24] fix: product of two intervals around zero lost its
 upper bound

---
 src/math/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 92e275f..d07f080 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -239,7 +239,7 @@ impl<T: GFloat> std::ops::Mul<Self> for Interval<T> {
             } else {
                 Self::new(
                     (a.inf * b.sup).min(a.sup * b.inf).next_down(),
-                    (a.inf * a.inf).max(b.sup * b.sup).next_up(),
+                    (a.inf * b.inf).max(a.sup * b.sup).next_up(),
                 )
             }
         }
-- 
2.43.0


From ea4c2a294f622d8aed60370082fe440c1cd62f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 04/24] fix: square root of an interval reaching below zero was
 not an interval

---
 src/math/interval.rs           | 6 +++++-
 src/math/interval_as_gfloat.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index d07f080..06db097 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -63,7 +63,11 @@ impl<T: GFloat> Interval<T> {
     }
     #[inline]
     pub fn sqrt(self) -> Self {
-        Self::new(self.inf.sqrt().next_down(), self.sup.sqrt().next_up())
+        // the part of the interval below zero has no root
+        Self::new(
+            self.inf.max(T::zero()).sqrt().next_down(),
+            self.sup.sqrt().next_up(),
+        )
     }
     #[inline]
     pub fn approx(self) -> T {
diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 8109230..a3b1baf 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -72,7 +72,7 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn sqrt(self) -> Self {
         Self::from(T::min_max(
-            self.inf.sqrt().next_down(),
+            self.inf.max(T::zero()).sqrt().next_down(),
             self.sup.sqrt().next_up(),
         ))
     }
-- 
2.43.0


From e6421578197de2663c9224652e1b097cb2d047f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 05/24] fix: upper bound of pi in single precision was below pi

---
 src/math/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index c37a0ea..e36ff66 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -503,7 +503,7 @@ impl GFloat for f32 {
     }
     #[inline]
     fn pi_upper() -> Self {
-        13176794.0f32 / ((1 << 22) as f32)
+        13176795.0f32 / ((1 << 22) as f32)
     }
     #[inline]
     fn tau_lower() -> Self {
-- 
2.43.0


From 820a75e3f72a4bc2c1915dc24829aed036104df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 06/24] fix: interval sine and cosine lost extrema inside the
 argument

---
 src/math/interval_as_gfloat.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index a3b1baf..edfd356 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -78,8 +78,8 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
 
     fn sin(self) -> Self {
-        let diff = self.sup - self.inf;
-        if diff >= T::tau() {
+        let diff = (self.sup - self.inf).next_up();
+        if diff >= T::tau_lower() {
             return Self::new(-T::one(), T::one());
         }
 
@@ -87,6 +87,10 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         // same side
         if cos_inf.signum() == cos_sup.signum() {
+            // both extrema may lie in between
+            if diff >= T::pi_lower() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.sin(), self.sup.sin());
             Self::new(t0.next_down(), t1.next_up())
         } else {
@@ -101,20 +105,32 @@ impl<T: GFloat> GFloat for Interval<T> {
         }
     }
     fn cos(self) -> Self {
-        let diff = self.sup - self.inf;
-        if diff >= T::tau() {
+        let diff = (self.sup - self.inf).next_up();
+        if diff >= T::tau_lower() {
             return Self::new(-T::one(), T::one());
         }
 
         let (sin_inf, sin_sup) = (self.inf.sin(), self.sup.sin());
 
+        // the derivative vanishes at zero: take its sign inside the interval
+        let falling_at_inf = sin_inf.is_nonnegative();
+        let falling_at_sup = if self.is_exact() {
+            falling_at_inf
+        } else {
+            sin_sup.is_positive()
+        };
+
         // same side
-        if sin_inf.signum() == sin_sup.signum() {
+        if falling_at_inf == falling_at_sup {
+            // both extrema may lie in between
+            if diff >= T::pi_lower() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.cos(), self.sup.cos());
             Self::new(t0.next_down(), t1.next_up())
         } else {
             // minima
-            if sin_inf.is_positive() {
+            if falling_at_inf {
                 Self::new(-T::one(), self.inf.cos().max(self.sup.cos()).next_up())
             }
             // maxima
-- 
2.43.0


From d58e64b5138dbd4f5629f88131fd964de721649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 07/24] fix: interval arcsine and arccosine were cut to the
 first quadrant

---
 src/math/interval_as_gfloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index edfd356..282e612 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -151,12 +151,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn asin(self) -> Self {
         self.map_monotonic_inc(T::asin)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(-T::frac_pi_2_upper(), T::frac_pi_2_upper()))
     }
     #[inline]
     fn acos(self) -> Self {
         self.map_monotonic_dec(T::acos)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(T::zero(), T::pi_upper()))
     }
     #[inline]
     fn atan(self) -> Self {
-- 
2.43.0


From 567c7a76df0572dfd8728dd9face315e8b40ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 08/24] fix: interval atan2 was zero on the coordinate axes

---
 src/math/interval_as_gfloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 282e612..936a315 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -167,7 +167,7 @@ impl<T: GFloat> GFloat for Interval<T> {
         let y = self;
         let x = rhs;
 
-        if x.is_zero() || y.is_zero() {
+        if x.is_zero() && y.is_zero() {
             Interval::zero()
         }
         // X >= 0  -> first and fourth quadrants
-- 
2.43.0


From ab2fc4ab08c15d9947a54d12f0800bc9c2331584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 09/24] fix: interval atan2 took a rounded pi for the exact one

---
 src/math/interval_as_gfloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 936a315..7783d00 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -182,12 +182,12 @@ impl<T: GFloat> GFloat for Interval<T> {
         else if x.is_nonpositive() {
             // X <= 0 && Y >= 0 -> second quadrant
             if y.is_nonnegative() {
-                ((y / x).map_monotonic_inc(T::atan) + T::pi())
+                ((y / x).map_monotonic_inc(T::atan) + Self::pi())
                     .intersect(Interval::new(T::frac_pi_2_lower(), T::pi_upper()))
             }
             // X <= 0 && Y <= 0 -> third quadrant
             else if y.is_negative() {
-                ((y / x).map_monotonic_inc(T::atan) - T::pi())
+                ((y / x).map_monotonic_inc(T::atan) - Self::pi())
                     .intersect(Interval::new(-T::pi_upper(), -T::frac_pi_2_lower()))
             }
             // sign is uncertain. if y > 0 we get pi and if y < 0 we get -pi
-- 
2.43.0


From d5099ceb703c0790484508ef68df053404ac037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 10/24] fix: affine map of an interval vector always panicked

---
 src/math/transform.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 4b5e6c4..2a4d10c 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -501,10 +501,9 @@ where
     T: Scalar,
     U: Scalar + Mul<T, Output = U>,
 {
-    assert_eq!(
-        vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)],
-        U::zero()
-    );
+    let w = vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)];
+    // an interval around zero is neither equal to zero nor ordered against it
+    assert!(!(w < U::zero() || w > U::zero()));
     Vector3::new(
         vec.x() * m[(0, 0)] + vec.y() * m[(0, 1)] + vec.z() * m[(0, 2)],
         vec.x() * m[(1, 0)] + vec.y() * m[(1, 1)] + vec.z() * m[(1, 2)],
-- 
2.43.0


From f51000f792bb5d521a5acd11957a0248bf63c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 11/24] fix: normals were mapped with an extra factor n.z

---
 src/math/transform.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 2a4d10c..b8fab5d 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -564,9 +564,9 @@ where
 {
     // normals are mapped by the inverse transpose of the transformation matrix
     Normal3::new(
-        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)] * n.z(),
-        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)] * n.z(),
-        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)] * n.z(),
+        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)],
+        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)],
+        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)],
     )
 }
 
-- 
2.43.0


From 3c18edf985e134c01b5bd3a5fdfb95fea69420ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 12/24] fix: mapped bounding box summed columns instead of rows

---
 src/geometry/bbox.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index fa31a65..869c728 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -298,11 +298,11 @@ fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
             let b = m[i][j] * bbox_pmax[j];
 
             if a < b {
-                pmin[j] += a;
-                pmax[j] += b;
+                pmin[i] += a;
+                pmax[i] += b;
             } else {
-                pmin[j] += b;
-                pmax[j] += a;
+                pmin[i] += b;
+                pmax[i] += a;
             }
         }
     }
-- 
2.43.0


From bcb8819dbc625367819207125e4c515d62ff4869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 13/24] fix: mapping the empty bounding box made it cover
 everything

---
 src/geometry/bbox.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index 869c728..7259659 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -284,6 +284,11 @@ impl TransformMap<Bbox3> for Transformf {
 
 #[inline(always)]
 fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
+    // an empty box stays empty
+    if bbox.xmin() > bbox.xmax() || bbox.ymin() > bbox.ymax() || bbox.zmin() > bbox.zmax() {
+        return Bbox3::default();
+    }
+
     // Graphics Gems: Transforming Axis-aligned Bounding Boxes
     // by James Arvo 1990
     let mut pmin = m.col(3);
-- 
2.43.0


From 8aadfe4dfb0a0e43ad5795c8140d1392307082a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 14/24] fix: transformed primitives reported hits in object
 coordinates

---
 src/geometry/primitive.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 57424ea..e9432dd 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -110,7 +110,18 @@ impl<T: Primitive> IntersectsRay for TransformedPrimitive<T> {
     fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
         // note that "t" computed in object space is the same as in world space
         let transformed_ray = self.world_to_object(ray);
-        self.primitive.intersect(transformed_ray)
+        let result = self.primitive.intersect(transformed_ray)?;
+        let interaction = result.surface_interaction;
+        Some(IntersectionResult {
+            surface_interaction: SurfaceInteraction {
+                p: self.object_to_world(interaction.p),
+                n: self.object_to_world(interaction.n).normalize(),
+                uv: interaction.uv,
+                dpdu: self.object_to_world(interaction.dpdu),
+                dpdv: self.object_to_world(interaction.dpdv),
+            },
+            t_ray: result.t_ray,
+        })
     }
 
     fn do_intersect(&self, ray: Rayf) -> bool {
-- 
2.43.0


From 804b26057a577ca62f63984227988741a3d5fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 15/24] fix: polar angle on the lower half of a sphere was
 clamped to the equator

---
 src/geometry/sphere.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 550ee7a..6e4f317 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -49,8 +49,8 @@ impl Sphere {
     pub fn new(radius: Float, z_min: Float, z_max: Float, phi_max: Float) -> Self {
         assert!(z_min < z_max);
 
-        let theta_min = Float::clamp(z_min / radius, Float::zero(), Float::one()).acos();
-        let theta_max = Float::clamp(z_max / radius, Float::zero(), Float::one()).acos();
+        let theta_min = Float::clamp(z_min / radius, -Float::one(), Float::one()).acos();
+        let theta_max = Float::clamp(z_max / radius, -Float::one(), Float::one()).acos();
 
         Self {
             radius,
@@ -125,7 +125,7 @@ impl IntersectsRay for Sphere {
         let t_ray = intersection_params.t_ray;
         let p = intersection_params.p;
         let phi = intersection_params.phi;
-        let theta = Float::clamp(p.z() / self.radius, Float::zero(), Float::one()).acos();
+        let theta = Float::clamp(p.z() / self.radius, -Float::one(), Float::one()).acos();
 
         let sin_theta = theta.sin();
         let (sin_phi, cos_phi) = phi.sin_cos();
-- 
2.43.0


From 51cbc97307b7fcf6aabbe6f27059e6684a6b9e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 16/24] fix: thin lens film covered a quarter of the field of
 view

---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index b5d3887..0ef043e 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -56,7 +56,7 @@ impl ThinLensCamera {
         let film_distance = focal_distance * focal_length / (focal_distance - focal_length);
 
         // field of view h
-        let film_width = Float::half() * (fov * Float::half()).tan() * film_distance;
+        let film_width = Float::from_i64(2) * (fov * Float::half()).tan() * film_distance;
         let film_height = film_width / aspect_ratio;
 
         Self {
-- 
2.43.0


From 51024125b64d98fe58481f664227bc23c095fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 17/24] fix: thin lens rays met in front of the focal plane

---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index 0ef043e..f7f56ab 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -95,7 +95,7 @@ impl Camera for ThinLensCamera {
         );
 
         // find t at z = -focal_distance
-        let t = -self.focal_distance / film_to_lens.direction.z();
+        let t = (-self.focal_distance - p_film.z()) / film_to_lens.direction.z();
         let p_at_focal_plane = film_to_lens.eval(t);
 
         // now the result is a ray passing from p_lens to p_at_focal_plane
-- 
2.43.0


From 38c6d3f0385b1a1f656441c4b2434b179b804818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:05 +0000
Subject: [PATCH 18/24] fix: area of a sphere left out the sweep below angle
 zero

---
 src/geometry/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 6e4f317..202921e 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -111,7 +111,7 @@ impl Sphere {
     }
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
-        self.phi_max * self.radius * (self.z_max - self.z_min)
+        (self.phi_max + Float::pi()) * self.radius * (self.z_max - self.z_min)
     }
 }
 
-- 
2.43.0


From 1e8495ac350f8295ce9b8137d5002b2234c1e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:05 +0000
Subject: [PATCH 19/24] fix: is_infinite of floats answered is_finite

---
 src/math/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index e36ff66..ed0fbf6 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -463,7 +463,7 @@ impl GFloat for f32 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
@@ -656,7 +656,7 @@ impl GFloat for f64 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
-- 
2.43.0


From 3b9e5898fe2c03228a69e413799d1c4acaba4e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:52 +0000
Subject: [PATCH 20/24] fix: an interval made from an unrepresentable i64 or
 f64 contains that number

---
 src/math/interval_as_gfloat.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 7783d00..c598037 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -26,7 +26,13 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn from_i64(rhs: i64) -> Self {
-        Self::from(T::from_i64(rhs))
+        let t = Self::from(T::from_i64(rhs));
+        // not every integer is representable
+        if t.inf.to_f64() as i128 == rhs as i128 {
+            t
+        } else {
+            t.extend_by_ulp()
+        }
     }
     #[inline]
     fn from_f32(rhs: f32) -> Self {
@@ -34,7 +40,13 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn from_f64(rhs: f64) -> Self {
-        Self::from(T::from_f64(rhs))
+        let t = Self::from(T::from_f64(rhs));
+        // not every double is representable
+        if t.inf.to_f64() == rhs {
+            t
+        } else {
+            t.extend_by_ulp()
+        }
     }
     #[inline]
     fn nan() -> Self {
-- 
2.43.0


From ba23759fe9e7ff45ace349a1db46e80e214986b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:55 +0000
Subject: [PATCH 21/24] fix: min_max, clamp and signum of overlapping or
 sign-crossing intervals enclose the result

---
 src/math/interval.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 06db097..b1bcea4 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -430,11 +430,24 @@ impl<T: GFloat> Scalar for Interval<T> {
         Self::new(self.inf.min(other.inf), self.sup.min(other.sup))
     }
     #[inline]
+    fn min_max(self, other: Self) -> (Self, Self) {
+        // overlapping intervals can not be sorted
+        (Scalar::min(self, other), Scalar::max(self, other))
+    }
+    #[inline]
+    fn clamp(self, lo: Self, hi: Self) -> Self {
+        Scalar::min(Scalar::max(self, lo), hi)
+    }
+    #[inline]
     fn square(self) -> Self {
         self.square()
     }
 }
 impl<T: GFloat> SignedScalar for Interval<T> {
+    #[inline]
+    fn signum(self) -> Self {
+        Self::new(self.inf.signum(), self.sup.signum())
+    }
     #[inline]
     fn abs(self) -> Self {
         if self.inf.is_negative() {
-- 
2.43.0


From 53b8b0206e4ed01d88208164b041bc968dece93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:35 +0000
Subject: [PATCH 22/24] fix: area of a sphere counted height limits beyond the
 sphere

---
 src/geometry/sphere.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 202921e..531f643 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -111,7 +111,10 @@ impl Sphere {
     }
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
-        (self.phi_max + Float::pi()) * self.radius * (self.z_max - self.z_min)
+        // height limits may lie beyond the sphere
+        let z_min = Float::clamp(self.z_min, -self.radius, self.radius);
+        let z_max = Float::clamp(self.z_max, -self.radius, self.radius);
+        (self.phi_max + Float::pi()) * self.radius * (z_max - z_min)
     }
 }
 
-- 
2.43.0


From 925ca8c721be3cea18a3717ae95786d20ab4cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:29 +0000
Subject: [PATCH 23/24] fix: the interval NaN constant panicked in debug builds

---
 src/math/interval_as_gfloat.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index c598037..cda6c93 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -50,7 +50,10 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn nan() -> Self {
-        Self::new(T::nan(), T::nan())
+        Self {
+            inf: T::nan(),
+            sup: T::nan(),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 3c8db3e7b49058d6dd97a4c78cc8fe51d75f363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:13 +0000
Subject: [PATCH 24/24] fix: area of a sphere whose radius is negative or not a
 number panicked

---
 src/geometry/sphere.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 531f643..3220948 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -112,8 +112,8 @@ impl Sphere {
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
         // height limits may lie beyond the sphere
-        let z_min = Float::clamp(self.z_min, -self.radius, self.radius);
-        let z_max = Float::clamp(self.z_max, -self.radius, self.radius);
+        let z_min = Float::max(Float::min(self.z_min, self.radius), -self.radius);
+        let z_max = Float::max(Float::min(self.z_max, self.radius), -self.radius);
         (self.phi_max + Float::pi()) * self.radius * (z_max - z_min)
     }
 }
-- 
2.43.0

