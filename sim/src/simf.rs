//! Float types of the simulation. `S32` and `S64` implement the library's own float
//! trait and route every operation through the simulated environment; `f32` and `f64`
//! run the library's real types, with the rounding direction set in the hardware
//! control register around each call.

use crate::env;
use crate::fpu::{self, Mode};
#[cfg(feature = "seam")]
use crate::fpu::Op;
use scarlet::math::scalar::{AlmostEqual, Float, GFloat};
#[cfg(feature = "seam")]
use scarlet::math::scalar::{Scalar, SignedScalar};

pub trait Fl: GFloat + AlmostEqual + 'static {
    const NAME: &'static str;
    const BITS: u32;
    /// real hardware type, no per-operation control
    const PLAIN: bool;
    fn of(x: f64) -> Self;
    fn val(self) -> f64;
    fn eps() -> f64 {
        if Self::BITS == 32 {
            2f64.powi(-23)
        } else {
            2f64.powi(-52)
        }
    }
    fn max_val() -> f64 {
        if Self::BITS == 32 {
            f32::MAX as f64
        } else {
            f64::MAX
        }
    }
    fn up(x: f64) -> f64 {
        if Self::BITS == 32 {
            fpu::up32(x as f32) as f64
        } else {
            fpu::up64(x)
        }
    }
    fn down(x: f64) -> f64 {
        -Self::up(-x)
    }
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const BITS: u32 = 32;
    const PLAIN: bool = true;
    fn of(x: f64) -> Self {
        x as f32
    }
    fn val(self) -> f64 {
        self as f64
    }
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const BITS: u32 = 64;
    const PLAIN: bool = true;
    fn of(x: f64) -> Self {
        x
    }
    fn val(self) -> f64 {
        self
    }
}

/// A library call on values of type `T`. `libm`: the call uses the math library, which
/// must run in the default control state on the plain types.
pub fn call<T: Fl, R>(libm: bool, f: impl FnOnce() -> R) -> Result<R, env::Fail> {
    if T::PLAIN {
        let m = if libm { Mode::Near } else { env::plain_mode() };
        plain(m, f)
    } else {
        env::lib(f)
    }
}
pub fn plain<R>(m: Mode, f: impl FnOnce() -> R) -> Result<R, env::Fail> {
    if m == Mode::Near {
        return env::lib(f);
    }
    let mut f = Some(f);
    env::lib(|| fpu::with_csr(m.csr(), &mut || (f.take().unwrap())()))
}
/// A library call on the library's `Float` types (scenes, shapes, cameras).
pub fn fcall<R>(libm: bool, f: impl FnOnce() -> R) -> Result<R, env::Fail> {
    #[cfg(scarlet_sim)]
    {
        let _ = libm;
        env::lib(f)
    }
    #[cfg(not(scarlet_sim))]
    {
        let m = if libm { Mode::Near } else { env::plain_mode() };
        plain(m, f)
    }
}

#[inline]
pub fn fl(x: f64) -> Float {
    Float::from(x as f32)
}
#[inline]
#[allow(clippy::useless_conversion)]
pub fn un(x: Float) -> f64 {
    f32::from(x) as f64
}
#[inline]
pub fn bits(x: Float) -> u32 {
    #[allow(clippy::useless_conversion)]
    let v = f32::from(x);
    if v.is_nan() {
        0x7fc0_0000
    } else {
        v.to_bits()
    }
}

#[cfg(feature = "seam")]
macro_rules! sim_type {
    ($S:ident, $t:ty, $fp:path, $fi:path, $fd:path, $name:literal, $bits:literal) => {
        #[derive(Clone, Copy, PartialEq, PartialOrd)]
        pub struct $S(pub $t);
        impl std::fmt::Debug for $S {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}", self.0)
            }
        }
        sim_type!(@bin $S, $fp, Add, add, AddAssign, add_assign);
        sim_type!(@bin $S, $fp, Sub, sub, SubAssign, sub_assign);
        sim_type!(@bin $S, $fp, Mul, mul, MulAssign, mul_assign);
        sim_type!(@bin $S, $fp, Div, div, DivAssign, div_assign);
        sim_type!(@bin $S, $fp, Rem, rem, RemAssign, rem_assign);
        impl std::ops::Neg for $S {
            type Output = $S;
            fn neg(self) -> $S {
                $S(-self.0)
            }
        }
        impl Scalar for $S {
            fn zero() -> Self {
                $S(<$t as Scalar>::zero())
            }
            fn one() -> Self {
                $S(<$t as Scalar>::one())
            }
            fn lowest() -> Self {
                $S(<$t as Scalar>::lowest())
            }
            fn highest() -> Self {
                $S(<$t as Scalar>::highest())
            }
        }
        impl SignedScalar for $S {}
        impl AlmostEqual for $S {
            fn almost_eq(self, other: Self) -> bool {
                self.fequals(other)
            }
        }
        impl GFloat for $S {
            fn next_up(self) -> Self {
                $S(GFloat::next_up(self.0))
            }
            fn next_down(self) -> Self {
                $S(GFloat::next_down(self.0))
            }
            fn to_i64(self) -> i64 {
                GFloat::to_i64(self.0)
            }
            fn to_f32(self) -> f32 {
                GFloat::to_f32(self.0)
            }
            fn to_f64(self) -> f64 {
                GFloat::to_f64(self.0)
            }
            fn from_i64(rhs: i64) -> Self {
                $S(env::convert(|m| $fi(rhs, m)))
            }
            fn from_f32(rhs: f32) -> Self {
                $S(GFloat::from_f32(rhs))
            }
            fn from_f64(rhs: f64) -> Self {
                $S(env::convert(|m| $fd(rhs, m)))
            }
            fn is_nan(self) -> bool {
                GFloat::is_nan(self.0)
            }
            fn is_finite(self) -> bool {
                GFloat::is_finite(self.0)
            }
            fn is_infinite(self) -> bool {
                GFloat::is_infinite(self.0)
            }
            sim_type!(@consts $S, $t, nan infinity neg_infinity neg_zero min_positive_value half pi tau
                frac_pi_2 frac_pi_4 abs_epsilon rel_epsilon pi_lower pi_upper tau_lower tau_upper
                frac_pi_2_lower frac_pi_2_upper frac_pi_4_lower frac_pi_4_upper);
            fn sqrt(self) -> Self {
                $S($fp(Op::Sqrt, self.0, 0.0))
            }
            fn sin(self) -> Self {
                $S($fp(Op::Sin, self.0, 0.0))
            }
            fn cos(self) -> Self {
                $S($fp(Op::Cos, self.0, 0.0))
            }
            fn sin_cos(self) -> (Self, Self) {
                (GFloat::sin(self), GFloat::cos(self))
            }
            fn tan(self) -> Self {
                $S($fp(Op::Tan, self.0, 0.0))
            }
            fn asin(self) -> Self {
                $S($fp(Op::Asin, self.0, 0.0))
            }
            fn acos(self) -> Self {
                $S($fp(Op::Acos, self.0, 0.0))
            }
            fn atan(self) -> Self {
                $S($fp(Op::Atan, self.0, 0.0))
            }
            fn atan2(self, rhs: Self) -> Self {
                $S($fp(Op::Atan2, self.0, rhs.0))
            }
        }
        impl Fl for $S {
            const NAME: &'static str = $name;
            const BITS: u32 = $bits;
            const PLAIN: bool = false;
            fn of(x: f64) -> Self {
                $S(x as $t)
            }
            fn val(self) -> f64 {
                self.0 as f64
            }
        }
    };
    (@bin $S:ident, $fp:path, $tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl std::ops::$tr for $S {
            type Output = $S;
            fn $f(self, rhs: $S) -> $S {
                $S($fp(Op::$tr, self.0, rhs.0))
            }
        }
        impl std::ops::$tra for $S {
            fn $fa(&mut self, rhs: $S) {
                self.0 = $fp(Op::$tr, self.0, rhs.0);
            }
        }
    };
    (@consts $S:ident, $t:ty, $($f:ident)*) => {
        $(fn $f() -> Self { $S(<$t as GFloat>::$f()) })*
    };
}
#[cfg(feature = "seam")]
fn same64(x: f64, _: Mode) -> f64 {
    x
}
#[cfg(feature = "seam")]
sim_type!(S32, f32, env::fp32, fpu::int32, fpu::narrow, "S32", 32);
#[cfg(feature = "seam")]
sim_type!(S64, f64, env::fp64, fpu::int64, same64, "S64", 64);

/// Runs `$f::<T>($($a),*)` for the float type with the given index.
#[macro_export]
macro_rules! by_type {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {{
        #[cfg(feature = "seam")]
        {
            match $ty {
                0 => $f::<$crate::simf::S32>($($a),*),
                1 => $f::<$crate::simf::S64>($($a),*),
                2 => $f::<f32>($($a),*),
                _ => $f::<f64>($($a),*),
            }
        }
        #[cfg(not(feature = "seam"))]
        {
            match $ty {
                0 | 2 => $f::<f32>($($a),*),
                _ => $f::<f64>($($a),*),
            }
        }
    }};
}
