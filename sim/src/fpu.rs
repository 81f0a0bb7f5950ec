//! The simulated arithmetic unit: every machine operation in a chosen rounding
//! direction, performed by the real hardware (the control register is switched
//! around the single instruction), and a faithful math library whose result is
//! the neighbour below or above the true value, as the simulator decides.

use crate::exact;
use std::arch::asm;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Mode {
    Near,
    Down,
    Up,
    Zero,
}
pub const MODES: [Mode; 4] = [Mode::Near, Mode::Down, Mode::Up, Mode::Zero];

impl Mode {
    pub fn csr(self) -> u32 {
        0x1f80
            | match self {
                Mode::Near => 0,
                Mode::Down => 0x2000,
                Mode::Up => 0x4000,
                Mode::Zero => 0x6000,
            }
    }
    pub fn name(self) -> &'static str {
        match self {
            Mode::Near => "near",
            Mode::Down => "down",
            Mode::Up => "up",
            Mode::Zero => "zero",
        }
    }
    pub fn parse(s: &str) -> Option<Mode> {
        MODES.iter().copied().find(|m| m.name() == s)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Cvt,
    Sqrt,
    Sin,
    Cos,
    Tan,
    Asin,
    Acos,
    Atan,
    Atan2,
}
impl Op {
    pub fn is_libm(self) -> bool {
        !matches!(self, Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Rem | Op::Cvt | Op::Sqrt)
    }
}

const DEFAULT_CSR: u32 = 0x1f80;

macro_rules! bin {
    ($name:ident, $t:ty, $ins:literal) => {
        #[inline(never)]
        fn $name(a: $t, b: $t, csr: u32) -> $t {
            let mut r = a;
            let old = DEFAULT_CSR;
            unsafe {
                asm!(
                    "ldmxcsr [{n}]",
                    concat!($ins, " {r}, {b}"),
                    "ldmxcsr [{o}]",
                    r = inout(xmm_reg) r,
                    b = in(xmm_reg) b,
                    n = in(reg) &csr,
                    o = in(reg) &old,
                    options(nostack, readonly)
                );
            }
            r
        }
    };
}
bin!(add32, f32, "addss");
bin!(sub32, f32, "subss");
bin!(mul32, f32, "mulss");
bin!(div32, f32, "divss");
bin!(sqrt32x, f32, "sqrtss");
bin!(add64, f64, "addsd");
bin!(sub64, f64, "subsd");
bin!(mul64, f64, "mulsd");
bin!(div64, f64, "divsd");
bin!(sqrt64x, f64, "sqrtsd");

#[inline(never)]
fn cvt32(a: f64, csr: u32) -> f32 {
    let mut r: f32;
    let old = DEFAULT_CSR;
    unsafe {
        asm!(
            "ldmxcsr [{n}]",
            "cvtsd2ss {r}, {b}",
            "ldmxcsr [{o}]",
            r = out(xmm_reg) r,
            b = in(xmm_reg) a,
            n = in(reg) &csr,
            o = in(reg) &old,
            options(nostack, readonly)
        );
    }
    r
}

macro_rules! cvti {
    ($name:ident, $t:ty, $ins:literal) => {
        #[inline(never)]
        pub fn $name(a: i64, mode: Mode) -> $t {
            let mut r: $t;
            let (csr, old) = (mode.csr(), DEFAULT_CSR);
            unsafe {
                asm!(
                    "ldmxcsr [{n}]",
                    "xorps {r}, {r}",
                    concat!($ins, " {r}, {b}"),
                    "ldmxcsr [{o}]",
                    r = out(xmm_reg) r,
                    b = in(reg) a,
                    n = in(reg) &csr,
                    o = in(reg) &old,
                    options(nostack, readonly)
                );
            }
            r
        }
    };
}
cvti!(int32, f32, "cvtsi2ss");
cvti!(int64, f64, "cvtsi2sd");
/// double to single in the given direction
pub fn narrow(a: f64, mode: Mode) -> f32 {
    cvt32(a, mode.csr())
}

pub fn native32(op: Op, a: f32, b: f32) -> f32 {
    match op {
        Op::Add => a + b,
        Op::Sub => a - b,
        Op::Mul => a * b,
        Op::Div => a / b,
        Op::Rem => a % b,
        Op::Cvt => a,
        Op::Sqrt => a.sqrt(),
        Op::Sin => a.sin(),
        Op::Cos => a.cos(),
        Op::Tan => a.tan(),
        Op::Asin => a.asin(),
        Op::Acos => a.acos(),
        Op::Atan => a.atan(),
        Op::Atan2 => a.atan2(b),
    }
}

pub fn native64(op: Op, a: f64, b: f64) -> f64 {
    match op {
        Op::Add => a + b,
        Op::Sub => a - b,
        Op::Mul => a * b,
        Op::Div => a / b,
        Op::Rem => a % b,
        Op::Cvt => a,
        Op::Sqrt => a.sqrt(),
        Op::Sin => a.sin(),
        Op::Cos => a.cos(),
        Op::Tan => a.tan(),
        Op::Asin => a.asin(),
        Op::Acos => a.acos(),
        Op::Atan => a.atan(),
        Op::Atan2 => a.atan2(b),
    }
}

/// Performs `op` in rounding direction `mode`.
pub fn exec32(op: Op, a: f32, b: f32, mode: Mode) -> f32 {
    if mode == Mode::Near {
        return native32(op, a, b);
    }
    let c = mode.csr();
    match op {
        Op::Add => add32(a, b, c),
        Op::Sub => sub32(a, b, c),
        Op::Mul => mul32(a, b, c),
        Op::Div => div32(a, b, c),
        Op::Sqrt => sqrt32x(a, a, c),
        Op::Rem => a % b,
        Op::Cvt => a,
        _ => {
            // math library: the double-precision result is within one of its own
            // units; when it is that close to a single-precision number the true
            // value is taken to be that number, otherwise the two neighbours
            // bracket the true value and the mode picks one of them.
            let v = native64(op, a as f64, b as f64);
            if !v.is_finite() {
                return v as f32;
            }
            let near = v as f32;
            if ((near as f64) - v).abs() <= v.abs() * 8.0 * f64::EPSILON {
                return near;
            }
            let r = cvt32(v, c);
            if matches!(op, Op::Sin | Op::Cos) {
                r.clamp(-1.0, 1.0)
            } else {
                r
            }
        }
    }
}

pub fn exec64(op: Op, a: f64, b: f64, mode: Mode) -> f64 {
    let c = mode.csr();
    match op {
        Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Sqrt | Op::Rem | Op::Cvt if mode == Mode::Near => native64(op, a, b),
        Op::Add => add64(a, b, c),
        Op::Sub => sub64(a, b, c),
        Op::Mul => mul64(a, b, c),
        Op::Div => div64(a, b, c),
        Op::Sqrt => sqrt64x(a, a, c),
        Op::Rem => a % b,
        Op::Cvt => a,
        _ if mode == Mode::Near => native64(op, a, b),
        _ => match exact::bracket64(op, a, b) {
            Some((lo, hi)) => {
                let v = native64(op, a, b);
                match mode {
                    Mode::Down => lo,
                    Mode::Up => hi,
                    _ => {
                        if v >= 0.0 {
                            lo
                        } else {
                            hi
                        }
                    }
                }
            }
            None => native64(op, a, b),
        },
    }
}

/// The control register of this thread, for code that runs on the plain
/// hardware types: rounding direction, flush-to-zero, denormals-are-zero.
pub fn set_csr(csr: u32) {
    unsafe {
        asm!("ldmxcsr [{n}]", n = in(reg) &csr, options(nostack));
    }
}
pub const FTZ: u32 = 0x8000;
pub const DAZ: u32 = 0x0040;

/// Runs `f` with the thread's control register set to `csr`. `f` must be an
/// opaque call whose inputs and outputs go through `black_box`.
#[inline(never)]
pub fn with_csr<R>(csr: u32, f: &mut dyn FnMut() -> R) -> R {
    struct Restore;
    impl Drop for Restore {
        fn drop(&mut self) {
            set_csr(DEFAULT_CSR);
        }
    }
    let _g = Restore;
    set_csr(csr);
    std::hint::black_box(f())
}

pub fn up32(x: f32) -> f32 {
    if x.is_nan() || x == f32::INFINITY {
        return x;
    }
    let b = x.to_bits();
    f32::from_bits(if b & 0x7fff_ffff == 0 {
        1
    } else if b >> 31 == 0 {
        b + 1
    } else {
        b - 1
    })
}
pub fn up64(x: f64) -> f64 {
    if x.is_nan() || x == f64::INFINITY {
        return x;
    }
    let b = x.to_bits();
    f64::from_bits(if b & 0x7fff_ffff_ffff_ffff == 0 {
        1
    } else if b >> 63 == 0 {
        b + 1
    } else {
        b - 1
    })
}
pub fn down32(x: f32) -> f32 {
    -up32(-x)
}
pub fn down64(x: f64) -> f64 {
    -up64(-x)
}
