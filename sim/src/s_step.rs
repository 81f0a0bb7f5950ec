//! C03: stepping to the neighbouring float in every floating-point control state.

use crate::env::{self, Policy};
use crate::fpu;
use crate::plan::{Plan, Violation};
use crate::prng::{mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::s_interval::fail_to_violation;
use crate::viol;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::GFloat;
use std::hint::black_box;

pub struct C03;

#[inline(never)]
fn lib_up32(x: f32) -> f32 {
    black_box(GFloat::next_up(black_box(x)))
}
#[inline(never)]
fn lib_down32(x: f32) -> f32 {
    black_box(GFloat::next_down(black_box(x)))
}
#[inline(never)]
fn lib_up64(x: f64) -> f64 {
    black_box(GFloat::next_up(black_box(x)))
}
#[inline(never)]
fn lib_down64(x: f64) -> f64 {
    black_box(GFloat::next_down(black_box(x)))
}

/// integer order of the bit patterns, zeros identified
fn model(bits: u64, wide: bool, up: bool) -> u64 {
    if wide {
        let x = f64::from_bits(bits);
        if up {
            fpu::up64(x).to_bits()
        } else {
            fpu::down64(x).to_bits()
        }
    } else {
        let x = f32::from_bits(bits as u32);
        (if up { fpu::up32(x).to_bits() } else { fpu::down32(x).to_bits() }) as u64
    }
}
fn nan(bits: u64, wide: bool) -> bool {
    if wide {
        bits & 0x7fff_ffff_ffff_ffff > 0x7ff0_0000_0000_0000
    } else {
        bits & 0x7fff_ffff > 0x7f80_0000
    }
}
fn class(bits: u64, wide: bool) -> u64 {
    let (e, m, eb) = if wide { (bits >> 52 & 0x7ff, bits & ((1 << 52) - 1), 0x7ff) } else { (bits >> 23 & 0xff, bits & ((1 << 23) - 1), 0xff) };
    let full = if wide { (1u64 << 52) - 1 } else { (1 << 23) - 1 };
    let mc = if m == 0 {
        0
    } else if m == full {
        1
    } else {
        2
    };
    let ec = if e == 0 {
        0
    } else if e == eb {
        2
    } else if e == eb - 1 {
        3
    } else {
        1
    };
    ec * 4 + mc
}

impl Scenario for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_500_000,
            Tier::Thorough => 100_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let ctrl = *rng.pick(&[0, 300, 1000, 1000]);
        let mut p = Plan { policy: Some(Policy { ctrl, ..Policy::default() }), ..Plan::default() };
        for _ in 0..rng.range(4, 24) {
            let wide = rng.chance(50);
            let (mb, eb) = if wide { (52, 11) } else { (23, 8) };
            let emax = (1u64 << eb) - 1;
            let e = match rng.below(6) {
                0 => 0,
                1 => emax,
                2 => emax - 1,
                3 => 1,
                _ => rng.below(emax + 1),
            };
            let full = (1u64 << mb) - 1;
            let m = match rng.below(7) {
                0 => 0,
                1 => full,
                2 => 1 << rng.below(mb),
                3 => (1 << rng.below(mb + 1)) - 1,
                4 => rng.below(4),
                _ => rng.next() & full,
            };
            let bits = rng.below(2) << (mb + eb) | e << mb | m;
            let n = *rng.pick(&[1, 1, 2, 5]);
            p.push("walk", vec![wide as i64, rng.range(0, 1), n, bits as i64, rng.range(0, 3)], vec![]);
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        for t in &plan.steps {
            env::begin(t.id);
            let wide = t.int(0) != 0;
            let mut bits = t.int(3) as u64;
            if !wide {
                bits &= 0xffff_ffff;
            }
            let n = t.int(2).clamp(0, 50) as u32;
            let up = t.int(1) != 0;
            // out along one direction and back
            for k in 0..2 * n {
                let up = up ^ (k >= n);
                let csr = env::ctrl_state(k);
                let widen = t.int(4) == 3;
                let got = env::lib(|| {
                    fpu::with_csr(csr, &mut || match (wide, up, widen) {
                        (true, true, false) => lib_up64(f64::from_bits(bits)).to_bits(),
                        (true, false, false) => lib_down64(f64::from_bits(bits)).to_bits(),
                        (false, true, false) => lib_up32(f32::from_bits(bits as u32)).to_bits() as u64,
                        (false, false, false) => lib_down32(f32::from_bits(bits as u32)).to_bits() as u64,
                        // the ends of a widened single-point interval
                        (true, _, true) => {
                            let x = f64::from_bits(black_box(bits));
                            let iv = Interval { inf: x, sup: x }.extend_by_ulp();
                            (if up { iv.sup } else { iv.inf }).to_bits()
                        }
                        (false, _, true) => {
                            let x = f32::from_bits(black_box(bits as u32));
                            let iv = Interval { inf: x, sup: x }.extend_by_ulp();
                            (if up { iv.sup } else { iv.inf }).to_bits() as u64
                        }
                    })
                });
                let is_nan = nan(bits, wide);
                // under denormals-are-zero a widened interval compares its ends; skip NaN there
                if widen && is_nan {
                    break;
                }
                let got = got.map_err(|f| fail_to_violation(f, "step"))?;
                run.check();
                run.event(got);
                run.note(mix(class(bits, wide), (wide as u64) << 1 | up as u64) ^ (csr as u64) << 32);
                let want = model(bits, wide, up);
                let ok = if is_nan { nan(got, wide) } else { got == want };
                if bits & !(1 << if wide { 63 } else { 31 }) == 0 {
                    run.probe("zero");
                }
                if is_nan {
                    run.probe("nan");
                }
                if class(bits, wide) < 4 && csr & fpu::DAZ != 0 {
                    run.probe("subnormal_as_zero");
                }
                if !ok {
                    let w = if wide { 16 } else { 8 };
                    return Err(viol!(
                        format!("step/{}{}", if up { "up" } else { "down" }, if wide { 64 } else { 32 }),
                        "next {} of bits {bits:0w$x} is {got:0w$x}, expected {want:0w$x} (control register {csr:04x})",
                        if up { "up" } else { "down" }
                    ));
                }
                if is_nan {
                    break;
                }
                bits = got;
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run walks up and down from a number of bit patterns (format edges, powers of two, subnormals, infinities, NaN, random) while the simulator switches the thread's floating-point control state between calls; non-trivial if at least one step was judged; distinct by value classes, directions and control states"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of value class (zero/subnormal/normal/top binade/special, mantissa empty/full/other), direction, width and control state of every call"
    }
    fn real(&self) -> &'static [&'static str] {
        &["math::scalar next_up and next_down for f32 and f64", "Interval::extend_by_ulp", "the processor's control register (MXCSR)"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &[]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["zero", "nan", "subnormal_as_zero"]
    }
}
