//! C01, C02, C05: programs of interval operations under arbitrary rounding, checked
//! against exact rational (and 300-bit fixed-point) values of witness points.

use crate::env::{Fail, Policy};
use crate::exact::{self, Fx, Rat};
use crate::fpu::{self, Op};
use crate::plan::{Plan, Step, Violation};
use crate::prng::{hash_str, mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::simf::{call, Fl};
use crate::{by_type, viol};
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{GFloat, Scalar, SignedScalar};
use std::cmp::Ordering;

#[derive(Clone)]
pub struct Reg<T: Fl> {
    pub iv: Interval<T>,
    pub w: Vec<Rat>,
}
pub fn ends<T: Fl>(iv: &Interval<T>) -> (f64, f64) {
    (iv.inf.val(), iv.sup.val())
}
fn show<T: Fl>(iv: &Interval<T>) -> String {
    format!("[{:e}, {:e}]", iv.inf.val(), iv.sup.val())
}
/// a representative finite point of the interval
fn some_point<T: Fl>(lo: f64, hi: f64, pick: u64) -> f64 {
    let lo = if lo == f64::NEG_INFINITY { -T::max_val() } else { lo };
    let hi = if hi == f64::INFINITY { T::max_val() } else { hi };
    match pick % 4 {
        0 => lo,
        1 => hi,
        _ => {
            let m = lo / 2.0 + hi / 2.0;
            if m >= lo && m <= hi {
                m
            } else {
                lo
            }
        }
    }
}
fn finite_points<T: Fl>(iv: &Interval<T>) -> Vec<f64> {
    let (lo, hi) = ends(iv);
    let mut v = vec![some_point::<T>(lo, hi, 0), some_point::<T>(lo, hi, 1)];
    if lo < 0.0 && hi > 0.0 {
        v.push(0.0);
    }
    v.push(some_point::<T>(lo, hi, 2));
    v.dedup();
    v
}
fn points<T: Fl>(r: &Reg<T>) -> Vec<Rat> {
    let mut v: Vec<Rat> = finite_points(&r.iv).into_iter().map(Rat::from).collect();
    v.extend(r.w.iter().cloned());
    v
}

pub fn val_class(x: f64) -> u64 {
    if x == 0.0 {
        0
    } else if x.is_infinite() {
        1 + x.is_sign_negative() as u64
    } else if x.abs() < 1e-30 {
        3 + x.is_sign_negative() as u64
    } else {
        5 + x.is_sign_negative() as u64
    }
}
fn iv_class<T: Fl>(iv: &Interval<T>) -> u64 {
    let (a, b) = ends(iv);
    val_class(a) * 16 + val_class(b) * 2 + (a == b) as u64
}

pub fn fail_to_violation(f: Fail, op: &str) -> Violation {
    match f {
        Fail::Panic(m) => viol!(format!("panic/{op}"), "{op} panicked: {m}"),
        Fail::Budget => viol!(format!("no-progress/{op}"), "{op} did not finish within the step budget"),
        Fail::Injected(k) => viol!(format!("harness/{op}"), "unexpected injected fault {k}"),
    }
}

pub fn ordered<T: Fl>(iv: &Interval<T>, op: &str, what: impl Fn() -> String) -> Result<(), Violation> {
    let (a, b) = ends(iv);
    if a <= b {
        Ok(())
    } else {
        Err(viol!(format!("order/{op}"), "{} gives {}", what(), show(iv)))
    }
}

/// has an infinite end
fn has_inf<T: Fl>(iv: &Interval<T>) -> bool {
    let (a, b) = ends(iv);
    a.is_infinite() || b.is_infinite()
}
fn has_zero_end<T: Fl>(iv: &Interval<T>) -> bool {
    let (a, b) = ends(iv);
    a == 0.0 || b == 0.0
}
fn contains_zero<T: Fl>(iv: &Interval<T>) -> bool {
    let (a, b) = ends(iv);
    a <= 0.0 && b >= 0.0
}
fn usable<T: Fl>(iv: &Interval<T>) -> bool {
    let (a, b) = ends(iv);
    a <= b && a < f64::INFINITY && b > f64::NEG_INFINITY
}

const MAX_REGS: usize = 10;
fn store<T: Fl>(regs: &mut Vec<Reg<T>>, r: Reg<T>, slot: i64) {
    if !usable(&r.iv) {
        return;
    }
    if regs.len() < MAX_REGS {
        regs.push(r);
    } else {
        let k = slot.unsigned_abs() as usize % regs.len();
        regs[k] = r;
    }
}

fn store_plain<T: Fl>(regs: &mut Vec<Reg<T>>, iv: Interval<T>, slot: i64) {
    if usable(&iv) {
        let (a, b) = ends(&iv);
        store(regs, Reg { iv, w: vec![Rat::from(some_point::<T>(a, b, 2))] }, slot);
    }
}
fn whole<T: Fl>(iv: &Interval<T>) -> bool {
    ends(iv) == (f64::NEG_INFINITY, f64::INFINITY)
}

pub fn rat_int(n: i64) -> Rat {
    Rat::from((n >> 32) as f64).mul(&Rat::from(4294967296.0)).add(&Rat::from((n & 0xffff_ffff) as f64))
}

/// Executes one arithmetic step; `strict`: check enclosure. Returns the new register.
pub fn arith_step<T: Fl>(regs: &mut Vec<Reg<T>>, t: &Step, run: &mut Run, strict: bool) -> Result<(), Violation> {
    let op = t.op.as_str();
    if op == "new" {
        let (a, b) = (T::of(t.num(0)), T::of(t.num(1)));
        let (a, b) = if a.val() <= b.val() { (a, b) } else { (b, a) };
        if !(a.val() <= b.val()) {
            return Ok(());
        }
        let iv = match t.int(1) % 3 {
            0 => call::<T, _>(false, || Interval::new(a, b)),
            1 if a.val() == b.val() => call::<T, _>(false, || Interval::from(a)),
            _ => call::<T, _>(false, || Interval::from((a, b))),
        }
        .map_err(|f| fail_to_violation(f, "new"))?;
        if strict {
            run.check();
            if ends(&iv) != (a.val(), b.val()) {
                return Err(viol!("construct/new", "interval from {:?}, {:?} has the ends {}", a, b, show(&iv)));
            }
        }
        if !usable(&iv) {
            return Ok(());
        }
        let w = vec![Rat::from(some_point::<T>(a.val(), b.val(), t.int(2) as u64)), Rat::from(some_point::<T>(a.val(), b.val(), 2))];
        store(regs, Reg { iv, w }, t.int(0));
        return Ok(());
    }
    if op == "cvt" {
        // an interval made from a number of another format
        let x = t.num(0);
        if !x.is_finite() {
            return Ok(());
        }
        let x32 = x as f32;
        let whole_num = (t.int(1) << 20 ^ t.int(2)) >> (t.int(4).unsigned_abs() % 60);
        let (iv, exact, what) = match t.int(3) % 3 {
            0 => (call::<T, _>(false, || <Interval<T> as GFloat>::from_i64(whole_num)), rat_int(whole_num), format!("the integer {whole_num}")),
            1 => (call::<T, _>(false, || <Interval<T> as GFloat>::from_f32(x32)), Rat::from(if x32.is_finite() { x32 as f64 } else { 0.0 }), format!("the single {x32:e}")),
            _ => (call::<T, _>(false, || <Interval<T> as GFloat>::from_f64(x)), Rat::from(x), format!("the double {x:e}")),
        };
        if t.int(3) % 3 == 1 && !x32.is_finite() {
            return Ok(());
        }
        let iv = iv.map_err(|f| fail_to_violation(f, "cvt"))?;
        run.note(mix(hash_str(op), iv_class(&iv) ^ t.int(3) as u64));
        if strict {
            run.check();
            ordered(&iv, op, || what.clone())?;
            let (a, b) = ends(&iv);
            if a < b {
                run.probe("inexact_conversion");
            }
            if !exact.within(a, b) {
                return Err(viol!("enclosure/cvt", "the {} interval made from {what} is {} and does not contain it", T::NAME, show(&iv)));
            }
        }
        store(regs, Reg { iv, w: vec![exact] }, t.int(0));
        return Ok(());
    }
    if regs.is_empty() {
        return Ok(());
    }
    let a = regs[t.idx(1, regs.len())].clone();
    let b = regs[t.idx(2, regs.len())].clone();
    let form = t.int(3) % 4;
    if op == "clamp" {
        let c = regs[t.int(4).unsigned_abs() as usize % regs.len()].clone();
        let (lo, hi) = if ends(&b.iv).1 <= ends(&c.iv).0 { (b, c) } else { (c, b) };
        if !(ends(&lo.iv).1 <= ends(&hi.iv).0) {
            return Ok(());
        }
        run.note(mix(hash_str(op), mix(iv_class(&a.iv), mix(iv_class(&lo.iv), iv_class(&hi.iv)))));
        let r = call::<T, _>(false, || Scalar::clamp(a.iv, lo.iv, hi.iv)).map_err(|e| fail_to_violation(e, op))?;
        let (rl, rh) = ends(&r);
        let cl = |x: &Rat, l: &Rat, h: &Rat| -> Rat {
            if x.cmp(l) == Ordering::Less {
                l.clone()
            } else if x.cmp(h) == Ordering::Greater {
                h.clone()
            } else {
                x.clone()
            }
        };
        if strict {
            run.check();
            let desc = || format!("clamp of {} to {} .. {} ({})", show(&a.iv), show(&lo.iv), show(&hi.iv), T::NAME);
            ordered(&r, op, desc)?;
            for x in points(&a) {
                for l in points(&lo) {
                    for h in points(&hi) {
                        let e = cl(&x, &l, &h);
                        if !e.within(rl, rh) {
                            return Err(viol!("enclosure/clamp", "{} gives {} which does not contain {:e} (points {:e}, {:e}, {:e})", desc(), show(&r), e.approx(), x.approx(), l.approx(), h.approx()));
                        }
                    }
                }
            }
        }
        let w = vec![cl(&a.w[0], &lo.w[0], &hi.w[0])];
        store(regs, Reg { iv: r, w }, t.int(0));
        return Ok(());
    }
    let sc = T::of(t.num(0));
    let scalar_ok = sc.val().is_finite();
    // unary operations
    type U<T> = fn(Interval<T>) -> Interval<T>;
    let unary: Option<U<T>> = match op {
        "neg" => Some(|x| -x),
        "square" => Some(|x| x.square()),
        "square_t" => Some(|x| Scalar::square(x)),
        "sqrt" => Some(|x| x.sqrt()),
        "sqrt_t" => Some(|x| GFloat::sqrt(x)),
        "abs" => Some(|x| SignedScalar::abs(x)),
        "recip" => Some(|x| GFloat::recip(x)),
        "signum" => Some(|x| SignedScalar::signum(x)),
        "extend" => Some(|x| x.extend_by_ulp()),
        _ => None,
    };
    run.note(mix(hash_str(op), mix(iv_class(&a.iv), iv_class(&b.iv)) ^ form as u64));
    if let Some(f) = unary {
        let (lo, hi) = ends(&a.iv);
        if op.starts_with("sqrt") && hi < 0.0 {
            return Ok(());
        }
        let r = call::<T, _>(false, || f(a.iv)).map_err(|e| fail_to_violation(e, op))?;
        let desc = || format!("{op} of {} ({})", show(&a.iv), T::NAME);
        if strict {
            ordered(&r, op, desc)?;
            run.check();
        }
        run.event(ends(&r).0.to_bits());
        run.event(ends(&r).1.to_bits());
        let (rl, rh) = ends(&r);
        let mut w = vec![];
        if op.starts_with("sqrt") {
            if strict {
                if lo < 0.0 {
                    run.probe("sqrt_negative_part");
                }
                for p in points(&a) {
                    if p.signum() < 0 {
                        continue;
                    }
                    let lo_ok = rl <= 0.0 || Rat::from(rl).mul(&Rat::from(rl)).cmp(&p) != Ordering::Greater;
                    let hi_ok = rh == f64::INFINITY || (rh >= 0.0 && Rat::from(rh).mul(&Rat::from(rh)).cmp(&p) != Ordering::Less);
                    if !(lo_ok && hi_ok) {
                        return Err(viol!(format!("enclosure/{op}"), "{} gives {} which does not contain the root of {:e}", desc(), show(&r), p.approx()));
                    }
                }
            }
        } else if op == "recip" && contains_zero(&a.iv) {
            if strict {
                run.probe("div_by_zero_interval");
                if !whole(&r) {
                    return Err(viol!("whole-line/recip", "{} gives {}", desc(), show(&r)));
                }
            }
        } else {
            let g = |p: &Rat| -> Rat {
                match op {
                    "neg" => p.neg(),
                    "square" | "square_t" => p.mul(p),
                    "abs" => p.abs(),
                    "signum" => Rat::from(p.signum() as f64),
                    "recip" => Rat::from(1.0).div(p),
                    _ => p.clone(),
                }
            };
            if strict {
                for p in points(&a) {
                    let e = g(&p);
                    if !e.within(rl, rh) {
                        return Err(viol!(format!("enclosure/{op}"), "{} gives {} which does not contain the exact {:e} (point {:e})", desc(), show(&r), e.approx(), p.approx()));
                    }
                }
            }
            w = a.w.iter().map(|p| g(p)).filter(|p| p.bits() < 4000).collect();
        }
        if w.is_empty() {
            w = vec![Rat::from(some_point::<T>(rl, rh, 2))];
        }
        store(regs, Reg { iv: r, w }, t.int(0));
        return Ok(());
    }
    // binary operations
    let with_scalar = matches!(op, "add" | "sub" | "mul" | "div") && form >= 2 && scalar_ok;
    let (ai, bi) = (a.iv, b.iv);
    let biv = if with_scalar { Interval { inf: sc, sup: sc } } else { bi };
    // domain
    let skip = match op {
        "mul" => (has_inf(&ai) && has_zero_end(&biv)) || (has_inf(&biv) && has_zero_end(&ai)),
        "div" => has_inf(&ai) && has_inf(&biv),
        "intersect" => {
            let (al, ah) = ends(&ai);
            let (bl, bh) = ends(&bi);
            al.max(bl) > ah.min(bh)
        }
        _ => false,
    };
    if skip {
        run.probe("outside_domain");
        return Ok(());
    }
    let r = call::<T, _>(false, || match (op, form, with_scalar) {
        ("add", 2 | 3, true) => ai + sc,
        ("sub", 2 | 3, true) => ai - sc,
        ("mul", 2, true) => ai * sc,
        ("div", 2, true) => ai / sc,
        ("mul", 3, true) => {
            let mut x = ai;
            x *= sc;
            x
        }
        ("div", 3, true) => {
            let mut x = ai;
            x /= sc;
            x
        }
        ("add", 0 | 2, _) => ai + bi,
        ("sub", 0 | 2, _) => ai - bi,
        ("mul", 0 | 2, _) => ai * bi,
        ("div", 0 | 2, _) => ai / bi,
        ("add", _, _) => {
            let mut x = ai;
            x += bi;
            x
        }
        ("sub", _, _) => {
            let mut x = ai;
            x -= bi;
            x
        }
        ("mul", _, _) => {
            let mut x = ai;
            x *= bi;
            x
        }
        ("div", _, _) => {
            let mut x = ai;
            x /= bi;
            x
        }
        ("min", _, _) => Scalar::min(ai, bi),
        ("max", _, _) => Scalar::max(ai, bi),
        ("lesser", _, _) => Scalar::min_max(ai, bi).0,
        ("greater", _, _) => Scalar::min_max(ai, bi).1,
        ("union", _, _) => ai.union(bi),
        ("intersect", _, _) => ai.intersect(bi),
        _ => ai,
    })
    .map_err(|e| fail_to_violation(e, op))?;
    let kind = if with_scalar { "number" } else { "interval" };
    let desc = || format!("{op} (form {form}, {kind}) of {} and {} ({})", show(&ai), show(&biv), T::NAME);
    let (rl, rh) = ends(&r);
    run.event(rl.to_bits());
    run.event(rh.to_bits());
    let pb: Vec<Rat> = if with_scalar { vec![Rat::from(sc.val())] } else { points(&b) };
    if strict {
        run.check();
        ordered(&r, op, desc)?;
        if rl.is_infinite() || rh.is_infinite() {
            run.probe("overflow_or_infinite_result");
        }
        if op == "div" && contains_zero(&biv) {
            run.probe("div_by_zero_interval");
            if !whole(&r) {
                return Err(viol!(format!("whole-line/div-{kind}"), "{} gives {}", desc(), show(&r)));
            }
            store(regs, Reg { iv: r, w: vec![Rat::from(0.0), Rat::from(1.0)] }, t.int(0));
            return Ok(());
        }
        if op == "mul" && !with_scalar {
            let cr = |i: &Interval<T>| ends(i).0 < 0.0 && ends(i).1 > 0.0;
            if cr(&ai) && cr(&biv) {
                run.probe("mul_both_sign_crossing");
            }
        }
    } else if op == "div" && contains_zero(&biv) {
        store(regs, Reg { iv: r, w: vec![Rat::from(0.0), Rat::from(1.0)] }, t.int(0));
        return Ok(());
    }
    let g = |x: &Rat, y: &Rat| -> Rat {
        match op {
            "add" => x.add(y),
            "sub" => x.sub(y),
            "mul" => x.mul(y),
            "div" => x.div(y),
            "min" | "lesser" => {
                if x.cmp(y) == Ordering::Less {
                    x.clone()
                } else {
                    y.clone()
                }
            }
            "max" | "greater" => {
                if x.cmp(y) == Ordering::Less {
                    y.clone()
                } else {
                    x.clone()
                }
            }
            _ => x.clone(),
        }
    };
    let mut w = vec![];
    match op {
        "union" => {
            if strict {
                for p in points(&a).iter().chain(points(&b).iter()) {
                    if !p.within(rl, rh) {
                        return Err(viol!("enclosure/union", "{} gives {} which misses {:e}", desc(), show(&r), p.approx()));
                    }
                }
            }
            w = a.w.clone();
        }
        "intersect" => {
            let (al, ah) = ends(&ai);
            let (bl, bh) = ends(&bi);
            for p in points(&a).iter().chain(points(&b).iter()) {
                if p.within(al, ah) && p.within(bl, bh) {
                    if strict && !p.within(rl, rh) {
                        return Err(viol!("enclosure/intersect", "{} gives {} which misses {:e}", desc(), show(&r), p.approx()));
                    }
                    w = vec![p.clone()];
                }
            }
            if strict {
                // nothing that is in only one of them
                run.check();
                if rl < al || rl < bl || rh > ah || rh > bh {
                    return Err(viol!("enclosure/intersect", "{} gives {}", desc(), show(&r)));
                }
            }
        }
        _ => {
            if strict {
                for x in points(&a) {
                    for y in &pb {
                        let e = g(&x, y);
                        if !e.within(rl, rh) {
                            return Err(viol!(
                                format!("enclosure/{op}-{kind}"),
                                "{} gives {} which does not contain the exact {:e} (points {:e}, {:e})",
                                desc(),
                                show(&r),
                                e.approx(),
                                x.approx(),
                                y.approx()
                            ));
                        }
                    }
                }
            }
            for (k, x) in a.w.iter().enumerate() {
                let y = if with_scalar { &pb[0] } else { &b.w[k % b.w.len()] };
                let e = g(x, y);
                if e.bits() < 4000 {
                    w.push(e);
                }
            }
        }
    }
    if w.is_empty() {
        w = vec![Rat::from(some_point::<T>(rl, rh, 2))];
    }
    store(regs, Reg { iv: r, w }, t.int(0));
    Ok(())
}

// ------------------------------------------------------------------ generation
pub fn gen_value(rng: &mut Rng, bits32: bool, scale: u64) -> f64 {
    let m = match scale {
        // small pool: coincidences
        0 => return *rng.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 1e-40, -1e-40]),
        1 => rng.logu(1e-3, 1e3),
        2 => {
            if bits32 {
                rng.logu(1e-44, 3e38)
            } else {
                rng.logu(1e-300, 1e300)
            }
        }
        3 => {
            // edges of the format
            let e: &[f64] = if bits32 {
                &[1.401298464324817e-45, 1.1754943508222875e-38, 3.4028234663852886e38, 1.8446743e19, 5.9604645e-8, 1.0000001, 0.99999994]
            } else {
                &[5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1.3407807929942596e154, 1.1102230246251565e-16, 1.0000000000000002, 0.9999999999999999]
            };
            *rng.pick(e)
        }
        _ => rng.range(0, 20) as f64 + if rng.chance(50) { 0.0 } else { rng.f01() },
    };
    m * rng.sign()
}
pub fn gen_interval(rng: &mut Rng, bits32: bool, scale: u64) -> (f64, f64) {
    let a = gen_value(rng, bits32, scale);
    match rng.below(8) {
        0 | 1 => (a, a),
        2 => (a, a + a.abs() * 1e-6),
        3 => (0.0f64.min(a), 0.0f64.max(a)),
        4 => (-a.abs(), gen_value(rng, bits32, scale).abs()),
        5 if rng.chance(20) => {
            if rng.chance(50) {
                (a, f64::INFINITY)
            } else {
                (f64::NEG_INFINITY, a)
            }
        }
        _ => {
            let b = gen_value(rng, bits32, scale);
            (a.min(b), a.max(b))
        }
    }
}
pub fn gen_round_policy(rng: &mut Rng) -> Policy {
    Policy { round: *rng.pick(&[0, 20, 100, 300, 600, 1000]), modes: *rng.pick(&[1, 2, 4, 3, 5, 6, 7, 7]), ..Policy::default() }
}
fn gen_arith(rng: &mut Rng, p: &mut Plan, ty: i64, ops: &[&str], scale: u64) {
    let b32 = ty == 0 || ty == 2;
    let op = *rng.pick(ops);
    if op == "new" {
        let (a, b) = gen_interval(rng, b32, scale);
        p.push("new", vec![rng.range(0, 99), rng.range(0, 2), rng.range(0, 3)], vec![a, b]);
    } else if op == "cvt" {
        let k = rng.below(3);
        let x = match k {
            0 => gen_value(rng, b32, scale),
            1 => gen_value(rng, b32, scale) as f32 as f64,
            _ => gen_value(rng, false, scale),
        };
        p.push("cvt", vec![rng.range(0, 99), rng.next() as i64 >> 8, rng.next() as i64, rng.range(0, 2), rng.range(0, 59)], vec![x]);
    } else {
        // favour recent registers, so that histories build up
        let r = |rng: &mut Rng| rng.range(0, 999);
        let (a, b) = (r(rng), if rng.chance(8) { -1 } else { r(rng) });
        let b = if b < 0 { a } else { b };
        let sscale = if rng.chance(70) { scale } else { 0 };
        let sc = gen_value(rng, b32, sscale);
        p.push(op, vec![rng.range(0, 99), a, b, rng.range(0, 3), rng.range(0, 999)], vec![sc]);
    }
}

pub struct C01;
const ALL_OPS: &[&str] = &[
    "new", "new", "cvt", "clamp", "signum", "lesser", "greater", "add", "sub", "mul", "mul", "div", "neg", "square", "square_t", "sqrt", "sqrt_t", "abs", "recip", "extend", "min", "max", "union", "intersect",
];
fn exec_c01<T: Fl>(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    let mut regs: Vec<Reg<T>> = vec![];
    for t in &plan.steps {
        crate::env::begin(t.id);
        arith_step(&mut regs, t, run, true)?;
    }
    Ok(())
}
impl Scenario for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 1_500_000,
            Tier::Thorough => 60_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let ty = *rng.pick(&[0i64, 0, 0, 1, 1, 1, 2, 3]);
        let scale = rng.below(5);
        let mut p = Plan { knobs: vec![ty], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        // swarm: a random subset of the operations
        let mut ops: Vec<&str> = ALL_OPS.to_vec();
        rng.shuffle(&mut ops);
        ops.truncate(3 + rng.us(ops.len() - 3));
        ops.push("new");
        for _ in 0..2 {
            gen_arith(rng, &mut p, ty, &["new"], scale);
        }
        for _ in 0..rng.range(1, 24) {
            let sc = if rng.chance(85) { scale } else { rng.below(5) };
            gen_arith(rng, &mut p, ty, &ops, sc);
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        by_type!(plan.knob(0), exec_c01(plan, run))
    }
    fn rule(&self) -> &'static str {
        "a run is a random program of up to 26 interval operations (single, double; per-operation rounding decided by the simulator or a fixed hardware rounding direction per call); it is non-trivial if at least one result was compared with exact values; two runs are distinct if their operations, operand sign/zero/infinity classes or fired faults differ"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of float type, operation sequence, operand classes and the (step, operation) positions whose rounding was changed"
    }
    fn real(&self) -> &'static [&'static str] {
        &["math::interval", "math::interval_as_gfloat", "math::scalar next_up/next_down and default methods"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["arithmetic unit: each + - * / sqrt executed on the real hardware in the rounding direction the simulator picks"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["div_by_zero_interval", "mul_both_sign_crossing", "sqrt_negative_part", "overflow_or_infinite_result", "inexact_conversion"]
    }
}

// ------------------------------------------------------------------ C05
pub struct C05;
fn truth<T: Fl>(run: &mut Run, a: &Reg<T>, b: &Reg<T>, bsingle: Option<T>) -> Result<(), Violation> {
    let (al, ah) = ends(&a.iv);
    let (ai, bi) = (a.iv, b.iv);
    let (bl, bh) = match bsingle {
        Some(t) => (t.val(), t.val()),
        None => ends(&bi),
    };
    let kind = if bsingle.is_some() { "number" } else { "interval" };
    let (lt, le, gt, ge, eq) = match bsingle {
        Some(t) => call::<T, _>(false, || (ai < t, ai <= t, ai > t, ai >= t, ai == t)),
        None => call::<T, _>(false, || (ai < bi, ai <= bi, ai > bi, ai >= bi, ai == bi)),
    }
    .map_err(|e| fail_to_violation(e, "compare"))?;
    run.note((lt as u64) | (le as u64) << 1 | (gt as u64) << 2 | (ge as u64) << 3 | (eq as u64) << 4);
    let desc = || format!("[{al:e}, {ah:e}] against [{bl:e}, {bh:e}] ({kind}, {})", T::NAME);
    let names = ["<", "<=", ">", ">=", "=="];
    let ans = [lt, le, gt, ge, eq];
    // what holds for every choice of points
    let all = [ah < bl, ah <= bl, al > bh, al >= bh, al == ah && bl == bh && al == bl];
    for k in 0..5 {
        run.check();
        if ans[k] && !all[k] {
            return Err(viol!(format!("unsound/{}-{kind}", names[k]), "{} {} although it does not hold for all points", names[k], desc()));
        }
        // witnesses: exact values from which the intervals were computed
        if ans[k] {
            // (one that escaped its interval is the business of C01)
            for x in a.w.iter().filter(|x| x.within(al, ah)) {
                let ys: Vec<Rat> = match bsingle {
                    Some(t) if t.val().is_infinite() => vec![],
                    Some(t) => vec![Rat::from(t.val())],
                    None => b.w.iter().filter(|y| y.within(bl, bh)).cloned().collect(),
                };
                for y in &ys {
                    let o = x.cmp(y);
                    let ok = match k {
                        0 => o == Ordering::Less,
                        1 => o != Ordering::Greater,
                        2 => o == Ordering::Greater,
                        3 => o != Ordering::Less,
                        _ => o == Ordering::Equal,
                    };
                    if !ok {
                        return Err(viol!(format!("unsound-history/{}-{kind}", names[k]), "{} {} but the exact values are {:e} and {:e}", names[k], desc(), x.approx(), y.approx()));
                    }
                }
            }
        }
    }
    if ah < bl {
        run.probe("disjoint");
        if !(lt && le) || gt || ge || eq {
            return Err(viol!(format!("incomplete/order-{kind}"), "{} are apart but < <= > >= == answer {ans:?}", desc()));
        }
    }
    if al > bh && (!(gt && ge) || lt || le || eq) {
        return Err(viol!(format!("incomplete/order-{kind}"), "{} are apart but < <= > >= == answer {ans:?}", desc()));
    }
    if al == ah && bl == bh {
        run.probe("single_points");
        if al.is_infinite() {
            run.probe("at_infinity");
        }
        let want = [al < bl, al <= bl, al > bl, al >= bl, al == bl];
        if ans != want {
            return Err(viol!(format!("single-point/{kind}"), "{} answers {ans:?} for < <= > >= ==", desc()));
        }
    }
    if ah == bl && al < ah {
        run.probe("touching");
    }
    Ok(())
}
fn exec_c05<T: Fl>(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    let mut regs: Vec<Reg<T>> = vec![];
    for t in &plan.steps {
        crate::env::begin(t.id);
        if t.op == "point" {
            let x = T::of(t.num(0));
            let iv = call::<T, _>(false, || Interval::from(x)).map_err(|f| fail_to_violation(f, "new"))?;
            if regs.len() < MAX_REGS {
                regs.push(Reg { iv, w: vec![] });
            }
            continue;
        }
        if !matches!(t.op.as_str(), "cmp" | "cmp_num" | "signs" | "range" | "class" | "mid" | "same") {
            // operations outside this property only build the history
            match arith_step(&mut regs, t, run, false) {
                Ok(()) => {}
                Err(_) => return Ok(()),
            }
            continue;
        }
        if regs.is_empty() {
            continue;
        }
        let a = regs[t.idx(1, regs.len())].clone();
        let b = regs[t.idx(2, regs.len())].clone();
        let iv = a.iv;
        let (lo, hi) = ends(&iv);
        let num = |k: usize, sel: i64| -> T {
            // often exactly an end of the interval
            match sel % 5 {
                0 => T::of(lo),
                1 => T::of(hi),
                2 => T::of(T::up(hi)),
                3 => T::of(T::down(lo)),
                _ => T::of(t.num(k)),
            }
        };
        match t.op.as_str() {
            "cmp" => truth(run, &a, &b, None)?,
            "cmp_num" => {
                let x = num(0, t.int(3));
                if x.val().is_nan() {
                    continue;
                }
                truth(run, &a, &b, Some(x))?
            }
            "signs" => {
                let (p, n, np, nn) = call::<T, _>(false, || (iv.is_positive(), iv.is_negative(), iv.is_nonpositive(), iv.is_nonnegative())).map_err(|e| fail_to_violation(e, "signs"))?;
                let want = (lo > 0.0, hi < 0.0, hi <= 0.0, lo >= 0.0);
                run.check();
                run.note(p as u64 | (n as u64) << 1 | (np as u64) << 2 | (nn as u64) << 3);
                if (p, n, np, nn) != want {
                    return Err(viol!("sign-test", "[{lo:e}, {hi:e}] ({}): positive, negative, nonpositive, nonnegative answer {:?}, true for all points: {:?}", T::NAME, (p, n, np, nn), want));
                }
                // the same tests reached through the number traits: only soundness
                let (p, n, np, nn, z) = call::<T, _>(false, || {
                    (SignedScalar::is_positive(iv), SignedScalar::is_negative(iv), SignedScalar::is_nonpositive(iv), SignedScalar::is_nonnegative(iv), Scalar::is_zero(iv))
                })
                .map_err(|e| fail_to_violation(e, "signs"))?;
                if (p && !want.0) || (n && !want.1) || (np && !want.2) || (nn && !want.3) || (z && (lo != 0.0 || hi != 0.0)) {
                    return Err(viol!("sign-test-trait", "[{lo:e}, {hi:e}] ({}): positive, negative, nonpositive, nonnegative, zero answer {:?}", T::NAME, (p, n, np, nn, z)));
                }
            }
            "mid" => {
                // a number stands for the interval: one of its points
                if !(lo.abs() < T::max_val() / 4.0 && hi.abs() < T::max_val() / 4.0) {
                    continue;
                }
                let (m, d, s, i) = call::<T, _>(false, || (iv.approx(), GFloat::to_f64(iv), GFloat::to_f32(iv), GFloat::to_i64(iv))).map_err(|e| fail_to_violation(e, "approx"))?;
                run.check();
                run.probe("midpoint");
                if !(lo <= m.val() && m.val() <= hi) {
                    return Err(viol!("midpoint", "[{lo:e}, {hi:e}] ({}) is approximated by {:e}, which is not in it", T::NAME, m.val()));
                }
                // narrowing a double may round it
                let (slo, shi) = if T::BITS == 64 { (fpu::narrow(lo, fpu::Mode::Down), fpu::narrow(hi, fpu::Mode::Up)) } else { (lo as f32, hi as f32) };
                let near_i = |x: f64| if x >= 9.2e18 { i64::MAX } else if x <= -9.2e18 { i64::MIN } else { x as i64 };
                if !(lo <= d && d <= hi) || !(slo <= s && s <= shi) || (lo.abs() < 9e18 && hi.abs() < 9e18 && !(near_i(lo) <= i && i <= near_i(hi))) {
                    return Err(viol!("midpoint-cast", "[{lo:e}, {hi:e}] ({}) is cast to {d:e} (double), {s:e} (single), {i} (integer)", T::NAME));
                }
            }
            "same" => {
                let bi = b.iv;
                let (bl, bh) = ends(&bi);
                let (e, s) = call::<T, _>(false, || (iv.is_exact(), iv.is_same(bi))).map_err(|e| fail_to_violation(e, "same"))?;
                run.check();
                run.note(e as u64 | (s as u64) << 1);
                if s {
                    run.probe("same");
                }
                if e != (lo == hi) || s != (lo == bl && hi == bh) {
                    return Err(viol!("same", "[{lo:e}, {hi:e}] ({}): single point {e}, same as [{bl:e}, {bh:e}] {s}", T::NAME));
                }
            }
            "class" => {
                use scarlet::math::scalar::GFloat;
                let (f, i, n) = call::<T, _>(false, || (GFloat::is_finite(iv), GFloat::is_infinite(iv), GFloat::is_nan(iv))).map_err(|e| fail_to_violation(e, "classify"))?;
                run.check();
                run.note(f as u64 | (i as u64) << 1 | (n as u64) << 2);
                let want = (lo.is_finite() && hi.is_finite(), lo.is_infinite() && lo == hi, lo.is_nan() || hi.is_nan());
                if want.0 {
                    run.probe("finite");
                } else {
                    run.probe("unbounded");
                }
                // an interval one end of which is not a number, as left by operations that have no result
                for k in 0..3 {
                    let mut x = iv;
                    if k != 1 {
                        x.inf = T::of(f64::NAN);
                    }
                    if k != 0 {
                        x.sup = T::of(f64::NAN);
                    }
                    let got = call::<T, _>(false, || (GFloat::is_finite(x), GFloat::is_infinite(x), GFloat::is_nan(x))).map_err(|e| fail_to_violation(e, "classify"))?;
                    if got != (false, false, true) {
                        return Err(viol!("classification", "[{:e}, {:e}] ({}): finite, infinite, nan answer {got:?}", x.inf.val(), x.sup.val(), T::NAME));
                    }
                }
                if (f, i, n) != want {
                    return Err(viol!("classification", "[{lo:e}, {hi:e}] ({}): finite, infinite, nan answer {:?}, expected {want:?}", T::NAME, (f, i, n)));
                }
            }
            "range" => {
                let (x, y) = (num(0, t.int(3)), num(1, t.int(4)));
                if x.val().is_nan() || y.val().is_nan() {
                    continue;
                }
                let (c, r) = call::<T, _>(false, || (iv.contains(x), iv.in_range(x, y))).map_err(|e| fail_to_violation(e, "range"))?;
                run.check();
                run.note(c as u64 | (r as u64) << 1);
                let wc = lo <= x.val() && x.val() <= hi;
                let wr = lo >= x.val() && hi <= y.val();
                if c != wc {
                    return Err(viol!("membership", "[{lo:e}, {hi:e}] contains {:e}: {c} ({})", x.val(), T::NAME));
                }
                if r != wr {
                    return Err(viol!("range-test", "[{lo:e}, {hi:e}] in range {:e} .. {:e}: {r} ({})", x.val(), y.val(), T::NAME));
                }
                // trait-level range test: soundness
                let r = call::<T, _>(false, || Scalar::in_range(iv, Interval { inf: x, sup: x }, Interval { inf: y, sup: y })).map_err(|e| fail_to_violation(e, "range"))?;
                if r && !wr {
                    return Err(viol!("range-test-trait", "[{lo:e}, {hi:e}] in range {:e} .. {:e}: {r} ({})", x.val(), y.val(), T::NAME));
                }
                for w in a.w.iter().filter(|w| w.within(lo, hi)) {
                    if wr && !w.within(x.val(), y.val()) {
                        return Err(viol!("range-history", "[{lo:e}, {hi:e}] is in range {:e} .. {:e} but the exact value {:e} is not", x.val(), y.val(), w.approx()));
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}
impl Scenario for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_000_000,
            Tier::Thorough => 80_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let ty = *rng.pick(&[0i64, 0, 1, 1, 2, 3]);
        let scale = *rng.pick(&[0u64, 0, 1, 2, 3, 4]);
        let mut p = Plan { knobs: vec![ty], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        for _ in 0..3 {
            gen_arith(rng, &mut p, ty, &["new"], scale);
        }
        let ops: &[&str] = if rng.chance(40) { &["new"] } else { &["new", "add", "sub", "mul", "div", "neg", "square", "sqrt", "abs", "min", "max", "union", "intersect"] };
        for _ in 0..rng.range(4, 26) {
            if ops.len() == 1 && rng.chance(8) {
                // ends at infinity, as left by an overflow
                let inf = f64::INFINITY;
                let x = gen_value(rng, ty == 0 || ty == 2, scale);
                let (a, b) = *rng.pick(&[(inf, inf), (-inf, -inf), (x, inf), (-inf, x), (-inf, inf)]);
                p.push(if a == b { "point" } else { "new" }, vec![rng.range(0, 99), rng.range(0, 2), rng.range(0, 3)], vec![a, b]);
            } else if rng.chance(45) {
                gen_arith(rng, &mut p, ty, ops, scale);
            } else {
                let b32 = ty == 0 || ty == 2;
                let op = *rng.pick(&["cmp", "cmp", "cmp_num", "cmp_num", "signs", "range", "class", "mid", "same"]);
                let f = vec![gen_value(rng, b32, scale), gen_value(rng, b32, scale)];
                let a = rng.range(0, 999);
                let b = if rng.chance(10) { a } else { rng.range(0, 999) };
                p.push(op, vec![0, a, b, rng.range(0, 9), rng.range(0, 9)], f);
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        by_type!(plan.knob(0), exec_c05(plan, run))
    }
    fn rule(&self) -> &'static str {
        "a run builds up to ten intervals by a random history of operations under simulated rounding and asks comparisons, sign, range and membership tests; non-trivial if at least one test was judged; distinct by operations, operand classes, answers and fired faults"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of float type, operation sequence, operand classes, answers given and positions of changed roundings"
    }
    fn real(&self) -> &'static [&'static str] {
        &["math::interval", "math::scalar comparison and sign defaults"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["arithmetic unit: rounding direction of each operation picked by the simulator"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["disjoint", "touching", "single_points", "finite", "unbounded", "midpoint", "same", "at_infinity"]
    }
}

// ------------------------------------------------------------------ C02
pub struct C02;

fn crit_inside(op: &str, lo: f64, hi: f64) -> Option<(bool, bool)> {
    // (contains a maximum, contains a minimum), points of the real line
    if !lo.is_finite() || !hi.is_finite() {
        return Some((true, true));
    }
    if !exact::in_fx_range(Op::Sin, lo) || !exact::in_fx_range(Op::Sin, hi) {
        return None;
    }
    let two_pi = exact::pi().add(&exact::pi());
    let hp = exact::pi().shr(1);
    let has = |phase: &Fx| -> bool {
        // a k with lo <= phase + 2 pi k <= hi: floor((hi-phase)/2pi) >= ceil((lo-phase)/2pi)
        let (kh, _) = exact::floor_div(&Fx::from(hi).sub(phase), &two_pi);
        let (kl, rl) = exact::floor_div(&Fx::from(lo).sub(phase), &two_pi);
        let kl = if rl.is_zero() { kl } else { kl + 1 };
        kh >= kl
    };
    Some(match op {
        "sin" => (has(&hp), has(&hp.neg())),
        _ => (has(&Fx::zero()), has(&exact::pi())),
    })
}

fn elem_check<T: Fl>(run: &mut Run, op: &str, o: Op, r: &Interval<T>, a: &Interval<T>, fr: [f64; 2]) -> Result<(), Violation> {
    let desc = || format!("{op} of {} ({})", show(a), T::NAME);
    ordered(r, op, desc)?;
    let (lo, hi) = ends(a);
    let (rl, rh) = ends(r);
    run.event(rl.to_bits());
    run.event(rh.to_bits());
    let mut pts = finite_points(a);
    let (flo, fhi) = (pts[0], some_point::<T>(lo, hi, 1));
    for f in fr {
        let x = flo + (fhi - flo) * f;
        if x.is_finite() && x >= lo && x <= hi {
            pts.push(x);
        }
    }
    for x in pts {
        if matches!(o, Op::Asin | Op::Acos) && x.abs() > 1.0 {
            continue;
        }
        if let Some(tv) = exact::elementary(o, x, 0.0) {
            run.check();
            if !exact::fx_within(&tv, rl, rh) {
                return Err(viol!(format!("enclosure/{op}"), "{} gives {} which does not contain the true value {:e} at {:e}", desc(), show(r), tv.approx(), x));
            }
        }
    }
    if op == "sin" || op == "cos" {
        if let Some((mx, mn)) = crit_inside(op, lo, hi) {
            run.check();
            if mx {
                run.probe("maximum_inside");
            }
            if mx && mn {
                run.probe("both_extrema_inside");
            }
            if (mx && rh < 1.0) || (mn && rl > -1.0) {
                return Err(viol!(format!("extremum/{op}"), "{} gives {} although the argument contains {}", desc(), show(r), if mx && rh < 1.0 { "a maximum" } else { "a minimum" }));
            }
        }
    }
    Ok(())
}

fn exec_c02<T: Fl>(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    let mut regs: Vec<Reg<T>> = vec![];
    for t in &plan.steps {
        crate::env::begin(t.id);
        let op = t.op.as_str();
        let fr = [t.num(0).abs().min(1.0), t.num(1).abs().min(1.0)];
        let o = match op {
            "sin" | "sin_cos" => Op::Sin,
            "cos" => Op::Cos,
            "tan" => Op::Tan,
            "asin" => Op::Asin,
            "acos" => Op::Acos,
            "atan" => Op::Atan,
            "atan2" => Op::Atan2,
            "map" => Op::Sqrt,
            "const" => {
                type C<T> = fn() -> Interval<T>;
                let cs: [(&str, C<T>, f64); 4] = [
                    ("pi", <Interval<T> as GFloat>::pi, 1.0),
                    ("tau", <Interval<T> as GFloat>::tau, 2.0),
                    ("frac_pi_2", <Interval<T> as GFloat>::frac_pi_2, 0.5),
                    ("frac_pi_4", <Interval<T> as GFloat>::frac_pi_4, 0.25),
                ];
                let (name, f, k) = cs[t.idx(1, 4)];
                let r = call::<T, _>(true, f).map_err(|e| fail_to_violation(e, name))?;
                ordered(&r, name, || name.to_string())?;
                let tv = exact::pi().mul(&Fx::from(k));
                run.check();
                run.probe("constant");
                let (rl, rh) = ends(&r);
                if !exact::fx_within(&tv, rl, rh) || rl == rh {
                    return Err(viol!(format!("constant/{name}"), "{name} ({}) is {} which does not contain the true constant", T::NAME, show(&r)));
                }
                // sharp: a unit in the last place on either side at most
                store_plain(&mut regs, r, t.int(0));
                continue;
            }
            _ => {
                match arith_step(&mut regs, t, run, false) {
                    Ok(()) => {}
                    Err(_) => return Ok(()),
                }
                continue;
            }
        };
        if regs.is_empty() {
            continue;
        }
        let a = regs[t.idx(1, regs.len())].iv;
        let b = regs[t.idx(2, regs.len())].iv;
        let (lo, hi) = ends(&a);
        run.note(mix(hash_str(op), mix(iv_class(&a), iv_class(&b))));
        if matches!(o, Op::Asin | Op::Acos) && !(lo >= -1.0 && hi <= 1.0) {
            continue;
        }
        let top = if matches!(o, Op::Atan | Op::Atan2) { 1e38 } else { 1e18 };
        if lo.abs() > top && lo.is_finite() || hi.abs() > top && hi.is_finite() {
            run.probe("outside_range");
            continue;
        }
        if o == Op::Atan2 {
            let (bl, bh) = ends(&b);
            if has_inf(&a) || has_inf(&b) || (lo == 0.0 && hi == 0.0 && bl == 0.0 && bh == 0.0) {
                continue;
            }
            let r = call::<T, _>(true, || GFloat::atan2(a, b)).map_err(|e| fail_to_violation(e, op))?;
            let desc = || format!("atan2 of y = {} and x = {} ({})", show(&a), show(&b), T::NAME);
            ordered(&r, op, desc)?;
            let (rl, rh) = ends(&r);
            run.event(rl.to_bits());
            run.event(rh.to_bits());
            if bl < 0.0 && lo <= 0.0 && hi >= 0.0 {
                run.probe("branch_cut");
            }
            if lo == 0.0 && hi == 0.0 || bl == 0.0 && bh == 0.0 {
                run.probe("atan2_axis");
            }
            let mut ys = finite_points(&a);
            let mut xs = finite_points(&b);
            ys.push((lo + (hi - lo) * fr[0]).clamp(lo, hi));
            xs.push((bl + (bh - bl) * fr[1]).clamp(bl, bh));
            for y in &ys {
                for x in &xs {
                    if *y == 0.0 && *x == 0.0 {
                        continue;
                    }
                    if let Some(tv) = exact::elementary(Op::Atan2, *y, *x) {
                        run.check();
                        if !exact::fx_within(&tv, rl, rh) {
                            return Err(viol!("enclosure/atan2", "{} gives {} which does not contain the true value {:e} at y = {:e}, x = {:e}", desc(), show(&r), tv.approx(), y, x));
                        }
                    }
                }
            }
            store_plain(&mut regs, r, t.int(0));
            continue;
        }
        if op == "map" {
            // a monotone function of the caller's own: one machine operation, always
            // rounded in the same direction
            let m = T::of(t.num(2).abs()).val();
            let kind = t.int(3).unsigned_abs() % 6;
            let mode = fpu::MODES[t.int(4).unsigned_abs() as usize % 4];
            let in_domain = match kind {
                0 | 1 => lo >= 0.0,
                3 => lo > 0.0,
                _ => true,
            };
            if has_inf(&a) || !in_domain || !(1e-3..1e3).contains(&m) {
                continue;
            }
            let one = |o: Op, x: f64, y: f64| -> f64 {
                if T::BITS == 32 {
                    fpu::exec32(o, x as f32, y as f32, mode) as f64
                } else {
                    fpu::exec64(o, x, y, mode)
                }
            };
            let mut calls = 0;
            let mut args = [0.0; 2];
            let f = |x: T| -> T {
                if calls < 2 {
                    args[calls] = x.val();
                }
                calls += 1;
                let x = x.val();
                T::of(match kind {
                    0 => one(Op::Sqrt, x, 0.0),
                    1 => -one(Op::Sqrt, x, 0.0),
                    2 => one(Op::Div, x, m),
                    3 => one(Op::Div, m, x),
                    4 => one(Op::Sub, m, x),
                    _ => one(Op::Add, x, m),
                })
            };
            let dec = matches!(kind, 1 | 3 | 4);
            let r = call::<T, _>(true, || if dec { a.map_monotonic_dec(f) } else { a.map_monotonic_inc(f) }).map_err(|e| fail_to_violation(e, op))?;
            let desc = || format!("monotone map ({}, {} calls) of {} ({})", ["root", "-root", "x/m", "m/x", "m-x", "x+m"][kind as usize], calls, show(&a), T::NAME);
            ordered(&r, op, desc)?;
            run.check();
            run.probe("caller_function");
            let (rl, rh) = ends(&r);
            for x in finite_points(&a) {
                let (x, m) = (Rat::from(x), Rat::from(m));
                let ok = if kind < 2 {
                    let (l, h) = if kind == 0 { (rl, rh) } else { (-rh, -rl) };
                    (l <= 0.0 || Rat::from(l).mul(&Rat::from(l)).cmp(&x) != Ordering::Greater) && h >= 0.0 && (h == f64::INFINITY || Rat::from(h).mul(&Rat::from(h)).cmp(&x) != Ordering::Less)
                } else {
                    let v = match kind {
                        2 => x.div(&m),
                        3 => m.div(&x),
                        4 => m.sub(&x),
                        _ => x.add(&m),
                    };
                    v.within(rl, rh)
                };
                if !ok {
                    return Err(viol!("enclosure/map", "{} with m = {:e} gives {} which misses the value at {:e}", desc(), m.approx(), show(&r), x.approx()));
                }
            }
            if args[..calls.min(2)].iter().any(|x| !(*x >= lo && *x <= hi)) {
                return Err(viol!("domain/map", "{} evaluates the function outside the interval, at {:?}", desc(), args));
            }
            store_plain(&mut regs, r, t.int(0));
            continue;
        }
        if op == "sin_cos" {
            let (s, c) = call::<T, _>(true, || GFloat::sin_cos(a)).map_err(|e| fail_to_violation(e, op))?;
            elem_check(run, "sin", Op::Sin, &s, &a, fr)?;
            elem_check(run, "cos", Op::Cos, &c, &a, fr)?;
            store_plain(&mut regs, s, t.int(0));
            continue;
        }
        let r = call::<T, _>(true, || match o {
            Op::Sin => GFloat::sin(a),
            Op::Cos => GFloat::cos(a),
            Op::Tan => GFloat::tan(a),
            Op::Asin => GFloat::asin(a),
            Op::Acos => GFloat::acos(a),
            _ => GFloat::atan(a),
        })
        .map_err(|e| fail_to_violation(e, op))?;
        elem_check(run, op, o, &r, &a, fr)?;
        store_plain(&mut regs, r, t.int(0));
    }
    Ok(())
}
impl Scenario for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 200_000,
            Tier::Thorough => 8_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let ty = *rng.pick(&[0i64, 0, 0, 1, 1, 2, 3]);
        let mut p = Plan { knobs: vec![ty], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        let angle = |rng: &mut Rng| -> f64 {
            let pi = std::f64::consts::PI;
            match rng.below(6) {
                0 => rng.range(-8, 8) as f64 * pi / 4.0,
                1 => rng.range(-8, 8) as f64 * pi / 2.0 * (1.0 + rng.sign() * rng.logu(1e-16, 1e-3)),
                2 => rng.uni(-20.0, 20.0),
                3 => rng.sign() * rng.logu(1e-20, 1e3),
                4 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, 4.0, 0.5]),
                _ => match rng.below(4) {
                    0 => rng.sign() * rng.logu(1e-37, 1e37),
                    1 => rng.sign() * rng.logu(1e3, 1e18),
                    _ => rng.sign() * rng.logu(1.0, 1e6),
                },
            }
        };
        let new = |rng: &mut Rng, p: &mut Plan, unit: bool| {
            let (a, b) = if unit {
                let v = |rng: &mut Rng| match rng.below(5) {
                    0 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5]),
                    1 => rng.sign() * (1.0 - rng.logu(1e-16, 1e-2)),
                    2 => rng.sign() * rng.logu(1e-20, 1e-3),
                    _ => rng.uni(-1.0, 1.0),
                };
                let a = v(rng);
                (a, if rng.chance(30) { a } else { v(rng) })
            } else {
                let a = angle(rng);
                let b = match rng.below(6) {
                    0 => a,
                    1 => a + rng.logu(1e-12, 1e-2),
                    2 => a + rng.uni(0.0, 7.0),
                    3 => a + rng.range(0, 9) as f64 * std::f64::consts::FRAC_PI_4,
                    4 => -a,
                    _ => angle(rng),
                };
                (a, b)
            };
            p.push("new", vec![rng.range(0, 99), 0, rng.range(0, 3)], vec![a.min(b), a.max(b)]);
        };
        new(rng, &mut p, false);
        new(rng, &mut p, true);
        for _ in 0..rng.range(3, 14) {
            match rng.below(10) {
                0 | 1 => {
                    let unit = rng.chance(40);
                    new(rng, &mut p, unit)
                }
                2 => gen_arith(rng, &mut p, ty, &["add", "sub", "mul", "neg", "union", "abs", "div"], 1),
                3 => {
                    if rng.chance(50) {
                        p.push("const", vec![rng.range(0, 99), rng.range(0, 3)], vec![])
                    } else {
                        let m = rng.logu(1e-2, 1e2);
                        p.push("map", vec![rng.range(0, 99), rng.range(0, 999), 0, rng.range(0, 5), rng.range(0, 3)], vec![0.0, 0.0, m])
                    }
                }
                _ => {
                    let op = *rng.pick(&["sin", "cos", "sin_cos", "tan", "asin", "acos", "atan", "atan2", "atan2", "sin", "cos"]);
                    p.push(op, vec![rng.range(0, 99), rng.range(0, 999), rng.range(0, 999)], vec![rng.f01(), rng.f01()]);
                }
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        by_type!(plan.knob(0), exec_c02(plan, run))
    }
    fn rule(&self) -> &'static str {
        "a run builds intervals (multiples of pi/4 and their neighbours, the unit interval, wide and narrow ones, results of earlier steps) and applies elementary functions whose math-library calls return the lower or the upper neighbour as the simulator decides; non-trivial if at least one true value was compared; distinct by operations, operand classes and fired faults"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of float type, operation sequence, operand classes and positions of changed roundings"
    }
    fn real(&self) -> &'static [&'static str] {
        &["math::interval_as_gfloat", "math::interval", "math::scalar constants", "platform math library (plain f32 and f64 runs)"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["math library for the simulated types: faithful model returning either neighbour of the true value", "arithmetic unit rounding"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["maximum_inside", "both_extrema_inside", "branch_cut", "atan2_axis", "constant", "caller_function"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the math library is faithful: each call returns one of the two representable neighbours of the true value", "true values are computed to about 2^-300; arguments between 1e-25 and 1e18 in magnitude (1e-38 and 1e38 for the arctangents), or zero"]
    }
}
