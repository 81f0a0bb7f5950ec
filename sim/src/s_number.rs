//! C17: order, sign, classification and conversion of the number types, and approximate
//! equality of numbers, intervals, vectors, matrices and transforms, under simulated
//! rounding.

use crate::env;
use crate::fpu::{self, Mode};
use crate::plan::{Plan, Step, Violation};
use crate::prng::{mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::s_interval::{fail_to_violation, gen_round_policy, gen_value, val_class};
use crate::simf::{call, plain, Fl};
use crate::{by_type, viol};
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};
use scarlet::math::transform::{Matrix4x4, Transform};
use scarlet::math::vector::{Normal, Point, Vector};

pub struct C17;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Near {
    Yes,
    No,
    Either,
}
/// what any rounding must say about two numbers: `Either` between half and twice the
/// tolerance
fn near<T: Fl>(a: f64, b: f64) -> Near {
    if a.is_nan() || b.is_nan() {
        return Near::No;
    }
    if a.is_infinite() || b.is_infinite() {
        return if a == b { Near::Either } else { Near::No };
    }
    let (abs, rel) = if T::BITS == 32 { (1e-6, 1e-4) } else { (1e-6, 1e-6) };
    // scaled down, so that the difference can not overflow
    let d = (a / 4.0 - b / 4.0).abs();
    let m = a.abs().max(b.abs()) / 4.0;
    if d < 0.5 * (abs / 4.0) || d < 0.5 * rel * m {
        if 4.0 * d > T::max_val() {
            return Near::Either;
        }
        Near::Yes
    } else if d > 2.0 * (abs / 4.0) && d > 2.0 * rel * m {
        Near::No
    } else {
        Near::Either
    }
}
fn all(it: impl Iterator<Item = Near>) -> Near {
    let mut r = Near::Yes;
    for x in it {
        match x {
            Near::No => return Near::No,
            Near::Either => r = Near::Either,
            Near::Yes => {}
        }
    }
    r
}
fn judge(run: &mut Run, what: &str, ty: &str, got: bool, want: Near, desc: impl Fn() -> String) -> Result<(), Violation> {
    run.check();
    run.note(got as u64 + 2 * (want as u64) + 8 * what.len() as u64);
    match want {
        Near::Yes => run.probe("equal"),
        Near::No => run.probe("different"),
        Near::Either => {
            run.probe("borderline");
            return Ok(());
        }
    }
    if got != (want == Near::Yes) {
        return Err(viol!(format!("almost-equal/{what}"), "{what} ({ty}) {} answered {got}, although {} the tolerance", desc(), if got { "beyond twice" } else { "within half" }));
    }
    Ok(())
}
fn close<T: Fl>(t: &Step, run: &mut Run) -> Result<(), Violation> {
    let bad = |e: env::Fail| fail_to_violation(e, "almost_eq");
    let (a, b) = (T::of(t.num(0)), T::of(t.num(1)));
    let (av, bv) = (a.val(), b.val());
    let want = near::<T>(av, bv);
    let k = t.int(1).unsigned_abs() as usize;
    // the position of the component that differs; the others are identical
    let base = T::of(t.num(2));
    if !base.val().is_finite() {
        return Ok(());
    }
    match t.idx(0, 8) {
        0 => {
            let r = call::<T, _>(false, || (a.almost_eq(b), b.almost_eq(a), a.fequals(b))).map_err(bad)?;
            for g in [r.0, r.1, r.2] {
                judge(run, "number", T::NAME, g, want, || format!("{av:e} and {bv:e}"))?;
            }
        }
        1 => {
            // the same bits, in either order, in the default state: one answer
            let r = if T::BITS == 32 {
                let (x, y) = (av as f32, bv as f32);
                plain(Mode::Near, || (x.almost_eq(y), y.almost_eq(x)))
            } else {
                plain(Mode::Near, || (av.almost_eq(bv), bv.almost_eq(av)))
            }
            .map_err(bad)?;
            run.check();
            if r.0 != r.1 {
                return Err(viol!("almost-equal/symmetry", "{av:e} against {bv:e} ({} bits) answers {}, the other way round {}", T::BITS, r.0, r.1));
            }
        }
        2 => {
            let iv = |x: T, y: T| if x.val() <= y.val() { Some(Interval { inf: x, sup: y }) } else { None };
            // both ends have to be near
            let (p, q) = if k % 2 == 0 { (iv(base, a), iv(base, b)) } else { (iv(a, base), iv(b, base)) };
            if let (Some(p), Some(q)) = (p, q) {
                let r = call::<T, _>(false, || (AlmostEqual::<Interval<T>>::almost_eq(p, q), AlmostEqual::<Interval<T>>::almost_eq(q, p))).map_err(bad)?;
                for g in [r.0, r.1] {
                    judge(run, "interval", T::NAME, g, want, || format!("{p:?} and {q:?}"))?;
                }
                run.probe("intervals");
            }
        }
        3 => {
            if let (true, x) = (av <= bv, base.val()) {
                let p = Interval { inf: a, sup: b };
                let g = call::<T, _>(false, || AlmostEqual::<T>::almost_eq(p, base)).map_err(bad)?;
                let inside = av <= x && x <= bv;
                let w = if inside { all([near::<T>(av, x), near::<T>(bv, x)].into_iter()) } else { Near::No };
                judge(run, "interval and number", T::NAME, g, w, || format!("[{av:e}, {bv:e}] and {x:e}"))?;
            }
        }
        4 => vector::<T, 2>(k, base, a, b, want, run)?,
        5 => vector::<T, 3>(k, base, a, b, want, run)?,
        6 => vector::<T, 4>(k, base, a, b, want, run)?,
        _ => {
            let (i, j) = (k % 4, k / 4 % 4);
            let m = |x: T| {
                let mut d = [[base; 4]; 4];
                d[i][j] = x;
                Matrix4x4::from(d)
            };
            let (x, y) = (m(a), m(b));
            let id = Matrix4x4::from([[base; 4]; 4]);
            let r = call::<T, _>(false, || {
                (x.almost_eq(y), y.almost_eq(x), Transform::new(x, id).almost_eq(Transform::new(y, id)), Transform::new(id, x).almost_eq(Transform::new(id, y)))
            })
            .map_err(bad)?;
            for g in [r.0, r.1] {
                judge(run, "matrix", T::NAME, g, want, || format!("with {av:e} and {bv:e} in row {i}, column {j}"))?;
            }
            judge(run, "transform", T::NAME, r.2, want, || format!("with {av:e} and {bv:e} in row {i}, column {j} of the matrix"))?;
            judge(run, "transform", T::NAME, r.3, want, || format!("with {av:e} and {bv:e} in row {i}, column {j} of the inverse"))?;
            run.probe("matrices");
        }
    }
    Ok(())
}
fn vector<T: Fl, const N: usize>(k: usize, base: T, a: T, b: T, want: Near, run: &mut Run) -> Result<(), Violation> {
    let mut x = [base; N];
    let mut y = [base; N];
    x[k % N] = a;
    y[k % N] = b;
    let g = call::<T, _>(false, || {
        [
            Vector::<T, N>::from(x).almost_eq(Vector::from(y)),
            Point::<T, N>::from(x).almost_eq(Point::from(y)),
            Normal::<T, N>::from(y).almost_eq(Normal::from(x)),
        ]
    })
    .map_err(|e| fail_to_violation(e, "almost_eq"))?;
    for r in g {
        judge(run, "vector", T::NAME, r, want, || format!("of {N} with {:e} and {:e} as component {}", a.val(), b.val(), k % N))?;
    }
    run.probe("vectors");
    Ok(())
}

/// order, sign, classification and conversions of floats
fn float<T: Fl>(t: &Step, run: &mut Run) -> Result<(), Violation> {
    let bad = |e: env::Fail| fail_to_violation(e, "number");
    let (a, b, c) = (T::of(t.num(0)), T::of(t.num(1)), T::of(t.num(2)));
    let (x, y, z) = (a.val(), b.val(), c.val());
    run.note(mix(val_class(x), val_class(y) * 8 + t.idx(0, 4) as u64));
    match t.idx(0, 4) {
        0 => {
            let nan = x.is_nan() || y.is_nan() || z.is_nan();
            if nan {
                return Ok(());
            }
            let (lo, hi) = if y <= z { (b, c) } else { (c, b) };
            let r = call::<T, _>(false, || {
                let mm = Scalar::min_max(a, b);
                ([Scalar::min(a, b), Scalar::max(a, b), mm.0, mm.1, Scalar::clamp(a, lo, hi)], Scalar::in_range(a, lo, hi), [Scalar::is_zero(a), Scalar::is_one(a)])
            })
            .map_err(bad)?;
            run.check();
            run.probe("order");
            let (l, h) = (lo.val(), hi.val());
            let want = [x.min(y), x.max(y), x.min(y), x.max(y), x.max(l).min(h)];
            let got = r.0.map(|v| v.val());
            if got != want || r.1 != (l <= x && x <= h) || r.2 != [x == 0.0, x == 1.0] {
                return Err(viol!("order", "{x:e}, {y:e}, range {l:e}..{h:e} ({}): min, max, pair, clamp {got:?}, in range {}, zero and one {:?}", T::NAME, r.1, r.2));
            }
        }
        1 => {
            if x.is_nan() {
                return Ok(());
            }
            let r = call::<T, _>(false, || {
                (
                    [SignedScalar::is_positive(a), SignedScalar::is_negative(a), SignedScalar::is_nonpositive(a), SignedScalar::is_nonnegative(a)],
                    [SignedScalar::signum(a), SignedScalar::abs(a), <T as Scalar>::two(), <T as Scalar>::zero(), <T as Scalar>::one()],
                    Scalar::square(a),
                    GFloat::recip(a),
                )
            })
            .map_err(bad)?;
            run.check();
            run.probe("sign");
            let sg = if x > 0.0 {
                1.0
            } else if x < 0.0 {
                -1.0
            } else {
                0.0
            };
            let got = r.1.map(|v| v.val());
            if r.0 != [x > 0.0, x < 0.0, x <= 0.0, x >= 0.0] || got != [sg, x.abs(), 2.0, 0.0, 1.0] {
                return Err(viol!("sign", "{x:e} ({}): positive, negative, nonpositive, nonnegative {:?}, sign, magnitude, two, zero, one {got:?}", T::NAME, r.0));
            }
            // one machine operation each: a neighbour of the true value
            let ex = |o: fpu::Op, p: f64, q: f64, m: Mode| if T::BITS == 32 { fpu::exec32(o, p as f32, q as f32, m) as f64 } else { fpu::exec64(o, p, q, m) };
            let sq = (ex(fpu::Op::Mul, x, x, Mode::Down), ex(fpu::Op::Mul, x, x, Mode::Up));
            let rc = (ex(fpu::Op::Div, 1.0, x, Mode::Down), ex(fpu::Op::Div, 1.0, x, Mode::Up));
            let (s, q) = (r.2.val(), r.3.val());
            if !(sq.0 <= s && s <= sq.1) || x != 0.0 && !(rc.0 <= q && q <= rc.1) {
                return Err(viol!("square-or-reciprocal", "{x:e} ({}): square {s:e}, reciprocal {q:e}", T::NAME));
            }
        }
        2 => {
            let r = call::<T, _>(false, || (GFloat::is_nan(a), GFloat::is_finite(a), GFloat::is_infinite(a), GFloat::to_f64(a), GFloat::to_f32(a), GFloat::to_i64(a))).map_err(bad)?;
            run.check();
            run.probe("classified");
            if (r.0, r.1, r.2) != (x.is_nan(), x.is_finite(), x.is_infinite()) {
                return Err(viol!("classification", "{x:e} ({}): nan, finite, infinite answer {:?}", T::NAME, (r.0, r.1, r.2)));
            }
            if x.is_nan() {
                return Ok(());
            }
            let narrow = (fpu::narrow(x, Mode::Down), fpu::narrow(x, Mode::Up));
            if r.3 != x || !(narrow.0 <= r.4 && r.4 <= narrow.1) || r.5 != x as i64 {
                return Err(viol!("cast", "{x:e} ({}): as double {:e}, as single {:e}, as integer {}", T::NAME, r.3, r.4, r.5));
            }
        }
        _ => {
            let n = t.int(1) >> (t.int(2).unsigned_abs() % 63);
            let d = t.num(3);
            let s = d as f32;
            let r = call::<T, _>(false, || {
                let i: [T; 8] = [T::from_i64(n), T::from_f32(s), T::from_f64(d), T::lowest(), T::highest(), T::infinity(), T::neg_infinity(), T::min_positive_value()];
                (i, [T::half(), T::pi(), T::tau(), T::frac_pi_2(), T::frac_pi_4()], GFloat::is_nan(T::nan()), T::neg_zero().val())
            })
            .map_err(bad)?;
            run.check();
            run.probe("converted");
            let v = r.0.map(|q| q.val());
            let (nl, nh) = if T::BITS == 32 { (fpu::int32(n, Mode::Down) as f64, fpu::int32(n, Mode::Up) as f64) } else { (fpu::int64(n, Mode::Down), fpu::int64(n, Mode::Up)) };
            let (dl, dh) = if T::BITS == 32 { (fpu::narrow(d, Mode::Down) as f64, fpu::narrow(d, Mode::Up) as f64) } else { (d, d) };
            if !(nl <= v[0] && v[0] <= nh) || !(s.is_nan() || v[1] == s as f64) || !(d.is_nan() || dl <= v[2] && v[2] <= dh) {
                return Err(viol!("convert", "{n}, {s:e} (single), {d:e} (double) become {:e}, {:e}, {:e} ({})", v[0], v[1], v[2], T::NAME));
            }
            let mp = if T::BITS == 32 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
            let lim = [-T::max_val(), T::max_val(), f64::INFINITY, f64::NEG_INFINITY, mp];
            if v[3..] != lim || !r.2 || !(r.3 == 0.0 && r.3.is_sign_negative()) {
                return Err(viol!("limits", "{}: lowest, highest, infinities, smallest normal {:?}, nan {}, negative zero {:?}", T::NAME, &v[3..], r.2, r.3));
            }
            let pi = std::f64::consts::PI;
            let k = r.1.map(|q| q.val());
            for (g, w) in k.iter().zip([0.5, pi, 2.0 * pi, pi / 2.0, pi / 4.0]) {
                if !((g - w).abs() <= T::eps() * w) {
                    return Err(viol!("constants", "{}: half, pi, tau, pi/2, pi/4 are {k:?}", T::NAME));
                }
            }
        }
    }
    Ok(())
}
/// square root and elementary functions of plain numbers: the true value to a few units in
/// the last place (what the platform's math library delivers)
fn elem<T: Fl>(t: &Step, run: &mut Run) -> Result<(), Violation> {
    use fpu::Op;
    let (a, b) = (T::of(t.num(0)), T::of(t.num(1)));
    let (x, y) = (a.val(), b.val());
    let op = [Op::Sin, Op::Cos, Op::Tan, Op::Asin, Op::Acos, Op::Atan, Op::Atan2, Op::Sqrt][t.idx(0, 8)];
    run.note(mix(val_class(x), val_class(y) * 8 + t.idx(0, 8) as u64));
    if !x.is_finite() || !y.is_finite() || matches!(op, Op::Asin | Op::Acos) && x.abs() > 1.0 || op == Op::Sqrt && x < 0.0 || op == Op::Atan2 && x == 0.0 && y <= 0.0 {
        return Ok(());
    }
    let r = call::<T, _>(true, || match op {
        Op::Sin => (GFloat::sin(a), Some(GFloat::sin_cos(a).0)),
        Op::Cos => (GFloat::cos(a), Some(GFloat::sin_cos(a).1)),
        Op::Tan => (GFloat::tan(a), None),
        Op::Asin => (GFloat::asin(a), None),
        Op::Acos => (GFloat::acos(a), None),
        Op::Atan => (GFloat::atan(a), None),
        Op::Atan2 => (GFloat::atan2(a, b), None),
        _ => (GFloat::sqrt(a), None),
    })
    .map_err(|e| fail_to_violation(e, "elementary function"))?;
    let (lo, hi) = if op == Op::Sqrt {
        (fpu::exec64(Op::Sqrt, x, 0.0, Mode::Down), fpu::exec64(Op::Sqrt, x, 0.0, Mode::Up))
    } else {
        match crate::exact::bracket64(op, x, y) {
            Some(v) => v,
            None => return Ok(()),
        }
    };
    let tiny = if T::BITS == 32 { 2.0f64.powi(-149) } else { 5e-324 };
    for g in std::iter::once(r.0).chain(r.1) {
        let g = g.val();
        let m = 4.0 * T::eps() * lo.abs().max(hi.abs()) + 2.0 * tiny;
        run.check();
        run.probe("elementary");
        if !(lo - m <= g && g <= hi + m) && !(g.is_infinite() && hi.abs() > T::max_val() / 2.0) {
            return Err(viol!(format!("elementary/{op:?}"), "{op:?} of {x:e} (and {y:e}) is {g:e} ({}), the true value lies between {lo:e} and {hi:e}", T::NAME));
        }
    }
    Ok(())
}
/// constants, limits and stepping of intervals as a number type
fn inums<T: Fl>(t: &Step, run: &mut Run) -> Result<(), Violation> {
    type I<T> = Interval<T>;
    let (a, b) = (T::of(t.num(0)), T::of(t.num(1)));
    let (a, b) = if a.val() <= b.val() { (a, b) } else { (b, a) };
    let r = call::<T, _>(false, || {
        let k: [I<T>; 11] = [I::zero(), I::one(), I::two(), I::half(), I::lowest(), I::highest(), I::infinity(), I::neg_infinity(), I::min_positive_value(), I::abs_epsilon(), I::rel_epsilon()];
        (k, GFloat::is_nan(I::<T>::nan()), I::<T>::neg_zero())
    })
    .map_err(|e| fail_to_violation(e, "interval constants"))?;
    run.check();
    let v = r.0.map(|q| (q.inf.val(), q.sup.val()));
    let mp = if T::BITS == 32 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
    let point = |k: usize, x: f64| v[k] == (x, x);
    let rel = if T::BITS == 32 { 1e-4 } else { 1e-6 };
    let about = |k: usize, x: f64| v[k].0 <= v[k].1 && (v[k].0 - x).abs() <= x * 1e-6 && (v[k].1 - x).abs() <= x * 1e-6;
    let nz = (r.2.inf.val(), r.2.sup.val());
    if !(point(0, 0.0) && point(1, 1.0) && v[2].0 <= 2.0 && 2.0 <= v[2].1 && point(3, 0.5) && point(4, -T::max_val()) && point(5, T::max_val()) && point(6, f64::INFINITY) && point(7, f64::NEG_INFINITY) && point(8, mp) && about(9, 1e-6) && about(10, rel) && r.1 && nz == (0.0, 0.0)) {
        return Err(viol!("interval-constants", "{}: zero, one, two, half, lowest, highest, infinities, smallest normal, tolerances {v:?}, nan {}, negative zero {nz:?}", T::NAME, r.1));
    }
    if a.val().is_nan() || b.val().is_nan() {
        return Ok(());
    }
    let p = Interval { inf: a, sup: b };
    let s = call::<T, _>(false, || (GFloat::next_up(p), GFloat::next_down(p))).map_err(|e| fail_to_violation(e, "interval stepping"))?;
    run.check();
    run.probe("interval_steps");
    let up = |x: f64| if T::BITS == 32 { fpu::up32(x as f32) as f64 } else { fpu::up64(x) };
    let dn = |x: f64| if T::BITS == 32 { fpu::down32(x as f32) as f64 } else { fpu::down64(x) };
    let got = [s.0.inf.val(), s.0.sup.val(), s.1.inf.val(), s.1.sup.val()];
    let want = [up(a.val()), up(b.val()), dn(a.val()), dn(b.val())];
    // an infinite end may stay where it is or come back
    if got.iter().zip(want).zip([a.val(), b.val(), a.val(), b.val()]).any(|((g, w), x)| !(*g == w || x.is_infinite() && *g == x)) {
        return Err(viol!("interval-step", "stepping [{:e}, {:e}] ({}) gives [{:e}, {:e}] and [{:e}, {:e}]", a.val(), b.val(), T::NAME, got[0], got[1], got[2], got[3]));
    }
    Ok(())
}
fn ints(t: &Step, run: &mut Run) -> Result<(), Violation> {
    macro_rules! common {
        ($t:ty) => {{
            let f = |k: usize| -> $t {
                let v = t.int(k);
                match t.int(k + 3) % 4 {
                    0 => (v % 4) as $t,
                    1 => <$t>::MAX - (v % 3).unsigned_abs() as $t,
                    2 => <$t>::MIN + (v % 3).unsigned_abs() as $t,
                    _ => v as $t,
                }
            };
            let (a, b, c) = (f(1), f(2), f(3));
            let (lo, hi) = (Ord::min(b, c), Ord::max(b, c));
            let small = (a % 11) as $t;
            let r = env::lib(|| {
                (
                    [Scalar::min(a, b), Scalar::max(a, b), Scalar::min_max(a, b).0, Scalar::min_max(a, b).1, Scalar::clamp(a, lo, hi), <$t as Scalar>::zero(), <$t as Scalar>::one(), <$t as Scalar>::two(), <$t as Scalar>::lowest(), <$t as Scalar>::highest(), Scalar::square(small)],
                    [Scalar::in_range(a, lo, hi), Scalar::is_zero(a), Scalar::is_one(a), a.almost_eq(b), Vector::<$t, 3>::from([a, b, c]).almost_eq(Vector::from([a, c, c]))],
                )
            })
            .map_err(|e| fail_to_violation(e, "integer"))?;
            run.check();
            run.note(mix((a as i64) as u64, mix((b as i64) as u64, std::mem::size_of::<$t>() as u64)));
            let w = (
                [Ord::min(a, b), Ord::max(a, b), Ord::min(a, b), Ord::max(a, b), Ord::clamp(a, lo, hi), 0, 1, 2, <$t>::MIN, <$t>::MAX, small * small],
                [lo <= a && a <= hi, a == 0, a == 1, a == b, b == c],
            );
            if r != w {
                return Err(viol!(format!("integer/{}", stringify!($t)), "{a}, {b}, range {lo}..{hi} ({}): min, max, pair, clamp, zero, one, two, lowest, highest, square of {small} {:?}, in range, zero, one, equal, equal vectors {:?}", stringify!($t), r.0, r.1));
            }
            a
        }};
    }
    macro_rules! signed {
        ($t:ty) => {{
            let a = common!($t);
            let m = if a == <$t>::MIN { 0 } else { a };
            let r = env::lib(|| ([SignedScalar::is_positive(a), SignedScalar::is_negative(a), SignedScalar::is_nonpositive(a), SignedScalar::is_nonnegative(a)], SignedScalar::signum(a), SignedScalar::abs(m))).map_err(|e| fail_to_violation(e, "integer"))?;
            if r.0 != [a > 0, a < 0, a <= 0, a >= 0] || r.1 != <$t>::signum(a) || r.2 != <$t>::abs(m) {
                return Err(viol!(format!("integer-sign/{}", stringify!($t)), "{a} ({}): positive, negative, nonpositive, nonnegative {:?}, sign {}, magnitude of {m} {}", stringify!($t), r.0, r.1, r.2));
            }
        }};
    }
    match t.idx(0, 8) {
        0 => signed!(i8),
        1 => signed!(i16),
        2 => signed!(i32),
        3 => signed!(i64),
        4 => {
            common!(u8);
        }
        5 => {
            common!(u16);
        }
        6 => {
            common!(u32);
        }
        _ => {
            common!(u64);
        }
    }
    run.probe("integers");
    Ok(())
}
fn exec<T: Fl>(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    for t in &plan.steps {
        env::begin(t.id);
        match t.op.as_str() {
            "close" => close::<T>(t, run)?,
            "float" => float::<T>(t, run)?,
            "elem" => elem::<T>(t, run)?,
            "inum" => inums::<T>(t, run)?,
            _ => ints(t, run)?,
        }
    }
    Ok(())
}
impl Scenario for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_500_000,
            Tier::Thorough => 120_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let ty = *rng.pick(&[0i64, 0, 1, 1, 2, 3, 2, 3]);
        let b32 = ty == 0 || ty == 2;
        let mut p = Plan { knobs: vec![ty], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        let special = |rng: &mut Rng| -> f64 {
            if rng.chance(6) {
                *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])
            } else {
                let s = rng.below(5);
                gen_value(rng, b32, s)
            }
        };
        for _ in 0..rng.range(2, 14) {
            match rng.below(8) {
                5 | 6 => {
                    let k = rng.below(8) as i64;
                    let x = match (k, rng.below(4)) {
                        (3 | 4, _) => rng.uni(-1.0, 1.0),
                        (_, 0) => rng.uni(-10.0, 10.0),
                        (_, 1) => rng.sign() * rng.logu(1e-12, 1e12),
                        _ => special(rng),
                    };
                    let y = if rng.chance(50) { rng.sign() * rng.logu(1e-6, 1e6) } else { special(rng) };
                    p.push("elem", vec![k], vec![x, y]);
                }
                7 => {
                    let a = special(rng);
                    let b = if rng.chance(30) { a } else { special(rng) };
                    p.push("inum", vec![], vec![a, b]);
                }
                0 | 1 => {
                    let rel = if b32 { 1e-4 } else { 1e-6 };
                    let a = if rng.chance(30) { rng.uni(-5.0, 5.0) } else { special(rng) };
                    let b = match rng.below(7) {
                        0 => a,
                        1 | 2 => a * (1.0 + rng.sign() * rel * rng.logu(0.05, 30.0)),
                        3 | 4 => a + rng.sign() * 1e-6 * rng.logu(0.05, 30.0),
                        5 => -a,
                        _ => special(rng),
                    };
                    let k = rng.below(8);
                    let base = match (k, rng.below(4)) {
                        (2, _) => a.abs() * 2.0 * rng.sign() + rng.sign(),
                        (_, 0) => b,
                        (3, _) => a + (b - a) * rng.uni(-0.2, 1.2),
                        _ => rng.uni(-3.0, 3.0),
                    };
                    let (a, b) = if k == 3 && a > b { (b, a) } else { (a, b) };
                    p.push("close", vec![k as i64, rng.range(0, 999)], vec![a, b, base]);
                }
                2 | 3 => {
                    let a = special(rng);
                    let f = vec![a, if rng.chance(15) { a } else { special(rng) }, if rng.chance(15) { a } else { special(rng) }, special(rng)];
                    p.push("float", vec![rng.range(0, 3), rng.next() as i64, rng.range(0, 62)], f);
                }
                _ => {
                    let v = rng.next() as i64;
                    let same = rng.chance(20);
                    let mut i = vec![rng.range(0, 7), v, if same { v } else { rng.next() as i64 >> rng.below(60) }, rng.next() as i64];
                    i.extend((0..3).map(|_| rng.range(0, 7)));
                    p.push("int", i, vec![]);
                }
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        by_type!(plan.knob(0), exec(plan, run))
    }
    fn rule(&self) -> &'static str {
        "a run asks a sequence of comparisons, signs, classifications, conversions and approximate comparisons of numbers, intervals, vectors, matrices and transforms while the simulator chooses the rounding of every operation and conversion; non-trivial if at least one answer was judged; distinct by questions, value classes, answers and positions of changed roundings"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of float type, questions, value classes, answers and the (step, operation) positions whose rounding was changed"
    }
    fn real(&self) -> &'static [&'static str] {
        &["math::scalar helpers, constants and conversions", "approximate equality of numbers, intervals, vectors, matrices and transforms"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["arithmetic unit: rounding direction of each operation picked by the simulator (conversions of the simulated types included)"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["equal", "different", "borderline", "intervals", "vectors", "matrices", "order", "sign", "classified", "converted", "integers", "elementary", "interval_steps"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["differences between half and twice the tolerance are not judged, nor two equal infinities"]
    }
}
