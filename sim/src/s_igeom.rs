//! C04: vectors, points, rays and transforms over intervals, against exact rational
//! geometry of witness points.

use crate::env;
use crate::exact::{self, Fx, Rat};
use crate::fpu::Op;
use crate::plan::{Plan, Step, Violation};
use crate::prng::{hash_str, mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::s_interval::{ends, fail_to_violation, gen_round_policy, val_class};
use crate::simf::{call, Fl};
use crate::{by_type, viol};
use scarlet::geometry::ray::Ray;
use scarlet::math::interval::Interval;
use scarlet::math::transform::{Matrix4x4, Transform};
use scarlet::math::vector::{Normal3, Point3, Vector3};
use std::cmp::Ordering;

pub struct C04;

type R3 = [Rat; 3];
#[derive(Clone)]
struct VReg<T: Fl> {
    v: [Interval<T>; 3],
    w: Vec<R3>,
}
#[derive(Clone)]
struct SReg<T: Fl> {
    v: Interval<T>,
    w: Vec<Rat>,
}
struct St<T: Fl> {
    vs: Vec<VReg<T>>,
    ss: Vec<SReg<T>>,
}

fn show<T: Fl>(v: &[Interval<T>]) -> String {
    v.iter().map(|i| format!("[{:e}, {:e}]", ends(i).0, ends(i).1)).collect::<Vec<_>>().join(" x ")
}
fn mid<T: Fl>(i: &Interval<T>) -> f64 {
    let (a, b) = ends(i);
    let m = a / 2.0 + b / 2.0;
    if m >= a && m <= b {
        m
    } else {
        a
    }
}
fn tame<T: Fl>(i: &Interval<T>) -> bool {
    let (a, b) = ends(i);
    a <= b && a.abs() <= 1e6 && b.abs() <= 1e6
}
impl<T: Fl> VReg<T> {
    /// witnesses, some corners, the centre
    fn points(&self, pick: u64) -> Vec<R3> {
        let mut r: Vec<R3> = self.w.clone();
        for k in 0..2u64 {
            let c = mix(pick, k);
            r.push(std::array::from_fn(|i| Rat::from(if c >> i & 1 == 0 { ends(&self.v[i]).0 } else { ends(&self.v[i]).1 })));
        }
        r.push(std::array::from_fn(|i| Rat::from(mid(&self.v[i]))));
        r
    }
}
impl<T: Fl> SReg<T> {
    fn points(&self) -> Vec<Rat> {
        let mut r = self.w.clone();
        let (a, b) = ends(&self.v);
        r.push(Rat::from(a));
        r.push(Rat::from(b));
        if a < 0.0 && b > 0.0 {
            r.push(Rat::from(0.0));
        }
        r
    }
}
impl<T: Fl> St<T> {
    fn put_v(&mut self, v: [Interval<T>; 3], w: Vec<R3>, slot: i64) {
        if !v.iter().all(tame) {
            return;
        }
        let mut w: Vec<R3> = w.into_iter().filter(|p| p.iter().all(|c| c.bits() < 3000)).take(2).collect();
        if w.is_empty() {
            w.push(std::array::from_fn(|i| Rat::from(mid(&v[i]))));
        }
        let r = VReg { v, w };
        if self.vs.len() < 6 {
            self.vs.push(r);
        } else {
            let k = slot.unsigned_abs() as usize % 6;
            self.vs[k] = r;
        }
    }
    fn put_s(&mut self, v: Interval<T>, w: Vec<Rat>, slot: i64) {
        if !tame(&v) {
            return;
        }
        let mut w: Vec<Rat> = w.into_iter().filter(|c| c.bits() < 3000).take(2).collect();
        if w.is_empty() {
            w.push(Rat::from(mid(&v)));
        }
        let r = SReg { v, w };
        if self.ss.len() < 6 {
            self.ss.push(r);
        } else {
            let k = slot.unsigned_abs() as usize % 6;
            self.ss[k] = r;
        }
    }
}

fn radd(a: &R3, b: &R3) -> R3 {
    std::array::from_fn(|i| a[i].add(&b[i]))
}
fn rsub(a: &R3, b: &R3) -> R3 {
    std::array::from_fn(|i| a[i].sub(&b[i]))
}
fn rscale(a: &R3, s: &Rat) -> R3 {
    std::array::from_fn(|i| a[i].mul(s))
}
fn rdot(a: &R3, b: &R3) -> Rat {
    a[0].mul(&b[0]).add(&a[1].mul(&b[1])).add(&a[2].mul(&b[2]))
}
fn rcross(a: &R3, b: &R3) -> R3 {
    let c = |i: usize, j: usize| a[i].mul(&b[j]).sub(&a[j].mul(&b[i]));
    [c(1, 2), c(2, 0), c(0, 1)]
}
fn sgnsq(x: &Rat) -> Rat {
    if x.signum() < 0 {
        x.mul(x).neg()
    } else {
        x.mul(x)
    }
}
fn sq_le(b: f64, s: &Rat, v: &Rat) -> bool {
    // b <= v / sqrt(s)
    if b.is_infinite() {
        return b < 0.0;
    }
    sgnsq(&Rat::from(b)).mul(s).cmp(&sgnsq(v)) != Ordering::Greater
}
fn sq_ge(b: f64, s: &Rat, v: &Rat) -> bool {
    if b.is_infinite() {
        return b > 0.0;
    }
    sgnsq(&Rat::from(b)).mul(s).cmp(&sgnsq(v)) != Ordering::Less
}

fn order<T: Fl>(v: &[Interval<T>], op: &str, desc: &dyn Fn() -> String) -> Result<(), Violation> {
    for i in v {
        let (a, b) = ends(i);
        if !(a <= b) {
            return Err(viol!(format!("order/{op}"), "{} gives {}", desc(), show(v)));
        }
    }
    Ok(())
}
fn enclose<T: Fl>(run: &mut Run, v: &[Interval<T>], x: &[Rat], op: &str, desc: &dyn Fn() -> String) -> Result<(), Violation> {
    run.check();
    for (i, e) in v.iter().zip(x) {
        let (a, b) = ends(i);
        if !e.within(a, b) {
            return Err(viol!(
                format!("enclosure/{op}"),
                "{} gives {} which does not contain the exact ({})",
                desc(),
                show(v),
                x.iter().map(|e| format!("{:e}", e.approx())).collect::<Vec<_>>().join(", ")
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- exact matrices
pub type M4 = [[f64; 4]; 4];
pub fn ident() -> M4 {
    std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f64))
}
pub fn mm(a: &M4, b: &M4) -> M4 {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..4).map(|k| a[i][k] * b[k][j]).sum()))
}
/// A product of elementary matrices with small dyadic entries and its exact inverse.
fn exact_pair(words: &[i64]) -> (M4, M4) {
    let (mut m, mut inv) = (ident(), ident());
    for w in words {
        let w = w.unsigned_abs();
        let (i, j) = ((w / 8 % 3) as usize, (w / 32 % 3) as usize);
        let k = [1.0, -1.0, 2.0, 0.5, -2.0, 3.0, -0.25, 4.0][(w / 128 % 8) as usize];
        let (mut e, mut f) = (ident(), ident());
        match w % 8 {
            0 | 1 => {
                // translation
                let d = k * [1.0, 3.0, 0.5][j];
                e[i][3] = d;
                f[i][3] = -d;
            }
            2 => {
                let s = [2.0, 0.5, -1.0, -2.0, 4.0, -0.5, 1.0, 0.25][(w / 128 % 8) as usize];
                e[i][i] = s;
                f[i][i] = 1.0 / s;
            }
            3 if i != j => {
                // rotation by a quarter turn
                for q in [&mut e, &mut f] {
                    q[i][i] = 0.0;
                    q[j][j] = 0.0;
                }
                e[i][j] = -1.0;
                e[j][i] = 1.0;
                f[i][j] = 1.0;
                f[j][i] = -1.0;
            }
            4 | 5 if i != j => {
                // shear
                e[i][j] = k;
                f[i][j] = -k;
            }
            6 if i != j => {
                for q in [&mut e, &mut f] {
                    q.swap(i, j);
                }
            }
            7 if w / 1024 % 4 == 0 => {
                // projective part
                e[3][i] = k;
                f[3][i] = -k;
            }
            _ => {}
        }
        m = mm(&e, &m);
        inv = mm(&inv, &f);
    }
    (m, inv)
}
fn affine(m: &M4) -> bool {
    m[3][0] == 0.0 && m[3][1] == 0.0 && m[3][2] == 0.0
}
fn rmap(m: &M4, p: &R3, w: f64) -> Option<R3> {
    let row = |i: usize| {
        let mut s = Rat::from(m[i][3] * w);
        for j in 0..3 {
            s = s.add(&p[j].mul(&Rat::from(m[i][j])));
        }
        s
    };
    if w == 0.0 {
        return Some([row(0), row(1), row(2)]);
    }
    let d = row(3);
    if d.signum() == 0 {
        return None;
    }
    Some([row(0).div(&d), row(1).div(&d), row(2).div(&d)])
}
fn rnormal(minv: &M4, n: &R3) -> R3 {
    std::array::from_fn(|i| {
        let mut s = Rat::from(0.0);
        for j in 0..3 {
            s = s.add(&n[j].mul(&Rat::from(minv[j][i])));
        }
        s
    })
}
fn mat<T: Fl>(m: &M4) -> Matrix4x4<T> {
    Matrix4x4 { data: std::array::from_fn(|i| std::array::from_fn(|j| T::of(m[i][j]))) }
}
fn imat<T: Fl>(m: &M4) -> Matrix4x4<Interval<T>> {
    Matrix4x4 { data: std::array::from_fn(|i| std::array::from_fn(|j| Interval { inf: T::of(m[i][j]), sup: T::of(m[i][j]) })) }
}

fn step<T: Fl>(st: &mut St<T>, t: &Step, run: &mut Run) -> Result<(), Violation> {
    let op = t.op.as_str();
    let iv = |a: f64, b: f64| {
        let (a, b) = (T::of(a.min(b)), T::of(a.max(b)));
        Interval { inf: a, sup: b }
    };
    match op {
        "vnew" => {
            let v: [Interval<T>; 3] = std::array::from_fn(|i| iv(t.num(2 * i), t.num(2 * i + 1)));
            st.put_v(v, vec![], t.int(0));
            return Ok(());
        }
        "snew" => {
            st.put_s(iv(t.num(0), t.num(1)), vec![], t.int(0));
            return Ok(());
        }
        _ => {}
    }
    if st.vs.is_empty() || st.ss.is_empty() {
        return Ok(());
    }
    let a = st.vs[t.idx(1, st.vs.len())].clone();
    let b = st.vs[t.idx(2, st.vs.len())].clone();
    let s = st.ss[t.idx(3, st.ss.len())].clone();
    let pick = mix(t.id as u64, hash_str(op));
    let (pa, pb, ps) = (a.points(pick), b.points(pick ^ 5), s.points());
    for i in 0..3 {
        run.note(mix(val_class(ends(&a.v[i]).0), val_class(ends(&a.v[i]).1)));
    }
    let va = Vector3::from(a.v);
    let vb = Vector3::from(b.v);
    let (qa, qb) = (Point3::from(a.v), Point3::from(b.v));
    let sv = s.v;
    let desc = || format!("{op} ({}) of {} | {} | {}", T::NAME, show(&a.v), show(&b.v), show(&[sv]));
    let fail = |e| fail_to_violation(e, op);
    let ret = |run: &mut Run, v: &[Interval<T>]| {
        for i in v {
            run.event(ends(i).0.to_bits());
            run.event(ends(i).1.to_bits());
        }
    };
    match op {
        "vadd" | "vsub" | "padd" | "psub" | "ppsub" | "cross" | "vmul" => {
            let form = t.int(4) % 2;
            let r = call::<T, _>(false, || match (op, form) {
                ("vadd", 0) => (va + vb).vec,
                ("vadd", _) => {
                    let mut x = va;
                    x += vb;
                    x.vec
                }
                ("vsub", 0) => (va - vb).vec,
                ("vsub", _) => {
                    let mut x = va;
                    x -= vb;
                    x.vec
                }
                ("padd", 0) => (qa + vb).vec,
                ("padd", _) => (va + qb).vec,
                ("psub", _) => (qa - vb).vec,
                ("ppsub", _) => (qa - qb).vec,
                ("vmul", _) => (va * vb).vec,
                _ => va.cross(vb).vec,
            })
            .map_err(fail)?;
            order(&r, op, &desc)?;
            ret(run, &r);
            let g = |x: &R3, y: &R3| match op {
                "vadd" | "padd" => radd(x, y),
                "vsub" | "psub" | "ppsub" => rsub(x, y),
                "vmul" => std::array::from_fn(|i| x[i].mul(&y[i])),
                _ => rcross(x, y),
            };
            for x in &pa {
                for y in &pb {
                    enclose(run, &r, &g(x, y), op, &desc)?;
                }
            }
            let w = a.w.iter().zip(b.w.iter().cycle()).map(|(x, y)| g(x, y)).collect();
            st.put_v(r, w, t.int(0));
        }
        "vneg" | "vscale" | "vdiv" => {
            let form = t.int(4) % 4;
            let r = call::<T, _>(false, || match (op, form) {
                ("vneg", 0 | 1) => (-va).vec,
                ("vneg", 2) => (-qa).vec,
                ("vneg", _) => (-Normal3::from(a.v)).vec,
                ("vscale", 0 | 1) => (va * sv).vec,
                ("vscale", 2) => (qa * sv).vec,
                ("vscale", _) => (Normal3::from(a.v) * sv).vec,
                (_, 0 | 1) => (va / sv).vec,
                (_, 2) => (qa / sv).vec,
                _ => (Normal3::from(a.v) / sv).vec,
            })
            .map_err(fail)?;
            order(&r, op, &desc)?;
            ret(run, &r);
            let mut w = vec![];
            for x in &pa {
                for y in &ps {
                    let e = match op {
                        "vneg" => rscale(x, &Rat::from(-1.0)),
                        "vscale" => rscale(x, y),
                        _ if y.signum() == 0 => continue,
                        _ => std::array::from_fn(|i| x[i].div(y)),
                    };
                    enclose(run, &r, &e, op, &desc)?;
                    if w.len() < 2 {
                        w.push(e);
                    }
                }
            }
            st.put_v(r, w, t.int(0));
        }
        "nscale" | "ndiv" => {
            // by a plain number
            let form = t.int(4) % 4;
            let k = if t.int(0) % 2 == 0 { sv.inf } else { sv.sup };
            let kr = Rat::from(ends(&Interval { inf: k, sup: k }).0);
            if op == "ndiv" && kr.signum() == 0 {
                return Ok(());
            }
            run.probe("by_number");
            let r = call::<T, _>(false, || match (op, form) {
                ("nscale", 0 | 1) => (va * k).vec,
                ("nscale", 2) => (qa * k).vec,
                ("nscale", _) => (Normal3::from(a.v) * k).vec,
                (_, 0 | 1) => (va / k).vec,
                (_, 2) => (qa / k).vec,
                _ => (Normal3::from(a.v) / k).vec,
            })
            .map_err(fail)?;
            order(&r, op, &desc)?;
            ret(run, &r);
            let mut w = vec![];
            for x in &pa {
                let e = if op == "nscale" { rscale(x, &kr) } else { std::array::from_fn(|i| x[i].div(&kr)) };
                enclose(run, &r, &e, op, &desc)?;
                w.push(e);
            }
            st.put_v(r, w, t.int(0));
        }
        "vmin" | "vmax" | "vdivv" => {
            let r = call::<T, _>(false, || match op {
                "vmin" => va.min(vb).vec,
                "vmax" => va.max(vb).vec,
                _ => (va / vb).vec,
            })
            .map_err(fail)?;
            order(&r, op, &desc)?;
            ret(run, &r);
            let mut w = vec![];
            for x in &pa {
                for y in &pb {
                    if op == "vdivv" && y.iter().any(|c| c.signum() == 0) {
                        continue;
                    }
                    let e: R3 = std::array::from_fn(|i| match op {
                        "vdivv" => x[i].div(&y[i]),
                        _ if (x[i].cmp(&y[i]) == Ordering::Less) == (op == "vmin") => x[i].clone(),
                        _ => y[i].clone(),
                    });
                    enclose(run, &r, &e, op, &desc)?;
                    if w.len() < 2 {
                        w.push(e);
                    }
                }
            }
            st.put_v(r, w, t.int(0));
        }
        "conv" => {
            // plain coordinates into intervals and back
            let k: [T; 3] = std::array::from_fn(|i| if t.int(0) >> i & 1 == 0 { a.v[i].inf } else { a.v[i].sup });
            let exact: R3 = std::array::from_fn(|i| Rat::from(ends(&Interval { inf: k[i], sup: k[i] }).0));
            let (r, back) = call::<T, _>(false, || match t.int(4) % 2 {
                0 => {
                    let v: Vector3<Interval<T>> = Vector3::from(Vector3::from(k));
                    let b: Vector3<T> = Vector3::from(va);
                    (v.vec, b.vec)
                }
                _ => {
                    let v: Point3<Interval<T>> = Point3::from(Point3::from(k));
                    let b: Point3<T> = Point3::from(qa);
                    (v.vec, b.vec)
                }
            })
            .map_err(fail)?;
            order(&r, op, &desc)?;
            ret(run, &r);
            enclose(run, &r, &exact, op, &desc)?;
            run.check();
            for i in 0..3 {
                let (lo, hi) = ends(&a.v[i]);
                let m = ends(&Interval { inf: back[i], sup: back[i] }).0;
                // the middle, give or take the rounding of its computation
                let slack = (lo.abs() + hi.abs()) * T::eps() * 2.0 + 1e-44;
                if !(m >= lo - slack && m <= hi + slack) {
                    return Err(viol!("conv/outside", "{}: the plain value {m:e} of [{lo:e}, {hi:e}] lies outside", desc()));
                }
            }
            st.put_v(r, vec![exact], t.int(0));
        }
        "dot" | "sqnorm" | "sqdist" => {
            let r = call::<T, _>(false, || match op {
                "dot" => va.dot(vb),
                "sqnorm" => va.square_norm(),
                _ => va.square_distance(vb),
            })
            .map_err(fail)?;
            order(&[r], op, &desc)?;
            ret(run, &[r]);
            let g = |x: &R3, y: &R3| match op {
                "dot" => rdot(x, y),
                "sqnorm" => rdot(x, x),
                _ => {
                    let d = rsub(x, y);
                    rdot(&d, &d)
                }
            };
            for x in &pa {
                for y in &pb {
                    enclose(run, &[r], &[g(x, y)], op, &desc)?;
                }
            }
            let w = a.w.iter().zip(b.w.iter().cycle()).map(|(x, y)| g(x, y)).collect();
            st.put_s(r, w, t.int(0));
        }
        "norm" | "dist" => {
            let r = call::<T, _>(false, || if op == "norm" { va.norm() } else { va.distance(vb) }).map_err(fail)?;
            order(&[r], op, &desc)?;
            ret(run, &[r]);
            let (rl, rh) = ends(&r);
            if rl <= 0.0 {
                run.probe("length_may_be_zero");
            }
            for x in &pa {
                for y in &pb {
                    let d = if op == "norm" { x.clone() } else { rsub(x, y) };
                    let q = rdot(&d, &d);
                    run.check();
                    let lo = rl <= 0.0 || rl.is_finite() && Rat::from(rl).mul(&Rat::from(rl)).cmp(&q) != Ordering::Greater;
                    let hi = rh == f64::INFINITY || rh >= 0.0 && Rat::from(rh).mul(&Rat::from(rh)).cmp(&q) != Ordering::Less;
                    if !(lo && hi) {
                        return Err(viol!(format!("enclosure/{op}"), "{} gives {} but the exact squared length is {:e}", desc(), show(&[r]), q.approx()));
                    }
                }
            }
            st.put_s(r, vec![], t.int(0));
        }
        "normalize" => {
            let r = call::<T, _>(false, || va.normalize().vec).map_err(fail)?;
            order(&r, op, &desc)?;
            ret(run, &r);
            for x in &pa {
                let q = rdot(x, x);
                if q.signum() == 0 {
                    run.probe("normalize_box_with_zero");
                    continue;
                }
                run.check();
                for i in 0..3 {
                    let (lo, hi) = ends(&r[i]);
                    if !(sq_le(lo, &q, &x[i]) && sq_ge(hi, &q, &x[i])) {
                        return Err(viol!(
                            "enclosure/normalize",
                            "{} gives {} which does not contain the direction of ({:e}, {:e}, {:e})",
                            desc(),
                            show(&r),
                            x[0].approx(),
                            x[1].approx(),
                            x[2].approx()
                        ));
                    }
                }
            }
            st.put_v(r, vec![], t.int(0));
        }
        "ray" => {
            let r = call::<T, _>(false, || Ray::new(qa, vb, sv).eval(sv).vec).map_err(fail)?;
            order(&r, op, &desc)?;
            ret(run, &r);
            let mut w = vec![];
            for x in &pa {
                for y in &pb {
                    for z in ps.iter().take(3) {
                        let e = radd(x, &rscale(y, z));
                        enclose(run, &r, &e, op, &desc)?;
                        if w.len() < 2 {
                            w.push(e);
                        }
                    }
                }
            }
            st.put_v(r, w, t.int(0));
        }
        "map" => {
            let (m, inv) = exact_pair(&t.i[6.min(t.i.len())..]);
            let back = t.int(4) & 1 == 1;
            let wide = t.int(4) & 2 == 2; // interval matrix
            let kind = t.int(5).rem_euclid(4);
            let (fm, fi) = if back { (&inv, &m) } else { (&m, &inv) };
            if kind != 0 && !(affine(&m) && affine(&inv)) {
                return Ok(());
            }
            run.probe(["map_point", "map_vector", "map_normal", "map_ray"][kind as usize]);
            if !affine(&m) {
                run.probe("map_projective");
            }
            macro_rules! apply {
                ($tr:expr) => {
                    match (kind, back) {
                        (0, false) => vec![$tr.map(qa).vec],
                        (0, true) => vec![$tr.map_inverse(qa).vec],
                        (1, false) => vec![$tr.map(va).vec],
                        (1, true) => vec![$tr.map_inverse(va).vec],
                        (2, false) => vec![$tr.map(Normal3::from(a.v)).vec],
                        (2, true) => vec![$tr.map_inverse(Normal3::from(a.v)).vec],
                        (_, false) => {
                            let r: Ray<Interval<T>> = $tr.map(Ray::new(qa, vb, sv));
                            vec![r.origin.vec, r.direction.vec, [r.tmax; 3]]
                        }
                        (_, true) => {
                            let r: Ray<Interval<T>> = $tr.map_inverse(Ray::new(qa, vb, sv));
                            vec![r.origin.vec, r.direction.vec, [r.tmax; 3]]
                        }
                    }
                };
            }
            let name = format!("map-{}", ["point", "vector", "normal", "ray"][kind as usize]);
            let desc = || format!("{} {name} through {fm:?}, inverse {fi:?}", desc());
            let r: Vec<[Interval<T>; 3]> = call::<T, _>(false, || {
                if wide {
                    let tr = Transform::new(imat::<T>(&m), imat::<T>(&inv));
                    apply!(tr)
                } else {
                    let tr = Transform::new(mat::<T>(&m), mat::<T>(&inv));
                    apply!(tr)
                }
            })
            .map_err(|e| fail_to_violation(e, &name))?;
            let mut w = vec![];
            for v in &r {
                order(v, &name, &desc)?;
                ret(run, v);
            }
            for x in &pa {
                let e = match kind {
                    0 | 3 => rmap(fm, x, 1.0),
                    1 => rmap(fm, x, 0.0),
                    _ => Some(rnormal(fi, x)),
                };
                if let Some(e) = e {
                    enclose(run, &r[0], &e, &name, &desc)?;
                    if w.len() < 2 {
                        w.push(e);
                    }
                }
            }
            if kind == 3 {
                for y in &pb {
                    enclose(run, &r[1], &rmap(fm, y, 0.0).unwrap(), "map-ray-direction", &desc)?;
                }
                for z in &ps {
                    enclose(run, &[r[2][0]], std::slice::from_ref(z), "map-ray-extent", &desc)?;
                }
            }
            st.put_v(r[0], w, t.int(0));
        }
        "irot" => {
            // rotation by an uncertain angle
            if ends(&sv).0.abs() > 1e3 || ends(&sv).1.abs() > 1e3 {
                return Ok(());
            }
            let axis = t.int(4).rem_euclid(3) as usize;
            let (m, mi, r) = call::<T, _>(true, || {
                let tr = match axis {
                    0 => Transform::rotate_x(sv),
                    1 => Transform::rotate_y(sv),
                    _ => Transform::rotate_z(sv),
                };
                (tr.matrix().data, tr.inverse_matrix().data, tr.map(va).vec)
            })
            .map_err(fail)?;
            let (lo, hi) = ends(&sv);
            order(&r, "uncertain-rotation", &desc)?;
            run.probe("uncertain_rotation");
            for x in [lo, hi, mid(&sv)] {
                let (sn, cs) = match (exact::elementary(Op::Sin, x, 0.0), exact::elementary(Op::Cos, x, 0.0)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => continue,
                };
                let (zero, one) = (Fx::zero(), Fx::int(1));
                let (p, q) = ((axis + 1) % 3, (axis + 2) % 3);
                let e = |i: usize, j: usize, turn: bool| -> Fx {
                    match () {
                        _ if i == j && (i == p || i == q) => cs.clone(),
                        _ if i == j => one.clone(),
                        _ if (i, j) == (p, q) => if turn { sn.clone() } else { sn.neg() },
                        _ if (i, j) == (q, p) => if turn { sn.neg() } else { sn.clone() },
                        _ => zero.clone(),
                    }
                };
                for i in 0..4 {
                    for j in 0..4 {
                        run.check();
                        for (k, mm) in [&m, &mi].into_iter().enumerate() {
                            let (l, h) = ends(&mm[i][j]);
                            if !exact::fx_within(&e(i, j, k == 1), l, h) {
                                return Err(viol!("enclosure/uncertain-rotation", "{}: rotation about axis {axis} by [{lo:e}, {hi:e}]: entry {i},{j} of the {} is [{l:e}, {h:e}] which misses the value at {x:e}", desc(), ["matrix", "inverse"][k]));
                            }
                        }
                    }
                }
                for v in &pa {
                    // the corners and the centre, exactly representable
                    let v: [f64; 3] = std::array::from_fn(|i| v[i].approx());
                    if (0..3).any(|i| !(ends(&a.v[i]).0 <= v[i] && v[i] <= ends(&a.v[i]).1) || v[i].abs() > 1e6) {
                        continue;
                    }
                    for i in 0..3 {
                        let mut w = Fx::zero();
                        for j in 0..3 {
                            w = w.add(&e(i, j, false).mul(&Fx::from(v[j])));
                        }
                        let (l, h) = ends(&r[i]);
                        run.check();
                        if !exact::fx_within(&w, l, h) {
                            return Err(viol!("enclosure/uncertain-rotation-map", "{}: the vector {v:?} turned about axis {axis} by {x:e}: coordinate {i} [{l:e}, {h:e}] misses {:e}", desc(), w.approx()));
                        }
                    }
                }
            }
        }
        "itr" => {
            // transforms whose own entries are uncertain: moved by a box of vectors and
            // scaled by a box of factors, in either order
            if b.v.iter().any(|i| !(ends(i).0 > 1e-3 || ends(i).1 < -1e-3)) {
                return Ok(());
            }
            let (scale_first, back) = (t.int(4) & 1 == 1, t.int(4) & 2 == 2);
            let c = st.vs[t.int(0).unsigned_abs() as usize % st.vs.len()].clone();
            let qc = Point3::from(c.v);
            let (m, mi, r) = call::<T, _>(false, || {
                let (move_by, grow) = (Transform::translate(va), Transform::scale(vb));
                let tr = if scale_first { move_by * grow } else { grow * move_by };
                let r = if back { tr.map_inverse(qc) } else { tr.map(qc) };
                (tr.matrix().data, tr.inverse_matrix().data, r.vec)
            })
            .map_err(fail)?;
            let desc = || format!("{} {} then {}, mapping {} {}", desc(), if scale_first { "scale" } else { "move" }, if scale_first { "move" } else { "scale" }, show(&c.v), if back { "back" } else { "" });
            let zero = Rat::from(0.0);
            let one = Rat::from(1.0);
            for x in &pa {
                for y in &pb {
                    for i in 0..3 {
                        let inv = one.div(&y[i]);
                        let (f, g) = if scale_first { (x[i].clone(), x[i].mul(&inv).neg()) } else { (x[i].mul(&y[i]), x[i].neg()) };
                        for j in 0..4 {
                            let e = if j == i { &y[i] } else if j == 3 { &f } else { &zero };
                            enclose(run, &[m[i][j]], std::slice::from_ref(e), "uncertain-matrix", &desc)?;
                            let e = if j == i { &inv } else if j == 3 { &g } else { &zero };
                            enclose(run, &[mi[i][j]], std::slice::from_ref(e), "uncertain-inverse", &desc)?;
                        }
                    }
                }
            }
            for j in 0..4 {
                let e = if j == 3 { &one } else { &zero };
                enclose(run, &[m[3][j]], std::slice::from_ref(e), "uncertain-matrix", &desc)?;
                enclose(run, &[mi[3][j]], std::slice::from_ref(e), "uncertain-inverse", &desc)?;
            }
            order(&r, "uncertain-map", &desc)?;
            ret(run, &r);
            run.probe("uncertain_transform");
            let at = |x: &R3, y: &R3, p: &R3| -> R3 {
                std::array::from_fn(|i| match (scale_first, back) {
                    (true, false) => p[i].mul(&y[i]).add(&x[i]),
                    (false, false) => p[i].add(&x[i]).mul(&y[i]),
                    (true, true) => p[i].sub(&x[i]).div(&y[i]),
                    (false, true) => p[i].div(&y[i]).sub(&x[i]),
                })
            };
            for (k, p) in c.points(pick ^ 9).iter().enumerate() {
                for l in 0..3 {
                    enclose(run, &r, &at(&pa[(k + l) % pa.len()], &pb[(k + 2 * l) % pb.len()], p), "uncertain-map", &desc)?;
                }
            }
            let w = vec![at(&a.w[0], &b.w[0], &c.w[0])];
            st.put_v(r, w, t.int(0));
        }
        _ => {}
    }
    Ok(())
}

fn exec<T: Fl>(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    let mut st = St::<T> { vs: vec![], ss: vec![] };
    for t in &plan.steps {
        env::begin(t.id);
        step(&mut st, t, run)?;
    }
    Ok(())
}

impl Scenario for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 400_000,
            Tier::Thorough => 16_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let ty = *rng.pick(&[0i64, 0, 0, 1, 1, 2, 3]);
        let mut p = Plan { knobs: vec![ty], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        let scale = rng.below(4);
        let num = |rng: &mut Rng| -> f64 {
            match scale {
                0 => *rng.pick(&[0.0, 1.0, -1.0, 2.0, -0.5, 3.0, 0.1]),
                1 => rng.sign() * rng.logu(1e-3, 1e3),
                2 => rng.sign() * rng.logu(1e-38, 1e2),
                _ => rng.uni(-10.0, 10.0),
            }
        };
        let iv = |rng: &mut Rng| -> (f64, f64) {
            let a = num(rng);
            match rng.below(5) {
                0 => (a, a),
                1 => (a, a + a.abs() * 1e-5),
                2 => (0.0f64.min(a), 0.0f64.max(a)),
                3 => (-a.abs(), num(rng).abs()),
                _ => {
                    let b = num(rng);
                    (a.min(b), a.max(b))
                }
            }
        };
        let vnew = |rng: &mut Rng, p: &mut Plan| {
            let mut f = vec![];
            for _ in 0..3 {
                let (a, b) = iv(rng);
                f.extend([a, b]);
            }
            p.push("vnew", vec![rng.range(0, 99)], f);
        };
        let snew = |rng: &mut Rng, p: &mut Plan| {
            let (a, b) = iv(rng);
            p.push("snew", vec![rng.range(0, 99)], vec![a, b]);
        };
        vnew(rng, &mut p);
        vnew(rng, &mut p);
        snew(rng, &mut p);
        for _ in 0..rng.range(3, 16) {
            let op = *rng.pick(&[
                "vnew", "snew", "vadd", "vsub", "padd", "psub", "ppsub", "cross", "cross", "vmul", "vneg", "vscale", "vdiv", "nscale", "ndiv", "ndiv", "vmin", "vmax", "vdivv", "conv", "dot", "sqnorm", "sqdist", "norm", "dist", "normalize", "normalize", "ray",
                "ray", "map", "map", "map", "map", "map", "itr", "itr", "irot",
            ]);
            match op {
                "vnew" => vnew(rng, &mut p),
                "snew" => snew(rng, &mut p),
                _ => {
                    let mut i = vec![rng.range(0, 99), rng.range(0, 99), rng.range(0, 99), rng.range(0, 99), rng.range(0, 3)];
                    if op == "map" {
                        i.push(rng.range(0, 3));
                        for _ in 0..rng.range(1, 5) {
                            i.push(rng.range(0, 4095));
                        }
                    }
                    p.push(op, i, vec![]);
                }
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        by_type!(plan.knob(0), exec(plan, run))
    }
    fn rule(&self) -> &'static str {
        "a run builds interval vectors and scalars and applies a history of vector, ray and transform operations under simulated rounding; non-trivial if at least one exact point was compared; distinct by operations, operand classes and fired faults"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of float type, operation sequence, operand classes and positions of changed roundings"
    }
    fn real(&self) -> &'static [&'static str] {
        &["math::vector and vector_traits over intervals", "geometry::ray", "math::transform maps with plain and interval matrices", "math::interval"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["arithmetic unit: rounding direction of each operation picked by the simulator"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["length_may_be_zero", "normalize_box_with_zero", "map_point", "map_vector", "map_normal", "map_ray", "map_projective", "by_number", "uncertain_transform", "uncertain_rotation"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["coordinates up to 1e6 in magnitude (no overflow)", "transform matrices have small dyadic entries and an exact inverse"]
    }
}
