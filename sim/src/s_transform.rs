//! C12 and C15: transforms under simulated rounding, against double-precision models
//! with running error bounds.

use crate::env;
use crate::plan::{Plan, Step, Violation};
use crate::prng::{mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::s_igeom::{ident, mm, M4};
use crate::s_interval::{fail_to_violation, gen_round_policy};
use crate::scene::{abs3, add3, cross3, dot3, len3, mabs, mpt, mul3, mvec, sub3, unit3, V3};
use crate::simf::{call, Fl};
use crate::{by_type, viol};
use scarlet::geometry::ray::Ray;
use scarlet::math::transform::{Invertible, Matrix4x4, Transform};
use scarlet::math::vector::{Normal3, Point3, Vector3};

pub struct C12;
pub struct C15;

struct Reg<T: Fl> {
    t: Transform<T>,
    m: M4,
    e: M4,
    mi: M4,
    ei: M4,
}
fn madd(a: &M4, b: &M4) -> M4 {
    std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] + b[i][j]))
}
fn mscale(a: &M4, s: f64) -> M4 {
    a.map(|r| r.map(|x| x * s))
}
fn tr(a: &M4) -> M4 {
    std::array::from_fn(|i| std::array::from_fn(|j| a[j][i]))
}
fn gamma<T: Fl>() -> f64 {
    (if T::BITS == 64 { 16.0 } else { 8.0 }) * T::eps()
}
/// bound of a product of two bounded matrices
fn prod<T: Fl>(a: &M4, ea: &M4, b: &M4, eb: &M4) -> (M4, M4) {
    let (aa, ab) = (madd(&mabs(a), ea), madd(&mabs(b), eb));
    let e = madd(&madd(&mm(&mabs(a), eb), &mm(ea, &ab)), &mscale(&mm(&aa, &ab), gamma::<T>()));
    (mm(a, b), e)
}
#[derive(Clone, Copy)]
struct Vb {
    v: V3,
    e: V3,
}
#[derive(Clone, Copy, PartialEq)]
enum What {
    Point,
    Vector,
    Normal,
}
/// `m` is the matrix for points and vectors, the inverse for normals.
fn apply<T: Fl>(m: &M4, em: &M4, x: &Vb, w: What) -> Vb {
    let (m, em) = if w == What::Normal { (tr(m), tr(em)) } else { (*m, *em) };
    let f = |m: &M4, v: V3| if w == What::Point { mpt(m, v) } else { mvec(m, v) };
    let xa = add3(abs3(x.v), x.e);
    let e = add3(add3(mvec(&mabs(&m), x.e), f(&em, xa)), mul3(f(&madd(&mabs(&m), &em), xa), gamma::<T>()));
    Vb { v: f(&m, x.v), e }
}
fn near(got: V3, want: &Vb) -> bool {
    (0..3).all(|i| (got[i] - want.v[i]).abs() <= want.e[i] + 1e-35)
}
fn v3<T: Fl>(v: V3) -> [T; 3] {
    v.map(T::of)
}
fn rd<T: Fl>(v: V3) -> V3 {
    v.map(|x| T::of(x).val())
}
fn pv<T: Fl>(p: Point3<T>) -> V3 {
    p.vec.map(|x| x.val())
}
fn vv<T: Fl>(p: Vector3<T>) -> V3 {
    p.vec.map(|x| x.val())
}
fn nv<T: Fl>(p: Normal3<T>) -> V3 {
    p.vec.map(|x| x.val())
}
fn mk_p<T: Fl>(v: V3) -> Point3<T> {
    let [x, y, z] = v3::<T>(v);
    Point3::new(x, y, z)
}
fn mk_v<T: Fl>(v: V3) -> Vector3<T> {
    let [x, y, z] = v3::<T>(v);
    Vector3::new(x, y, z)
}
fn mk_n<T: Fl>(v: V3) -> Normal3<T> {
    let [x, y, z] = v3::<T>(v);
    Normal3::new(x, y, z)
}
fn mat<T: Fl>(m: Matrix4x4<T>) -> M4 {
    m.data.map(|r| r.map(|x| x.val()))
}

fn rot(a: V3, ang: f64) -> M4 {
    let (s, c) = ang.sin_cos();
    let mut m = ident();
    let k = [[0.0, -a[2], a[1]], [a[2], 0.0, -a[0]], [-a[1], a[0], 0.0]];
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = a[i] * a[j] * (1.0 - c) + if i == j { c } else { 0.0 } + k[i][j] * s;
        }
    }
    m
}
const ELEMS: [&str; 7] = ["identity", "translate", "scale", "rotate_x", "rotate_y", "rotate_z", "rotate"];
fn elem<T: Fl>(kind: usize, f: &[f64; 4]) -> Result<Reg<T>, Violation> {
    let v = rd::<T>([f[0], f[1], f[2]]);
    let ang = T::of(f[3]).val();
    let (mut m, mut mi) = (ident(), ident());
    let (mut e, mut ei) = ([[0.0; 4]; 4], [[0.0; 4]; 4]);
    let axis = if kind == 6 { if len3(v) < 1e-30 { [0.0, 0.0, 1.0] } else { v } } else { [(kind == 3) as u8 as f64, (kind == 4) as u8 as f64, (kind == 5) as u8 as f64] };
    let eps = T::eps();
    let t = call::<T, _>(true, || match kind {
        0 => Transform::<T>::identity(),
        1 => Transform::translate(mk_v(v)),
        2 => Transform::scale(mk_v(v)),
        3 => Transform::rotate_x(T::of(ang)),
        4 => Transform::rotate_y(T::of(ang)),
        5 => Transform::rotate_z(T::of(ang)),
        _ => Transform::rotate(mk_v(axis), T::of(ang)),
    })
    .map_err(|f| fail_to_violation(f, ELEMS[kind]))?;
    match kind {
        0 => {}
        1 => {
            for i in 0..3 {
                m[i][3] = v[i];
                mi[i][3] = -v[i];
            }
        }
        2 => {
            for i in 0..3 {
                m[i][i] = v[i];
                mi[i][i] = 1.0 / v[i];
                ei[i][i] = 2.0 * eps / v[i].abs();
            }
        }
        _ => {
            m = rot(unit3(axis), ang);
            mi = tr(&m);
            for i in 0..3 {
                for j in 0..3 {
                    let k = if kind == 6 { 32.0 } else { 4.0 };
                    e[i][j] = k * eps;
                    ei[i][j] = k * eps;
                }
            }
        }
    }
    Ok(Reg { t, m, e, mi, ei })
}
fn show_m(m: &M4) -> String {
    format!("{m:?}")
}
fn judge_reg<T: Fl>(r: &Reg<T>, run: &mut Run, how: &str) -> Result<(), Violation> {
    run.check();
    let (m, mi) = (mat(r.t.matrix()), mat(r.t.inverse_matrix()));
    for i in 0..4 {
        for j in 0..4 {
            if !((m[i][j] - r.m[i][j]).abs() <= r.e[i][j] + 1e-35) {
                return Err(viol!(format!("matrix/{how}"), "{how}: entry {i},{j} of the matrix is {:e}, expected {:e} ({})", m[i][j], r.m[i][j], T::NAME));
            }
            if !((mi[i][j] - r.mi[i][j]).abs() <= r.ei[i][j] + 1e-35) {
                return Err(viol!(format!("inverse-matrix/{how}"), "{how}: entry {i},{j} of the inverse is {:e}, expected {:e} ({})", mi[i][j], r.mi[i][j], T::NAME));
            }
        }
    }
    Ok(())
}
fn tame<T: Fl>(r: &Reg<T>) -> bool {
    let mx = |m: &M4| m.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
    mx(&r.m) < 1e5 && mx(&r.mi) < 1e5 && mx(&r.e) < 1.0 && mx(&r.ei) < 1.0
}
fn put<T: Fl>(regs: &mut Vec<Reg<T>>, r: Reg<T>, slot: i64) {
    if tame(&r) {
        if regs.len() < 6 {
            regs.push(r);
        } else {
            let k = slot.unsigned_abs() as usize % 6;
            regs[k] = r;
        }
    }
}
/// The inverse of a matrix by elimination with pivoting, and its condition number.
fn inv4(m: &M4) -> Option<(M4, f64)> {
    let mut a = *m;
    let mut b = ident();
    for c in 0..4 {
        let p = (c..4).max_by(|x, y| a[*x][c].abs().total_cmp(&a[*y][c].abs())).unwrap();
        if a[p][c].abs() < 1e-9 {
            return None;
        }
        a.swap(c, p);
        b.swap(c, p);
        let d = a[c][c];
        for j in 0..4 {
            a[c][j] /= d;
            b[c][j] /= d;
        }
        for i in 0..4 {
            if i != c {
                let k = a[i][c];
                for j in 0..4 {
                    a[i][j] -= k * a[c][j];
                    b[i][j] -= k * b[c][j];
                }
            }
        }
    }
    let n = |m: &M4| m.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max);
    Some((b, n(m) * n(&b)))
}
fn minor(m: &M4, i: usize, j: usize) -> [[f64; 3]; 3] {
    let r: Vec<usize> = (0..4).filter(|x| *x != i).collect();
    let c: Vec<usize> = (0..4).filter(|x| *x != j).collect();
    std::array::from_fn(|a| std::array::from_fn(|b| m[r[a]][c[b]].abs()))
}
fn perm3(m: &[[f64; 3]; 3]) -> f64 {
    m[0][0] * (m[1][1] * m[2][2] + m[1][2] * m[2][1]) + m[0][1] * (m[1][0] * m[2][2] + m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] + m[1][1] * m[2][0])
}
fn judge_inverse<T: Fl>(m: &M4, run: &mut Run) -> Result<bool, Violation> {
    let m = m.map(|r| r.map(|x| T::of(x).val()));
    let Some((want, cond)) = inv4(&m) else { return Ok(false) };
    if cond > 2e3 {
        return Ok(false);
    }
    let src = Matrix4x4 { data: m.map(|r| r.map(T::of)) };
    let got = mat(call::<T, _>(false, || src.inverse()).map_err(|f| fail_to_violation(f, "inverse"))?);
    let twice = mat(call::<T, _>(false, || Transform::new(src, src.inverse()).inverse().inverse().matrix()).map_err(|f| fail_to_violation(f, "inverse"))?);
    run.check();
    if twice != m {
        return Err(viol!("inverse-twice", "inverting a transform twice changes its matrix {}", show_m(&m)));
    }
    // error of the adjugate method, and of elimination
    let det = {
        // from the inverse: the determinant by cofactors of row 0
        let mut d = 0.0;
        for j in 0..4 {
            let mn: [[f64; 3]; 3] = {
                let c: Vec<usize> = (0..4).filter(|x| *x != j).collect();
                std::array::from_fn(|a| std::array::from_fn(|b| m[a + 1][c[b]]))
            };
            let dd = dot3(mn[0], cross3(mn[1], mn[2]));
            d += if j % 2 == 0 { 1.0 } else { -1.0 } * m[0][j] * dd;
        }
        d.abs()
    };
    let perm = (0..4).map(|j| m[0][j].abs() * perm3(&minor(&m, 0, j))).sum::<f64>();
    let big = want.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
    for i in 0..4 {
        for j in 0..4 {
            let tol = T::eps() * 64.0 * (perm3(&minor(&m, j, i)) / det + perm / det * want[i][j].abs() + cond * big);
            if !((got[i][j] - want[i][j]).abs() <= tol) {
                return Err(viol!("inverse", "entry {i},{j} of the inverse of {} is {:e}, expected {:e} ({})", show_m(&m), got[i][j], want[i][j], T::NAME));
            }
        }
    }
    Ok(true)
}
fn step12<T: Fl>(regs: &mut Vec<Reg<T>>, t: &Step, run: &mut Run) -> Result<(), Violation> {
    let n = regs.len();
    match t.op.as_str() {
        "elem" => {
            let kind = t.idx(1, 7);
            let mut f = [t.num(0), t.num(1), t.num(2), t.num(3)];
            if kind == 2 {
                for x in f.iter_mut().take(3) {
                    if x.abs() < 1e-2 {
                        *x = 1.0;
                    }
                }
            }
            let r = elem::<T>(kind, &f)?;
            run.note(kind as u64);
            judge_reg(&r, run, ELEMS[kind])?;
            put(regs, r, t.int(0));
        }
        "mul" if n > 0 => {
            let (a, b) = (&regs[t.idx(1, n)], &regs[t.idx(2, n)]);
            let (ta, tb) = (a.t, b.t);
            let tt = call::<T, _>(false, || ta * tb).map_err(|f| fail_to_violation(f, "compose"))?;
            let (m, e) = prod::<T>(&a.m, &a.e, &b.m, &b.e);
            let (mi, ei) = prod::<T>(&b.mi, &b.ei, &a.mi, &a.ei);
            let r = Reg { t: tt, m, e, mi, ei };
            run.note(32);
            if tame(&r) {
                judge_reg(&r, run, "compose")?;
                run.probe("composed");
            }
            put(regs, r, t.int(0));
        }
        "inv" if n > 0 => {
            let a = &regs[t.idx(1, n)];
            let ta = a.t;
            let tt = call::<T, _>(false, || ta.inverse()).map_err(|f| fail_to_violation(f, "invert"))?;
            let r = Reg { t: tt, m: a.mi, e: a.ei, mi: a.m, ei: a.e };
            run.note(33);
            judge_reg(&r, run, "invert")?;
            put(regs, r, t.int(0));
        }
        "map" | "trip" if n > 0 => {
            let a = &regs[t.idx(1, n)];
            let what = t.idx(2, 4);
            let back = t.int(3) % 2 == 1;
            let (p, d) = (rd::<T>(t.v3(0)), rd::<T>(t.v3(3)));
            let ta = a.t;
            let trip = t.op == "trip";
            let tmax = T::of(7.5);
            let ray = Ray::new(mk_p::<T>(p), mk_v::<T>(d), tmax);
            // (what, value) pairs that come out
            let out = call::<T, _>(false, || -> (Vec<(What, V3, V3)>, f64) {
                macro_rules! go {
                    ($x:expr) => {
                        match (trip, back) {
                            (false, false) => ta.map($x),
                            (false, true) => ta.map_inverse($x),
                            (true, false) => ta.map_inverse(ta.map($x)),
                            (true, true) => ta.inverse().map_inverse(ta.map_inverse($x)),
                        }
                    };
                }
                match what {
                    0 => (vec![(What::Point, p, pv(go!(mk_p::<T>(p))))], 7.5),
                    1 => (vec![(What::Vector, p, vv(go!(mk_v::<T>(p))))], 7.5),
                    2 => (vec![(What::Normal, p, nv(go!(mk_n::<T>(p))))], 7.5),
                    _ => {
                        let r: Ray<T> = go!(ray);
                        (vec![(What::Point, p, pv(r.origin)), (What::Vector, d, vv(r.direction))], r.tmax.val())
                    }
                }
            })
            .map_err(|f| fail_to_violation(f, "map"))?;
            let name = ["point", "vector", "normal", "ray"][what];
            let dir = match (trip, back) {
                (false, false) => "map",
                (false, true) => "map_inverse",
                (true, false) => "map and back",
                (true, true) => "map_inverse and back",
            };
            run.probe(["map_point", "map_vector", "map_normal", "map_ray"][what]);
            run.note(40 + what as u64 * 4 + trip as u64 * 2 + back as u64);
            if out.1 != 7.5 {
                return Err(viol!("extent", "{dir} of a ray changes its extent to {:e}", out.1));
            }
            for (w, x, got) in out.0 {
                run.check();
                let f = |x: &Vb, back: bool| {
                    // normals use the other matrix
                    let fwd = back ^ (w == What::Normal);
                    if fwd {
                        apply::<T>(&a.mi, &a.ei, x, w)
                    } else {
                        apply::<T>(&a.m, &a.e, x, w)
                    }
                };
                let mut want = f(&Vb { v: x, e: [0.0; 3] }, back);
                if trip {
                    want = f(&want, !back);
                    // the exact result is the original
                    want.v = x;
                }
                if !near(got, &want) {
                    return Err(viol!(format!("{}/{name}", if trip { "round-trip" } else { "map" }), "{dir} of {name} {x:?} gives {got:?}, expected {:?} within {:?} ({}, matrix {})", want.v, want.e, T::NAME, show_m(&a.m)));
                }
            }
        }
        "unit" if n > 0 => {
            let a = &regs[t.idx(1, n)];
            let ta = a.t;
            let (x, y) = call::<T, _>(false, || (mat(ta.matrix() * ta.inverse_matrix()), mat(ta.inverse_matrix() * ta.matrix()))).map_err(|f| fail_to_violation(f, "matrix product"))?;
            let (_, e1) = prod::<T>(&a.m, &a.e, &a.mi, &a.ei);
            let (_, e2) = prod::<T>(&a.mi, &a.ei, &a.m, &a.e);
            run.check();
            for i in 0..4 {
                for j in 0..4 {
                    let w = (i == j) as u8 as f64;
                    if !((x[i][j] - w).abs() <= e1[i][j] + 1e-35 && (y[i][j] - w).abs() <= e2[i][j] + 1e-35) {
                        return Err(viol!("unit", "matrix times stored inverse has entry {i},{j} = {:e} / {:e} ({})", x[i][j], y[i][j], T::NAME));
                    }
                }
            }
        }
        "invert4" => {
            let m: M4 = std::array::from_fn(|i| std::array::from_fn(|j| t.num(i * 4 + j)));
            if judge_inverse::<T>(&m, run)? {
                run.probe("general_inverse");
            }
        }
        _ => {}
    }
    Ok(())
}
fn exec12<T: Fl>(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    let mut regs: Vec<Reg<T>> = vec![];
    for t in &plan.steps {
        env::begin(t.id);
        step12(&mut regs, t, run)?;
    }
    if let Some(r) = regs.last() {
        run.event(mat(r.t.matrix()).iter().flatten().fold(0, |h, x| mix(h, x.to_bits())));
    }
    Ok(())
}
fn gen_ty(rng: &mut Rng) -> i64 {
    *rng.pick(&[0i64, 0, 0, 1, 1, 2, 3])
}
fn gen_angle(rng: &mut Rng) -> f64 {
    use std::f64::consts::*;
    match rng.below(5) {
        0 => *rng.pick(&[0.0, FRAC_PI_2, PI, -FRAC_PI_2, TAU, FRAC_PI_4, -PI, 3.0 * FRAC_PI_4]),
        // just beside a special one
        4 => *rng.pick(&[0.0, 0.0, FRAC_PI_2, PI, -FRAC_PI_2, TAU, -PI]) + rng.sign() * rng.logu(1e-9, 1e-2),
        1 => rng.uni(-10.0, 10.0),
        2 => rng.sign() * rng.logu(1e-6, 1e2),
        _ => rng.uni(-PI, PI),
    }
}
fn gen_coord(rng: &mut Rng) -> f64 {
    match rng.below(9) {
        0 | 1 => *rng.pick(&[0.0, 1.0, -1.0, 2.0, 0.5]),
        2 | 3 => rng.sign() * rng.logu(1e-3, 1e3),
        4 => *rng.pick(&[0.0, 0.0, 1.0, -1.0]) + rng.sign() * rng.logu(1e-9, 1e-2),
        _ => rng.uni(-5.0, 5.0),
    }
}
impl Scenario for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_000_000,
            Tier::Thorough => 80_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let mut p = Plan { knobs: vec![gen_ty(rng)], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        let elem = |rng: &mut Rng, p: &mut Plan| {
            let kind = rng.range(0, 6);
            let f = if kind == 2 {
                let k = rng.below(3);
                let s: V3 = std::array::from_fn(|_| match k {
                    0 => rng.logu(0.1, 10.0),
                    1 => rng.sign() * rng.logu(0.1, 10.0),
                    _ => *rng.pick(&[1.0, -1.0, 2.0, 0.5]),
                });
                vec![s[0], s[1], s[2], 0.0]
            } else {
                vec![gen_coord(rng), gen_coord(rng), gen_coord(rng), gen_angle(rng)]
            };
            p.push("elem", vec![rng.range(0, 99), kind], f);
        };
        elem(rng, &mut p);
        elem(rng, &mut p);
        for _ in 0..rng.range(2, 18) {
            match rng.below(10) {
                0 | 1 => elem(rng, &mut p),
                2 | 3 => p.push("mul", vec![rng.range(0, 99), rng.range(0, 99), rng.range(0, 99)], vec![]),
                4 => p.push("inv", vec![rng.range(0, 99), rng.range(0, 99)], vec![]),
                5 | 6 | 7 => {
                    let f = (0..6).map(|_| gen_coord(rng)).collect();
                    let op = if rng.chance(60) { "map" } else { "trip" };
                    p.push(op, vec![0, rng.range(0, 99), rng.range(0, 3), rng.range(0, 1)], f);
                }
                8 => p.push("unit", vec![0, rng.range(0, 99)], vec![]),
                _ => {
                    let k = rng.below(4);
                    let mut f: Vec<f64> = (0..16)
                        .map(|_| match k {
                            0 => rng.range(-3, 3) as f64,
                            1 => rng.uni(-2.0, 2.0),
                            2 => if rng.chance(50) { 0.0 } else { rng.uni(-4.0, 4.0) },
                            _ => 0.0,
                        })
                        .collect();
                    if k == 3 {
                        // permuted diagonal plus a little
                        let mut q = [0usize, 1, 2, 3];
                        rng.shuffle(&mut q);
                        for i in 0..4 {
                            f[i * 4 + q[i]] = rng.sign() * rng.logu(0.3, 3.0);
                            let j = rng.us(4);
                            f[i * 4 + j] += rng.uni(-0.2, 0.2);
                        }
                    }
                    p.push("invert4", vec![], f);
                }
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        by_type!(plan.knob(0), exec12(plan, run))
    }
    fn rule(&self) -> &'static str {
        "a run builds transforms (all elementary kinds), composes and inverts them and maps points, vectors, normals and rays forward, backward and there and back, and inverts general matrices, while the simulator chooses the rounding of every operation; compared with a double-precision model of the product of the factors within a running error bound; non-trivial if at least one value was compared; distinct by operations and positions of changed roundings"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of float type, operation sequence and the (step, operation) positions whose rounding was changed"
    }
    fn real(&self) -> &'static [&'static str] {
        &["math::transform (constructors, composition, inversion, maps)", "math::transform_inverse_impl", "ray map"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["arithmetic unit and math library: rounding direction picked by the simulator"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["composed", "map_point", "map_vector", "map_normal", "map_ray", "general_inverse"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["error bounds: 8 units of rounding per product of magnitudes (16 in double precision, whose model is itself double), 32 for axis rotations, 64 times the adjugate and condition magnitudes for general inverses", "entries up to 1e5, condition up to 2000"]
    }
}

// ------------------------------------------------------------------ C15
fn look<T: Fl>(t: &Step, run: &mut Run) -> Result<(), Violation> {
    let (pos, target, up) = (rd::<T>(t.v3(0)), rd::<T>(t.v3(3)), rd::<T>(t.v3(6)));
    let z = sub3(pos, target);
    let dist = len3(z);
    // squares and products of the lengths stay clear of underflow and overflow in single precision
    let sane = |x: f64| (1e-13..1e13).contains(&x);
    if !sane(dist) || !sane(len3(up)) {
        return Ok(());
    }
    let sin = len3(cross3(unit3(up), unit3(z)));
    if !(1e-15..1e15).contains(&(dist * len3(up) * sin)) {
        return Ok(());
    }
    let dscale = len3(pos) + len3(target) + dist;
    if 40.0 * T::eps() > 0.05 * sin {
        return Ok(());
    }
    let tf = call::<T, _>(false, || Transform::<T>::look_at(mk_p(pos), mk_p(target), mk_v(up))).map_err(|f| fail_to_violation(f, "look_at"))?;
    let eps = T::eps();
    // basis vectors are off by a few roundings over the sine between up and view
    let eb = 40.0 * eps / sin;
    let ep = eb * dscale + 20.0 * eps * dscale;
    let (zu, upu) = (unit3(z), unit3(up));
    let xu = unit3(cross3(upu, zu));
    let yu = cross3(zu, xu);
    let extra = rd::<T>(t.v3(9));
    let want_of = |p: V3| -> V3 {
        let q = sub3(p, pos);
        [dot3(q, xu), dot3(q, yu), dot3(q, zu)]
    };
    run.check();
    let maps = call::<T, _>(false, || {
        let p = |x: V3| pv(tf.map(mk_p::<T>(x)));
        (p(pos), p(target), p(extra), vv(tf.map(mk_v::<T>(up))), vv(tf.map(mk_v::<T>(extra))))
    })
    .map_err(|f| fail_to_violation(f, "map"))?;
    let ctx = || format!("look_at eye {pos:?} target {target:?} up {up:?} ({})", T::NAME);
    let close = |a: V3, b: V3, tol: f64| (0..3).all(|i| (a[i] - b[i]).abs() <= tol + 1e-35);
    if !close(maps.0, [0.0; 3], ep) {
        return Err(viol!("look/eye", "{}: the eye is carried to {:?}", ctx(), maps.0));
    }
    if !close(maps.1, [0.0, 0.0, -dist], ep) {
        return Err(viol!("look/target", "{}: the target is carried to {:?}, its distance is {dist:e}", ctx(), maps.1));
    }
    let ul = len3(up);
    let u = maps.3;
    if !(u[0].abs() <= eb * ul && u[1] > 0.0 && (u[1] - ul * sin).abs() <= eb * ul * 2.0) {
        return Err(viol!("look/up", "{}: the up direction is carried to {u:?}", ctx()));
    }
    let e2 = eb * (len3(extra) + dscale) + ep;
    if !close(maps.2, want_of(extra), e2) {
        return Err(viol!("look/point", "{}: {extra:?} is carried to {:?}, expected {:?}", ctx(), maps.2, want_of(extra)));
    }
    if (len3(maps.4) - len3(extra)).abs() > 2.0 * eb * len3(extra) + 1e-35 {
        return Err(viol!("look/length", "{}: the length of {extra:?} becomes {:e}", ctx(), len3(maps.4)));
    }
    let wv = [dot3(extra, xu), dot3(extra, yu), dot3(extra, zu)];
    if !close(maps.4, wv, eb * len3(extra) + 1e-35) {
        return Err(viol!("look/vector", "{}: the vector {extra:?} is carried to {:?}, expected {wv:?}", ctx(), maps.4));
    }
    let m = mat(tf.matrix());
    let det = dot3([m[0][0], m[0][1], m[0][2]], cross3([m[1][0], m[1][1], m[1][2]], [m[2][0], m[2][1], m[2][2]]));
    if (det - 1.0).abs() > 8.0 * eb {
        return Err(viol!("look/hand", "{}: determinant {det}", ctx()));
    }
    // back
    let w = rd::<T>(want_of(extra));
    let back = call::<T, _>(false, || {
        let p = |x: V3| pv(tf.map_inverse(mk_p::<T>(x)));
        (p([0.0; 3]), p([0.0, 0.0, -dist]), p(w), vv(tf.map_inverse(mk_v::<T>([0.0, 1.0, 0.0]))), pv(tf.map_inverse(tf.map(mk_p::<T>(extra)))))
    })
    .map_err(|f| fail_to_violation(f, "map_inverse"))?;
    if !close(back.0, pos, ep) || !close(back.1, target, ep) || !close(back.2, extra, e2 * 2.0) || !close(back.4, extra, e2 * 2.0) {
        return Err(viol!("look/back", "{}: the inverse carries origin, distance and {w:?} to {:?}, {:?}, {:?}; {extra:?} there and back is {:?}", ctx(), back.0, back.1, back.2, back.4));
    }
    if !close(back.3, yu, eb) {
        return Err(viol!("look/back", "{}: the inverse carries the y axis to {:?}, expected {yu:?}", ctx(), back.3));
    }
    run.probe("look_at");
    if dist < 1e-3 {
        run.probe("target_close_to_eye");
    }
    if sin < 0.01 {
        run.probe("up_nearly_parallel");
    }
    Ok(())
}
fn persp<T: Fl>(t: &Step, run: &mut Run) -> Result<(), Violation> {
    let fov = T::of(t.num(0).abs().clamp(1e-3, 3.1)).val();
    let near = T::of(t.num(1).abs().clamp(1e-6, 1e6)).val();
    let far = T::of(near * (1.0 + t.num(2).abs().clamp(0.01, 1e9))).val();
    let tf = call::<T, _>(true, || Transform::<T>::perspective(T::of(fov), T::of(near), T::of(far))).map_err(|f| fail_to_violation(f, "perspective"))?;
    let eps = T::eps();
    let tan = (fov / 2.0).tan();
    // error of the tangent: its argument is rounded
    let etan = 16.0 * eps * (1.0 + fov / fov.sin().abs().max(1e-4));
    let ctx = || format!("perspective fov {fov:e} near {near:e} far {far:e} ({})", T::NAME);
    // depths: near, far, between
    let depths = [near, far, T::of(near + (far - near) * t.num(3).abs().fract()).val(), T::of((near * far).sqrt()).val()];
    let mut last: Option<(f64, f64, f64)> = None;
    let mut ds = depths;
    ds.sort_by(|a, b| a.total_cmp(b));
    for (k, d) in ds.iter().enumerate() {
        let d = d.clamp(near, far);
        let (sx, sy) = ([1.0, -1.0, t.num(4).clamp(-1.0, 1.0), 0.0][(t.idx(0, 4) + k) % 4], [-1.0, 1.0, 0.0, t.num(5).clamp(-1.0, 1.0)][(t.idx(1, 4) + k) % 4]);
        let p = rd::<T>([sx * d * tan, sy * d * tan, -d]);
        let q = call::<T, _>(false, || pv(tf.map(mk_p::<T>(p)))).map_err(|f| fail_to_violation(f, "map"))?;
        run.check();
        let want = [p[0] / (d * tan), p[1] / (d * tan), far * (d - near) / (d * (far - near))];
        let ez = 16.0 * eps * far * (d + near) / (d * (far - near));
        if !((q[0] - want[0]).abs() <= etan && (q[1] - want[1]).abs() <= etan) {
            return Err(viol!("perspective/xy", "{}: {p:?} is carried to {q:?}, expected {want:?}", ctx()));
        }
        if !((q[2] - want[2]).abs() <= ez) {
            return Err(viol!("perspective/depth", "{}: {p:?} is carried to depth {:e}, expected {:e}", ctx(), q[2], want[2]));
        }
        if let Some((ld, lz, le)) = last {
            if d > ld && !(q[2] >= lz - ez - le) {
                return Err(viol!("perspective/monotone", "{}: depth {ld:e} maps to {lz:e}, depth {d:e} to {:e}", ctx(), q[2]));
            }
        }
        last = Some((d, q[2], ez));
        // back: depth is recovered with the conditioning of the division
        let rel = 64.0 * eps * (2.0 * d + near) / near + 64.0 * eps * far / (far - near);
        if rel < 0.02 {
            let (b, c) = call::<T, _>(false, || (pv(tf.map_inverse(tf.map(mk_p::<T>(p)))), pv(tf.map_inverse(mk_p::<T>(want))))).map_err(|f| fail_to_violation(f, "map_inverse"))?;
            let w = rd::<T>(want);
            // the rounding of the image itself
            let rel = rel + 2.0 * (w[2] - want[2]).abs() * d * (far - near) / (far * near);
            for b in [b, c] {
                let ok = (b[2] + d).abs() <= rel * d && (0..2).all(|i| (b[i] - p[i]).abs() <= (rel + 2.0 * etan) * d * tan);
                if !ok {
                    return Err(viol!("perspective/back", "{}: {p:?} there and back is {b:?}", ctx()));
                }
            }
            run.probe("perspective_back");
        }
    }
    run.probe("perspective");
    Ok(())
}
/// the projection after the view, as one transform
fn pipeline<T: Fl>(t: &Step, run: &mut Run) -> Result<(), Violation> {
    let (pos, target, up) = (rd::<T>(t.v3(0)), rd::<T>(t.v3(3)), rd::<T>(t.v3(6)));
    let z = sub3(pos, target);
    let (dist, ul) = (len3(z), len3(up));
    let sane = |x: f64| (1e-6..1e6).contains(&x);
    if !sane(dist) || !sane(ul) || !(len3(pos) < 1e6) {
        return Ok(());
    }
    let sin = len3(cross3(unit3(up), unit3(z)));
    let eps = T::eps();
    if !(40.0 * eps <= 0.01 * sin) {
        return Ok(());
    }
    let fov = T::of(t.num(9).abs().clamp(1e-2, 3.0)).val();
    let near = T::of(t.num(10).abs().clamp(1e-3, 1e3)).val();
    let far = T::of(near * (1.0 + t.num(11).abs().clamp(0.05, 1e5))).val();
    let tan = (fov / 2.0).tan();
    let etan = 16.0 * eps * (1.0 + fov / fov.sin().abs().max(1e-4));
    let (zu, upu) = (unit3(z), unit3(up));
    let xu = unit3(cross3(upu, zu));
    let yu = cross3(zu, xu);
    let d = (near + (far - near) * t.num(12).abs().fract()).clamp(near, far);
    let (sx, sy) = (t.num(13).clamp(-1.0, 1.0), t.num(14).clamp(-1.0, 1.0));
    let p = rd::<T>(add3(pos, add3(mul3(xu, sx * d * tan), add3(mul3(yu, sy * d * tan), mul3(zu, -d)))));
    let q = sub3(p, pos);
    let v = [dot3(q, xu), dot3(q, yu), dot3(q, zu)];
    let d = -v[2];
    let size = len3(pos) + len3(target) + dist + len3(p);
    // error of the position before the camera
    let ev = (40.0 / sin + 40.0) * eps * size;
    if !(ev < 0.01 * d && d > 0.5 * near && d < 2.0 * far) {
        return Ok(());
    }
    let how = t.idx(0, 3);
    let (both, g) = call::<T, _>(false, || {
        let (view, proj) = (Transform::<T>::look_at(mk_p(pos), mk_p(target), mk_v(up)), Transform::<T>::perspective(T::of(fov), T::of(near), T::of(far)));
        let both = match how {
            0 => proj * view,
            1 => (proj * view).inverse().inverse(),
            _ => proj * (view * Transform::<T>::identity()),
        };
        (both, pv(both.map(mk_p::<T>(p))))
    })
    .map_err(|f| fail_to_violation(f, "projection after view"))?;
    run.check();
    let ctx = || format!("perspective fov {fov:e} near {near:e} far {far:e} after look_at eye {pos:?} target {target:?} up {up:?} ({})", T::NAME);
    let a = far / (far - near);
    let want = [v[0] / (d * tan), v[1] / (d * tan), a * (d - near) / d];
    let exy = |w: f64| 2.0 * (ev / (d * tan) + w.abs() * (etan + 2.0 * ev / d));
    let ez = 2.0 * a * ((16.0 * eps * (d + near) + ev) / d + 2.0 * ev / d);
    if !((g[0] - want[0]).abs() <= exy(want[0]) + etan && (g[1] - want[1]).abs() <= exy(want[1]) + etan && (g[2] - want[2]).abs() <= ez) {
        return Err(viol!("pipeline/forward", "{}: {p:?} is carried to {g:?}, expected {want:?}", ctx()));
    }
    run.probe("projection_after_view");
    let rel = 128.0 * eps * (2.0 * d + near) / near + 128.0 * eps * a + ez * 2.0 * d / (a * near);
    if rel < 0.02 {
        let tol = 2.0 * rel * (d * (1.0 + 2.0 * tan) + size) + 2.0 * ev + (exy(1.0) + etan) * d * tan;
        let r = call::<T, _>(false, || [pv(both.map_inverse(both.map(mk_p::<T>(p)))), pv(both.inverse().map(both.map(mk_p::<T>(p))))]).map_err(|f| fail_to_violation(f, "map_inverse"))?;
        for b in r {
            if !(len3(sub3(b, p)) <= tol) {
                return Err(viol!("pipeline/back", "{}: {p:?} there and back is {b:?} (allowed {tol:e})", ctx()));
            }
        }
        run.probe("projection_back");
    }
    Ok(())
}
fn exec15<T: Fl>(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    for t in &plan.steps {
        env::begin(t.id);
        run.note(t.i.iter().fold(t.f.len() as u64, |h, x| mix(h, *x as u64)));
        if t.op == "look" {
            look::<T>(t, run)?;
        } else if t.op == "pipeline" {
            pipeline::<T>(t, run)?;
        } else {
            persp::<T>(t, run)?;
        }
    }
    Ok(())
}
impl Scenario for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 3_000_000,
            Tier::Thorough => 120_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let mut p = Plan { knobs: vec![gen_ty(rng)], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        for _ in 0..rng.range(1, 5) {
            if rng.chance(20) {
                let k = if rng.chance(50) { 5.0 } else { rng.logu(0.1, 1e3) };
                let a: V3 = if rng.chance(20) { [0.0; 3] } else { mul3(std::array::from_fn(|_| rng.uni(-1.0, 1.0)), k) };
                let d: V3 = if rng.chance(20) { std::array::from_fn(|_| rng.range(-2, 2) as f64) } else { std::array::from_fn(|_| rng.uni(-1.0, 1.0)) };
                let mut f: Vec<f64> = vec![];
                f.extend(a);
                f.extend(add3(a, mul3(d, rng.logu(0.5, 20.0))));
                f.extend(if rng.chance(50) { [0.0, 1.0, 0.0] } else { [rng.uni(-3.0, 3.0), rng.uni(-3.0, 3.0), rng.uni(-3.0, 3.0)] });
                f.extend([rng.uni(0.1, 3.0), rng.logu(0.05, 20.0), rng.logu(0.1, 1e4), rng.f01(), rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0)]);
                p.push("pipeline", vec![rng.range(0, 2)], f);
            } else if rng.chance(50) {
                let mut f: Vec<f64> = vec![];
                match rng.below(6) {
                    5 => {
                        // a target very close to the eye or very far from it, an up direction of any length
                        let d: V3 = std::array::from_fn(|_| rng.uni(-1.0, 1.0));
                        let a: V3 = if rng.chance(70) { [0.0; 3] } else { mul3(std::array::from_fn(|_| rng.uni(-1.0, 1.0)), rng.logu(1e-6, 1e6)) };
                        let k = if rng.chance(70) { rng.logu(1e-10, 1e-2) } else { rng.logu(1e2, 1e10) };
                        f.extend(a);
                        f.extend(add3(a, mul3(d, k)));
                        let ul = if rng.chance(50) { 1.0 } else { rng.logu(1e-10, 1e10) };
                        f.extend(if rng.chance(50) { [0.0, ul, 0.0] } else { mul3(std::array::from_fn(|_| rng.uni(-1.0, 1.0)), ul) });
                    }
                    4 => {
                        // up nearly along the view
                        let d: V3 = std::array::from_fn(|_| rng.uni(-1.0, 1.0));
                        let k = rng.sign() * rng.logu(0.1, 10.0);
                        let e = rng.logu(1e-7, 1e-1);
                        let a: V3 = if rng.chance(50) { [0.0; 3] } else { std::array::from_fn(|_| rng.uni(-5.0, 5.0)) };
                        f.extend(a);
                        f.extend(add3(a, d));
                        f.extend((0..3).map(|i| k * (d[i] + e * rng.uni(-1.0, 1.0))));
                    }
                    3 => {
                        // up at right angles to the view but for a little, axes but for a little
                        let tiny = |rng: &mut Rng, v: V3, lo: f64| -> V3 { std::array::from_fn(|i| if rng.chance(50) { v[i] } else { v[i] + rng.sign() * rng.logu(lo, 1e-2) }) };
                        let q = rng.us(3);
                        let mut d: V3 = if rng.chance(50) { std::array::from_fn(|i| (i == q) as i32 as f64 * rng.sign()) } else { std::array::from_fn(|_| rng.uni(-1.0, 1.0)) };
                        d = tiny(rng, d, 1e-9);
                        let any: V3 = std::array::from_fn(|_| rng.uni(-1.0, 1.0));
                        let up = crate::scene::cross3(d, any);
                        let up = tiny(rng, up, 1e-9);
                        let a: V3 = if rng.chance(50) { [0.0; 3] } else { std::array::from_fn(|_| gen_coord(rng)) };
                        f.extend(a);
                        f.extend(add3(a, mul3(d, rng.logu(0.5, 5.0))));
                        f.extend(up);
                    }
                    0 => f.extend((0..9).map(|_| rng.range(-3, 3) as f64)),
                    1 => f.extend((0..9).map(|_| gen_coord(rng))),
                    _ => {
                        let a: V3 = std::array::from_fn(|_| rng.uni(-50.0, 50.0));
                        let d: V3 = std::array::from_fn(|_| rng.uni(-1.0, 1.0));
                        let k = rng.logu(0.05, 50.0);
                        f.extend(a);
                        f.extend(add3(a, mul3(d, k)));
                        f.extend(if rng.chance(50) { [0.0, 1.0, 0.0] } else { [rng.uni(-3.0, 3.0), rng.uni(-3.0, 3.0), rng.uni(-3.0, 3.0)] });
                    }
                }
                f.extend((0..3).map(|_| gen_coord(rng)));
                p.push("look", vec![], f);
            } else {
                let fov = if rng.chance(30) { *rng.pick(&[0.5, 1.0, std::f64::consts::FRAC_PI_2, std::f64::consts::FRAC_PI_4]) } else { if rng.chance(80) { rng.uni(0.1, 3.1) } else { rng.logu(1e-3, 0.1) } };
                let (near, ratio) = if rng.chance(60) { (rng.logu(0.01, 50.0), rng.logu(0.05, 1e4)) } else { (rng.logu(1e-6, 1e6), rng.logu(0.01, 1e9)) };
                p.push("persp", vec![rng.range(0, 3), rng.range(0, 3)], vec![fov, near, ratio, rng.f01(), rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0)]);
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        by_type!(plan.knob(0), exec15(plan, run))
    }
    fn rule(&self) -> &'static str {
        "a run builds look-at and perspective transforms, alone and the projection after the view, and maps eye, target, up, frustum corners and random points forward, backward and there and back while the simulator chooses the rounding of every operation; non-trivial if at least one value was compared; distinct by operations, arguments used and positions of changed roundings"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of float type, operations and the (step, operation) positions whose rounding was changed"
    }
    fn real(&self) -> &'static [&'static str] {
        &["Transform::look_at", "Transform::perspective", "Matrix4x4::inverse", "maps of points and vectors"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["arithmetic unit and math library: rounding direction picked by the simulator"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["look_at", "perspective", "perspective_back", "up_nearly_parallel", "target_close_to_eye", "projection_after_view", "projection_back"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["up at least 0.02 rad off the viewing direction", "far plane at least 2 percent beyond the near plane"]
    }
}
