//! C19: programs of vector algebra and box operations under simulated rounding, against
//! a double-precision model with running error bounds.

use crate::env;
use crate::plan::{Plan, Step, Violation};
use crate::prng::{mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::s_interval::{fail_to_violation, gen_round_policy};
use crate::scene::{mkpt, pt, vc, V3};
use crate::simf::{call, fcall, un, Fl};
use crate::{by_type, viol};
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::Bounded3;
use scarlet::math::scalar::Int;
use scarlet::math::transform::Matrix4x4;
use scarlet::geometry::ray::Ray;
use scarlet::math::vector::{Normal, Point, Point3, Vector, Vector3, Vector3i};

pub struct C19;

#[derive(Clone)]
struct Reg<T: Fl, const N: usize> {
    x: [T; N],
    v: [f64; N],
    e: [f64; N],
}
fn vals<T: Fl, const N: usize>(x: [T; N]) -> [f64; N] {
    x.map(|t| t.val())
}
const VOPS: [&str; 23] = [
    "add", "add_assign", "sub", "sub_assign", "neg", "scale", "shrink", "times", "over", "min", "max", "cross", "normalize", "point_minus_point", "point_plus_vector", "vector_plus_point", "point_minus_vector", "normal", "dot", "norm",
    "distance", "index", "ray",
];
fn rel<T: Fl>() -> f64 {
    // the model itself has double precision
    if T::BITS == 64 {
        4.0 * T::eps()
    } else {
        T::eps() * 1.001
    }
}
fn vec_prog<T: Fl, const N: usize>(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    let mut regs: Vec<Reg<T, N>> = vec![];
    let g = rel::<T>();
    for t in plan.steps.iter().filter(|t| t.op == "set" || t.op == "vec") {
        env::begin(t.id);
        if t.op == "set" {
            let x: [T; N] = std::array::from_fn(|i| T::of(t.num(i).clamp(-1e14, 1e14)));
            regs.push(Reg { x, v: vals(x), e: [0.0; N] });
            continue;
        }
        if regs.is_empty() {
            continue;
        }
        let op = VOPS[t.idx(0, VOPS.len())];
        let (a, b) = (regs[t.idx(1, regs.len())].clone(), regs[t.idx(2, regs.len())].clone());
        let s = {
            let s = T::of(t.num(0).clamp(-1e6, 1e6));
            if s.val().abs() < 1e-3 {
                T::of(2.0)
            } else {
                s
            }
        };
        run.note(t.idx(0, VOPS.len()) as u64);
        let (av, bv): (Vector<T, N>, Vector<T, N>) = (a.x.into(), b.x.into());
        let (ap, bp): (Point<T, N>, Point<T, N>) = (a.x.into(), b.x.into());
        let bad = |e: env::Fail| fail_to_violation(e, op);
        let tiny = 1e-35;
        // scalar results
        let scalar = |got: f64, want: f64, err: f64, run: &mut Run| -> Result<(), Violation> {
            run.check();
            if !((got - want).abs() <= err + tiny) {
                return Err(viol!(op, "{op} of {:?} and {:?} ({}, {N} components) is {got:e}, expected {want:e} within {err:e}", a.v, b.v, T::NAME));
            }
            Ok(())
        };
        let abs = |r: &Reg<T, N>, i: usize| r.v[i].abs() + r.e[i];
        let sum_prod = |p: &[f64; N], q: &[f64; N]| (0..N).map(|i| p[i] * q[i]).sum::<f64>();
        let k = (N + 2) as f64 * g;
        match op {
            "dot" => {
                let d = call::<T, _>(false, || av.dot(bv).val()).map_err(bad)?;
                let mag: f64 = (0..N).map(|i| abs(&a, i) * abs(&b, i)).sum();
                let err: f64 = (0..N).map(|i| abs(&a, i) * b.e[i] + a.e[i] * abs(&b, i)).sum::<f64>() + k * mag;
                scalar(d, sum_prod(&a.v, &b.v), err, run)?;
                // points and normals have the same inner product
                let n: Normal<T, N> = Normal::from(bv);
                let d = call::<T, _>(false, || av.dot(n).val()).map_err(bad)?;
                scalar(d, sum_prod(&a.v, &b.v), err, run)?;
                run.probe("scalar_product");
                continue;
            }
            "norm" => {
                let (q, l) = call::<T, _>(false, || (av.square_norm().val(), av.norm().val())).map_err(bad)?;
                let w = sum_prod(&a.v, &a.v);
                let err: f64 = (0..N).map(|i| 2.0 * abs(&a, i) * a.e[i]).sum::<f64>() + k * (0..N).map(|i| abs(&a, i) * abs(&a, i)).sum::<f64>();
                scalar(q, w, err, run)?;
                let err_l = if w > 4.0 * err { err / w.sqrt() + 2.0 * g * w.sqrt() } else { (2.0 * (w + err)).sqrt() };
                scalar(l, w.sqrt(), err_l, run)?;
                continue;
            }
            "distance" => {
                let (q, l) = call::<T, _>(false, || (av.square_distance(bv).val(), av.distance(bv).val())).map_err(bad)?;
                let d: [f64; N] = std::array::from_fn(|i| a.v[i] - b.v[i]);
                let e: [f64; N] = std::array::from_fn(|i| a.e[i] + b.e[i] + g * (d[i].abs() + a.e[i] + b.e[i]));
                let w = sum_prod(&d, &d);
                let err: f64 = (0..N).map(|i| 2.0 * (d[i].abs() + e[i]) * e[i] + k * (d[i].abs() + e[i]).powi(2)).sum();
                scalar(q, w, err, run)?;
                let err_l = if w > 4.0 * err { err / w.sqrt() + 2.0 * g * w.sqrt() } else { (2.0 * (w + err)).sqrt() };
                scalar(l, w.sqrt(), err_l, run)?;
                continue;
            }
            "index" => {
                let j = t.idx(3, N);
                let r = call::<T, _>(false, || {
                    let mut m = av;
                    m[j] = s;
                    (vals(m.vec), av[j].val(), av == av, m == av)
                })
                .map_err(bad)?;
                run.check();
                // the same by name, and through the other kinds of vector
                let n = call::<T, _>(false, || {
                    let mut m = av;
                    match j {
                        0 => *m.x_mut() = s,
                        1 => *m.y_mut() = s,
                        2 => *m.z_mut() = s,
                        _ => *m.w_mut() = s,
                    }
                    let by_name: [f64; N] = std::array::from_fn(|i| match i {
                        0 => m.x().val(),
                        1 => m.y().val(),
                        2 => m.z().val(),
                        _ => m.w().val(),
                    });
                    let mut q: Point<T, N> = ap;
                    q[j] = s;
                    let back = Vector::from(q.clone());
                    let n: Normal<T, N> = Normal::from(back);
                    (by_name, vals(back.vec), vals(Vector::from(n).vec), vals(Point::from(av).vec), vals(<Vector<T, N> as Default>::default().vec))
                })
                .map_err(bad)?;
                let mut w = vals(a.x);
                w[j] = s.val();
                if n.0 != w || n.1 != w || n.2 != w || n.3 != vals(a.x) || n.4 != [0.0; N] {
                    return Err(viol!("component", "component {j} of {:?} set to {:e}: by name {:?}, as point {:?}, as normal {:?}; default {:?}", vals(a.x), s.val(), n.0, n.1, n.2, n.4));
                }
                if r.0 != w || r.1 != a.x[j].val() || !r.2 || r.3 != (w == vals(a.x)) {
                    return Err(viol!("index", "writing component {j} of {:?} gives {:?}", vals(a.x), r.0));
                }
                continue;
            }
            _ => {}
        }
        if op == "over" && (0..N).any(|i| b.v[i].abs() < 2.0 * b.e[i] + 1e-14) {
            continue;
        }
        let len = sum_prod(&a.v, &a.v).sqrt();
        let elen = sum_prod(&a.e, &a.e).sqrt();
        if op == "normalize" && !(len > 1e-14 && elen < 0.01 * len) || matches!(op, "cross" | "ray") && N != 3 {
            continue;
        }
        let x: [T; N] = call::<T, _>(false, || match op {
            "add" => (av + bv).vec,
            "add_assign" => {
                let mut c = av;
                c += bv;
                c.vec
            }
            "sub" => (av - bv).vec,
            "sub_assign" => {
                let mut c = av;
                c -= bv;
                c.vec
            }
            "neg" => (-av).vec,
            "scale" => (av * s).vec,
            "shrink" => (av / s).vec,
            "times" => (av * bv).vec,
            "over" => (av / bv).vec,
            "min" => av.min(bv).vec,
            "max" => av.max(bv).vec,
            "cross" => {
                let f = |v: [T; N]| Vector3::new(v[0], v[1], v[2]);
                let c = f(a.x).cross(f(b.x));
                std::array::from_fn(|i| c.vec[i])
            }
            "ray" => {
                let p = Ray::new(Point3::new(a.x[0], a.x[1], a.x[2 % N]), Vector3::new(b.x[0], b.x[1], b.x[2 % N]), s).eval(s);
                std::array::from_fn(|i| p.vec[i % 3])
            }
            "normalize" => av.normalize().vec,
            "point_minus_point" => (ap - bp).vec,
            "point_plus_vector" => (ap + bv).vec,
            "vector_plus_point" => (av + bp).vec,
            "point_minus_vector" => (ap - bv).vec,
            _ => Vector::from(Normal::from(av)).vec,
        })
        .map_err(bad)?;
        let mut v = [0.0; N];
        let mut e = [0.0; N];
        for i in 0..N {
            let (p, q, ep, eq) = (a.v[i], b.v[i], a.e[i], b.e[i]);
            let (w, err) = match op {
                "add" | "add_assign" | "point_plus_vector" | "vector_plus_point" => (p + q, ep + eq),
                "sub" | "sub_assign" | "point_minus_point" | "point_minus_vector" => (p - q, ep + eq),
                "neg" => (-p, ep),
                "scale" => (p * s.val(), ep * s.val().abs()),
                "shrink" => (p / s.val(), ep / s.val().abs()),
                "times" => (p * q, ep * (q.abs() + eq) + p.abs() * eq),
                "over" => (p / q, (ep + (p / q).abs() * eq) / (q.abs() - eq)),
                "ray" => (p + q * s.val(), ep + eq * s.val().abs() + 2.0 * g * (q.abs() + eq) * s.val().abs()),
                "min" => (p.min(q), ep.max(eq)),
                "max" => (p.max(q), ep.max(eq)),
                "cross" => {
                    let (j, k) = ((i + 1) % 3 % N, (i + 2) % 3 % N);
                    let m = abs(&a, j) * b.e[k] + a.e[j] * abs(&b, k) + abs(&a, k) * b.e[j] + a.e[k] * abs(&b, j);
                    (a.v[j] * b.v[k] - a.v[k] * b.v[j], m + 2.0 * g * (abs(&a, j) * abs(&b, k) + abs(&a, k) * abs(&b, j)))
                }
                "normalize" => (p / len, (ep + 2.0 * elen) / len + (N + 4) as f64 * g * (p.abs() + ep) / len),
                _ => (p, ep),
            };
            v[i] = w;
            // one rounding, two for the reciprocal method
            e[i] = if matches!(op, "neg" | "min" | "max" | "normal") { err } else { err + if matches!(op, "shrink" | "over") { 3.0 } else { 1.0 } * g * (w.abs() + err) + tiny };
        }
        if op == "ray" {
            // the same ray at its far ends
            let y = Ray::new(Point3::new(a.x[0], a.x[1], a.x[2]), Vector3::new(b.x[0], b.x[1], b.x[2]), if t.idx(1, 2) == 0 { s } else { T::highest() });
            let h = T::highest().val();
            for at in [T::highest(), T::lowest(), T::zero(), T::one(), T::highest() / T::of(65536.0)] {
                if (0..3).any(|i| !((b.x[i].val() * at.val()).abs() < 0.9 * h)) {
                    continue;
                }
                let q = call::<T, _>(false, || y.eval(at)).map_err(bad)?;
                run.check();
                for i in 0..3 {
                    let m = b.x[i].val() * at.val();
                    let (w, tol) = (a.x[i].val() + m, 4.0 * g * (a.x[i].val().abs() + m.abs()) + tiny);
                    if !((q.vec[i].val() - w).abs() <= tol) {
                        return Err(viol!("ray/far", "ray from {:?} along {:?} ({}): point at {:e} has component {i} {:e}, expected {w:e}", vals(a.x), vals(b.x), T::NAME, at.val(), q.vec[i].val()));
                    }
                }
                run.probe("ray_far");
            }
        }
        run.check();
        for i in 0..N {
            if !((x[i].val() - v[i]).abs() <= e[i] * 1.0001 + tiny) {
                return Err(viol!(op, "{op} of {:?} and {:?} (number {:e}, {}): component {i} is {:e}, expected {:e} within {:e}", vals(a.x), vals(b.x), s.val(), T::NAME, x[i].val(), v[i], e[i]));
            }
        }
        run.probe(if N == 2 {
            "plane"
        } else if N == 3 {
            "space"
        } else {
            "four"
        });
        if matches!(op, "cross" | "ray") {
            run.probe(if op == "ray" { "ray_point" } else { "cross" });
        }
        if op == "normalize" && len < 1e-6 {
            run.probe("tiny_normalised");
        }
        let big = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        let small = v.iter().filter(|x| **x != 0.0).fold(1.0f64, |m, x| m.min(x.abs()));
        if big < 1e14 && small > 1e-14 && e.iter().all(|x| *x < 0.1 * big.max(1e-30)) {
            let k = regs.len().min(7);
            let r = Reg { x, v, e };
            if regs.len() < 8 {
                regs.push(r);
            } else {
                regs[k] = r;
            }
        }
    }
    Ok(())
}
fn by_dim<T: Fl>(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    match plan.knob(1) {
        0 => vec_prog::<T, 2>(plan, run),
        1 => vec_prog::<T, 4>(plan, run),
        _ => vec_prog::<T, 3>(plan, run),
    }
}
#[derive(Clone)]
struct MReg<T: Fl> {
    x: [[T; 4]; 4],
    v: [[f64; 4]; 4],
    e: [[f64; 4]; 4],
}
fn matrices<T: Fl>(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    let g = rel::<T>();
    let mut regs: Vec<MReg<T>> = vec![];
    let v4 = |x: [[T; 4]; 4]| x.map(|r| vals(r));
    for t in plan.steps.iter().filter(|t| t.op == "mset" || t.op == "mop") {
        env::begin(t.id);
        if t.op == "mset" {
            let x: [[T; 4]; 4] = std::array::from_fn(|i| std::array::from_fn(|j| T::of(t.num(4 * i + j).clamp(-1e3, 1e3))));
            regs.push(MReg { x, v: v4(x), e: [[0.0; 4]; 4] });
            continue;
        }
        if regs.is_empty() {
            continue;
        }
        let (a, b) = (regs[t.idx(1, regs.len())].clone(), regs[t.idx(2, regs.len())].clone());
        let (ma, mb) = (Matrix4x4::from(a.x), Matrix4x4::from(b.x));
        let s = T::of(t.num(0).clamp(-1e3, 1e3));
        let op = t.idx(0, 4);
        run.note(300 + op as u64);
        let bad = |e: env::Fail| fail_to_violation(e, "matrix");
        let (i, j) = (t.idx(3, 4), t.idx(4, 4));
        let mut out = a.clone();
        match op {
            0 | 1 => {
                out.x = call::<T, _>(false, || if op == 0 { (ma * mb).data } else { (ma * s).data }).map_err(bad)?;
                for i in 0..4 {
                    for j in 0..4 {
                        let (mut w, mut err, mut mag) = (0.0, 0.0, 0.0);
                        if op == 0 {
                            for k in 0..4 {
                                let (p, q, ep, eq) = (a.v[i][k], b.v[k][j], a.e[i][k], b.e[k][j]);
                                w += p * q;
                                err += ep * (q.abs() + eq) + p.abs() * eq;
                                mag += (p.abs() + ep) * (q.abs() + eq);
                            }
                            err += 6.0 * g * mag;
                        } else {
                            w = a.v[i][j] * s.val();
                            err = a.e[i][j] * s.val().abs();
                            err += 2.0 * g * (w.abs() + err);
                        }
                        out.v[i][j] = w;
                        out.e[i][j] = err + 1e-35;
                    }
                }
                run.probe(if op == 0 { "matrix_product" } else { "matrix_scaled" });
            }
            2 => {
                out.x = call::<T, _>(false, || ma.transpose().data).map_err(bad)?;
                for i in 0..4 {
                    for j in 0..4 {
                        out.v[i][j] = a.v[j][i];
                        out.e[i][j] = a.e[j][i];
                    }
                }
                run.check();
                let w: [[f64; 4]; 4] = std::array::from_fn(|i| std::array::from_fn(|j| a.x[j][i].val()));
                if v4(out.x) != w {
                    return Err(viol!("matrix/transpose", "the transpose of {:?} is {:?}", v4(a.x), v4(out.x)));
                }
            }
            _ => {
                let r = call::<T, _>(false, || {
                    let mut m = ma;
                    m[(i, j)] = s;
                    let mut n = ma;
                    n[i][j] = s;
                    let one = [Matrix4x4::<T>::identity(), Matrix4x4::new(), Default::default()].map(|m| v4(m.data));
                    (
                        [vals(ma.row(i)), vals(ma.row_vec(i).vec), vals(ma[i]), vals(ma.col(j)), vals(ma.col_vec(j).vec)],
                        [v4(m.data), v4(n.data)],
                        (ma[(i, j)].val(), ma == mb, ma == ma, m == n),
                        one,
                        v4(Matrix4x4::<T>::zero().data),
                    )
                })
                .map_err(bad)?;
                run.check();
                run.probe("matrix_parts");
                let m = v4(a.x);
                let col: [f64; 4] = std::array::from_fn(|k| m[k][j]);
                let mut set = m;
                set[i][j] = s.val();
                let id: [[f64; 4]; 4] = std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f64));
                if r.0 != [m[i], m[i], m[i], col, col] || r.1 != [set, set] || r.2 != (m[i][j], m == v4(b.x), true, true) || r.3 != [id; 3] || r.4 != [[0.0; 4]; 4] {
                    return Err(viol!("matrix/parts", "row {i}, column {j} of {m:?}: rows and columns {:?}, after setting the entry to {:e} {:?}, entry and equalities {:?}, identities {:?}, zero {:?}", r.0, s.val(), r.1, r.2, r.3, r.4));
                }
                continue;
            }
        }
        run.check();
        for i in 0..4 {
            for j in 0..4 {
                if !((out.x[i][j].val() - out.v[i][j]).abs() <= out.e[i][j] * 1.0001 + 1e-35) {
                    return Err(viol!(["matrix/product", "matrix/scaled", "matrix/transpose"][op], "{:?} and {:?} (number {:e}, {}): entry {i},{j} is {:e}, expected {:e} within {:e}", v4(a.x), v4(b.x), s.val(), T::NAME, out.x[i][j].val(), out.v[i][j], out.e[i][j]));
                }
            }
        }
        let big = out.v.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
        let off = out.e.iter().flatten().fold(0.0f64, |m, x| m.max(*x));
        if regs.len() < 6 && big < 1e8 && off < 0.1 * big.max(1e-30) {
            regs.push(out);
        }
    }
    Ok(())
}
fn int_matrices(t: &Step, run: &mut Run) -> Result<(), Violation> {
    let f = |o: usize| -> [[i64; 4]; 4] { std::array::from_fn(|i| std::array::from_fn(|j| (mix(t.int(o) as u64, (4 * i + j) as u64) % 41) as i64 - 20)) };
    let (a, b) = (f(0), f(1));
    let m = |x: [[i64; 4]; 4]| Matrix4x4::<Int>::from(x.map(|r| r.map(|v| v as Int)));
    let back = |x: Matrix4x4<Int>| x.data.map(|r| r.map(|v| v as i64));
    let k = t.int(2).clamp(-50, 50);
    let got = env::lib(|| (back(m(a) * m(b)), back(m(a) * (k as Int)), back(m(a).transpose()))).map_err(|e| fail_to_violation(e, "integer matrices"))?;
    run.check();
    let e = |g: &dyn Fn(usize, usize) -> i64| -> [[i64; 4]; 4] { std::array::from_fn(|i| std::array::from_fn(|j| g(i, j))) };
    let want = (e(&|i, j| (0..4).map(|k| a[i][k] * b[k][j]).sum()), e(&|i, j| a[i][j] * k), e(&|i, j| a[j][i]));
    if got != want {
        return Err(viol!("matrix/integers", "{a:?} and {b:?}, number {k}: product, multiple, transpose {got:?}"));
    }
    Ok(())
}
fn ints(t: &Step, run: &mut Run) -> Result<(), Violation> {
    let a: [i64; 3] = std::array::from_fn(|i| t.int(i).clamp(-10_000, 10_000));
    let b: [i64; 3] = std::array::from_fn(|i| t.int(i + 3).clamp(-10_000, 10_000));
    let f = |v: [i64; 3]| Vector3i::new(v[0] as _, v[1] as _, v[2] as _);
    let (x, y) = (f(a), f(b));
    let z = |v: Vector3i| -> [i64; 3] { std::array::from_fn(|i| v[i] as i64) };
    let (got, dot, sq) = env::lib(|| {
        let m = Vector3i::min(x, y);
        let mm = Vector3i::max(x, y);
        (vec![z(x + y), z(x - y), z(-x), z(x * y), z(x.cross(y)), z(m), z(mm)], x.dot(y) as i64, x.square_norm() as i64)
    })
    .map_err(|e| fail_to_violation(e, "integer vectors"))?;
    run.check();
    let c = |g: &dyn Fn(usize) -> i64| -> [i64; 3] { std::array::from_fn(g) };
    let want = vec![
        c(&|i| a[i] + b[i]),
        c(&|i| a[i] - b[i]),
        c(&|i| -a[i]),
        c(&|i| a[i] * b[i]),
        c(&|i| a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]),
        c(&|i| Ord::min(a[i], b[i])),
        c(&|i| Ord::max(a[i], b[i])),
    ];
    let wd: i64 = (0..3).map(|i| a[i] * b[i]).sum();
    let ws: i64 = (0..3).map(|i| a[i] * a[i]).sum();
    if got != want || dot != wd || sq != ws {
        return Err(viol!("integers", "{a:?} and {b:?}: sum, difference, negation, product, cross product, minimum, maximum {got:?} dot {dot} square {sq}, expected {want:?} {wd} {ws}"));
    }
    run.probe("integers");
    Ok(())
}
fn boxes(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    const E: f64 = 1.1920929e-7;
    let mut regs: Vec<(V3, V3)> = vec![];
    let mk = |b: &(V3, V3)| Bbox3 { pmin: mkpt(b.0), pmax: mkpt(b.1) };
    for t in plan.steps.iter().filter(|t| t.op == "box" || t.op == "bop") {
        env::begin(t.id);
        let num = |k: usize| t.num(k).clamp(-1e14, 1e14) as f32 as f64;
        if t.op == "box" {
            let (p, q): (V3, V3) = (std::array::from_fn(num), std::array::from_fn(|i| num(i + 3)));
            let b = fcall(false, || {
                let b = Bbox3::new(mkpt(p), mkpt(q));
                (pt(b.pmin), pt(b.pmax))
            })
            .map_err(|e| fail_to_violation(e, "box"))?;
            run.check();
            let w: (V3, V3) = (std::array::from_fn(|i| p[i].min(q[i])), std::array::from_fn(|i| p[i].max(q[i])));
            if b != w {
                return Err(viol!("box/new", "the box of {p:?} and {q:?} is {b:?}"));
            }
            regs.push(b);
            continue;
        }
        if regs.is_empty() {
            continue;
        }
        let (a, b) = (regs[t.idx(1, regs.len())], regs[t.idx(2, regs.len())]);
        let empty = |x: &(V3, V3)| (0..3).any(|i| x.0[i] > x.1[i]);
        let op = t.idx(0, 6);
        run.note(200 + op as u64);
        match op {
            0 | 1 => {
                let r = fcall(false, || {
                    let (x, y) = (mk(&a), mk(&b));
                    let r = if op == 0 { x.union(&y) } else { x.intersect(&y) };
                    let mut s = x;
                    s += y;
                    let u = x + y;
                    ((pt(r.pmin), pt(r.pmax)), (pt(s.pmin), pt(s.pmax)), (pt(u.pmin), pt(u.pmax)))
                })
                .map_err(|e| fail_to_violation(e, "box"))?;
                run.check();
                let join: (V3, V3) = (std::array::from_fn(|i| a.0[i].min(b.0[i])), std::array::from_fn(|i| a.1[i].max(b.1[i])));
                let meet: (V3, V3) = (std::array::from_fn(|i| a.0[i].max(b.0[i])), std::array::from_fn(|i| a.1[i].min(b.1[i])));
                // the union with an empty box is the other box in the library; any
                // representation of the empty set will do for an empty intersection
                if empty(&a) || empty(&b) {
                    continue;
                }
                let ok = if op == 0 { r.0 == join } else { r.0 == meet || empty(&meet) && empty(&r.0) };
                if !ok {
                    return Err(viol!(["box/union", "box/intersection"][op], "{} of {a:?} and {b:?} is {:?}", ["union", "intersection"][op], r.0));
                }
                if r.1 != join || r.2 != join {
                    return Err(viol!("box/sum", "sum of {a:?} and {b:?} is {:?} / {:?}", r.1, r.2));
                }
                run.probe(if op == 0 { "union" } else { "intersection" });
                if regs.len() < 8 {
                    regs.push(r.0);
                }
            }
            2 => {
                let r = fcall(false, || (mk(&a).overlaps(&mk(&b)), mk(&b).overlaps(&mk(&a)))).map_err(|e| fail_to_violation(e, "box"))?;
                if empty(&a) || empty(&b) {
                    continue;
                }
                run.check();
                let yes = (0..3).all(|i| a.1[i] > b.0[i] && b.1[i] > a.0[i]);
                let no = (0..3).any(|i| a.1[i] < b.0[i] || b.1[i] < a.0[i]);
                if r.0 != r.1 || yes && !r.0 || no && r.0 {
                    return Err(viol!("box/overlap", "overlap of {a:?} and {b:?}: {} / {}", r.0, r.1));
                }
                run.probe(if yes { "overlap" } else { "apart" });
            }
            3 => {
                // a corner, a point on a face, a point anywhere
                let p: V3 = std::array::from_fn(|i| match t.idx(3 + i, 9) {
                    0 => a.0[i],
                    1 => a.1[i],
                    2 => b.0[i],
                    // next to a face, on either side of it
                    3 => (a.0[i] as f32).next_down() as f64,
                    4 => (a.1[i] as f32).next_up() as f64,
                    5 => (a.0[i] as f32).next_up() as f64,
                    6 => (a.1[i] as f32).next_down() as f64,
                    _ => num(i),
                });
                let r = fcall(false, || mk(&a).inside(mkpt(p))).map_err(|e| fail_to_violation(e, "box"))?;
                run.check();
                let w = (0..3).all(|i| a.0[i] <= p[i] && p[i] <= a.1[i]);
                if r != w {
                    return Err(viol!("box/inside", "{p:?} inside {a:?}: {r}"));
                }
                run.probe(if w { "inside" } else { "not_inside" });
            }
            4 => {
                let (d, c, lim) = fcall(false, || {
                    let x = mk(&a);
                    (vc(x.diagonal()), pt(x.center()), [x.xmin(), x.ymin(), x.zmin(), x.xmax(), x.ymax(), x.zmax()].map(un))
                })
                .map_err(|e| fail_to_violation(e, "box"))?;
                run.check();
                for i in 0..3 {
                    let (wd, wc) = (a.1[i] - a.0[i], 0.5 * (a.1[i] + a.0[i]));
                    if !((d[i] - wd).abs() <= 2.0 * E * wd.abs() + 1e-35) {
                        return Err(viol!("box/diagonal", "diagonal of {a:?} is {d:?}"));
                    }
                    if !((c[i] - wc).abs() <= 4.0 * E * (a.1[i].abs() + a.0[i].abs()) + 1e-35) {
                        return Err(viol!("box/centre", "centre of {a:?} is {c:?}"));
                    }
                }
                if lim[..3] != a.0 || lim[3..] != a.1 {
                    return Err(viol!("box/limits", "limits of {a:?} are {lim:?}"));
                }
                run.probe("centre");
            }
            _ => {
                let ((lo, hi), axis) = fcall(false, || {
                    let ((l, h), k) = mk(&a).max_extent();
                    ((un(l), un(h)), k as usize)
                })
                .map_err(|e| fail_to_violation(e, "box"))?;
                if empty(&a) {
                    continue;
                }
                run.check();
                if axis > 2 || lo != a.0[axis] || hi != a.1[axis] {
                    return Err(viol!("box/extent", "longest side of {a:?} is given as {lo:e}..{hi:e} along {axis}"));
                }
                let l = |i: usize| a.1[i] - a.0[i];
                if (0..3).any(|i| l(i) * (1.0 - 4.0 * E) > l(axis)) {
                    return Err(viol!("box/extent-axis", "longest side of {a:?} is given along {axis}"));
                }
                run.probe("longest_side");
            }
        }
    }
    Ok(())
}
fn num(rng: &mut Rng) -> f64 {
    match rng.below(5) {
        0 => rng.range(-3, 3) as f64,
        1 => rng.sign() * rng.logu(1e-4, 1e4),
        _ => rng.uni(-5.0, 5.0),
    }
}
impl Scenario for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_500_000,
            Tier::Thorough => 120_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let mut p = Plan { knobs: vec![*rng.pick(&[0i64, 0, 1, 2, 3]), rng.range(0, 5)], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        let k = if rng.chance(70) { 1.0 } else { rng.logu(1e-12, 1e10) };
        let kb = if rng.chance(70) { 1.0 } else { rng.logu(1e-12, 1e10) };
        let mut last: Vec<f64> = vec![];
        for _ in 0..rng.range(2, 3) {
            p.push("set", vec![], (0..4).map(|_| num(rng) * k).collect());
            if rng.chance(40) {
                p.push("mset", vec![], (0..16).map(|_| num(rng)).collect());
            }
            let mut b: Vec<f64> = (0..6).map(|_| kb * if rng.chance(50) { rng.range(-3, 3) as f64 } else { num(rng) }).collect();
            if !last.is_empty() && rng.chance(30) {
                // a box whose limits are next to those of the one before, overlapping it a little or missing it a little
                for i in 0..3 {
                    let (lo, hi) = (last[i].min(last[i + 3]), last[i].max(last[i + 3]));
                    let e = if rng.chance(50) { 1.0 + rng.sign() * rng.logu(1e-7, 1e-2) } else { 1.0 };
                    match rng.below(4) {
                        0 => (b[i], b[i + 3]) = (hi * e, hi + kb * rng.uni(0.1, 4.0)),
                        1 => (b[i], b[i + 3]) = (lo - kb * rng.uni(0.1, 4.0), lo * e),
                        2 => (b[i], b[i + 3]) = (lo * e, hi),
                        _ => (b[i], b[i + 3]) = (lo, hi),
                    }
                }
            }
            last = b.clone();
            p.push("box", vec![], b);
        }
        for _ in 0..rng.range(3, 16) {
            match rng.below(5) {
                0 | 1 => p.push("vec", vec![rng.range(0, 999), rng.range(0, 99), rng.range(0, 99), rng.range(0, 9)], vec![num(rng)]),
                2 | 3 => p.push("bop", (0..6).map(|_| rng.range(0, 99)).collect(), (0..3).map(|_| num(rng)).collect()),
                _ if rng.chance(40) => {
                    if rng.chance(35) {
                        p.push("mset", vec![], (0..16).map(|_| num(rng)).collect())
                    } else {
                        p.push("mop", vec![rng.range(0, 99), rng.range(0, 99), rng.range(0, 99), rng.range(0, 3), rng.range(0, 3)], vec![num(rng)])
                    }
                }
                _ => p.push("int", (0..6).map(|_| rng.range(-20, 20) * if rng.chance(20) { 401 } else { 1 }).collect(), vec![]),
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        by_type!(plan.knob(0), by_dim(plan, run))?;
        boxes(plan, run)?;
        by_type!(plan.knob(0), matrices(plan, run))?;
        for t in plan.steps.iter().filter(|t| t.op == "int") {
            env::begin(t.id);
            run.note(t.i.iter().fold(0, |h, x| mix(h, *x as u64)));
            ints(t, run)?;
            int_matrices(t, run)?;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run is a program over registers of vectors (2, 3 or 4 components, four float types), 4x4 matrices and boxes, each result fed into later operations, while the simulator chooses the rounding of every operation; non-trivial if at least one result was judged; distinct by operations and positions of changed roundings"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of float type, dimension, operations and the (step, operation) positions whose rounding was changed"
    }
    fn real(&self) -> &'static [&'static str] {
        &["math::vector, math::vector_traits", "Matrix4x4 algebra and access", "Bbox3 set operations and measures"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["arithmetic unit: rounding direction of each operation picked by the simulator"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["plane", "space", "four", "cross", "ray_point", "tiny_normalised", "scalar_product", "integers", "union", "intersection", "overlap", "apart", "inside", "not_inside", "centre", "longest_side", "matrix_product", "matrix_scaled", "matrix_parts"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["whether boxes that only touch overlap is not judged"]
    }
}
