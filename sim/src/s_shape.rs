//! C13 and C18: single spheres and boxes under simulated rounding, against a
//! double-precision model that only judges what is clear of the rounding error.

use crate::env;
use crate::plan::{Plan, Step, Violation};
use crate::prng::{mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::s_interval::{fail_to_violation, gen_round_policy};
use crate::scene::{add3, cross3, dot3, len3, mkpt, mkvec, mul3, nm, pt, r32, show_ans, sub3, unit3, vc, Ans, Leaf, RaySpec, V3};
use crate::simf::{fcall, fl, un};
use crate::viol;
use scarlet::geometry::primitive::{IntersectsRay, SurfaceInteraction};
use scarlet::math::vector::Point2f;
use std::f64::consts::PI;

pub struct C13;
pub struct C18;
const EPS: f64 = 1.1920929e-7;
const PIF: f64 = 3.1415927410125732;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sure {
    Yes,
    No,
    Maybe,
}
use Sure::*;
impl Sure {
    fn and(self, o: Sure) -> Sure {
        match (self, o) {
            (No, _) | (_, No) => No,
            (Yes, Yes) => Yes,
            _ => Maybe,
        }
    }
}
/// x >= 0 with error e
fn geq(x: f64, e: f64) -> Sure {
    if x > e {
        Yes
    } else if x < -e {
        No
    } else {
        Maybe
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Ball {
    pub r: f64,
    pub z0: f64,
    pub z1: f64,
    pub phi: f64,
}
impl Ball {
    pub fn from_step(t: &Step) -> Ball {
        let g = |k: usize| {
            let x = t.num(k) as f32 as f64;
            if x.is_finite() {
                x
            } else {
                1.0
            }
        };
        let r = g(0).abs().clamp(1e-3, 1e4) as f32 as f64;
        let (mut z0, mut z1) = (g(1).clamp(-4.0 * r, 4.0 * r), g(2).clamp(-4.0 * r, 4.0 * r));
        if z0 > z1 {
            std::mem::swap(&mut z0, &mut z1);
        }
        if z1.min(r) - z0.max(-r) < 1e-3 * r {
            z0 = -r;
            z1 = r;
        }
        let phi = g(3).clamp(-3.0, PIF);
        Ball { r, z0, z1, phi }
    }
    fn show(&self) -> String {
        format!("sphere r {:e} z {:e}..{:e} phi to {:e}", self.r, self.z0, self.z1, self.phi)
    }
}
#[derive(Clone, Copy, Debug)]
struct Root {
    t: f64,
    dt: f64,
    p: V3,
    dp: f64,
    ok: Sure,
}
/// the roots along the ray, or None if the ray passes too close to tangency
fn roots(s: &Ball, y: &RaySpec) -> Option<Vec<Root>> {
    let (o, d) = (y.o, y.d);
    let a = dot3(d, d);
    let b = 2.0 * dot3(o, d);
    let oo = dot3(o, o);
    // stable form of the constant term and the discriminant
    let c = (len3(o) - s.r) * (len3(o) + s.r);
    let x = cross3(o, d);
    let disc = 4.0 * (a * s.r * s.r - dot3(x, x));
    let sum = (o[0] * d[0]).abs() + (o[1] * d[1]).abs() + (o[2] * d[2]).abs();
    let db = 12.0 * EPS * sum;
    let dc = 8.0 * EPS * (oo + s.r * s.r);
    let dd = 2.0 * b.abs() * db + db * db + 8.0 * EPS * b * b + 4.0 * a * (dc + 12.0 * EPS * c.abs());
    if disc < -dd {
        return Some(vec![]);
    }
    if disc < 4.0 * dd {
        return None;
    }
    let q = disc.sqrt();
    let dq = dd / q + 4.0 * EPS * q;
    let big = (b.abs() + q) * 0.5;
    let mut ts = [if b >= 0.0 { -big / a } else { -c / -big }, if b >= 0.0 { -c / big } else { big / a }];
    if ts[0] > ts[1] {
        ts.swap(0, 1);
    }
    let mut out = vec![];
    for t in ts {
        let dt = 2.0 * ((db + dq) / a + dc / big + t.abs() * (db + dq) / big + 16.0 * EPS * t.abs());
        let p = add3(o, mul3(d, t));
        let dp = dt * len3(d) + 8.0 * EPS * (len3(o) + t.abs() * len3(d));
        let mut ok = geq(t, dt).and(geq(y.tmax - t, dt));
        ok = ok.and(geq(p[2] - s.z0, dp)).and(geq(s.z1 - p[2], dp));
        // a polar angle of exactly the full sweep cannot be missed
        if s.phi < PIF {
            let rho = p[0].hypot(p[1]);
            let ang = p[1].atan2(p[0]);
            let da = 4.0 * dp / rho.max(1e-30) + 8.0 * EPS * PI;
            ok = ok.and(if da > 0.5 {
                Maybe
            } else if p[0] < 0.0 && p[1].abs() <= 2.0 * dp {
                // either side of the cut
                Maybe
            } else {
                geq(s.phi - ang, da)
            });
        }
        out.push(Root { t, dt, p, dp, ok });
    }
    Some(out)
}
struct Seen {
    hit: Ans,
    occ: bool,
}
fn query_ball(s: &Ball, y: &RaySpec) -> Result<Seen, Violation> {
    let (hit, occ) = fcall(true, || {
        let b = Leaf::sphere(s.r, s.z0, s.z1, s.phi);
        (b.intersect(y.get()), b.do_intersect(y.get()))
    })
    .map_err(|f| fail_to_violation(f, "sphere query"))?;
    Ok(Seen { hit, occ })
}
fn usable(y: &RaySpec) -> bool {
    let l = len3(y.d);
    (1e-4..1e5).contains(&l) && len3(y.o) < 1e6
}
fn judge_ball(s: &Ball, y: &RaySpec, run: &mut Run) -> Result<Option<Root>, Violation> {
    let seen = query_ball(s, y)?;
    let Some(rs) = roots(s, y) else {
        run.probe("tangent_skipped");
        return Ok(None);
    };
    run.check();
    let ctx = || format!("{}, ray {}", s.show(), y.show());
    let any = rs.iter().any(|r| r.ok == Yes);
    let none = rs.iter().all(|r| r.ok == No);
    if any && !seen.occ || none && seen.occ {
        return Err(viol!(if any { "sphere/occlusion-missed" } else { "sphere/occlusion-false" }, "{}: occlusion query says {}, model roots {rs:?}", ctx(), seen.occ));
    }
    let Some(h) = &seen.hit else {
        if any {
            return Err(viol!("sphere/missed", "{}: no hit, model roots {rs:?}", ctx()));
        }
        run.probe(if rs.is_empty() { "ball_clear_miss" } else { "ball_no_valid_root" });
        return Ok(None);
    };
    let t = un(h.t_ray);
    if none {
        return Err(viol!("sphere/false-hit", "{}: {}, model roots {rs:?}", ctx(), show_ans(&seen.hit)));
    }
    let Some(k) = rs.iter().position(|r| r.ok != No && (t - r.t).abs() <= r.dt) else {
        return Err(viol!("sphere/distance", "{}: {}, model roots {rs:?}", ctx(), show_ans(&seen.hit)));
    };
    if let Some(e) = rs[..k].iter().find(|e| e.ok == Yes && (t - e.t).abs() > e.dt) {
        return Err(viol!("sphere/not-first", "{}: {}, but the surface is already met at {:e}", ctx(), show_ans(&seen.hit), e.t));
    }
    let r = rs[k];
    run.probe(match (k, rs[0].ok) {
        (0, _) => "ball_first_root",
        _ if rs[0].t < 0.0 => "ball_from_inside",
        _ => "ball_second_root",
    });
    let p = pt(h.surface_interaction.p);
    if !(len3(sub3(p, r.p)) <= 2.0 * r.dp) {
        return Err(viol!("sphere/point", "{}: point {p:?}, expected {:?} within {:e}", ctx(), r.p, 2.0 * r.dp));
    }
    let n = nm(h.surface_interaction.n);
    let want = unit3(r.p);
    let sin = want[0].hypot(want[1]);
    if sin > 0.002 {
        let tol = 16.0 * (EPS + r.dp / s.r) / sin;
        if tol < 0.2 {
            if !(len3(sub3(n, want)) <= tol) {
                return Err(viol!("sphere/normal", "{}: normal {n:?}, expected {want:?} within {tol:e}", ctx()));
            }
            run.probe("ball_normal");
        }
        if p[0].hypot(p[1]) > 0.001 * s.r && !((len3(n) - 1.0).abs() <= 16.0 * EPS) {
            return Err(viol!("sphere/normal-length", "{}: normal {n:?} has length {}", ctx(), len3(n)));
        }
    }
    Ok(Some(r))
}

#[derive(Clone, Copy, Debug)]
struct Cube {
    a: V3,
    b: V3,
}
fn judge_cube(c: &Cube, y: &RaySpec, run: &mut Run) -> Result<(), Violation> {
    // rays inside the plane of a face are out of scope
    for i in 0..3 {
        if y.d[i] == 0.0 && (y.o[i] == c.a[i] || y.o[i] == c.b[i]) {
            run.probe("in_face_skipped");
            return Ok(());
        }
    }
    let (span, hit, occ) = fcall(false, || {
        let b = Leaf::cube(c.a, c.b);
        (b.intersect_ray(y.get()), IntersectsRay::intersect(&b, y.get()), b.do_intersect(y.get()))
    })
    .map_err(|f| fail_to_violation(f, "box query"))?;
    run.check();
    let (mut tn, mut tf, mut axis) = (f64::NEG_INFINITY, f64::INFINITY, 0);
    let (mut dn, mut df) = (0.0f64, 0.0f64);
    let mut second = f64::NEG_INFINITY;
    let mut never = false;
    for i in 0..3 {
        if y.d[i] == 0.0 {
            never |= y.o[i] < c.a[i] || y.o[i] > c.b[i];
            continue;
        }
        let (mut l, mut h) = ((c.a[i] - y.o[i]) / y.d[i], (c.b[i] - y.o[i]) / y.d[i]);
        if l > h {
            std::mem::swap(&mut l, &mut h);
        }
        dn = dn.max(if l > tn { 8.0 * EPS * l.abs() } else { 0.0 });
        if l > tn {
            second = tn;
            tn = l;
            axis = i;
        } else {
            second = second.max(l);
        }
        if h < tf {
            tf = h;
            df = 8.0 * EPS * h.abs();
        }
    }
    let _ = second;
    let dn = if tn.is_finite() { dn.max(8.0 * EPS * tn.abs()) } else { 0.0 };
    let sure = if never { No } else { geq(tf - tn, dn + df).and(geq(y.tmax - tn, dn)).and(geq(tf, df)) };
    let ctx = || format!("box {:?}..{:?}, ray {}", c.a, c.b, y.show());
    let model = format!("model {tn:e}..{tf:e}");
    for (what, yes) in [("interval", span.is_some()), ("nearest-hit", hit.is_some()), ("occlusion", occ)] {
        if sure == Yes && !yes || sure == No && yes {
            return Err(viol!(format!("box/{}-{what}", if yes { "false" } else { "missed" }), "{}: {what} query says {yes}, {model}", ctx()));
        }
    }
    if sure == No {
        run.probe("box_clear_miss");
    }
    let (t0, t1) = (tn.max(0.0), tf.min(y.tmax));
    if let Some((x0, x1)) = span {
        let (x0, x1) = (un(x0), un(x1));
        if !((x0 - t0).abs() <= dn && (x1 - t1).abs() <= df) {
            return Err(viol!("box/interval", "{}: interval {x0:e}..{x1:e}, expected {t0:e}..{t1:e}", ctx()));
        }
        if t1 == y.tmax {
            run.probe("box_clipped");
        }
        if tn < 0.0 {
            run.probe("box_from_inside");
        }
    }
    let (Some(h), Yes) = (&hit, geq(tn, dn)) else { return Ok(()) };
    // from outside
    let t = un(h.t_ray);
    if !((t - tn).abs() <= dn) {
        return Err(viol!("box/distance", "{}: {}, expected distance {tn:e}", ctx(), show_ans(&hit)));
    }
    let p = add3(y.o, mul3(y.d, tn));
    let dp: V3 = std::array::from_fn(|i| 2.0 * dn * y.d[i].abs() + 8.0 * EPS * (y.o[i].abs() + (tn * y.d[i]).abs()));
    let got = pt(h.surface_interaction.p);
    let n = nm(h.surface_interaction.n);
    let n2: V3 = std::array::from_fn(|i| if i == axis { -y.d[i].signum() } else { 0.0 });
    // distance of the point to every face but the entry face
    let clear = 3.0 * (dp[0] + dp[1] + dp[2]);
    let entry_low = n2[axis] < 0.0;
    let edge = (0..3).any(|i| (p[i] - c.a[i]).abs() <= clear && !(i == axis && entry_low) || (p[i] - c.b[i]).abs() <= clear && !(i == axis && !entry_low));
    if !(0..3).all(|i| (got[i] - p[i]).abs() <= 2.0 * dp[i] + if edge { clear } else { 0.0 }) {
        return Err(viol!("box/point", "{}: point {got:?}, expected {p:?}", ctx()));
    }
    // the tangents span a face whichever it is
    let (tu, tv) = (vc(h.surface_interaction.dpdu), vc(h.surface_interaction.dpdv));
    let x = cross3(tu, tv);
    let lx = len3(x);
    if !(lx > 1e-3 * len3(tu) * len3(tv) && lx > 0.0 && (dot3(x, n).abs() - lx).abs() <= 1e-5 * lx) {
        return Err(viol!("box/tangents", "{}: tangents {tu:?} and {tv:?} do not span the face with normal {n:?}", ctx()));
    }
    if edge {
        run.probe("box_edge_skipped");
        return Ok(());
    }
    if n != n2 {
        return Err(viol!("box/normal", "{}: normal {n:?}, expected {n2:?}", ctx()));
    }
    let plane = if entry_low { c.a[axis] } else { c.b[axis] };
    if !((got[axis] - plane).abs() <= dp[axis]) {
        return Err(viol!("box/face", "{}: point {got:?} is not on the entry face at {plane:e}", ctx()));
    }
    run.probe("box_face");
    Ok(())
}
fn cube_of(t: &Step) -> Cube {
    let g = |k: usize| {
        let x = t.num(k) as f32 as f64;
        if x.is_finite() {
            x.clamp(-1e5, 1e5)
        } else {
            1.0
        }
    };
    let (a, b): (V3, V3) = ([g(0), g(1), g(2)], [g(3), g(4), g(5)]);
    let lo: V3 = std::array::from_fn(|i| a[i].min(b[i]));
    let hi: V3 = std::array::from_fn(|i| a[i].max(b[i]) + if a[i] == b[i] { 0.5 } else { 0.0 });
    Cube { a: r32(lo), b: r32(hi) }
}
fn exec13(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    for t in &plan.steps {
        env::begin(t.id);
        run.note(t.f.iter().fold(t.f.len() as u64, |h, x| mix(h, x.to_bits())));
        if t.op == "box" {
            let y = RaySpec::from_step(t, 6);
            if usable(&y) {
                judge_cube(&cube_of(t), &y, run)?;
            }
        } else {
            let y = RaySpec::from_step(t, 4);
            if usable(&y) {
                judge_ball(&Ball::from_step(t), &y, run)?;
            }
        }
    }
    Ok(())
}
fn gen_dir(rng: &mut Rng) -> V3 {
    let v: V3 = match rng.below(6) {
        0 => {
            let mut v = [0.0; 3];
            v[rng.us(3)] = rng.sign();
            v
        }
        1 => std::array::from_fn(|_| rng.range(-2, 2) as f64),
        2 => {
            // nearly along an axis
            let lo = *rng.pick(&[1e-4, 1e-6, 1e-9, 1e-14]);
            let mut v: V3 = std::array::from_fn(|_| rng.sign() * rng.logu(lo, 1e-1));
            v[rng.us(3)] = rng.sign();
            v
        }
        _ => std::array::from_fn(|_| rng.uni(-1.0, 1.0)),
    };
    if len3(v) < 1e-3 {
        [0.0, 0.0, 1.0]
    } else {
        v
    }
}
fn gen_tmax(rng: &mut Rng, s: f64) -> f64 {
    match rng.below(8) {
        0 => f32::MAX as f64,
        1 => 1e6,
        2 => s.abs() * rng.uni(0.0, 1.0),
        3 => s.abs() * (1.0 + rng.sign() * rng.logu(1e-6, 1e-1)),
        4 => s.abs() * rng.uni(1.0, 3.0),
        5 => 1.0,
        _ => 1e30,
    }
}
pub fn gen_ball(rng: &mut Rng) -> Vec<f64> {
    let r = match rng.below(3) {
        0 => rng.range(1, 4) as f64,
        1 => rng.logu(1e-2, 1e3),
        _ => rng.uni(0.3, 3.0),
    };
    let (z0, z1) = match rng.below(6) {
        0 | 1 => (-r, r),
        5 => (*rng.pick(&[-4.0, -2.0, -1.0]) * r, rng.uni(-0.9, 4.0) * r),
        2 => (rng.uni(-r, r), r),
        3 => (-r, rng.uni(-r, r)),
        _ => (rng.uni(-r, r), rng.uni(-r, r)),
    };
    let phi = match rng.below(4) {
        0 => *rng.pick(&[0.0, PI / 2.0, -PI / 2.0, 3.0]),
        1 => rng.uni(-3.0, PI),
        _ => PIF,
    };
    vec![r, z0, z1, phi]
}
/// A ray aimed at the sphere: at a point of the surface, at a point near it, or past it.
pub fn gen_ball_ray(rng: &mut Rng, b: &[f64]) -> Vec<f64> {
    let r = b[0];
    let mut th = if rng.chance(70) { rng.uni(-1.0, 1.0).acos() } else { rng.uni(0.0, PI) };
    if rng.chance(4) {
        th = rng.logu(1e-3, 0.1);
        if rng.chance(50) {
            th = PI - th;
        }
    }
    let mut ph = rng.uni(-PI, PI);
    // at the rim of the piece that is there: a little inside or outside the limits
    let rim = rng.chance(30);
    if rim {
        let e = rng.sign() * rng.logu(1e-6, 1e-2);
        let z = *rng.pick(&b[1..3]) / r;
        let by_z = z.abs() < 0.999 && (b[3] >= PI || rng.chance(50));
        if by_z {
            th = (z + e).clamp(-1.0, 1.0).acos();
            if rng.chance(70) {
                ph = rng.uni(-PI, b[3].min(PI));
            }
        } else {
            ph = b[3] + e;
            if rng.chance(70) {
                let (lo, hi) = ((b[1].min(b[2]) / r).clamp(-1.0, 1.0), (b[1].max(b[2]) / r).clamp(-1.0, 1.0));
                th = rng.uni(lo, hi + 1e-9).clamp(-1.0, 1.0).acos();
            }
        }
    }
    let q = [r * th.sin() * ph.cos(), r * th.sin() * ph.sin(), r * th.cos()];
    let d = match rng.below(3) {
        0 => mul3(q, -1.0 / r),
        _ => gen_dir(rng),
    };
    let d = mul3(d, gen_len(rng));
    let dist = match rng.below(4) {
        0 => rng.uni(-2.0, 2.0) * r,
        1 => rng.logu(1e-3, 30.0) * r,
        2 => rng.uni(0.0, 10.0) * r,
        _ => -rng.uni(0.0, 3.0) * r,
    };
    let t = dist / len3(d);
    let target = match rng.below(4) {
        _ if rim => q,
        0 => mul3(q, rng.uni(0.0, 1.5)),
        1 => mul3(q, 1.0 + rng.sign() * rng.logu(1e-5, 1e-1)),
        _ => q,
    };
    let mut o = sub3(target, mul3(d, t));
    if rng.chance(5) {
        o = [0.0; 3];
    }
    let mut f = vec![];
    f.extend(o);
    f.extend(d);
    f.push(gen_tmax(rng, t));
    f
}
/// length of a ray direction: callers need not normalise
fn gen_len(rng: &mut Rng) -> f64 {
    match rng.below(10) {
        0..=4 => 1.0,
        5..=7 => rng.logu(1e-2, 1e2),
        _ => rng.logu(1e-5, 1e5),
    }
}
/// A long ray nearly parallel to a face that it enters through.
fn gen_graze(rng: &mut Rng) -> Vec<f64> {
    let (i, j) = (rng.us(3), rng.range(1, 2) as usize);
    let j = (i + j) % 3;
    let k = 3 - i - j;
    let long = rng.logu(1.0, 1e5);
    let mut h = [0.0; 3];
    h[i] = rng.logu(1e-1, 10.0);
    h[j] = long;
    h[k] = rng.logu(1e-1, 10.0);
    let c: V3 = std::array::from_fn(|_| if rng.chance(70) { 0.0 } else { rng.uni(-3.0, 3.0) });
    let mut f = vec![];
    f.extend(sub3(c, h));
    f.extend(add3(c, h));
    // outside by a fraction of the thickness, entering a fraction down the box
    let out = h[i] * rng.logu(1e-4, 0.5);
    let down = rng.uni(-0.9, 0.9);
    let start = c[j] - long - rng.uni(0.0, 1.0) * long;
    let slope = out / (c[j] + down * long - start);
    let (si, sk) = (rng.sign(), rng.uni(-0.5, 0.5));
    let mut o = [0.0; 3];
    o[i] = c[i] - si * (h[i] + out);
    o[j] = start;
    o[k] = c[k] + sk * h[k];
    let mut d = [0.0; 3];
    d[i] = si * slope;
    d[j] = 1.0;
    d[k] = rng.uni(-0.2, 0.2) * h[k] / (3.0 * long);
    let d = mul3(d, gen_len(rng));
    f.extend(o);
    f.extend(d);
    f.push(gen_tmax(rng, 2.0 * long / d[j]));
    f
}
fn gen_cube(rng: &mut Rng) -> Vec<f64> {
    if rng.chance(15) {
        return gen_graze(rng);
    }
    let c: V3 = std::array::from_fn(|_| if rng.chance(50) { 0.0 } else { rng.uni(-10.0, 10.0) });
    let k = if rng.chance(30) { rng.logu(1e-2, 1e3) } else { 1.0 };
    let h: V3 = std::array::from_fn(|_| k * if rng.chance(40) { rng.range(1, 3) as f64 } else { rng.logu(1e-2, 3.0) });
    let mut f = vec![];
    f.extend(sub3(c, h));
    f.extend(add3(c, h));
    // a point in or around the box
    let e = if rng.chance(70) { 1.0 } else { 1.6 };
    let q: V3 = std::array::from_fn(|i| c[i] + h[i] * rng.uni(-e, e));
    let d = mul3(gen_dir(rng), gen_len(rng));
    let l = len3(h);
    let dist = match rng.below(4) {
        0 => rng.uni(-1.5, 1.5) * l,
        1 => rng.logu(1e-2, 50.0) * l,
        _ => rng.uni(0.0, 8.0) * l,
    };
    let t = dist / len3(d);
    f.extend(sub3(q, mul3(d, t)));
    f.extend(d);
    f.push(gen_tmax(rng, t));
    f
}
impl Scenario for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 8_000_000,
            Tier::Thorough => 150_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let mut p = Plan { knobs: vec![], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        for _ in 0..rng.range(1, 5) {
            if rng.chance(55) {
                let mut f = gen_ball(rng);
                let ray = gen_ball_ray(rng, &f);
                f.extend(ray);
                p.push("sphere", vec![], f);
            } else {
                p.push("box", vec![], gen_cube(rng));
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        exec13(plan, run)
    }
    fn rule(&self) -> &'static str {
        "a run queries spheres and boxes (nearest hit, occlusion, interval) with rays aimed at, near and past them while the simulator chooses the rounding of every operation and math-library call inside; non-trivial if at least one query was judged; distinct by shapes, rays and positions of changed roundings"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of shapes, rays and the (step, operation) positions whose rounding was changed"
    }
    fn real(&self) -> &'static [&'static str] {
        &["Sphere::new/intersect/do_intersect, solve_quadratic", "Bbox3::intersect_ray/intersect/do_intersect", "Ray::eval, SurfaceInteraction::new"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["arithmetic unit and math library: rounding direction picked by the simulator"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["ball_first_root", "ball_second_root", "ball_from_inside", "ball_clear_miss", "ball_no_valid_root", "ball_normal", "box_face", "box_clipped", "box_from_inside", "box_clear_miss"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["sphere limits up to four radii out, sweep maximum between -3 and pi", "normals within 0.002 rad of the poles and the surface answer of a box from inside are not judged", "rays lying exactly in the plane of a box face are not judged"]
    }
}

// ------------------------------------------------------------------ C18
/// values of acos around x with error e in the argument
fn acos_range(x: f64, e: f64) -> (f64, f64) {
    let f = |x: f64| x.clamp(-1.0, 1.0).acos();
    (f(x + e) - 8.0 * EPS, f(x - e) + 8.0 * EPS)
}
fn judge_param(s: &Ball, y: &RaySpec, run: &mut Run) -> Result<(), Violation> {
    let seen = query_ball(s, y)?;
    let Some(h) = seen.hit else { return Ok(()) };
    let si = &h.surface_interaction;
    // everything is relative to the reported point
    let p = pt(si.p);
    let rho = p[0].hypot(p[1]);
    let off = (len3(p) / s.r - 1.0).abs();
    if off > 1e-2 || rho < 0.002 * s.r {
        return Ok(());
    }
    run.check();
    // a point a little off the sphere has its angles and tangents from any of its coordinates
    let offs = 4.0 * off * s.r / rho;
    let ctx = || format!("{}, ray {}: point {p:?}", s.show(), y.show());
    let (u, v) = (un(si.uv.x()), un(si.uv.y()));
    let sweep = s.phi + PI;
    let du = 32.0 * EPS * (1.0 + PI / sweep);
    if !(u >= -du && u <= 1.0 + du) {
        return Err(viol!("uv/range-u", "{}: u = {u:e}", ctx()));
    }
    let ang = p[1].atan2(p[0]);
    let slack = if p[1].abs() <= 4.0 * EPS * rho && p[0] < 0.0 { 1.0 } else { 0.0 };
    let ang_u = |a: f64| (a + PI) / sweep;
    let near_u = (u - ang_u(ang)).abs() <= du || slack > 0.0 && ((u - ang_u(PI)).abs() <= du || (u - ang_u(-PI)).abs() <= du);
    if !near_u {
        return Err(viol!("uv/u", "{}: u = {u:e}, expected {:e}", ctx(), ang_u(ang)));
    }
    // polar angles run from the lower to the upper limit
    let (lo, hi) = (acos_range(s.z0 / s.r, 4.0 * EPS), acos_range(s.z1 / s.r, 4.0 * EPS));
    let th = acos_range(p[2] / s.r, 4.0 * EPS);
    let (mlo, mhi, mth) = ((s.z0 / s.r).clamp(-1.0, 1.0).acos(), (s.z1 / s.r).clamp(-1.0, 1.0).acos(), (p[2] / s.r).clamp(-1.0, 1.0).acos());
    let w = mlo - mhi;
    let err = (lo.1 - lo.0) + (hi.1 - hi.0) + (th.1 - th.0);
    let want_v = (mlo - mth) / w;
    let dv = (2.0 * err + offs) / w + 16.0 * EPS;
    if !((v - want_v).abs() <= dv) {
        return Err(viol!("uv/v", "{}: v = {v:e}, expected {want_v:e}", ctx()));
    }
    if !(v >= -dv && v <= 1.0 + dv) {
        return Err(viol!("uv/range-v", "{}: v = {v:e}", ctx()));
    }
    let (uu, vv) = (vc(si.dpdu), vc(si.dpdv));
    let wu = mul3([-p[1], p[0], 0.0], sweep);
    if !(len3(sub3(uu, wu)) <= 32.0 * EPS * s.r * (sweep + PI) + offs * s.r * sweep) {
        return Err(viol!("tangent/u", "{}: dpdu = {uu:?}, expected {wu:?}", ctx()));
    }
    let (c, sn) = (p[0] / rho, p[1] / rho);
    let wv = mul3([p[2] * c, p[2] * sn, -s.r * mth.sin()], -w);
    let tol = s.r * (32.0 * EPS + 2.0 * (th.1 - th.0) + offs) * w + s.r * 2.0 * ((lo.1 - lo.0) + (hi.1 - hi.0));
    if !(len3(sub3(vv, wv)) <= tol) {
        return Err(viol!("tangent/v", "{}: dpdv = {vv:?}, expected {wv:?}", ctx()));
    }
    run.probe("hit_judged");
    if s.phi < 3.0 {
        run.probe("partial_sweep");
    }
    if s.z0 > -s.r || s.z1 < s.r {
        run.probe("partial_height");
    }
    Ok(())
}
/// a caller making its own surface interaction
fn interaction(t: &Step, run: &mut Run) -> Result<(), Violation> {
    let v = |k: usize| -> V3 { r32(std::array::from_fn(|i| t.num(k + i).clamp(-1e15, 1e15))) };
    let (p, u, w) = (v(0), v(3), v(6));
    let uv = [t.num(9) as f32 as f64, t.num(10) as f32 as f64];
    let x = cross3(u, w);
    let mag = len3(u) * len3(w);
    let sin = len3(x) / mag;
    // squares of the product stay representable
    if !(1e-16..1e16).contains(&len3(x)) || !(sin > 1e-4) || !(mag < 1e16) {
        return Ok(());
    }
    let g = fcall(false, || {
        let s = SurfaceInteraction::new(mkpt(p), Point2f::new(fl(uv[0]), fl(uv[1])), mkvec(u), mkvec(w));
        (pt(s.p), [un(s.uv.x()), un(s.uv.y())], vc(s.dpdu), vc(s.dpdv), nm(s.n))
    })
    .map_err(|f| fail_to_violation(f, "surface interaction"))?;
    run.check();
    let ctx = || format!("point {p:?}, parameters {uv:?}, tangents {u:?} and {w:?}");
    if g.0 != p || g.1 != uv || g.2 != u || g.3 != w {
        return Err(viol!("interaction/kept", "{}: the interaction has {:?}, {:?}, {:?}, {:?}", ctx(), g.0, g.1, g.2, g.3));
    }
    let want = unit3(x);
    if !(len3(sub3(g.4, want)) <= 16.0 * EPS / sin + 16.0 * EPS) {
        return Err(viol!("interaction/normal", "{}: normal {:?}, expected {want:?}", ctx(), g.4));
    }
    run.probe("interaction");
    Ok(())
}
fn exec18(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    for t in &plan.steps {
        env::begin(t.id);
        run.note(t.f.iter().fold(t.f.len() as u64, |h, x| mix(h, x.to_bits())));
        if t.op == "interaction" {
            interaction(t, run)?;
            continue;
        }
        let mut s = Ball::from_step(t);
        if t.op == "area" {
            if t.int(0) != 0 {
                // nothing of the sphere is between the limits
                let k = (t.num(1).abs() / s.r).clamp(1.0, 4.0);
                (s.z0, s.z1) = ((k * s.r) as f32 as f64, (5.0 * s.r) as f32 as f64);
                if t.int(0) < 0 {
                    (s.z0, s.z1) = (-s.z1, -s.z0);
                }
                run.probe("area_of_nothing");
            }
            let a = fcall(false, || un(Leaf::sphere(s.r, s.z0, s.z1, s.phi).area())).map_err(|f| fail_to_violation(f, "area"))?;
            run.check();
            // limits beyond the sphere do not add to it
            let h = s.z1.clamp(-s.r, s.r) - s.z0.clamp(-s.r, s.r);
            let want = (s.phi + PI) * s.r * h;
            let tol = 16.0 * EPS * ((s.phi.abs() + PI) * s.r * h);
            if !((a - want).abs() <= tol) {
                return Err(viol!("area", "{}: area {a:e}, expected {want:e}", s.show()));
            }
            run.probe("area");
            if s.z0 < -s.r || s.z1 > s.r {
                run.probe("limits_beyond");
            }
        } else {
            let y = RaySpec::from_step(t, 4);
            if usable(&y) {
                judge_param(&s, &y, run)?;
            }
        }
    }
    Ok(())
}
impl Scenario for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 8_000_000,
            Tier::Thorough => 150_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let mut p = Plan { knobs: vec![], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        for _ in 0..rng.range(1, 5) {
            let mut f = gen_ball(rng);
            if rng.chance(8) {
                let mut f: Vec<f64> = (0..11).map(|_| if rng.chance(30) { rng.range(-2, 2) as f64 } else { rng.uni(-2.0, 2.0) }).collect();
                let (ku, kv) = if rng.chance(50) { (1.0, 1.0) } else { (rng.logu(1e-7, 1e7), rng.logu(1e-7, 1e7)) };
                (3..6).for_each(|i| f[i] *= ku);
                (6..9).for_each(|i| f[i] *= kv);
                let kp = if rng.chance(50) { 1.0 } else { rng.logu(1e-6, 1e8) };
                (0..3).for_each(|i| f[i] *= kp);
                p.push("interaction", vec![], f);
            } else if rng.chance(20) {
                p.push("area", vec![*rng.pick(&[0, 0, 0, 0, 0, 1, -1])], f);
            } else {
                let ray = gen_ball_ray(rng, &f);
                f.extend(ray);
                p.push("hit", vec![], f);
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        exec18(plan, run)
    }
    fn rule(&self) -> &'static str {
        "a run hits spheres and compares surface parameters, tangents and area with the parameterisation while the simulator chooses the rounding of every operation and math-library call inside; non-trivial if at least one answer was judged; distinct by shapes, rays and positions of changed roundings"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of shapes, rays and the (step, operation) positions whose rounding was changed"
    }
    fn real(&self) -> &'static [&'static str] {
        &["Sphere::new/intersect/area", "SurfaceInteraction::new"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["arithmetic unit and math library: rounding direction picked by the simulator"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["hit_judged", "interaction", "partial_sweep", "partial_height", "area", "area_of_nothing", "limits_beyond"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["sphere limits up to four radii out, sweep maximum between -3 and pi", "hits within 0.002 rad of the poles are not judged"]
    }
}
