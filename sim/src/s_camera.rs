//! C14 and C16: camera rays and disk sampling under simulated rounding, against
//! double-precision models.

use crate::env;
use crate::plan::{Plan, Step, Violation};
use crate::prng::{mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::s_interval::{fail_to_violation, gen_round_policy};
use crate::scene::{add3, cross3, dot3, len3, mpt, mul3, mvec, pt, sub3, vc, Tr, V3};
use crate::simf::{fcall, fl, un};
use crate::viol;
use scarlet::cameras::camera::{concentric_sample_disk, uniform_sample_disk, Camera, CameraSample};
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::geometry::ray::Rayf;
use scarlet::math::vector::Point2f;
use std::f64::consts::{FRAC_PI_2, FRAC_PI_4, PI, TAU};

pub struct C14;
pub struct C16;
const EPS: f64 = 1.1920929e-7;

/// the documented square-to-disk map
fn concentric(p: [f64; 2]) -> [f64; 2] {
    let (x, y) = (1.0 - 2.0 * p[0], 1.0 - 2.0 * p[1]);
    if x == 0.0 && y == 0.0 {
        return [0.0; 2];
    }
    let (r, th) = if x.abs() > y.abs() { (x, FRAC_PI_4 * y / x) } else { (y, FRAC_PI_2 - (x / y) * FRAC_PI_4) };
    [r * th.cos(), r * th.sin()]
}
struct Cam {
    tr: Tr,
    rigid: bool,
    fd: f64,
    fov: f64,
    fl: f64,
    lr: f64,
    asp: f64,
}
fn cam_of(t: &Step) -> Cam {
    let g = |k: usize, lo: f64, hi: f64| {
        let x = t.num(k);
        (if x.is_finite() { x.abs().clamp(lo, hi) } else { lo }) as f32 as f64
    };
    let fd = g(0, 1e-2, 1e4);
    // the lens images a plane in front of it: focal length below the focus distance
    let flen = (fd * g(2, 1e-3, 0.9)) as f32 as f64;
    let rigid = t.int(0) % 4 != 0;
    let mut w: Vec<f64> = t.f.get(5..).unwrap_or(&[]).to_vec();
    w.truncate(15);
    for c in w.chunks_mut(5) {
        if rigid {
            c[0] = [0.0, 2.0][(c[0].abs() as usize) % 2];
        } else {
            c[0] = [0.0, 1.0, 2.0][(c[0].abs() as usize) % 3];
        }
    }
    Cam { tr: Tr::from_words(&w), rigid, fd, fov: g(1, 0.02, 2.8), fl: flen, lr: g(3, 0.0, 100.0), asp: g(4, 0.1, 10.0) }
}
impl Cam {
    fn show(&self) -> String {
        format!("camera focus {:e} fov {:e} focal length {:e} lens {:e} aspect {:e} view {:?}", self.fd, self.fov, self.fl, self.lr, self.asp, self.tr.m)
    }
    fn build(&self) -> ThinLensCamera {
        ThinLensCamera::new(self.tr.get(), fl(self.fd), fl(self.fov), fl(self.fl), fl(self.lr), fl(self.asp))
    }
    /// the point of the focal plane a film position selects, in camera space, and its error
    fn focus(&self, f: [f64; 2]) -> (V3, V3) {
        let tan = (self.fov * 0.5).tan();
        let (hw, hh) = (tan * self.fd, tan * self.fd / self.asp);
        // relative error of the tangent: its argument is rounded
        let et = 4.0 * EPS * (1.0 + self.fov / self.fov.sin().abs().max(1e-3));
        // relative error of the film distance cancels: it scales film and distance alike
        let p = [(2.0 * f[0] - 1.0) * hw, (2.0 * f[1] - 1.0) * hh, -self.fd];
        let e = |x: f64, h: f64| x.abs() * et + 24.0 * EPS * h;
        (p, [e(p[0], hw), e(p[1], hh), 32.0 * EPS * (self.fd + self.fl)])
    }
}
fn shoot(cam: &ThinLensCamera, film: [f64; 2], lens: [f64; 2]) -> Rayf {
    cam.generate_ray(CameraSample::new(Point2f::new(fl(film[0]), fl(film[1])), Point2f::new(fl(lens[0]), fl(lens[1]))))
}
fn unit_clamp(x: f64) -> f64 {
    (if x.is_finite() { x.clamp(0.0, 1.0) } else { 0.5 }) as f32 as f64
}
fn norm_mat(m: &[[f64; 4]; 4]) -> f64 {
    (0..3).map(|i| (0..3).map(|j| m[i][j].abs()).sum::<f64>()).fold(0.0, f64::max)
}
fn exec14(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    let mut cam: Option<(Cam, ThinLensCamera)> = None;
    // focus points already seen: film position, rays
    let mut seen: Vec<([f64; 2], V3, V3)> = vec![];
    for t in &plan.steps {
        env::begin(t.id);
        run.note(t.f.iter().fold(t.f.len() as u64, |h, x| mix(h, x.to_bits())));
        if t.op == "camera" {
            let c = cam_of(t);
            let b = fcall(true, || c.build()).map_err(|f| fail_to_violation(f, "camera"))?;
            cam = Some((c, b));
            seen.clear();
            continue;
        }
        let Some((c, b)) = &cam else { continue };
        let film = [unit_clamp(t.num(0)), unit_clamp(t.num(1))];
        let lens = [unit_clamp(t.num(2)), unit_clamp(t.num(3))];
        let ray = fcall(true, || shoot(b, film, lens)).map_err(|f| fail_to_violation(f, "camera ray"))?;
        run.check();
        let ctx = || format!("{}, film {film:?} lens {lens:?}", c.show());
        let (o, d) = (pt(ray.origin), vc(ray.direction));
        if !(un(ray.tmax) >= f32::MAX as f64) {
            return Err(viol!("extent", "{}: extent {:e}", ctx(), un(ray.tmax)));
        }
        // in camera space
        let inv = &c.tr.inv;
        let k = norm_mat(inv);
        let shift = (0..3).map(|i| inv[i][3].abs()).fold(0.0, f64::max);
        let want_lens = {
            let q = concentric(lens);
            [q[0] * c.lr, q[1] * c.lr, 0.0]
        };
        let el = 24.0 * EPS * c.lr;
        let eo = k * el * 2.0 + 16.0 * EPS * (k * c.lr + shift) + 1e-30;
        let wo = mpt(inv, want_lens);
        // on the lens disk
        let back = mpt(&c.tr.m, o);
        let km = norm_mat(&c.tr.m);
        let onlens = back[0].hypot(back[1]);
        let elens = 2.0 * km * eo + 64.0 * EPS * (km * (len3(o) + k * c.lr + shift) + len3([c.tr.m[0][3], c.tr.m[1][3], c.tr.m[2][3]])) * k.max(1.0) * km.max(1.0);
        if !(onlens <= c.lr + elens && back[2].abs() <= elens) {
            return Err(viol!("lens/off", "{}: origin {o:?}, in camera space {back:?}", ctx()));
        }
        if !(len3(sub3(o, wo)) <= eo * 1.8) {
            return Err(viol!("lens/origin", "{}: origin {o:?}, expected {wo:?} within {eo:e}", ctx()));
        }
        let (f, ef) = c.focus(film);
        let full = sub3(f, want_lens);
        let dist = len3(full);
        let wd = mvec(inv, mul3(full, 1.0 / dist));
        // angular error
        let ed = (len3(ef) + 2.0 * el) / dist + 16.0 * EPS;
        if ed > 0.05 {
            run.probe("ill_conditioned_skipped");
            continue;
        }
        if !(len3(sub3(d, wd)) <= 2.0 * k * ed + 8.0 * EPS * k) {
            return Err(viol!("focus/direction", "{}: direction {d:?}, expected {wd:?} within {:e}", ctx(), 2.0 * k * ed));
        }
        if c.rigid {
            if !((len3(d) - 1.0).abs() <= 64.0 * EPS) {
                return Err(viol!("unit", "{}: direction {d:?} has length {}", ctx(), len3(d)));
            }
            run.probe("rigid");
        } else {
            run.probe("scaled_view");
        }
        // rays of one film position meet in the focal plane
        for (f2, o2, d2) in &seen {
            if *f2 != film {
                continue;
            }
            let n = cross3(d, *d2);
            let nn = dot3(n, n);
            let w = sub3(*o2, o);
            if nn.sqrt() > 1e-2 * len3(d) * len3(*d2) {
                // closest points of the two lines
                let s = dot3(cross3(w, *d2), n) / nn;
                let p = add3(o, mul3(d, s));
                let want = mpt(inv, f);
                let tol = (dist * 4.0 * k * ed + 4.0 * eo) * len3(d) * len3(*d2) / nn.sqrt() * 4.0;
                if !(len3(sub3(p, want)) <= tol) {
                    return Err(viol!("focus/meet", "{}: two rays meet in {p:?}, expected {want:?} within {tol:e}", ctx()));
                }
                run.probe("rays_meet");
            }
        }
        seen.push((film, o, d));
        if lens == [0.5, 0.5] {
            run.probe("lens_centre");
        }
        if (film[0] == 0.0 || film[0] == 1.0) && (film[1] == 0.0 || film[1] == 1.0) {
            run.probe("film_corner");
        }
    }
    Ok(())
}
fn gen01(rng: &mut Rng) -> f64 {
    match rng.below(7) {
        5 => 0.5 + rng.sign() * rng.logu(3e-8, 1e-2),
        6 => {
            let x = rng.logu(1e-12, 1e-2);
            if rng.chance(50) {
                x
            } else {
                1.0 - x
            }
        }
        0 => *rng.pick(&[0.0, 1.0, 0.5, 0.25, 0.75]),
        1 => *rng.pick(&[0.5 + 1e-6, 0.5 - 1e-6, 1.0 - 1e-7, 1e-7]),
        _ => rng.f01(),
    }
}
impl Scenario for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 1_500_000,
            Tier::Thorough => 80_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let mut p = Plan { knobs: vec![], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        for _ in 0..rng.range(1, 2) {
            let fd = if rng.chance(50) { rng.uni(0.5, 20.0) } else { rng.logu(0.05, 1e3) };
            let fov = if rng.chance(30) { *rng.pick(&[0.5, 1.0, FRAC_PI_2, FRAC_PI_4]) } else { rng.uni(0.05, 2.6) };
            let lr = match rng.below(4) {
                0 => 0.0,
                1 => rng.logu(1e-3, 10.0),
                _ => fd * rng.uni(0.0, 1.0),
            };
            let asp = if rng.chance(50) { *rng.pick(&[1.0, 1.5, 16.0 / 9.0, 0.5, 2.0]) } else { rng.uni(0.2, 5.0) };
            let mut f = vec![fd, fov, rng.logu(1e-2, 0.9), lr, asp];
            for _ in 0..rng.range(0, 3) {
                f.push(rng.range(0, 2) as f64);
                f.extend((0..3).map(|_| rng.uni(-5.0, 5.0)));
                f.push(rng.uni(-4.0, 4.0));
            }
            p.push("camera", vec![rng.range(0, 7)], f);
            for _ in 0..rng.range(1, 3) {
                let film = [gen01(rng), gen01(rng)];
                for _ in 0..rng.range(1, 4) {
                    let l = if rng.chance(15) { [0.5, 0.5] } else { [gen01(rng), gen01(rng)] };
                    p.push("ray", vec![], vec![film[0], film[1], l[0], l[1]]);
                }
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        exec14(plan, run)
    }
    fn rule(&self) -> &'static str {
        "a run builds thin-lens cameras and generates rays for film and lens samples while the simulator chooses the rounding of every operation and math-library call inside; non-trivial if at least one ray was judged; distinct by cameras, samples and positions of changed roundings"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of cameras, samples and the (step, operation) positions whose rounding was changed"
    }
    fn real(&self) -> &'static [&'static str] {
        &["ThinLensCamera::new/generate_ray", "concentric_sample_disk", "Transform::map_inverse of rays"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["arithmetic unit and math library: rounding direction picked by the simulator"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["rigid", "scaled_view", "rays_meet", "lens_centre", "film_corner"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["focal length at most 0.9 of the focus distance", "field of view up to 2.8 rad"]
    }
}

// ------------------------------------------------------------------ C16
type P2 = [f64; 2];
fn sample(kind: usize, p: P2) -> Result<P2, Violation> {
    fcall(true, || {
        let q = Point2f::new(fl(p[0]), fl(p[1]));
        let r = if kind == 0 { uniform_sample_disk(q) } else { concentric_sample_disk(q) };
        [un(r.x()), un(r.y())]
    })
    .map_err(|f| fail_to_violation(f, NAMES[kind]))
}
const NAMES: [&str; 2] = ["uniform_sample_disk", "concentric_sample_disk"];
const POINT_TOL: f64 = 40.0 * EPS;
fn cr(a: P2, b: P2) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}
fn exec16(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    for t in &plan.steps {
        env::begin(t.id);
        run.note(t.f.iter().fold(t.f.len() as u64 + t.idx(0, 2) as u64, |h, x| mix(h, x.to_bits())));
        let kind = t.idx(0, 2);
        let p = [unit_clamp(t.num(0)), unit_clamp(t.num(1))];
        let q = sample(kind, p)?;
        run.check();
        let ctx = || format!("{} of {p:?} is {q:?}", NAMES[kind]);
        let r = q[0].hypot(q[1]);
        if !(r <= 1.0 + 8.0 * EPS) {
            return Err(viol!(format!("outside/{}", NAMES[kind]), "{}: {:e} from the centre", ctx(), r));
        }
        // area of concentric disks (or rings) in the square
        let want_r = if kind == 0 { p[1].sqrt() } else { (1.0 - 2.0 * p[0]).abs().max((1.0 - 2.0 * p[1]).abs()) };
        // the centre lines are met exactly, so the error shrinks towards the centre
        if !((r - want_r).abs() <= 8.0 * EPS * want_r + 0.5 * EPS) {
            return Err(viol!(format!("radius/{}", NAMES[kind]), "{}: {r:e} from the centre, expected {want_r:e}", ctx()));
        }
        let w = if kind == 0 { [want_r * (TAU * p[0]).cos(), want_r * (TAU * p[0]).sin()] } else { concentric(p) };
        if !((q[0] - w[0]).hypot(q[1] - w[1]) <= POINT_TOL * want_r + 0.5 * EPS) {
            return Err(viol!(format!("angle/{}", NAMES[kind]), "{}, expected {w:?}", ctx()));
        }
        run.probe(NAMES[kind]);
        if p.iter().any(|x| *x == 0.0 || *x == 1.0) {
            run.probe("square_edge");
        }
        if t.op == "cell" {
            // a small cell keeps its share of the area
            let h = 1.0 / 64.0;
            let c = [(p[0] * 63.0).floor() * h, (p[1] * 63.0).floor() * h];
            let n = 4usize;
            // boundary polygon, walked around
            let mut poly: Vec<P2> = vec![];
            for side in 0..4 {
                for i in 0..n {
                    let s = h * i as f64 / n as f64;
                    poly.push(match side {
                        0 => [c[0] + s, c[1]],
                        1 => [c[0] + h, c[1] + s],
                        2 => [c[0] + h - s, c[1] + h],
                        _ => [c[0], c[1] + h - s],
                    });
                }
            }
            let mut img = vec![];
            for x in &poly {
                img.push(sample(kind, *x)?);
            }
            let area: f64 = (0..img.len()).map(|i| cr(img[i], img[(i + 1) % img.len()])).sum::<f64>() * 0.5;
            let want = PI * h * h;
            run.check();
            if !((area.abs() - want).abs() <= 0.02 * want) {
                return Err(viol!(format!("area/{}", NAMES[kind]), "the cell at {c:?} of side {h} has an image of area {:e}, expected {want:e} ({})", area.abs(), NAMES[kind]));
            }
            run.probe("cell_area");
        }
    }
    Ok(())
}
impl Scenario for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 3_000_000,
            Tier::Thorough => 150_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let mut p = Plan { knobs: vec![], policy: Some(gen_round_policy(rng)), ..Plan::default() };
        for _ in 0..rng.range(1, 8) {
            let mut f = vec![gen01(rng), gen01(rng)];
            if rng.chance(10) {
                // on or near a diagonal
                f[1] = if rng.chance(50) { f[0] } else { 1.0 - f[0] };
            }
            p.push(if rng.chance(15) { "cell" } else { "point" }, vec![rng.range(0, 1)], f);
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        exec16(plan, run)
    }
    fn rule(&self) -> &'static str {
        "a run maps points and small cells of the unit square to the disk while the simulator chooses the rounding of every operation and math-library call inside; non-trivial if at least one point was judged; distinct by points and positions of changed roundings"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of points and the (step, operation) positions whose rounding was changed"
    }
    fn real(&self) -> &'static [&'static str] {
        &["uniform_sample_disk", "concentric_sample_disk"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["arithmetic unit and math library: rounding direction picked by the simulator"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["uniform_sample_disk", "concentric_sample_disk", "square_edge", "cell_area"]
    }
}
