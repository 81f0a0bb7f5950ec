//! C20: every query finishes, whatever the numbers and however deep the nesting.

use crate::env::{self, Fail, Policy};
use crate::plan::{Plan, Step, Violation};
use crate::prng::{mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::s_interval::val_class;
use crate::scene::{mknorm, mkpt, mkvec, Ans, Dyn};
use crate::simf::{fcall, fl};
use crate::viol;
use scarlet::cameras::camera::{concentric_sample_disk, uniform_sample_disk, Camera, CameraSample};
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{Bounded3, IntersectionResult, IntersectsRay, Primitive, PrimitiveList, SurfaceInteraction, TransformedPrimitive};
use scarlet::geometry::ray::Rayf;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::scalar::{AlmostEqual, GFloat};
use scarlet::math::transform::{Invertible, Matrix4x4, Transformf};
use scarlet::math::vector::{Normal3f, Point2f, Vector3f};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub struct C20;

/// a caller's object that answers whatever it was told to
struct Odd {
    f: Vec<f64>,
    calls: Rc<Cell<u64>>,
    /// everything made so far, and how deep in its own queries it is
    all: Rc<RefCell<Vec<Dyn>>>,
    depth: Rc<Cell<u32>>,
}
impl Odd {
    fn called(&self) {
        self.calls.set(self.calls.get() + 1);
        let Some(arg) = env::outside(env::member_call) else { return };
        if self.depth.get() >= 2 {
            return;
        }
        let n = self.all.borrow().len();
        if n == 0 {
            return;
        }
        // a question of its own, perhaps to the very list it is in
        let d = self.all.borrow()[arg as usize % n].clone();
        struct G<'a>(&'a Cell<u32>);
        impl Drop for G<'_> {
            fn drop(&mut self) {
                self.0.set(self.0.get() - 1);
            }
        }
        self.depth.set(self.depth.get() + 1);
        let _g = G(&self.depth);
        let ray = Rayf::new(mkpt(self.v(3)), mkvec([1.0, self.f[2], 0.5]), fl(9.0));
        match (arg >> 8) % 3 {
            0 => {
                d.intersect(ray);
            }
            1 => {
                d.do_intersect(ray);
            }
            _ => {
                d.bbox();
            }
        }
    }
    fn v(&self, k: usize) -> [f64; 3] {
        [self.f[k % 8], self.f[(k + 1) % 8], self.f[(k + 2) % 8]]
    }
}
impl IntersectsRay for Odd {
    fn do_intersect(&self, _: Rayf) -> bool {
        self.called();
        !(self.f[0] < 0.0)
    }
    fn intersect(&self, _: Rayf) -> Ans {
        self.called();
        if self.f[0] < 0.0 {
            return None;
        }
        Some(IntersectionResult {
            surface_interaction: SurfaceInteraction { p: mkpt(self.v(1)), n: mknorm(self.v(2)), uv: Point2f::new(fl(self.f[3]), fl(self.f[4])), dpdu: mkvec(self.v(5)), dpdv: mkvec(self.v(6)) },
            t_ray: fl(self.f[0]),
        })
    }
}
impl Bounded3 for Odd {
    fn bbox(&self) -> Bbox3 {
        self.called();
        Bbox3 { pmin: mkpt(self.v(1)), pmax: mkpt(self.v(4)) }
    }
}
impl Primitive for Odd {}

fn num(t: &Step, k: usize) -> f64 {
    if t.f.is_empty() {
        0.0
    } else {
        t.f[k % t.f.len()]
    }
}
fn v3(t: &Step, k: usize) -> [f64; 3] {
    [num(t, k), num(t, k + 1), num(t, k + 2)]
}
/// height limits have to be in order, everything else may be anything
fn sphere(t: &Step) -> Sphere {
    let (a, b) = (num(t, 1) as f32, num(t, 2) as f32);
    let (lo, hi) = if a < b {
        (a, b)
    } else if b < a {
        (b, a)
    } else {
        (-1.0, 1.0)
    };
    Sphere::new(fl(num(t, 0)), fl(lo as f64), fl(hi as f64), fl(num(t, 3)))
}
/// an affine transform made by the library from any numbers
fn tr(t: &Step, k: usize) -> Transformf {
    let one = |j: i64, k: usize| match j.unsigned_abs() % 7 {
        0 => Transformf::translate(mkvec(v3(t, k))),
        1 => Transformf::scale(mkvec(v3(t, k))),
        2 => Transformf::rotate_x(fl(num(t, k))),
        3 => Transformf::rotate_y(fl(num(t, k))),
        4 => Transformf::rotate_z(fl(num(t, k))),
        5 => Transformf::rotate(mkvec(v3(t, k)), fl(num(t, k + 3))),
        _ => Transformf::identity(),
    };
    let a = one(t.int(1), k);
    match t.int(2).unsigned_abs() % 3 {
        0 => a,
        1 => a * one(t.int(3), k + 4),
        _ => (a * one(t.int(3), k + 4)).inverse(),
    }
}
fn mat(t: &Step) -> Matrix4x4<scarlet::math::scalar::Float> {
    Matrix4x4 { data: std::array::from_fn(|i| std::array::from_fn(|j| fl(num(t, 4 * i + j)))) }
}

/// what the top of the construction consists of
struct Node {
    obj: Dyn,
    leaves: u64,
    wraps: u64,
    depth: u64,
}
/// Generous: a constant number of questions per object and level.
fn call_bound(n: &Node) -> u64 {
    8 * (n.leaves + 1) * (n.depth + 2)
}
fn op_bound(n: &Node) -> u64 {
    4000 * (n.leaves + n.wraps + 2) * (n.depth + 2)
}

fn show(t: &Step) -> String {
    format!("{:?}", t.f.iter().map(|x| *x as f32).collect::<Vec<_>>())
}
fn exec(plan: &Plan, run: &mut Run) -> Result<(), Violation> {
    let calls = Rc::new(Cell::new(0u64));
    let all = Rc::new(RefCell::new(Vec::<Dyn>::new()));
    let depth = Rc::new(Cell::new(0u32));
    let mut top = Node { obj: Dyn(Rc::new(PrimitiveList::new())), leaves: 0, wraps: 1, depth: 1 };
    struct Cut(Rc<RefCell<Vec<Dyn>>>);
    impl Drop for Cut {
        fn drop(&mut self) {
            // the objects know each other
            let v = self.0.take();
            drop(v);
        }
    }
    let _cut = Cut(all.clone());
    for t in &plan.steps {
        env::begin(t.id);
        let fired = env::fired();
        if all.borrow().len() < 40 && all.borrow().last().is_none_or(|l| !Rc::ptr_eq(&l.0, &top.obj.0)) {
            all.borrow_mut().push(top.obj.clone());
        }
        run.note(mix(t.op.len() as u64, t.f.iter().fold(t.int(0) as u64, |h, x| mix(h, val_class(*x)))));
        // Some(()) if it came back
        let judge = |run: &mut Run, what: &str, r: Result<(), Fail>| -> Result<bool, Violation> {
            match r {
                Ok(()) => {
                    run.check();
                    Ok(true)
                }
                Err(Fail::Injected(_)) => {
                    run.probe("cut_short");
                    Ok(false)
                }
                Err(Fail::Panic(m)) => Err(viol!(format!("panic/{what}"), "{what} with {} panicked: {m}", show(t))),
                Err(Fail::Budget) => Err(viol!(format!("no-progress/{what}"), "{what} with {} did not finish within two million machine operations", show(t))),
            }
        };
        match t.op.as_str() {
            "leaf" => {
                let mut made = None;
                let name = ["sphere", "box", "member"][t.idx(0, 3)];
                let c = (calls.clone(), all.clone(), depth.clone());
                let r = fcall(true, || {
                    let d = match t.idx(0, 3) {
                        0 => Dyn(Rc::new(sphere(t))),
                        1 => Dyn(Rc::new(if t.int(1) % 2 == 0 { Bbox3::new(mkpt(v3(t, 0)), mkpt(v3(t, 3))) } else { Bbox3 { pmin: mkpt(v3(t, 0)), pmax: mkpt(v3(t, 3)) } })),
                        _ => Dyn(Rc::new(Odd { f: (0..8).map(|k| num(t, k)).collect(), calls: c.0, all: c.1, depth: c.2 })),
                    };
                    let mut l = PrimitiveList::new();
                    l.add_primitive(d);
                    l.add_primitive(top.obj.clone());
                    made = Some(Dyn(Rc::new(l)));
                });
                if judge(run, &format!("making a {name}"), r)? {
                    top = Node { obj: made.unwrap(), leaves: top.leaves + 1, wraps: top.wraps + 1, depth: top.depth + 1 };
                }
            }
            "nest" => {
                let twice = t.int(0) % 2 == 1 && top.leaves + top.wraps < 40;
                let mut made = None;
                let r = fcall(false, || {
                    let mut l = PrimitiveList::new();
                    l.add_primitive(top.obj.clone());
                    if twice {
                        l.add_primitive(top.obj.clone());
                    }
                    made = Some(Dyn(Rc::new(l)));
                });
                if judge(run, "nesting", r)? {
                    let k = 1 + twice as u64;
                    top = Node { obj: made.unwrap(), leaves: top.leaves * k, wraps: top.wraps * k + 1, depth: top.depth + 1 };
                }
            }
            "move" => {
                let mut made = None;
                let r = fcall(true, || made = Some(Dyn(Rc::new(TransformedPrimitive::new(top.obj.clone(), tr(t, 0))))));
                if judge(run, "placing an object", r)? {
                    top = Node { obj: made.unwrap(), leaves: top.leaves, wraps: top.wraps + 1, depth: top.depth + 1 };
                }
            }
            "ask" => {
                let ray = || Rayf::new(mkpt(v3(t, 0)), mkvec(v3(t, 3)), fl(num(t, 6)));
                let name = ["nearest hit", "occlusion", "bounding box", "limits"][t.idx(0, 4)];
                calls.set(0);
                let ops = env::ops();
                let r = fcall(true, || match t.idx(0, 4) {
                    0 => {
                        top.obj.intersect(ray());
                    }
                    1 => {
                        top.obj.do_intersect(ray());
                    }
                    2 => {
                        top.obj.bbox();
                    }
                    _ => {
                        (top.obj.xmin(), top.obj.ymax(), top.obj.zmax());
                    }
                });
                let done = judge(run, &format!("{name} query"), r)?;
                let (c, n) = (calls.get(), env::ops() - ops);
                let k = if t.idx(0, 4) == 3 { 3 } else { 1 };
                let asked = env::reentered(fired);
                if asked {
                    run.probe("nested_query");
                } else if c > k * call_bound(&top) || n > k * op_bound(&top) {
                    return Err(viol!(format!("work/{name}"), "one {name} query of {} objects in {} lists and placements, {} deep, asked members {c} times and took {n} machine operations", top.leaves, top.wraps, top.depth));
                }
                if done {
                    run.probe(["nearest", "occlusion", "bounds", "limits"][t.idx(0, 4)]);
                    if top.depth > 8 {
                        run.probe("deep");
                    }
                    if t.f.iter().any(|x| x.is_nan()) {
                        run.probe("nan");
                    }
                }
            }
            _ => {
                let f = |k: usize| fl(num(t, k));
                let ray = || Rayf::new(mkpt(v3(t, 0)), mkvec(v3(t, 3)), f(6));
                let k = t.idx(0, 12);
                let what = [
                    "mapping a ray",
                    "mapping a box",
                    "mapping a point, vector and normal",
                    "inverting a matrix",
                    "multiplying matrices",
                    "look-at",
                    "perspective",
                    "camera ray",
                    "disk samples",
                    "box operations",
                    "vector operations",
                    "sphere area",
                ][k];
                let r = fcall(true, || match k {
                    0 => {
                        let m = tr(t, 7);
                        m.map::<Rayf, Rayf>(ray());
                        m.map_inverse::<Rayf, Rayf>(ray());
                    }
                    1 => {
                        let m = tr(t, 7);
                        m.map::<Bbox3, Bbox3>(Bbox3::new(mkpt(v3(t, 0)), mkpt(v3(t, 3))));
                        m.map_inverse::<Bbox3, Bbox3>(Bbox3 { pmin: mkpt(v3(t, 0)), pmax: mkpt(v3(t, 3)) });
                    }
                    2 => {
                        let m = tr(t, 7);
                        m.map_inverse::<_, scarlet::math::vector::Point3f>(m.map::<_, scarlet::math::vector::Point3f>(mkpt(v3(t, 0))));
                        m.map_inverse::<_, Vector3f>(m.map::<_, Vector3f>(mkvec(v3(t, 0))));
                        m.map_inverse::<_, Normal3f>(m.map::<_, Normal3f>(mknorm(v3(t, 0))));
                    }
                    3 => {
                        mat(t).inverse();
                    }
                    4 => {
                        let m = mat(t);
                        let a = m * m.transpose();
                        let b = Transformf::new(m, a);
                        b.almost_eq(b * b);
                    }
                    5 => {
                        Transformf::look_at(mkpt(v3(t, 0)), mkpt(v3(t, 3)), mkvec(v3(t, 6)));
                    }
                    6 => {
                        Transformf::perspective(f(0), f(1), f(2));
                    }
                    7 => {
                        let c = ThinLensCamera::new(tr(t, 9), f(0), f(1), f(2), f(3), f(4));
                        c.generate_ray(CameraSample::new(Point2f::new(f(5), f(6)), Point2f::new(f(7), f(8))));
                    }
                    8 => {
                        concentric_sample_disk(Point2f::new(f(0), f(1)));
                        uniform_sample_disk(Point2f::new(f(0), f(1)));
                    }
                    9 => {
                        let (a, b) = (Bbox3::new(mkpt(v3(t, 0)), mkpt(v3(t, 3))), Bbox3 { pmin: mkpt(v3(t, 6)), pmax: mkpt(v3(t, 9)) });
                        let (u, i) = (a.union(&b), a.intersect(&b));
                        for x in [a, b, u, i, a + b] {
                            x.overlaps(&b);
                            x.inside(mkpt(v3(t, 12)));
                            x.max_extent();
                            x.diagonal();
                            x.center();
                            x.intersect_ray(ray());
                        }
                    }
                    10 => {
                        let (a, b) = (mkvec(v3(t, 0)), mkvec(v3(t, 3)));
                        a.normalize().cross(b);
                        a.min(b).max(-a).dot(b);
                        a.distance(b);
                        a.almost_eq(b * f(6) / f(7));
                        f(0).next_up();
                        f(1).next_down();
                        ray().eval(f(8));
                    }
                    _ => {
                        sphere(t).area();
                    }
                });
                judge(run, what, r)?;
                run.probe("function");
            }
        }
    }
    Ok(())
}
fn odd(rng: &mut Rng, wild: u64) -> f64 {
    if !rng.chance(wild) {
        return match rng.below(3) {
            0 => rng.uni(-4.0, 4.0),
            1 => rng.range(-3, 3) as f64,
            _ => rng.logu(0.01, 100.0),
        };
    }
    let m = f32::MAX as f64;
    match rng.below(3) {
        0 => *rng.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, m, -m, 1e-45, -1e-40, 1.1754944e-38]),
        1 => f32::from_bits(rng.next() as u32) as f64,
        _ => rng.sign() * rng.logu(1e-40, 1e38),
    }
}
impl Scenario for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 4_000_000,
            Tier::Thorough => 200_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let pol = Policy {
            round: *rng.pick(&[0, 0, 50, 400]),
            modes: *rng.pick(&[1, 2, 4, 7]),
            crash_fp: *rng.pick(&[0, 0, 0, 100]),
            crash_member: *rng.pick(&[0, 0, 0, 100]),
            reenter: *rng.pick(&[0, 0, 0, 0, 150]),
            ..Policy::default()
        };
        let mut p = Plan { knobs: vec![], policy: Some(pol), ..Plan::default() };
        let wild = *rng.pick(&[3, 15, 40, 80]);
        let calm = rng.chance(40);
        let deep = rng.chance(20);
        let n = |rng: &mut Rng, k: usize, w: u64| -> Vec<f64> { (0..k).map(|_| odd(rng, w)).collect() };
        for _ in 0..rng.range(2, if deep { 24 } else { 9 }) {
            let w = if calm { 3 } else { wild };
            match if deep { rng.below(7) } else { rng.below(4) } {
                0 | 1 => {
                    let f = n(rng, 8, w);
                    p.push("leaf", vec![rng.range(0, 2), rng.range(0, 1)], f);
                }
                2 | 4 | 5 => p.push("nest", vec![rng.chance(15) as i64], vec![]),
                _ => {
                    let f = n(rng, 8, w);
                    p.push("move", vec![0, rng.range(0, 6), rng.range(0, 2), rng.range(0, 6)], f);
                }
            }
        }
        for _ in 0..rng.range(2, 8) {
            if rng.chance(55) {
                let f = n(rng, 7, wild);
                p.push("ask", vec![*rng.pick(&[0, 0, 1, 1, 2, 3])], f);
            } else {
                let f = n(rng, 17, wild);
                p.push("call", vec![rng.range(0, 11), rng.range(0, 6), rng.range(0, 2), rng.range(0, 6)], f);
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        exec(plan, run)
    }
    fn rule(&self) -> &'static str {
        "a run builds a scene of spheres, boxes, odd caller-supplied members, lists and placements up to two dozen levels deep from regular, degenerate, extreme, infinite and NaN numbers, asks it with rays of such numbers, and calls the transform, camera, box and vector functions with them, while the simulator rounds operations either way, cuts queries short and has members ask the scene themselves while they are asked; a query has to come back without panicking within a number of machine operations and member calls linear in the objects reached times the depth; non-trivial if at least one call was judged; distinct by calls, value classes and faults"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of the calls, the classes of their numbers and the (step, position) of every fault"
    }
    fn real(&self) -> &'static [&'static str] {
        &["Sphere, Bbox3, PrimitiveList, TransformedPrimitive", "transforms, matrices, ThinLensCamera, disk samples, boxes, vectors"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["caller-supplied members that answer with arbitrary numbers", "arithmetic unit: rounding direction picked by the simulator"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["nearest", "occlusion", "bounds", "limits", "deep", "nan", "function", "cut_short", "nested_query"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["vectors and points at infinity of a projective transform are rejected by an assertion, as documented in the code: transforms here are affine", "intervals are not included (their domain is stated in C01 and C02)"]
    }
}
