//! C10: every call gives, bit for bit, the answer it gives as the only call of a fresh
//! process, whatever ran before it, runs interleaved with it, or was aborted.
//!
//! The process that judges never calls the library itself. It forks one child per
//! distinct call for the reference answer, and one child that executes the history:
//! real threads that pass a baton, switched at machine operations and member calls.

use crate::env::{self, Fail, Fault, Policy};
use crate::plan::{Plan, Step, Violation};
use crate::prng::{mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::scene::*;
use crate::simf::{bits, fl};
use crate::viol;
use scarlet::cameras::camera::{concentric_sample_disk, uniform_sample_disk, Camera, CameraSample};
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay, PrimitiveList, TransformedPrimitive};
use scarlet::geometry::ray::{Ray, Rayf};
use scarlet::geometry::sphere::Sphere;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{Float, GFloat, Scalar};
use scarlet::math::transform::{Invertible, Matrix4x4, Transform, Transformf};
use scarlet::math::vector::{Normal3, Normal3f, Point2f, Point3, Point3f, Vector3, Vector3f};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};

pub struct C10;

// ------------------------------------------------------------------ processes
extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
}
/// What a child says; None if it died.
fn in_child(f: impl FnOnce() -> Vec<u64>) -> Option<Vec<u64>> {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(fds[0]);
            alarm(60);
            let mut out: Vec<u8> = vec![];
            for w in f() {
                out.extend(w.to_le_bytes());
            }
            out.extend(0x600d_c0de_600d_c0deu64.to_le_bytes());
            let mut k = 0;
            while k < out.len() {
                let n = write(fds[1], out.as_ptr().add(k), out.len() - k);
                if n <= 0 {
                    break;
                }
                k += n as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        let mut data = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let mut w: Vec<u64> = data.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        match w.pop() {
            Some(0x600d_c0de_600d_c0de) => Some(w),
            _ => None,
        }
    }
}

// ------------------------------------------------------------------ objects
/// Whether a type can be shared between threads in the tree under test.
struct Probe<T>(std::marker::PhantomData<T>);
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for &Probe<T> {}
impl<T: Sync + Send> Probe<T> {
    fn sync(&self) -> bool {
        true
    }
}
macro_rules! is_sync {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use NotSync as _;
        (&Probe::<$t>(std::marker::PhantomData)).sync()
    }};
}
/// Only one thread runs at a time, and what is not `Sync` stays with its thread.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

enum Obj {
    Sphere(Sphere),
    Cube(Bbox3),
    Moved(TransformedPrimitive<Sphere>),
    /// and how many members were added after its construction
    List(RefCell<(PrimitiveList, i64)>),
    Camera(ThinLensCamera),
}
type Store = Mutex<HashMap<(u8, usize, Vec<u64>), Arc<Force<Obj>>>>;

// layout of the arguments
const RAY: usize = 0;
const SPH: usize = 7;
const BOX: usize = 11;
const TR: usize = 17;
const CAM: usize = 27;
const FILM: usize = 32;
const S: usize = 36;
const NARG: usize = 42;

fn sph(f: &[f64]) -> Sphere {
    let r = f[SPH].abs().max(0.05);
    Sphere::new(fl(r), fl(f[SPH + 1].min(f[SPH + 2]) - 1e-3), fl(f[SPH + 1].max(f[SPH + 2]) + 1e-3), fl(f[SPH + 3]))
}
fn cube(f: &[f64]) -> Bbox3 {
    Bbox3::new(mkpt([f[BOX], f[BOX + 1], f[BOX + 2]]), mkpt([f[BOX + 3], f[BOX + 4], f[BOX + 5]]))
}
fn trf(f: &[f64]) -> Transformf {
    Tr::from_words(&f[TR..TR + 10]).get()
}
fn plate(f: &[f64], k: usize) -> SimMember {
    let mut w = vec![f[S + k % 6], f[SPH], f[BOX], f[S], 1.0, f[S + 1], 0.5, 0.25, 0.0, 0.0];
    w[0] = w[0].abs();
    match Leaf::from_words(0, k as u32, &w) {
        Leaf::Plate(plate) => SimMember { plate, rec: None, life: None },
        _ => unreachable!(),
    }
}
/// the member added when a list grows to `level`
fn grow(l: &mut PrimitiveList, f: &[f64], level: i64) {
    match level {
        1 => l.add_primitive(plate(f, 2)),
        2 => {
            let mut g = f.to_vec();
            g[SPH] *= 1.5;
            l.add_primitive(TransformedPrimitive::new(sph(&g), trf(f)));
        }
        _ => l.add_primitive(plate(f, 3)),
    }
}
fn object(kind: u8, f: &[f64]) -> Obj {
    match kind {
        0 => Obj::Sphere(sph(f)),
        1 => Obj::Cube(cube(f)),
        2 => Obj::Moved(TransformedPrimitive::new(sph(f), trf(f))),
        3 => {
            let mut l = PrimitiveList::new();
            l.add_primitive(sph(f));
            l.add_primitive(TransformedPrimitive::new(cube(f), trf(f)));
            let plate = |k: usize| plate(f, k);
            l.add_primitive(plate(0));
            let mut inner = PrimitiveList::new();
            inner.add_primitive(TransformedPrimitive::new(sph(f), trf(f)));
            inner.add_primitive(plate(1));
            l.add_primitive(inner);
            Obj::List(RefCell::new((l, 0)))
        }
        _ => {
            let a = |k: usize| fl(f[CAM + k]);
            Obj::Camera(ThinLensCamera::new(trf(f), a(0), a(1), a(2), a(3), a(4)))
        }
    }
}
fn params(kind: u8, f: &[f64]) -> Vec<u64> {
    let r: &[std::ops::Range<usize>] = match kind {
        0 => &[SPH..SPH + 4],
        1 => &[BOX..BOX + 6],
        2 => &[SPH..SPH + 4, TR..TR + 10],
        3 => &[SPH..SPH + 4, BOX..BOX + 6, TR..TR + 10, S..S + 6],
        _ => &[TR..TR + 10, CAM..CAM + 5],
    };
    r.iter().flat_map(|r| f[r.clone()].iter().map(|x| x.to_bits())).collect()
}
fn sharable(kind: u8) -> bool {
    match kind {
        0 => is_sync!(Sphere),
        1 => is_sync!(Bbox3),
        2 => is_sync!(TransformedPrimitive<Sphere>),
        3 => false,
        _ => is_sync!(ThinLensCamera),
    }
}

// ------------------------------------------------------------------ calls
/// name, and the argument ranges it reads
const OPS: &[(&str, &[(usize, usize)])] = &[
    ("sphere", &[(RAY, 7), (SPH, 4)]),
    ("sphere_occ", &[(RAY, 7), (SPH, 4)]),
    ("box", &[(RAY, 7), (BOX, 6)]),
    ("box_span", &[(RAY, 7), (BOX, 6)]),
    ("moved", &[(RAY, 7), (SPH, 4), (TR, 10)]),
    ("moved_occ", &[(RAY, 7), (SPH, 4), (TR, 10)]),
    ("moved_box", &[(SPH, 4), (TR, 10)]),
    ("list", &[(RAY, 7), (SPH, 4), (BOX, 6), (TR, 10), (S, 6)]),
    ("list_occ", &[(RAY, 7), (SPH, 4), (BOX, 6), (TR, 10), (S, 6)]),
    ("list_box", &[(SPH, 4), (BOX, 6), (TR, 10), (S, 6)]),
    ("camera", &[(TR, 10), (CAM, 5), (FILM, 4)]),
    ("disk", &[(FILM, 4)]),
    ("rotate", &[(S, 6)]),
    ("rotate_axis", &[(S, 6)]),
    ("translate_scale", &[(S, 6)]),
    ("look_at", &[(RAY, 6), (S, 6)]),
    ("perspective", &[(S, 6)]),
    ("compose", &[(TR, 10), (S, 6)]),
    ("inverse", &[(TR, 10), (S, 6)]),
    ("map", &[(TR, 10), (RAY, 7), (BOX, 6)]),
    ("map_back", &[(TR, 10), (RAY, 7), (BOX, 6)]),
    ("interval", &[(S, 6)]),
    ("interval_trig", &[(S, 6)]),
    ("interval64", &[(S, 6)]),
    ("vector", &[(RAY, 7), (S, 6)]),
    ("step", &[(S, 6)]),
    ("box_ops", &[(BOX, 6), (RAY, 7), (TR, 10)]),
    ("rotate64", &[(S, 6)]),
    ("build64", &[(RAY, 6), (S, 6)]),
    ("inverse64", &[(TR, 10), (S, 6), (RAY, 6)]),
    ("map_interval", &[(TR, 10), (RAY, 7), (S, 6)]),
];
struct Out(Vec<u32>);
impl Out {
    fn f(&mut self, x: Float) {
        self.0.push(bits(x));
    }
    fn p(&mut self, p: Point3f) {
        self.f(p.x());
        self.f(p.y());
        self.f(p.z());
    }
    fn v(&mut self, p: Vector3f) {
        self.f(p.x());
        self.f(p.y());
        self.f(p.z());
    }
    fn n(&mut self, p: Normal3f) {
        self.f(p.x());
        self.f(p.y());
        self.f(p.z());
    }
    fn b(&mut self, b: Bbox3) {
        self.p(b.pmin);
        self.p(b.pmax);
    }
    fn t(&mut self, t: Transformf) {
        for m in [t.matrix(), t.inverse_matrix()] {
            for r in m.data {
                for x in r {
                    self.f(x);
                }
            }
        }
    }
    fn a(&mut self, a: Ans) {
        match a {
            None => self.0.push(0xdead),
            Some(x) => self.0.extend(ans_bits(&x)),
        }
    }
    fn ray(&mut self, r: Rayf) {
        self.p(r.origin);
        self.v(r.direction);
        self.f(r.tmax);
    }
    fn i(&mut self, i: Interval<Float>) {
        self.f(i.inf);
        self.f(i.sup);
    }
    fn d(&mut self, x: f64) {
        self.0.push(x.to_bits() as u32);
        self.0.push((x.to_bits() >> 32) as u32);
    }
    fn i64(&mut self, i: Interval<f64>) {
        self.d(i.inf);
        self.d(i.sup);
    }
    fn t64(&mut self, t: Transform<f64>) {
        for m in [t.matrix(), t.inverse_matrix()] {
            for x in m.data.as_flattened() {
                self.d(*x);
            }
        }
    }
}
fn call_kind(op: &str) -> Option<u8> {
    Some(match op {
        "sphere" | "sphere_occ" => 0,
        "box" | "box_span" | "box_ops" => 1,
        "moved" | "moved_occ" | "moved_box" => 2,
        "list" | "list_occ" | "list_box" => 3,
        "camera" => 4,
        _ => return None,
    })
}
fn eval(op: &str, f: &[f64], obj: Option<&Obj>) -> Vec<u32> {
    let mut o = Out(vec![]);
    let s = |k: usize| fl(f[S + k]);
    let ray = RaySpec { o: [f[0], f[1], f[2]], d: [f[3], f[4], f[5]], tmax: f[6].abs() }.get();
    let iv = |a: usize| {
        let (x, y) = (f[S + a], f[S + a + 1]);
        Interval { inf: fl(x.min(y)), sup: fl(x.max(y)) }
    };
    let iv64 = |a: usize| {
        let (x, y) = (f[S + a], f[S + a + 1]);
        Interval { inf: x.min(y), sup: x.max(y) }
    };
    match (op, obj) {
        ("sphere", Some(Obj::Sphere(x))) => {
            o.a(x.intersect(ray));
            o.f(x.theta_min);
            o.f(x.theta_max);
        }
        ("sphere_occ", Some(Obj::Sphere(x))) => {
            o.0.push(x.do_intersect(ray) as u32);
            o.b(x.bbox());
            o.f(x.area());
        }
        ("box", Some(Obj::Cube(x))) => o.a(IntersectsRay::intersect(x, ray)),
        ("box_span", Some(Obj::Cube(x))) => {
            match x.intersect_ray(ray) {
                Some((a, b)) => {
                    o.f(a);
                    o.f(b);
                }
                None => o.0.push(1),
            }
            o.0.push(x.do_intersect(ray) as u32);
        }
        ("moved", Some(Obj::Moved(x))) => o.a(x.intersect(ray)),
        ("moved_occ", Some(Obj::Moved(x))) => o.0.push(x.do_intersect(ray) as u32),
        ("moved_box", Some(Obj::Moved(x))) => o.b(x.bbox()),
        ("list", Some(Obj::List(x))) => o.a(x.borrow().0.intersect(ray)),
        ("list_occ", Some(Obj::List(x))) => o.0.push(x.borrow().0.do_intersect(ray) as u32),
        ("list_box", Some(Obj::List(x))) => o.b(x.borrow().0.bbox()),
        ("camera", Some(Obj::Camera(x))) => {
            let g = |k: usize| fl(f[FILM + k]);
            o.ray(x.generate_ray(CameraSample::new(Point2f::new(g(0), g(1)), Point2f::new(g(2), g(3)))));
        }
        ("disk", _) => {
            let g = |k: usize| fl(f[FILM + k]);
            for p in [concentric_sample_disk(Point2f::new(g(0), g(1))), uniform_sample_disk(Point2f::new(g(2), g(3)))] {
                o.f(p.x());
                o.f(p.y());
            }
        }
        ("rotate", _) => {
            o.t(Transformf::rotate_x(s(0)));
            o.t(Transformf::rotate_y(s(1)));
            o.t(Transformf::rotate_z(s(2)));
        }
        ("rotate_axis", _) => o.t(Transformf::rotate(Vector3f::new(s(0), s(1), s(2)), s(3))),
        ("translate_scale", _) => {
            o.t(Transformf::translate(Vector3f::new(s(0), s(1), s(2))));
            o.t(Transformf::scale(Vector3f::new(s(3), s(4), s(5))));
        }
        ("look_at", _) => o.t(Transformf::look_at(ray.origin, ray.origin + ray.direction, Vector3f::new(s(0), s(1), s(2)))),
        ("perspective", _) => o.t(Transformf::perspective(fl(f[S].abs().clamp(0.1, 2.5)), fl(f[S + 1].abs() + 0.1), fl(f[S + 1].abs() + f[S + 2].abs() + 0.5))),
        ("compose", _) => o.t(trf(f) * Transformf::rotate(Vector3f::new(s(0), s(1), s(2)), s(3)) * trf(f)),
        ("inverse", _) => {
            o.t(trf(f).inverse());
            let mut m = trf(f).matrix();
            m.data[3][0] = s(0);
            m.data[1][2] = s(1);
            for r in m.inverse().data {
                for x in r {
                    o.f(x);
                }
            }
        }
        ("map", _) => {
            let t = trf(f);
            o.ray(t.map(ray));
            o.p(t.map(ray.origin));
            o.v(t.map(ray.direction));
            o.n(t.map(Normal3f::from(ray.direction)));
            o.b(t.map(cube(f)));
        }
        ("map_back", _) => {
            let t = trf(f);
            o.ray(t.map_inverse(ray));
            o.p(t.map_inverse(ray.origin));
            o.v(t.map_inverse(ray.direction));
            o.n(t.map_inverse(Normal3f::from(ray.direction)));
            o.b(t.map_inverse(cube(f)));
        }
        ("interval", _) => {
            let (a, b) = (iv(0), iv(2));
            o.i(a + b);
            o.i(a - b);
            o.i(a * b);
            o.i(a / b);
            o.i(a * s(4));
            o.i(a / s(5));
            o.i(a.square());
            o.i(Interval { inf: Float::zero(), sup: a.sup.abs() }.sqrt());
            o.i(-a);
            o.0.push((a < b) as u32 | ((a <= b) as u32) << 1 | ((a == b) as u32) << 2 | (a.is_positive() as u32) << 3);
        }
        ("interval_trig", _) => {
            let a = iv(0);
            o.i(GFloat::sin(a));
            o.i(GFloat::cos(a));
            o.i(GFloat::atan(a));
            o.i(GFloat::atan2(iv(2), iv(4)));
        }
        ("interval64", _) => {
            let (a, b) = (iv64(0), iv64(2));
            o.i64(a * b);
            o.i64(a / b);
            o.i64(a + b);
            o.i64(GFloat::sin(a));
            o.i64(GFloat::cos(b));
            o.i64(GFloat::atan2(a, b));
        }
        ("vector", _) => {
            let (a, b) = (ray.direction, Vector3f::new(s(0), s(1), s(2)));
            o.v(a.normalize());
            o.v(a.cross(b));
            o.f(a.dot(b));
            o.f(a.norm());
            o.p(ray.eval(s(3)));
            o.f(a.distance(b));
        }
        ("step", _) => {
            for k in 0..3 {
                o.f(s(k).next_up());
                o.f(s(k).next_down());
            }
            for k in 3..6 {
                let x = f[S + k];
                for y in [GFloat::next_up(x), GFloat::next_down(x)] {
                    o.0.push(y.to_bits() as u32);
                    o.0.push((y.to_bits() >> 32) as u32);
                }
            }
        }
        ("rotate64", _) => {
            let (a, b, c) = (f[S], f[S + 1], f[S + 2]);
            o.t64(Transform::rotate_x(a));
            o.t64(Transform::rotate_y(b));
            o.t64(Transform::rotate_z(c));
            o.t64(Transform::rotate(Vector3::new(a, b, c), f[S + 3]));
        }
        ("build64", _) => {
            let p = Point3::new(f[0], f[1], f[2]);
            o.t64(Transform::look_at(p, p + Vector3::new(f[3], f[4], f[5]), Vector3::new(f[S], f[S + 1], f[S + 2])));
            o.t64(Transform::perspective(f[S].abs().clamp(0.1, 2.5), f[S + 1].abs() + 0.1, f[S + 1].abs() + f[S + 2].abs() + 0.5));
            o.t64(Transform::translate(Vector3::new(f[S], f[S + 1], f[S + 2])) * Transform::scale(Vector3::new(f[S + 3], f[S + 4], f[S + 5])));
        }
        ("inverse64", _) => {
            let t = trf(f);
            let d = t.matrix().data.map(|r| r.map(|x| crate::simf::un(x)));
            let mut m = Matrix4x4 { data: d };
            m.data[3][0] = f[S];
            m.data[1][2] = f[S + 1];
            for x in m.inverse().data.as_flattened() {
                o.d(*x);
            }
            let u = Transform::new(Matrix4x4 { data: d }, Matrix4x4 { data: t.inverse_matrix().data.map(|r| r.map(|x| crate::simf::un(x))) });
            let v: Vector3<f64> = u.map(Vector3::new(f[3], f[4], f[5]));
            let n: Normal3<f64> = u.map(Normal3::new(f[3], f[4], f[5]));
            let p: Point3<f64> = u.map_inverse(Point3::new(f[0], f[1], f[2]));
            for x in [v.x(), v.y(), v.z(), n.x(), n.y(), n.z(), p.x(), p.y(), p.z()] {
                o.d(x);
            }
            let w = Vector3::new(f[3], f[4], f[5]).normalize();
            o.d(w.x());
            o.d(w.norm());
        }
        ("map_interval", _) => {
            let t = trf(f);
            let c = |x: Float, w: Float| Interval { inf: x - w.abs(), sup: x + w.abs() };
            let r = Ray::<Interval<Float>>::new(
                Point3::new(c(ray.origin.x(), s(0)), c(ray.origin.y(), s(1)), c(ray.origin.z(), s(2))),
                Vector3::new(c(ray.direction.x(), s(3)), c(ray.direction.y(), s(4)), c(ray.direction.z(), s(5))),
                Interval::from(ray.tmax),
            );
            let a: Ray<Interval<Float>> = t.map(r);
            let b: Ray<Interval<Float>> = t.map_inverse(r);
            for r in [a, b] {
                for x in [r.origin.x(), r.origin.y(), r.origin.z(), r.direction.x(), r.direction.y(), r.direction.z(), r.tmax] {
                    o.i(x);
                }
            }
        }
        ("box_ops", Some(Obj::Cube(x))) => {
            let y = Bbox3::new(ray.origin, ray.origin + ray.direction);
            o.b(x.union(&y));
            o.b(x.intersect(&y));
            o.v(x.diagonal());
            o.p(x.center());
            o.0.push(x.overlaps(&y) as u32 | (x.inside(ray.origin) as u32) << 1 | (x.max_extent().1 as u32) << 2);
            o.b(trf(f).map(*x));
        }
        _ => {}
    }
    o.0
}
/// One call: constructs the object or finds it, and asks it.
fn one(t: &Step, thread: usize, store: Option<&Store>) -> Result<Vec<u32>, Fail> {
    let mut f = t.f.clone();
    f.resize(NARG, 0.0);
    let op = t.op.as_str();
    let obj = match call_kind(op) {
        None => None,
        Some(kind) => {
            let key = (kind, if sharable(kind) { 0 } else { thread + 1 }, params(kind, &f));
            let mut found = store.and_then(|s| s.lock().unwrap().get(&key).cloned());
            let level = Ord::clamp(t.int(2), 0, 3);
            if let Some(Obj::List(l)) = found.as_ref().map(|x| &x.0) {
                if l.borrow().1 > level {
                    // lists do not shrink: this call is about an earlier one
                    store.unwrap().lock().unwrap().remove(&key);
                    found = None;
                }
            }
            let obj = match found {
                Some(x) => x,
                None => {
                    let x = Arc::new(Force(env::lib(|| object(kind, &f))?));
                    if let Some(s) = store {
                        s.lock().unwrap().entry(key.clone()).or_insert_with(|| x.clone());
                    }
                    x
                }
            };
            if let Obj::List(l) = &obj.0 {
                while l.borrow().1 < level {
                    let n = l.borrow().1 + 1;
                    let r = env::lib(|| grow(&mut l.borrow_mut().0, &f, n));
                    if let Err(e) = r {
                        // whether it was added is another property's business
                        if let Some(s) = store {
                            s.lock().unwrap().remove(&key);
                        }
                        return Err(e);
                    }
                    l.borrow_mut().1 = n;
                }
            }
            Some(obj)
        }
    };
    env::lib(|| eval(op, &f, obj.as_ref().map(|x| &x.0)))
}
fn answer(r: Result<Vec<u32>, Fail>) -> Option<Vec<u32>> {
    match r {
        Ok(v) => Some(v),
        Err(Fail::Injected(_)) => None,
        Err(Fail::Panic(_)) => Some(vec![0xbad0_0001]),
        Err(Fail::Budget) => Some(vec![0xbad0_0002]),
    }
}

/// While a member is being asked, it makes another call of the history.
struct Nest {
    plan: Plan,
    me: usize,
    store: Arc<Store>,
    log: Vec<(usize, u64, Vec<u32>)>,
}
thread_local! {
    static NEST: RefCell<Option<Nest>> = const { RefCell::new(None) };
}
fn nested(arg: u32) {
    let Some((k, t, me, store)) = NEST.with_borrow(|n| {
        n.as_ref().map(|n| {
            let k = arg as usize % n.plan.steps.len();
            (k, n.plan.steps[k].clone(), n.me, n.store.clone())
        })
    }) else {
        return;
    };
    let mut f = t.f.clone();
    f.resize(NARG, 0.0);
    let level = Ord::clamp(t.int(2), 0, 3);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let obj = call_kind(&t.op).map(|kind| {
            let key = (kind, if sharable(kind) { 0 } else { me + 1 }, params(kind, &f));
            let found = store.lock().unwrap().get(&key).cloned();
            found.filter(|o| if let Obj::List(l) = &o.0 { l.try_borrow().is_ok_and(|l| l.1 == level) } else { true }).unwrap_or_else(|| {
                Arc::new(Force(env::inside(|| {
                    let o = object(kind, &f);
                    if let Obj::List(l) = &o {
                        for n in 1..=level {
                            grow(&mut l.borrow_mut().0, &f, n);
                        }
                    }
                    o
                })))
            })
        });
        env::inside(|| eval(&t.op, &f, obj.as_ref().map(|x| &x.0)))
    }));
    let a = match r {
        Ok(a) => a,
        Err(p) if env::is_planned(&*p) => std::panic::resume_unwind(p),
        Err(_) => vec![0xbad0_0001],
    };
    NEST.with_borrow_mut(|n| {
        if let Some(n) = n {
            if n.log.len() < 500 {
                n.log.push((k, NESTED_REP, a));
            }
        }
    });
}
const NESTED_REP: u64 = 1 << 40;

// ------------------------------------------------------------------ threads
struct Baton {
    m: Mutex<(usize, Vec<bool>)>,
    c: Condvar,
}
static BATON: Mutex<Option<Arc<Baton>>> = Mutex::new(None);
thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}
impl Baton {
    fn wait(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.0 != me {
            g = self.c.wait(g).unwrap();
        }
    }
    fn leave(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.1[me] = false;
        if let Some(k) = g.1.iter().position(|a| *a) {
            g.0 = k;
        }
        self.c.notify_all();
    }
}
fn maybe_switch(n: u32) {
    if n > 400 {
        return;
    }
    let b = BATON.lock().unwrap().clone();
    let Some(b) = b else { return };
    let me = ME.get();
    let others: Vec<usize> = {
        let g = b.m.lock().unwrap();
        (0..g.1.len()).filter(|k| *k != me && g.1[*k]).collect()
    };
    if others.is_empty() {
        return;
    }
    if let Some(a) = env::decide_switch(n, others.len() as u32) {
        let to = others[a as usize % others.len()];
        {
            let mut g = b.m.lock().unwrap();
            g.0 = to;
            b.c.notify_all();
        }
        b.wait(me);
    }
}

/// (step index, repetition, answer) of every completed call, and the environment's record.
type Log = (Vec<(usize, u64, Vec<u32>)>, env::Env, u64);
fn run_thread(plan: &Plan, me: usize, store: &Arc<Store>) -> Log {
    let mut log = vec![];
    NEST.set(Some(Nest { plan: plan.clone(), me, store: store.clone(), log: vec![] }));
    set_nested_call(Some(nested));
    let mut cut = 0;
    for (k, t) in plan.steps.iter().enumerate() {
        if t.idx(0, 4) != me {
            continue;
        }
        env::begin(t.id);
        let reps = Ord::clamp(t.int(1), 1, 400);
        let mut last: Option<Vec<u32>> = None;
        for r in 0..reps {
            if t.int(3) != 0 {
                // the same fault in every repetition
                env::begin(t.id);
            }
            match answer(one(t, me, Some(store))) {
                // only what differs from the repetition before is of interest
                Some(a) => {
                    if last.as_ref() != Some(&a) {
                        log.push((k, r as u64, a.clone()));
                        last = Some(a);
                    }
                }
                None => cut += 1,
            }
            if log.len() > 5000 {
                break;
            }
        }
    }
    set_nested_call(None);
    if let Some(n) = NEST.take() {
        log.extend(n.log);
    }
    (log, env::take(), cut)
}
fn history(plan: &Plan) -> Vec<u64> {
    let store: Arc<Store> = Arc::new(Mutex::new(HashMap::new()));
    let used: Vec<usize> = (0..4).filter(|m| plan.steps.iter().any(|t| t.idx(0, 4) == *m)).collect();
    let mut logs: Vec<Log> = vec![];
    if used.len() == 1 {
        env::reset(plan.policy.clone(), &plan.faults, None);
        logs.push(run_thread(plan, used[0], &store));
    } else {
        let baton = Arc::new(Baton { m: Mutex::new((used[0], (0..4).map(|m| used.contains(&m)).collect())), c: Condvar::new() });
        *BATON.lock().unwrap() = Some(baton.clone());
        let hs: Vec<_> = used
            .iter()
            .map(|m| {
                let (plan, m, store, baton) = (plan.clone(), *m, store.clone(), baton.clone());
                std::thread::spawn(move || {
                    ME.set(m);
                    baton.wait(m);
                    env::reset(plan.policy.clone(), &plan.faults, None);
                    env::set_sched(Some(maybe_switch));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_thread(&plan, m, &store)));
                    env::set_sched(None);
                    baton.leave(m);
                    Force(r.unwrap())
                })
            })
            .collect();
        for h in hs {
            logs.push(h.join().unwrap().0);
        }
    }
    // serialise
    let mut w = vec![];
    let (mut ops, mut members, mut libs, mut cut) = (0, 0, 0, 0);
    let mut fired = vec![];
    let mut calls = vec![];
    for (l, e, c) in logs {
        ops += e.ops;
        members += e.member_calls;
        libs += e.lib_calls;
        cut += c;
        fired.extend(e.fired);
        calls.extend(l);
    }
    w.extend([ops, members, libs, cut, fired.len() as u64]);
    for f in &fired {
        w.extend([f.step as u64, f.kind as u64, f.at as u64, f.arg as u64]);
    }
    for (k, r, a) in calls {
        w.extend([k as u64, r, a.len() as u64]);
        w.extend(a.iter().map(|x| *x as u64));
    }
    w
}
fn key(t: &Step) -> (String, Vec<u64>) {
    let level = if call_kind(&t.op) == Some(3) { Ord::clamp(t.int(2), 0, 3) } else { 0 };
    (t.op.clone(), t.f.iter().map(|x| x.to_bits()).chain([level as u64]).collect())
}

impl Scenario for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let threads = *rng.pick(&[1i64, 1, 2, 2, 3]);
        let pol = Policy {
            crash_fp: *rng.pick(&[0, 0, 150, 400]),
            crash_member: *rng.pick(&[0, 0, 200]),
            alloc: *rng.pick(&[0, 0, 100]),
            reenter: *rng.pick(&[0, 0, 150, 500]),
            switch: if threads > 1 { *rng.pick(&[5, 20, 60, 200]) } else { 0 },
            ..Policy::default()
        };
        let mut p = Plan { knobs: vec![threads], policy: Some(pol), ..Plan::default() };
        // a few calls ...
        let nops = *rng.pick(&[1usize, 1, 2, 2, 3]);
        let mut ops: Vec<&(&str, &[(usize, usize)])> = (0..nops).map(|_| rng.pick(OPS)).collect();
        if rng.chance(15) {
            ops.push(&OPS[7 + rng.us(2)]);
        }
        // ... on arguments that differ in one place
        let mut base = vec![0.0; NARG];
        let r = gen_ray(rng);
        base[RAY..RAY + 7].copy_from_slice(&r);
        let rad = rng.logu(0.5, 4.0);
        base[SPH..SPH + 4].copy_from_slice(&[rad, -rad, rad, if rng.chance(60) { 3.1415927 } else { rng.uni(-1.0, 3.0) }]);
        for k in 0..3 {
            base[BOX + k] = rng.uni(-3.0, 1.0);
            base[BOX + 3 + k] = base[BOX + k] + rng.logu(0.2, 4.0);
        }
        let t = gen_tr(rng);
        base[TR..TR + 10].copy_from_slice(&t);
        base[CAM..CAM + 5].copy_from_slice(&[rng.uni(4.0, 12.0), rng.uni(0.4, 2.0), rng.uni(0.05, 2.0), rng.logu(0.01, 0.5), rng.uni(0.5, 2.0)]);
        for k in 0..4 {
            base[FILM + k] = rng.f01();
        }
        for k in 0..6 {
            base[S + k] = if rng.chance(50) { rng.uni(-4.0, 4.0) } else { *rng.pick(&[0.0, 1.0, -1.0, 0.5, 2.0, 3.0]) };
        }
        let mut pool = vec![base.clone()];
        for _ in 0..rng.range(1, 3) {
            let mut v = rng.pick(&pool).clone();
            if rng.chance(30) {
                // another ray
                match rng.below(4) {
                    0 => v[RAY + 6] = *rng.pick(&[0.0, 1e-3, 0.1, 1.0, 1e30]),
                    1 => v[RAY + 6] /= 16.0,
                    2 => (3..6).for_each(|k| v[RAY + k] = -v[RAY + k]),
                    _ => v[RAY + rng.us(3)] *= 64.0,
                }
            }
            for _ in 0..*rng.pick(&[0, 1, 1, 2]) {
                let (_, ranges) = rng.pick(&ops);
                let (a, n) = rng.pick(ranges);
                let k = a + rng.us(*n);
                v[k] = match rng.below(6) {
                    0 => -v[k],
                    1 => f32::from_bits((v[k] as f32).to_bits().wrapping_add(1)) as f64,
                    2 => v[k] * 2.0,
                    3 => *rng.pick(&[0.0, 0.5, 1.0]),
                    _ => v[k] + rng.uni(-1.0, 1.0),
                };
                if !v[k].is_finite() {
                    v[k] = 1.0;
                }
            }
            pool.push(v);
        }
        let mut level = 0;
        for _ in 0..rng.range(3, 14) {
            let (op, _) = rng.pick(&ops);
            if rng.chance(25) {
                level = Ord::min(level + 1, 3);
            } else if rng.chance(5) {
                level = 0;
            }
            let many = if rng.chance(30) { 300 } else { 1 };
            let reps = *rng.pick(&[1i64, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3, 20, many]);
            let f = rng.pick(&pool).clone();
            let storm = reps > 3 && rng.chance(50);
            p.push(op, vec![rng.range(0, threads - 1), reps, level, storm as i64], f);
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        if plan.steps.is_empty() {
            return Ok(());
        }
        // reference answers
        let mut want: HashMap<(String, Vec<u64>), Vec<u32>> = HashMap::new();
        for t in &plan.steps {
            let k = key(t);
            if want.contains_key(&k) {
                continue;
            }
            let r = in_child(|| {
                env::reset(None, &[], None);
                env::begin(t.id);
                answer(one(t, 0, None)).unwrap_or_default().iter().map(|x| *x as u64).collect()
            });
            match r {
                Some(a) => {
                    run.event(a.iter().fold(1, |h, x| mix(h, *x)));
                    want.insert(k, a.iter().map(|x| *x as u32).collect());
                }
                None => return Err(viol!(format!("died/{}", t.op), "{} as the only call of a process brings it down", t.op)),
            }
        }
        run.note(want.len() as u64);
        let Some(w) = in_child(|| history(plan)) else {
            return Err(viol!("died", "the process executing the history died or hung"));
        };
        run.ops += w[0];
        run.member_calls += w[1];
        run.lib_calls += w[2];
        if w[3] > 0 {
            run.probe("cut_short");
        }
        let nf = w[4] as usize;
        let mut at = 5;
        for _ in 0..nf {
            let f = Fault { step: w[at] as u32, kind: w[at + 1] as u8, at: w[at + 2] as u32, arg: w[at + 3] as u32 };
            run.fired[f.kind as usize] += 1;
            run.faults.push(f);
            at += 4;
        }
        if run.fired[env::K_SWITCH as usize] > 0 {
            run.probe("preempted");
        }
        while at < w.len() {
            let (k, rep, n) = (w[at] as usize, w[at + 1], w[at + 2] as usize);
            let got: Vec<u32> = w[at + 3..at + 3 + n].iter().map(|x| *x as u32).collect();
            at += 3 + n;
            run.check();
            if rep == NESTED_REP {
                run.probe("nested_call");
            }
            let t = &plan.steps[k];
            let exp = &want[&key(t)];
            if &got != exp {
                let d = got.iter().zip(exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
                let rep = if rep == NESTED_REP { "made by a member that was being asked".to_string() } else { format!("repetition {rep}") };
                let show = |v: &[u32]| v.get(d).map_or("nothing".to_string(), |x| format!("{:e} ({x:08x})", f32::from_bits(*x)));
                return Err(viol!(
                    format!("history/{}", t.op),
                    "step {} {} ({rep}): value {d} of the answer is {}, in a fresh process {}",
                    t.id,
                    t.op,
                    show(&got),
                    show(exp)
                ));
            }
            if call_kind(&t.op) == Some(3) && t.int(2) > 0 {
                run.probe("grown_list");
            }
            if want.len() > 1 {
                run.probe("several_calls");
            }
            if exp.as_slice() == [0xbad0_0001] {
                run.probe("panicking_call");
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run is a history of calls (31 kinds over shapes, scenes, cameras, transforms, intervals and vectors; arguments that differ in one place; objects reused and shared, lists growing in between) executed by one to three threads that the simulator preempts at machine operations and member calls, in which members that are being asked make calls of their own, and in which calls are aborted by panics and failed allocations; every answer is compared with that of a freshly forked process; non-trivial if at least one answer was compared; distinct by calls and positions of switches and aborts"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of the call sequence and the (step, position, target) of every context switch and abort"
    }
    fn real(&self) -> &'static [&'static str] {
        &["all public functions of geometry, cameras, transforms and vectors; intervals over single and double precision", "threads of the operating system (one runs at a time)"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["thread scheduler", "global allocator (system allocator that fails on demand)", "caller-supplied members"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["preempted", "cut_short", "several_calls", "grown_list", "nested_call"]
    }
}
