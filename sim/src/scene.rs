//! Scenes for the simulation: caller-supplied members, recipes from which twins can be
//! built, and the model of what a list contains.

use crate::env;
use crate::plan::Step;
use crate::prng::Rng;
use crate::s_igeom::{ident, mm, M4};
use crate::simf::{bits, fl, un};
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{Bounded3, IntersectionResult, IntersectsRay, Primitive, PrimitiveList, SurfaceInteraction, TransformedPrimitive};
use scarlet::geometry::ray::Rayf;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::scalar::Float;
use scarlet::math::transform::{Matrix4x4, Transformf};
use scarlet::math::vector::{Normal3f, Point2f, Point3f, Vector3f};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub type V3 = [f64; 3];
pub fn add3(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub3(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul3(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot3(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross3(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len3(a: V3) -> f64 {
    dot3(a, a).sqrt()
}
pub fn unit3(a: V3) -> V3 {
    mul3(a, 1.0 / len3(a))
}
pub fn pt(p: Point3f) -> V3 {
    [un(p.x()), un(p.y()), un(p.z())]
}
pub fn vc(p: Vector3f) -> V3 {
    [un(p.x()), un(p.y()), un(p.z())]
}
pub fn nm(p: Normal3f) -> V3 {
    [un(p.x()), un(p.y()), un(p.z())]
}
pub fn f3(v: V3) -> (Float, Float, Float) {
    (fl(v[0]), fl(v[1]), fl(v[2]))
}
pub fn mkpt(v: V3) -> Point3f {
    let (x, y, z) = f3(v);
    Point3f::new(x, y, z)
}
pub fn mkvec(v: V3) -> Vector3f {
    let (x, y, z) = f3(v);
    Vector3f::new(x, y, z)
}
pub fn mknorm(v: V3) -> Normal3f {
    let (x, y, z) = f3(v);
    Normal3f::new(x, y, z)
}
pub fn r32(v: V3) -> V3 {
    v.map(|x| x as f32 as f64)
}

// ------------------------------------------------------------------ rays
#[derive(Clone, Copy, Debug)]
pub struct RaySpec {
    pub o: V3,
    pub d: V3,
    pub tmax: f64,
}
impl RaySpec {
    pub fn get(&self) -> Rayf {
        Rayf::new(mkpt(self.o), mkvec(self.d), fl(self.tmax))
    }
    pub fn with(&self, tmax: f64) -> RaySpec {
        RaySpec { tmax, ..*self }
    }
    pub fn of(r: &Rayf) -> RaySpec {
        RaySpec { o: pt(r.origin), d: vc(r.direction), tmax: un(r.tmax) }
    }
    pub fn from_step(t: &Step, k: usize) -> RaySpec {
        let mut r = RaySpec { o: r32(t.v3(k)), d: r32(t.v3(k + 3)), tmax: (t.num(k + 6) as f32).abs() as f64 };
        if r.d == [0.0; 3] {
            r.d = [0.0, 0.0, 1.0];
        }
        if !r.tmax.is_finite() {
            r.tmax = f32::MAX as f64;
        }
        r
    }
    pub fn show(&self) -> String {
        format!("origin ({:e}, {:e}, {:e}) direction ({:e}, {:e}, {:e}) extent {:e}", self.o[0], self.o[1], self.o[2], self.d[0], self.d[1], self.d[2], self.tmax)
    }
}

// ------------------------------------------------------------------ answers
pub type Ans = Option<IntersectionResult>;
pub fn ans_bits(a: &IntersectionResult) -> [u32; 15] {
    let s = &a.surface_interaction;
    let v = [
        a.t_ray,
        s.p.x(),
        s.p.y(),
        s.p.z(),
        s.n.x(),
        s.n.y(),
        s.n.z(),
        s.uv.x(),
        s.uv.y(),
        s.dpdu.x(),
        s.dpdu.y(),
        s.dpdu.z(),
        s.dpdv.x(),
        s.dpdv.y(),
        s.dpdv.z(),
    ];
    v.map(bits)
}
pub fn show_ans(a: &Ans) -> String {
    match a {
        None => "no hit".into(),
        Some(r) => {
            let s = &r.surface_interaction;
            format!("hit at {:e} p {:?} n {:?} uv ({:e}, {:e})", un(r.t_ray), pt(s.p), nm(s.n), un(s.uv.x()), un(s.uv.y()))
        }
    }
}
pub fn box_of(b: &Bbox3) -> (V3, V3) {
    (pt(b.pmin), pt(b.pmax))
}
pub fn box_empty(b: &(V3, V3)) -> bool {
    (0..3).any(|i| b.0[i] > b.1[i])
}

// ------------------------------------------------------------------ members
#[derive(Default)]
pub struct Recorder {
    pub rays: RefCell<Vec<RaySpec>>,
}
#[derive(Clone)]
pub struct Plate {
    pub id: u32,
    pub t0: Option<f64>,
    /// report the point along the ray instead of a fixed one
    pub along: bool,
    pub p: V3,
    pub n: V3,
    pub u: V3,
    pub v: V3,
    pub uv: [f64; 2],
    pub bmin: V3,
    pub bmax: V3,
}
/// Counts the lives and deaths of one handed-over object.
#[derive(Default)]
pub struct Life {
    pub drops: Cell<u32>,
    /// answers only while switched on
    pub on: Cell<bool>,
    /// ray queries received
    pub calls: Cell<u32>,
}
pub struct SimMember {
    pub plate: Plate,
    pub rec: Option<Rc<Recorder>>,
    pub life: Option<Rc<Life>>,
}
impl Drop for SimMember {
    fn drop(&mut self) {
        if let Some(l) = &self.life {
            l.drops.set(l.drops.get() + 1);
        }
    }
}

thread_local! {
    /// lists a member may query while it is being queried
    pub static TARGETS: RefCell<Vec<Rc<RefCell<PrimitiveList>>>> = const { RefCell::new(vec![]) };
    pub static NESTED: RefCell<Vec<(usize, RaySpec, u8, Ans, bool)>> = const { RefCell::new(vec![]) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}
pub fn reset_targets(t: Vec<Rc<RefCell<PrimitiveList>>>) {
    TARGETS.with_borrow_mut(|x| *x = t);
    NESTED.with_borrow_mut(|x| x.clear());
    DEPTH.set(0);
}
thread_local! {
    static NESTED_CALL: std::cell::Cell<Option<fn(u32)>> = const { std::cell::Cell::new(None) };
}
/// What a member does when it calls back into the library, in place of a query.
pub fn set_nested_call(f: Option<fn(u32)>) {
    NESTED_CALL.set(f);
    DEPTH.set(0);
}
const NEST_RAYS: [([f64; 3], [f64; 3], f64); 6] = [
    ([0.0, 0.0, 9.0], [0.0, 0.0, -1.0], 100.0),
    ([7.0, 1.0, 0.5], [-1.0, 0.0, 0.0], 50.0),
    ([0.5, -8.0, 0.25], [0.0, 2.0, 0.0], 1e30),
    ([5.0, 5.0, 5.0], [-0.5, -0.5, -0.5], 30.0),
    ([0.0, 0.0, 0.0], [1.0, 0.25, 0.125], 2.5),
    ([-6.0, 0.5, 1.0], [1.0, 0.0, 0.0], 1.0),
];
fn member_called() {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            DEPTH.set(DEPTH.get() - 1);
        }
    }
    if let Some(arg) = env::member_call() {
        if DEPTH.get() >= 2 {
            return;
        }
        if let Some(f) = NESTED_CALL.get() {
            DEPTH.set(DEPTH.get() + 1);
            let _d = D;
            return f(arg);
        }
        let target = TARGETS.with_borrow(|t| if t.is_empty() { None } else { Some((arg as usize % t.len(), t[arg as usize % t.len()].clone())) });
        if let Some((k, list)) = target {
            DEPTH.set(DEPTH.get() + 1);
            let _d = D;
            let (o, d, tmax) = NEST_RAYS[(arg >> 4) as usize % NEST_RAYS.len()];
            let spec = RaySpec { o, d, tmax };
            let kind = (arg >> 8) as u8 % 2;
            let l = match list.try_borrow() {
                Ok(l) => l,
                Err(_) => return, // being added to
            };
            let (a, occ) = env::inside(|| if kind == 0 { (l.intersect(spec.get()), false) } else { (None, l.do_intersect(spec.get())) });
            drop(l);
            NESTED.with_borrow_mut(|n| n.push((k, spec, kind, a, occ)));
        }
    }
}
impl SimMember {
    fn answer(&self, ray: &Rayf) -> Ans {
        let pl = &self.plate;
        if self.life.as_ref().is_some_and(|l| !l.on.get()) {
            return None;
        }
        let t = pl.t0?;
        if !(t >= 0.0 && t <= un(ray.tmax)) {
            return None;
        }
        let p = if pl.along { add3(pt(ray.origin), mul3(vc(ray.direction), t)) } else { pl.p };
        Some(IntersectionResult {
            surface_interaction: SurfaceInteraction { p: mkpt(p), n: mknorm(pl.n), uv: Point2f::new(fl(pl.uv[0]), fl(pl.uv[1])), dpdu: mkvec(pl.u), dpdv: mkvec(pl.v) },
            t_ray: fl(t),
        })
    }
    fn record(&self, ray: &Rayf) {
        if let Some(r) = &self.rec {
            if !env::is_quiet() {
                r.rays.borrow_mut().push(RaySpec::of(ray));
            }
        }
    }
}
impl SimMember {
    fn count(&self) {
        if let Some(l) = &self.life {
            l.calls.set(l.calls.get() + 1);
        }
    }
}
impl IntersectsRay for SimMember {
    fn do_intersect(&self, ray: Rayf) -> bool {
        env::outside(|| {
            self.record(&ray);
            self.count();
            member_called();
            self.answer(&ray).is_some()
        })
    }
    fn intersect(&self, ray: Rayf) -> Ans {
        env::outside(|| {
            self.record(&ray);
            self.count();
            member_called();
            self.answer(&ray)
        })
    }
}
impl Bounded3 for SimMember {
    fn bbox(&self) -> Bbox3 {
        env::outside(|| {
            member_called();
            Bbox3 { pmin: mkpt(self.plate.bmin), pmax: mkpt(self.plate.bmax) }
        })
    }
}
impl Primitive for SimMember {}

/// A flat triangle, computed by the caller in double precision.
#[derive(Clone)]
pub struct Tri {
    pub a: V3,
    pub b: V3,
    pub c: V3,
}
impl Tri {
    pub fn hit(&self, o: V3, d: V3) -> Option<f64> {
        let (e1, e2) = (sub3(self.b, self.a), sub3(self.c, self.a));
        let h = cross3(d, e2);
        let det = dot3(e1, h);
        if det.abs() < 1e-12 {
            return None;
        }
        let s = sub3(o, self.a);
        let u = dot3(s, h) / det;
        let q = cross3(s, e1);
        let v = dot3(d, q) / det;
        if u < 0.0 || v < 0.0 || u + v > 1.0 {
            return None;
        }
        Some(dot3(e2, q) / det)
    }
    fn answer(&self, ray: &Rayf) -> Ans {
        let (o, d) = (pt(ray.origin), vc(ray.direction));
        let t = self.hit(o, d)? as f32 as f64;
        if !(t >= 0.0 && t <= un(ray.tmax)) {
            return None;
        }
        let (e1, e2) = (sub3(self.b, self.a), sub3(self.c, self.a));
        let n = cross3(e1, e2);
        if len3(n) < 1e-9 {
            return None;
        }
        Some(IntersectionResult {
            surface_interaction: SurfaceInteraction {
                p: mkpt(add3(o, mul3(d, t))),
                n: mknorm(unit3(n)),
                uv: Point2f::new(fl(0.25), fl(0.75)),
                dpdu: mkvec(e1),
                dpdv: mkvec(e2),
            },
            t_ray: fl(t),
        })
    }
}
impl IntersectsRay for Tri {
    fn do_intersect(&self, ray: Rayf) -> bool {
        env::outside(|| {
            member_called();
            self.answer(&ray).is_some()
        })
    }
    fn intersect(&self, ray: Rayf) -> Ans {
        env::outside(|| {
            member_called();
            self.answer(&ray)
        })
    }
}
impl Bounded3 for Tri {
    fn bbox(&self) -> Bbox3 {
        env::outside(|| {
            member_called();
            let lo = std::array::from_fn(|i| self.a[i].min(self.b[i]).min(self.c[i]));
            let hi = std::array::from_fn(|i| self.a[i].max(self.b[i]).max(self.c[i]));
            Bbox3 { pmin: mkpt(lo), pmax: mkpt(hi) }
        })
    }
}
impl Primitive for Tri {}

/// A shared handle to any object, itself an object.
#[derive(Clone)]
pub struct Dyn(pub Rc<dyn Primitive>);
impl IntersectsRay for Dyn {
    fn do_intersect(&self, ray: Rayf) -> bool {
        self.0.do_intersect(ray)
    }
    fn intersect(&self, ray: Rayf) -> Ans {
        self.0.intersect(ray)
    }
}
impl Bounded3 for Dyn {
    fn bbox(&self) -> Bbox3 {
        (*self.0).bbox()
    }
}
impl Primitive for Dyn {}

/// A list that is shared between several owners and can still grow.
#[derive(Clone)]
pub struct Shared(pub Rc<RefCell<PrimitiveList>>);
impl IntersectsRay for Shared {
    fn do_intersect(&self, ray: Rayf) -> bool {
        self.0.borrow().do_intersect(ray)
    }
    fn intersect(&self, ray: Rayf) -> Ans {
        self.0.borrow().intersect(ray)
    }
}
impl Bounded3 for Shared {
    fn bbox(&self) -> Bbox3 {
        self.0.borrow().bbox()
    }
}
impl Primitive for Shared {}

// ------------------------------------------------------------------ transforms
#[derive(Clone, Debug)]
pub struct Tr {
    pub m: M4,
    pub inv: M4,
}
pub fn mvec(m: &M4, v: V3) -> V3 {
    std::array::from_fn(|i| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2])
}
pub fn mpt(m: &M4, p: V3) -> V3 {
    std::array::from_fn(|i| m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3])
}
/// sum of magnitudes, for error bounds
pub fn mabs(m: &M4) -> M4 {
    std::array::from_fn(|i| std::array::from_fn(|j| m[i][j].abs()))
}
pub fn abs3(v: V3) -> V3 {
    v.map(f64::abs)
}
pub fn mnormal(inv: &M4, n: V3) -> V3 {
    std::array::from_fn(|i| inv[0][i] * n[0] + inv[1][i] * n[1] + inv[2][i] * n[2])
}
fn elem(kind: i64, v: V3, ang: f64) -> (M4, M4) {
    let (mut m, mut inv) = (ident(), ident());
    match kind.rem_euclid(5) {
        0 => {
            for i in 0..3 {
                m[i][3] = v[i];
                inv[i][3] = -v[i];
            }
        }
        1 => {
            for i in 0..3 {
                let s = if v[i].abs() < 0.2 { 1.0 } else { v[i] };
                m[i][i] = s;
                inv[i][i] = 1.0 / s;
            }
        }
        2 | 3 => {
            let a = if len3(v) < 1e-3 { [0.0, 0.0, 1.0] } else { unit3(v) };
            let (s, c) = ang.sin_cos();
            for i in 0..3 {
                for j in 0..3 {
                    let sk = if i == j {
                        0.0
                    } else {
                        let sg = if (i + 1) % 3 == j { -1.0 } else { 1.0 };
                        sg * a[3 - i - j] * s
                    };
                    m[i][j] = a[i] * a[j] * (1.0 - c) + if i == j { c } else { sk };
                }
            }
            for i in 0..3 {
                for j in 0..3 {
                    inv[i][j] = m[j][i];
                }
            }
        }
        _ => {
            // shear
            let k = v[0].clamp(-2.0, 2.0);
            let (i, j) = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)][(v[1].abs() * 8.0) as usize % 6];
            m[i][j] = k;
            inv[i][j] = -k;
        }
    }
    (m, inv)
}
impl Tr {
    /// a product of elementary maps: 5 numbers each (kind, x, y, z, angle)
    pub fn from_words(f: &[f64]) -> Tr {
        let (mut m, mut inv) = (ident(), ident());
        for w in f.chunks(5) {
            if w.len() < 5 {
                break;
            }
            let (e, ei) = elem(w[0] as i64, [w[1], w[2], w[3]], w[4]);
            m = mm(&e, &m);
            inv = mm(&inv, &ei);
        }
        let r = |m: M4| m.map(|r| r.map(|x| x as f32 as f64));
        Tr { m: r(m), inv: r(inv) }
    }
    pub fn get(&self) -> Transformf {
        let g = |m: &M4| Matrix4x4 { data: m.map(|r| r.map(fl)) };
        Transformf::new(g(&self.m), g(&self.inv))
    }
}

// ------------------------------------------------------------------ recipes
#[derive(Clone)]
pub enum Leaf {
    Plate(Plate),
    Sphere { r: f64, z0: f64, z1: f64, phi: f64 },
    Cube { a: V3, b: V3 },
    Tri(Tri),
}
impl Leaf {
    /// 10 numbers
    pub fn from_words(kind: i64, id: u32, f: &[f64]) -> Leaf {
        let g = |k: usize| {
            let x = f.get(k).copied().unwrap_or(0.0) as f32 as f64;
            if x.is_finite() {
                x
            } else {
                1.0
            }
        };
        let v = |k: usize| [g(k), g(k + 1), g(k + 2)];
        match kind.rem_euclid(4) {
            0 => {
                let n = if len3(v(4)) < 1e-3 { [0.0, 0.0, 1.0] } else { unit3(v(4)) };
                let h = if n[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
                let u = unit3(cross3(h, n));
                let w = cross3(n, u);
                let p = v(1);
                let e = g(7).abs().min(5.0) + 0.25;
                Leaf::Plate(Plate {
                    id,
                    t0: if g(0) < 0.0 { None } else { Some(g(0)) },
                    along: g(8) > 0.5,
                    p,
                    n: r32(n),
                    u: r32(mul3(u, 1.0 + e)),
                    v: r32(mul3(w, 2.0 - e / 4.0)),
                    uv: [id as f64, g(7)],
                    bmin: r32(sub3(p, [e, e, e * 0.5])),
                    bmax: r32(add3(p, [e * 0.5, e, e])),
                })
            }
            1 => {
                let r = g(0).abs().clamp(0.05, 100.0);
                // limits inside the sphere
                let (mut z0, mut z1) = (g(1).clamp(-r, r), g(2).clamp(-r, r));
                if z0 > z1 {
                    std::mem::swap(&mut z0, &mut z1);
                }
                if z1 - z0 < 1e-3 * r {
                    z0 = -r;
                    z1 = r;
                }
                Leaf::Sphere { r, z0, z1, phi: g(3).clamp(-3.0, 3.1415927) }
            }
            2 => {
                let (a, b) = (v(0), v(3));
                Leaf::Cube { a: std::array::from_fn(|i| a[i].min(b[i])), b: std::array::from_fn(|i| a[i].max(b[i]) + if a[i] == b[i] { 0.5 } else { 0.0 }) }
            }
            _ => Leaf::Tri(Tri { a: v(0), b: v(3), c: v(6) }),
        }
    }
    pub fn sphere(r: f64, z0: f64, z1: f64, phi: f64) -> Sphere {
        Sphere::new(fl(r), fl(z0), fl(z1), fl(phi))
    }
    pub fn cube(a: V3, b: V3) -> Bbox3 {
        Bbox3::new(mkpt(a), mkpt(b))
    }
    pub fn build(&self) -> Rc<dyn Primitive> {
        match self {
            Leaf::Plate(p) => Rc::new(SimMember { plate: p.clone(), rec: None, life: None }),
            Leaf::Sphere { r, z0, z1, phi } => Rc::new(Self::sphere(*r, *z0, *z1, *phi)),
            Leaf::Cube { a, b } => Rc::new(Self::cube(*a, *b)),
            Leaf::Tri(t) => Rc::new(t.clone()),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Leaf::Plate(_) => "plate",
            Leaf::Sphere { .. } => "sphere",
            Leaf::Cube { .. } => "box",
            Leaf::Tri(_) => "triangle",
        }
    }
}
#[derive(Clone)]
pub enum Base {
    Leaf(Leaf),
    List(usize),
    /// a list of leaves that was moved in
    Own(Vec<Leaf>),
}
#[derive(Clone)]
pub struct Item {
    pub base: Base,
    /// innermost first
    pub trs: Vec<Tr>,
}
pub fn wrap(mut d: Dyn, trs: &[Tr]) -> Dyn {
    for t in trs {
        d = Dyn(Rc::new(TransformedPrimitive::new(d, t.get())));
    }
    d
}
#[derive(Clone)]
pub struct Chain {
    pub leaf: Leaf,
    pub trs: Vec<Tr>,
}
impl Chain {
    pub fn build(&self) -> Dyn {
        wrap(Dyn(self.leaf.build()), &self.trs)
    }
}

/// The lists of a run and the model of their contents.
pub struct World {
    pub lists: Vec<Rc<RefCell<PrimitiveList>>>,
    pub model: Vec<Vec<Item>>,
}
impl World {
    pub fn new(n: usize) -> World {
        let lists: Vec<_> = (0..n).map(|_| Rc::new(RefCell::new(PrimitiveList::new()))).collect();
        reset_targets(lists.clone());
        World { lists, model: vec![vec![]; n] }
    }
    pub fn chains(&self, k: usize) -> Vec<Chain> {
        let mut out = vec![];
        for it in &self.model[k] {
            let mut inner = match &it.base {
                Base::Leaf(l) => vec![Chain { leaf: l.clone(), trs: vec![] }],
                Base::Own(ls) => ls.iter().map(|l| Chain { leaf: l.clone(), trs: vec![] }).collect(),
                Base::List(j) => self.chains(*j),
            };
            for c in &mut inner {
                c.trs.extend(it.trs.iter().cloned());
            }
            out.extend(inner);
        }
        out
    }
    /// The item a step describes: i = [list, kind, transforms, shape, nested list, sub], f = leaf, transforms.
    pub fn item(&self, t: &Step) -> Option<(usize, Item)> {
        let n = self.lists.len();
        let k = t.idx(0, n);
        let ntr = t.int(2).clamp(0, 3) as usize;
        let mut trs = vec![];
        for j in 0..ntr {
            let a = 10 + 10 * j;
            if t.f.len() >= a + 10 {
                trs.push(Tr::from_words(&t.f[a..a + 10]));
            }
        }
        let base = match t.int(1).rem_euclid(8) {
            6 => {
                // only later lists, so that nothing contains itself
                if k + 1 >= n {
                    return None;
                }
                Base::List(k + 1 + t.idx(4, n - k - 1))
            }
            7 => Base::Own((0..t.int(5).rem_euclid(3)).map(|j| Leaf::from_words(t.int(3) + j, t.id * 10 + j as u32, &shifted(&t.f, j))).collect()),
            _ => Base::Leaf(Leaf::from_words(t.int(3), t.id * 10, &t.f)),
        };
        Some((k, Item { base, trs }))
    }
    /// The object for an item, as the caller would hand it over.
    pub fn object(&self, it: &Item) -> Dyn {
        let d = match &it.base {
            Base::Leaf(l) => Dyn(l.build()),
            Base::List(j) => Dyn(Rc::new(Shared(self.lists[*j].clone()))),
            Base::Own(ls) => {
                let mut l = PrimitiveList::new();
                for x in ls {
                    l.add_primitive(Dyn(x.build()));
                }
                Dyn(Rc::new(l))
            }
        };
        wrap(d, &it.trs)
    }
    /// Adds an item through the library, with the concrete type where there is one.
    pub fn add(&mut self, k: usize, it: &Item) -> Result<(), env::Fail> {
        let list = self.lists[k].clone();
        let r = match (&it.base, it.trs.as_slice()) {
            (Base::Leaf(Leaf::Sphere { r, z0, z1, phi }), []) => {
                let s = Leaf::sphere(*r, *z0, *z1, *phi);
                env::lib(|| list.borrow_mut().add_primitive(s))
            }
            (Base::Leaf(Leaf::Sphere { r, z0, z1, phi }), [t]) => {
                let s = TransformedPrimitive::new(Leaf::sphere(*r, *z0, *z1, *phi), t.get());
                env::lib(|| list.borrow_mut().add_primitive(s))
            }
            (Base::Leaf(Leaf::Cube { a, b }), []) => {
                let s = Leaf::cube(*a, *b);
                env::lib(|| list.borrow_mut().add_primitive(s))
            }
            (Base::List(j), []) => {
                let s = Shared(self.lists[*j].clone());
                env::lib(|| list.borrow_mut().add_primitive(s))
            }
            (Base::List(j), [t]) => {
                let s = TransformedPrimitive::new(Shared(self.lists[*j].clone()), t.get());
                env::lib(|| list.borrow_mut().add_primitive(s))
            }
            (Base::Own(ls), trs) if trs.len() < 2 => {
                let mut l = PrimitiveList::new();
                for x in ls {
                    l.add_primitive(Dyn(x.build()));
                }
                match trs {
                    [t] => {
                        let s = TransformedPrimitive::new(l, t.get());
                        env::lib(|| list.borrow_mut().add_primitive(s))
                    }
                    _ => env::lib(|| list.borrow_mut().add_primitive(l)),
                }
            }
            _ => {
                let d = self.object(it);
                env::lib(|| list.borrow_mut().add_primitive(d))
            }
        };
        if r.is_ok() {
            self.model[k].push(it.clone());
        }
        r
    }
}
impl Drop for World {
    fn drop(&mut self) {
        reset_targets(vec![]);
    }
}
fn shifted(f: &[f64], j: i64) -> Vec<f64> {
    f.iter().map(|x| x + j as f64 * 0.375).collect()
}

// ------------------------------------------------------------------ generation
pub fn gen_point(rng: &mut Rng, s: f64) -> V3 {
    [rng.uni(-s, s), rng.uni(-s, s), rng.uni(-s, s)]
}
pub fn gen_tr(rng: &mut Rng) -> Vec<f64> {
    let mut f = vec![];
    for _ in 0..2 {
        let kind = rng.range(0, 4);
        let v = match kind {
            0 => gen_point(rng, 4.0),
            1 => {
                let k = rng.below(3);
                std::array::from_fn(|_| match k {
                    0 => rng.logu(0.3, 3.0),
                    1 => rng.sign() * rng.logu(0.3, 3.0),
                    _ => *rng.pick(&[1.0, -1.0, 2.0, 0.5]),
                })
            }
            2 | 3 if rng.chance(35) => {
                let k = rng.us(3);
                std::array::from_fn(|i| if i == k { 1.0 } else { 0.0 })
            }
            _ => gen_point(rng, 1.0),
        };
        let ang = if rng.chance(30) { *rng.pick(&[0.0, std::f64::consts::FRAC_PI_2, std::f64::consts::PI, -std::f64::consts::FRAC_PI_2]) } else if rng.chance(12) { rng.sign() * rng.logu(1e-7, 1e-2) } else { rng.uni(-4.0, 4.0) };
        f.extend([kind as f64, v[0], v[1], v[2], ang]);
    }
    f
}
pub fn gen_leaf(rng: &mut Rng, kind: i64) -> Vec<f64> {
    let mut f = match kind.rem_euclid(4) {
        0 => {
            let t0 = match rng.below(6) {
                0 => -1.0,
                1 | 2 => *rng.pick(&[0.0, 0.5, 1.0, 2.0, 3.0, 5.0]),
                3 if rng.chance(25) => *rng.pick(&[1e-42, 1e-36, 1e-12, 1e-6, 1e6, 1e12, 1e31, 3.4028234663852886e38]) * rng.uni(0.5, 1.0),
                _ => rng.uni(0.0, 8.0),
            };
            let (p, n) = (gen_point(rng, 5.0), gen_point(rng, 1.0));
            vec![t0, p[0], p[1], p[2], n[0], n[1], n[2], rng.f01(), rng.f01()]
        }
        1 => {
            let r = rng.logu(0.5, 4.0);
            let (z0, z1) = if rng.chance(50) { (-r, r) } else { (rng.uni(-r, r), rng.uni(-r, r)) };
            vec![r, z0, z1, if rng.chance(60) { 3.1415927 } else { rng.uni(-2.5, 3.14) }]
        }
        2 => {
            let (a, d) = (gen_point(rng, 3.0), [rng.logu(0.2, 4.0), rng.logu(0.2, 4.0), rng.logu(0.2, 4.0)]);
            vec![a[0], a[1], a[2], a[0] + d[0], a[1] + d[1], a[2] + d[2]]
        }
        _ => {
            let mut f = vec![];
            for _ in 0..3 {
                f.extend(gen_point(rng, 4.0));
            }
            f
        }
    };
    f.resize(10, 0.0);
    f
}
/// (integers, numbers) of an "add" step
pub fn gen_add(rng: &mut Rng, lists: i64, plates: bool) -> (Vec<i64>, Vec<f64>) {
    let leaf = if plates { 0 } else { rng.range(0, 3) };
    let kind = rng.range(0, 7);
    let ntr = *rng.pick(&[0i64, 0, 0, 1, 1, 2]);
    let mut f = gen_leaf(rng, leaf);
    for _ in 0..ntr {
        f.extend(gen_tr(rng));
    }
    (vec![rng.range(0, lists - 1), kind, ntr, leaf, rng.range(0, 9), rng.range(0, 9)], f)
}
pub fn gen_ray(rng: &mut Rng) -> Vec<f64> {
    let o = match rng.below(4) {
        0 => gen_point(rng, 1.5),
        _ => mul3(unit3(add3(gen_point(rng, 1.0), [1e-3, 0.0, 0.0])), rng.uni(4.0, 20.0)),
    };
    let target = gen_point(rng, 3.0);
    let mut d = sub3(target, o);
    let k = match rng.below(3) {
        0 => 1.0 / len3(d).max(1e-3),
        1 => 1.0,
        _ => rng.logu(0.05, 20.0),
    };
    d = mul3(d, k);
    let mut o = o;
    if rng.chance(12) {
        let j = rng.us(3);
        d[j] = 0.0;
        if rng.chance(50) {
            d[(j + 1) % 3] = if rng.chance(30) { -0.0 } else { 0.0 };
        }
    }
    if rng.chance(10) {
        o = o.map(f64::round);
        d = d.map(|x| (x * 2.0).round() * 0.5);
    }
    if len3(d) < 1e-3 {
        d = [0.0, 0.0, 1.0];
    }
    let tmax = match rng.below(6) {
        0 | 1 => f32::MAX as f64,
        2 => *rng.pick(&[0.0, 0.5, 1.0, 2.0, 3.0, 5.0]),
        3 => rng.logu(1e-3, 1e3),
        _ => rng.uni(0.0, 10.0),
    };
    vec![o[0], o[1], o[2], d[0], d[1], d[2], tmax]
}
pub fn highest() -> f64 {
    un(<Float as scarlet::math::scalar::Scalar>::highest())
}

// ------------------------------------------------------------------ recorder around any object
#[derive(Default)]
pub struct Tapes(pub RefCell<Vec<(RaySpec, Ans, bool)>>);
/// Records what an object is asked and what it answers.
pub struct Tap {
    pub inner: Dyn,
    pub tapes: Rc<Tapes>,
}
impl Tap {
    fn note(&self, ray: &Rayf, a: Ans, occ: bool) {
        env::outside(|| self.tapes.0.borrow_mut().push((RaySpec::of(ray), a, occ)));
    }
}
impl IntersectsRay for Tap {
    fn do_intersect(&self, ray: Rayf) -> bool {
        let b = self.inner.do_intersect(ray);
        self.note(&ray, None, b);
        b
    }
    fn intersect(&self, ray: Rayf) -> Ans {
        let a = self.inner.intersect(ray);
        self.note(&ray, a, false);
        a
    }
}
impl Bounded3 for Tap {
    fn bbox(&self) -> Bbox3 {
        self.inner.bbox()
    }
}
impl Primitive for Tap {}
pub fn wrap_tap(tap: Tap, trs: &[Tr]) -> Dyn {
    match trs {
        [a] => Dyn(Rc::new(TransformedPrimitive::new(tap, a.get()))),
        [a, b] => Dyn(Rc::new(TransformedPrimitive::new(TransformedPrimitive::new(tap, a.get()), b.get()))),
        _ => wrap(Dyn(Rc::new(tap)), trs),
    }
}
/// Every level inside a list of its own.
pub fn wrap_list(tap: Tap, trs: &[Tr]) -> Dyn {
    let mut l = PrimitiveList::new();
    l.add_primitive(tap);
    let mut d = Dyn(Rc::new(l));
    for t in trs {
        let mut l = PrimitiveList::new();
        l.add_primitive(TransformedPrimitive::new(d, t.get()));
        d = Dyn(Rc::new(l));
    }
    d
}

// ------------------------------------------------------------------ crowds
/// Many members in one list, or many levels of lists and placements.
pub struct Crowd {
    pub root: PrimitiveList,
    /// member, and the sum of the (whole-number) moves above it
    pub members: Vec<(Leaf, V3)>,
}
/// i = [list, shape, members or levels, pattern, seed, pick]
pub fn gen_crowd(rng: &mut Rng) -> (Vec<i64>, Vec<f64>) {
    let shape = rng.range(0, 5);
    let n = match rng.below(100) {
        0 if shape < 2 => rng.range(65_500, 66_500),
        0..=8 => rng.range(500, 1100),
        9..=50 => rng.range(250, 270),
        51..=65 => rng.range(1020, 1030) / 2,
        _ => rng.range(17, 140),
    };
    let mut f = gen_ray(rng);
    if rng.chance(60) {
        f[6] = f32::MAX as f64;
    }
    (vec![0, shape, n, rng.range(0, 5), rng.range(0, 1 << 30), rng.range(0, 1 << 30)], f)
}
fn crowd_leaf(seed: &mut Rng, j: usize, n: usize, pattern: i64, pick: usize, sphere: bool) -> Leaf {
    if sphere {
        // one inside the other, most of them open
        let r = 1.0 + ((j * 7 + pick) % n) as f64 / 64.0;
        let z1 = if seed.chance(30) { r * 0.5 } else { r };
        return Leaf::Sphere { r, z0: -r, z1: z1 as f32 as f64, phi: 3.1415927 };
    }
    let it = j == pick;
    let t0 = match pattern {
        0 => it.then_some(2.5),
        1 => Some(if it { 0.75 } else { seed.range(4, 4000) as f64 * 0.25 }),
        2 => Some((n - j) as f64 * 0.5),
        3 => Some((j + 1) as f64 * 0.5),
        4 => if it { Some(1.5) } else { seed.chance(50).then_some(6.0) },
        _ => seed.chance(3).then(|| seed.range(1, 64) as f64 * 0.125),
    };
    let p: V3 = std::array::from_fn(|_| seed.range(-300, 300) as f64);
    let h: V3 = std::array::from_fn(|_| seed.range(0, 20) as f64);
    let far = if it { 1000.0 } else { 1.0 };
    let p = mul3(p, far);
    Leaf::Plate(Plate { id: j as u32, t0, along: false, p, n: [0.0, 0.0, 1.0], u: [1.0, 0.0, 0.0], v: [0.0, 1.0, 0.0], uv: [j as f64, pattern as f64], bmin: sub3(p, h), bmax: add3(p, h) })
}
impl Crowd {
    pub fn build(t: &Step) -> Crowd {
        let (shape, n, pattern) = (t.int(1).rem_euclid(6), t.int(2).clamp(1, 70_000) as usize, t.int(3).rem_euclid(6));
        let deep = shape >= 2 && shape < 5;
        let n = if deep { n.min(1100) } else { n };
        let pick = t.idx(5, n);
        let mut rng = Rng::new(t.int(4) as u64 ^ 0x5ca1ab1e);
        let mut members: Vec<(Leaf, V3)> = (0..n).map(|j| (crowd_leaf(&mut rng, j, n, pattern, pick, shape == 5), [0.0; 3])).collect();
        let mut root = PrimitiveList::new();
        if !deep {
            for (l, _) in &members {
                match l {
                    Leaf::Plate(p) => root.add_primitive(SimMember { plate: p.clone(), rec: None, life: None }),
                    l => root.add_primitive(Dyn(l.build())),
                }
            }
            return Crowd { root, members };
        }
        // level 0 is the innermost
        for j in 0..n {
            let before = shape == 3 && j % 2 == 0;
            let m = Dyn(members[j].0.build());
            let mut l = PrimitiveList::new();
            if before {
                l.add_primitive(m.clone());
            }
            if j > 0 {
                if shape == 2 || j % 3 != 0 {
                    l.add_primitive(root);
                } else {
                    let mv: V3 = std::array::from_fn(|_| rng.range(-3, 3) as f64);
                    let (e, ei) = elem(0, mv, 0.0);
                    l.add_primitive(TransformedPrimitive::new(root, Tr { m: e, inv: ei }.get()));
                    for x in &mut members[..j] {
                        x.1 = add3(x.1, mv);
                    }
                }
            }
            if !before {
                l.add_primitive(m);
            }
            root = l;
        }
        if shape == 4 {
            // placements only, one inside the other
            let mut d = Dyn(Rc::new(root));
            for _ in 0..n / 2 {
                let mv: V3 = std::array::from_fn(|_| rng.range(-3, 3) as f64);
                let (e, ei) = elem(0, mv, 0.0);
                d = Dyn(Rc::new(TransformedPrimitive::new(d, Tr { m: e, inv: ei }.get())));
                for x in &mut members {
                    x.1 = add3(x.1, mv);
                }
            }
            root = PrimitiveList::new();
            root.add_primitive(d);
        }
        Crowd { root, members }
    }
}
