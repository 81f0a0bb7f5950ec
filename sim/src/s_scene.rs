//! C06, C07, C08, C09: histories of building and querying scenes.

use crate::env::{self, Fail, Policy};
use crate::fpu;
use crate::plan::{Plan, Step, Violation};
use crate::prng::{mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::s_interval::fail_to_violation;
use crate::scene::*;
use crate::simf::{bits, fcall, un};
use crate::viol;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay};
use scarlet::math::transform::Invertible;
use std::rc::Rc;

const EPS: f64 = 1.1920928955078125e-7;

// ------------------------------------------------------------------ shared
/// Builds of every chain of every list, renewed when something is added.
struct Twins {
    t: Vec<Option<Vec<(Chain, Dyn)>>>,
}
impl Twins {
    fn new(n: usize) -> Twins {
        Twins { t: (0..n).map(|_| None).collect() }
    }
    fn clear(&mut self) {
        for x in &mut self.t {
            *x = None;
        }
    }
    fn get(&mut self, w: &World, k: usize) -> &Vec<(Chain, Dyn)> {
        if self.t[k].is_none() {
            self.t[k] = Some(w.chains(k).into_iter().map(|c| (c.clone(), c.build())).collect());
        }
        self.t[k].as_ref().unwrap()
    }
}
fn q_intersect(o: &dyn IntersectsRay, r: &RaySpec) -> Result<Ans, Violation> {
    let ray = r.get();
    env::quiet(|| fcall(true, || o.intersect(ray))).map_err(|f| fail_to_violation(f, "intersect"))
}
fn q_occluded(o: &dyn IntersectsRay, r: &RaySpec) -> Result<bool, Violation> {
    let ray = r.get();
    env::quiet(|| fcall(true, || o.do_intersect(ray))).map_err(|f| fail_to_violation(f, "do_intersect"))
}
fn q_bbox(o: &dyn Bounded3) -> Result<(V3, V3), Violation> {
    env::quiet(|| fcall(true, || o.bbox())).map(|b| box_of(&b)).map_err(|f| fail_to_violation(f, "bbox"))
}
/// the six limits of an object, asked one by one
fn q_limits(o: &dyn Bounded3) -> Result<[f64; 6], Violation> {
    env::quiet(|| fcall(true, || [o.xmin(), o.ymin(), o.zmin(), o.xmax(), o.ymax(), o.zmax()].map(un))).map_err(|f| fail_to_violation(f, "limits"))
}
fn t_of(a: &Ans) -> Option<f64> {
    a.as_ref().map(|r| un(r.t_ray))
}

fn setup(plan: &Plan) -> World {
    let k = plan.knob(0);
    if k < 4 {
        env::set_uniform(fpu::MODES[k as usize & 3]);
    }
    World::new(1 + (plan.knob(1).unsigned_abs() % 4) as usize)
}
/// plates answer to every ray, so their box has to be everywhere
fn widen(it: &mut Item) {
    let f = |l: &mut Leaf| {
        if let Leaf::Plate(p) = l {
            p.bmin = [-1e6; 3];
            p.bmax = [1e6; 3];
        }
    };
    match &mut it.base {
        Base::Leaf(l) => f(l),
        Base::Own(ls) => ls.iter_mut().for_each(f),
        Base::List(_) => {}
    }
}
fn fix_points(it: &mut Item) {
    let f = |l: &mut Leaf| {
        if let Leaf::Plate(p) = l {
            p.along = false;
        }
    };
    match &mut it.base {
        Base::Leaf(l) => f(l),
        Base::Own(ls) => ls.iter_mut().for_each(f),
        Base::List(_) => {}
    }
}
const MAX_CHAINS: usize = 60;
fn do_add(w: &mut World, tw: &mut Twins, t: &Step, run: &mut Run, tweak: fn(&mut Item)) -> Result<(), Violation> {
    if let Some((k, mut it)) = w.item(t) {
        tweak(&mut it);
        if let Base::List(j) = it.base {
            let total: usize = (0..w.lists.len()).map(|i| w.chains(i).len()).sum();
            if total + w.chains(j).len() > MAX_CHAINS {
                return Ok(());
            }
            run.probe("nested_list");
        }
        if it.trs.len() > 1 {
            run.probe("nested_transform");
        }
        run.note(mix(k as u64, t.int(1) as u64 * 8 + it.trs.len() as u64));
        match w.add(k, &it) {
            Ok(()) => {}
            Err(Fail::Injected(_)) => run.probe("add_cut_short"),
            Err(f) => return Err(fail_to_violation(f, "add_primitive")),
        }
        tw.clear();
    }
    Ok(())
}
fn gen_scene(rng: &mut Rng, n: (i64, i64), plates: bool, pol: Policy, uniform: bool) -> Plan {
    let lists = rng.range(0, 3);
    let mode = if uniform { rng.range(0, 3) } else { 4 };
    let mut p = Plan { knobs: vec![mode, lists], policy: Some(pol), ..Plan::default() };
    let steps = rng.range(n.0, n.1);
    let pq = *rng.pick(&[30, 50, 70]);
    let mut asked: Vec<(i64, Vec<f64>)> = vec![];
    for k in 0..steps {
        if k == 0 || !rng.chance(pq) {
            let (i, f) = gen_add(rng, lists + 1, plates);
            p.push("add", i, f);
        } else {
            let (mut l, mut f) = (rng.range(0, lists), gen_ray(rng));
            if !asked.is_empty() && rng.chance(30) {
                // the same ray again, possibly with another extent
                let (j, g) = rng.pick(&asked);
                let tmax = f[6];
                (l, f) = (*j, g.clone());
                if rng.chance(40) {
                    f[6] = tmax;
                }
            }
            asked.push((l, f.clone()));
            p.push("ask", vec![l, rng.range(0, 9), rng.range(0, 99)], f);
        }
    }
    p
}

/// One crowd: built, asked, and judged member by member. `what`: 0 nearest, 1 occlusion, 2 box.
fn crowd(t: &Step, what: u8, run: &mut Run) -> Result<(), Violation> {
    let c = match env::lib(|| Crowd::build(t)) {
        Ok(c) => c,
        Err(Fail::Injected(_)) => {
            run.probe("add_cut_short");
            return Ok(());
        }
        // slow building is not what this is about
        Err(Fail::Budget) => return Ok(()),
        Err(f) => return Err(fail_to_violation(f, "building a crowd")),
    };
    run.probe(match c.members.len() {
        0..=255 => "crowd",
        256..=65535 => "crowd_256",
        _ => "crowd_65536",
    });
    let shape = ["flat", "flat", "nested lists", "nested lists and placements", "nested placements", "spheres"][t.int(1).rem_euclid(6) as usize];
    let (r, n) = (RaySpec::from_step(t, 0), c.members.len());
    run.note(mix(t.int(1) as u64, n as u64 * 8 + t.int(3) as u64));
    // part of the history, with faults; then in peace
    let _ = match what {
        0 => fcall(true, || c.root.intersect(r.get()).is_some()),
        1 => fcall(true, || c.root.do_intersect(r.get())),
        _ => fcall(true, || box_empty(&box_of(&c.root.bbox()))),
    };
    NESTED.with_borrow_mut(|x| x.clear());
    if what == 2 {
        let got = q_bbox(&c.root)?;
        let mut want = EMPTY;
        for (l, mv) in &c.members {
            let b = match l {
                Leaf::Plate(p) => (add3(p.bmin, *mv), add3(p.bmax, *mv)),
                l => q_bbox(&Dyn(l.build()))?,
            };
            want = union(&want, &b);
        }
        run.check();
        if !same_box(&got, &want) {
            return Err(viol!("crowd/box", "the box of {n} members ({shape}) is {got:?}, they need {want:?}"));
        }
        return Ok(());
    }
    let mut best: Option<(f64, Vec<usize>)> = None;
    for (j, (l, _)) in c.members.iter().enumerate() {
        let t = match l {
            Leaf::Plate(p) => p.t0.filter(|t| *t <= r.tmax),
            l => t_of(&q_intersect(&Dyn(l.build()), &r)?),
        };
        let Some(t) = t else { continue };
        if t.is_nan() {
            return Ok(());
        }
        match &mut best {
            Some((b, js)) if t == *b => js.push(j),
            Some((b, _)) if t > *b => {}
            _ => best = Some((t, vec![j])),
        }
    }
    run.check();
    if what == 1 {
        let occ = q_occluded(&c.root, &r)?;
        if occ != best.is_some() {
            return Err(viol!("crowd/occlusion", "{n} members ({shape}): occlusion query says {occ} for {}, the nearest member answers {best:?}", r.show()));
        }
    }
    let a = q_intersect(&c.root, &r)?;
    run.event(t_of(&a).map_or(0, f64::to_bits));
    let ok = match (&best, &a) {
        (None, None) => true,
        (Some((b, js)), Some(x)) => {
            let id = un(x.surface_interaction.uv.x());
            un(x.t_ray) == *b && (t.int(1).rem_euclid(6) == 5 || js.iter().any(|j| *j as f64 == id))
        }
        _ => false,
    };
    if !ok {
        return Err(viol!("crowd/nearest", "{n} members ({shape}): {} for {}, the nearest member answers {best:?}", show_ans(&a), r.show()));
    }
    Ok(())
}

fn gen_crowds(rng: &mut Rng, pol: Policy) -> Plan {
    let mut p = Plan { knobs: vec![rng.range(0, 3), 0], policy: Some(pol), ..Plan::default() };
    let (i, f) = gen_crowd(rng);
    p.push("crowd", i, f);
    p
}
// ------------------------------------------------------------------ C06
pub struct C06;
/// The expected answer of a list, and whether `a` is one.
fn judge_nearest(w: &World, tw: &mut Twins, k: usize, r: &RaySpec, a: &Ans, run: &mut Run, how: &str) -> Result<(), Violation> {
    let chains = tw.get(w, k);
    let mut best: Option<f64> = None;
    let mut answers = vec![];
    for (c, d) in chains {
        let x = q_intersect(d, r)?;
        // an independent answer where there is one
        if let Leaf::Plate(p) = &c.leaf {
            let want = p.t0.filter(|t| *t >= 0.0 && *t <= r.tmax);
            if t_of(&x) != want {
                return Err(viol!("member-answer", "{how}: a member that answers {want:?} under {} transforms reports {} for {}", c.trs.len(), show_ans(&x), r.show()));
            }
        }
        if let Some(t) = t_of(&x) {
            if t.is_nan() {
                run.probe("undefined_distance");
                return Ok(());
            }
            best = Some(best.map_or(t, |b| b.min(t)));
        }
        answers.push(x);
    }
    run.check();
    run.note(answers.iter().filter(|x| x.is_some()).count() as u64);
    let ok = match (best, a) {
        (None, None) => true,
        (Some(b), Some(x)) => {
            let bits = ans_bits(x);
            un(x.t_ray) == b && answers.iter().flatten().any(|y| un(y.t_ray) == b && ans_bits(y) == bits)
        }
        _ => false,
    };
    if answers.iter().flatten().filter(|y| Some(un(y.t_ray)) == best).count() > 1 {
        run.probe("tie");
    }
    if !ok {
        let kind = match (best, a) {
            (None, Some(_)) => "phantom",
            (Some(_), None) => "missed",
            (Some(b), Some(x)) if un(x.t_ray) != b => "not-nearest",
            _ => "mixed-answer",
        };
        let all: Vec<String> = answers.iter().zip(chains).map(|(x, c)| format!("{}: {}", c.0.leaf.name(), show_ans(x))).collect();
        return Err(viol!(format!("nearest/{kind}"), "{how}: list {k} answers {} for {}; members: [{}]", show_ans(a), r.show(), all.join("; ")));
    }
    Ok(())
}
fn drain_nested(w: &World, tw: &mut Twins, run: &mut Run) -> Result<(), Violation> {
    let log = NESTED.with_borrow_mut(std::mem::take);
    for (k, r, kind, a, occ) in log {
        run.probe("nested_query");
        if kind == 0 {
            judge_nearest(w, tw, k, &r, &a, run, "query issued by a member")?;
        } else {
            judge_occluded(w, tw, k, &r, occ, run, "query issued by a member")?;
        }
    }
    Ok(())
}
fn judge_occluded(w: &World, tw: &mut Twins, k: usize, r: &RaySpec, occ: bool, run: &mut Run, how: &str) -> Result<(), Violation> {
    let mut any = false;
    for (_, d) in tw.get(w, k) {
        let x = q_intersect(d, r)?;
        if t_of(&x).is_some_and(f64::is_nan) {
            return Ok(());
        }
        any |= x.is_some();
    }
    run.check();
    if any != occ {
        return Err(viol!("occlusion", "{how}: list {k} says {occ} for {}, its members say {any}", r.show()));
    }
    Ok(())
}
impl Scenario for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_000_000,
            Tier::Thorough => 60_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let pol = Policy { crash_fp: *rng.pick(&[0, 0, 100]), crash_member: *rng.pick(&[0, 0, 150, 400]), reenter: *rng.pick(&[0, 0, 100, 400]), ..Policy::default() };
        let plates = rng.chance(40);
        if rng.below(250) == 0 {
            return gen_crowds(rng, pol);
        }
        gen_scene(rng, (3, 24), plates, pol, true)
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        let mut w = setup(plan);
        let mut tw = Twins::new(w.lists.len());
        let mut cut = false;
        for t in &plan.steps {
            env::begin(t.id);
            if t.op == "add" {
                do_add(&mut w, &mut tw, t, run, widen)?;
                continue;
            }
            if t.op == "crowd" {
                crowd(t, 0, run)?;
                continue;
            }
            let k = t.idx(0, w.lists.len());
            let r = RaySpec::from_step(t, 0);
            let list = w.lists[k].clone();
            let res = fcall(true, || list.borrow().intersect(r.get()));
            match res {
                Ok(a) => {
                    run.event(a.as_ref().map_or(0, |x| ans_bits(x).iter().fold(1, |h, b| mix(h, *b as u64))));
                    if cut {
                        run.probe("query_after_cut");
                    }
                    drain_nested(&w, &mut tw, run)?;
                    judge_nearest(&w, &mut tw, k, &r, &a, run, "query")?;
                }
                Err(Fail::Injected(_)) => {
                    run.probe("cut_short");
                    cut = true;
                    drain_nested(&w, &mut tw, run)?;
                }
                Err(f) => return Err(fail_to_violation(f, "intersect")),
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run is a history of additions (shapes, caller-supplied members, shared and owned lists, up to three nested transforms) and nearest-hit queries on up to four lists, in one rounding direction; members panic, computations are aborted, members query lists while being queried; non-trivial if at least one answer was judged; distinct by composition, number of members hit, and position of every fault"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of the sequence of operations, list shapes, members hit per query and the (step, kind, position) of every fault"
    }
    fn real(&self) -> &'static [&'static str] {
        &["PrimitiveList", "TransformedPrimitive", "Sphere", "Bbox3", "Transform", "Ray"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["caller-supplied members (plates with a fixed answer, triangles computed in double precision)"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["tie", "nested_list", "nested_transform", "cut_short", "query_after_cut", "nested_query"]
    }
}

// ------------------------------------------------------------------ C07
pub struct C07;
fn agree(o: &dyn IntersectsRay, r: &RaySpec, run: &mut Run, what: &str) -> Result<Ans, Violation> {
    let a = q_intersect(o, r)?;
    if t_of(&a).is_some_and(f64::is_nan) {
        return Ok(a);
    }
    let occ = q_occluded(o, r)?;
    run.check();
    if occ != a.is_some() {
        return Err(viol!(format!("agree/{what}"), "{what}: occlusion query says {occ}, nearest-hit query {} for {}", show_ans(&a), r.show()));
    }
    if let Some(t) = t_of(&a) {
        if !(t >= 0.0 && t <= r.tmax) {
            return Err(viol!(format!("range/{what}"), "{what}: {} outside the extent for {}", show_ans(&a), r.show()));
        }
    }
    Ok(a)
}
fn extents(o: &dyn IntersectsRay, r: &RaySpec, a: &Ans, run: &mut Run, what: &str, pick: u64) -> Result<(), Violation> {
    match t_of(a) {
        Some(t) if t.is_nan() => run.probe("undefined_distance"),
        Some(t) => {
            run.probe("hit");
            let same = [t, fpu::up32(t as f32) as f64, 2.0 * t, t + (r.tmax.min(1e6) - t) * 0.5, highest(), f64::INFINITY];
            for e in [same[0], same[1 + pick as usize % 5]] {
                if !(e >= t) {
                    continue;
                }
                let e = e as f32 as f64;
                let b = agree(o, &r.with(e), run, what)?;
                if t_of(&b) != Some(t) {
                    return Err(viol!(format!("extent-same/{what}"), "{what}: hit at {t:e} for {}, but {} with extent {e:e}", r.show(), show_ans(&b)));
                }
            }
            let short = [-fpu::up32(-t as f32) as f64, t * 0.5, 0.0, t * 0.999];
            for e in [short[0], short[pick as usize / 8 % 4]] {
                let e = e as f32 as f64;
                if !(e >= 0.0 && e < t) {
                    continue;
                }
                let b = agree(o, &r.with(e), run, what)?;
                if t_of(&b).is_some_and(|x| x >= t) {
                    return Err(viol!(format!("extent-short/{what}"), "{what}: hit at {t:e} for {}, and {} with extent {e:e}", r.show(), show_ans(&b)));
                }
            }
        }
        None => {
            run.probe("miss");
            let e = (r.tmax.min(1e9) * [0.5, 0.9, 0.0, 0.01][pick as usize % 4]) as f32 as f64;
            let b = agree(o, &r.with(e), run, what)?;
            if b.is_some() {
                return Err(viol!(format!("extent-short/{what}"), "{what}: no hit for {}, but {} with extent {e:e}", r.show(), show_ans(&b)));
            }
            let b = agree(o, &r.with(highest()), run, what)?;
            if t_of(&b).is_some_and(|x| x <= r.tmax) {
                return Err(viol!(format!("extent-same/{what}"), "{what}: no hit for {}, but {} with the largest extent", r.show(), show_ans(&b)));
            }
        }
    }
    Ok(())
}
impl Scenario for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_500_000,
            Tier::Thorough => 80_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let pol = Policy { crash_fp: *rng.pick(&[0, 0, 100]), crash_member: *rng.pick(&[0, 0, 150, 400]), reenter: *rng.pick(&[0, 0, 0, 200]), ..Policy::default() };
        let plates = rng.chance(25);
        if rng.below(300) == 0 {
            return gen_crowds(rng, pol);
        }
        gen_scene(rng, (2, 14), plates, pol, true)
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        let mut w = setup(plan);
        let mut tw = Twins::new(w.lists.len());
        for t in &plan.steps {
            env::begin(t.id);
            if t.op == "add" {
                do_add(&mut w, &mut tw, t, run, widen)?;
                continue;
            }
            if t.op == "crowd" {
                crowd(t, 1, run)?;
                continue;
            }
            let k = t.idx(0, w.lists.len());
            let r = RaySpec::from_step(t, 0);
            let list = w.lists[k].clone();
            // as part of the history, with faults
            let res = if t.int(1) % 2 == 0 {
                fcall(true, || (Some(list.borrow().intersect(r.get())), false))
            } else {
                fcall(true, || (None, list.borrow().do_intersect(r.get())))
            };
            let got = match res {
                Ok(x) => Some(x),
                Err(Fail::Injected(_)) => {
                    run.probe("cut_short");
                    None
                }
                Err(f) => return Err(fail_to_violation(f, "query")),
            };
            drain_nested(&w, &mut tw, run)?;
            let a = agree(&*list.borrow(), &r, run, "list")?;
            run.note(a.is_some() as u64 | (k as u64) << 1);
            run.event(t_of(&a).map_or(0, f64::to_bits));
            if let Some((x, occ)) = got {
                match x {
                    Some(x) if t_of(&x).map(f64::to_bits) != t_of(&a).map(f64::to_bits) => {
                        return Err(viol!("history", "list: {} and then {} for {}", show_ans(&x), show_ans(&a), r.show()));
                    }
                    None if occ != a.is_some() && !t_of(&a).is_some_and(f64::is_nan) => {
                        return Err(viol!("agree/list", "list: occlusion query says {occ}, nearest-hit query {} for {}", show_ans(&a), r.show()));
                    }
                    _ => {}
                }
            }
            // undefined distances inside a list make its answer undefined
            let twins = tw.get(&w, k);
            let mut undefined = false;
            for (_, d) in twins {
                undefined |= t_of(&q_intersect(d, &r.with(highest()))?).is_some_and(f64::is_nan);
            }
            if !undefined {
                extents(&*list.borrow(), &r, &a, run, "list", t.int(2) as u64)?;
            }
            if !twins.is_empty() {
                let (c, d) = &twins[t.idx(2, twins.len())];
                let what = if c.trs.is_empty() { c.leaf.name() } else { "transformed" };
                let b = agree(d, &r, run, what)?;
                extents(d, &r, &b, run, what, t.int(2) as u64 / 3)?;
                if let Leaf::Plate(p) = &c.leaf {
                    let want = p.t0.filter(|t| *t >= 0.0 && *t <= r.tmax);
                    if t_of(&b) != want {
                        return Err(viol!("member-answer", "a member that answers {want:?} under {} transforms reports {} for {}", c.trs.len(), show_ans(&b), r.show()));
                    }
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run is a history of additions and queries as in C06; after every query both query kinds are compared on the list and on one of its members, for the given extent and for extents at, just above, above, just below and below the reported distance; non-trivial if at least one pair was compared; distinct by composition, outcomes and fault positions"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of the sequence of operations, list shapes, outcomes and the (step, kind, position) of every fault"
    }
    fn real(&self) -> &'static [&'static str] {
        &["PrimitiveList", "TransformedPrimitive", "Sphere", "Bbox3", "Transform", "Ray"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["caller-supplied members (plates with a fixed answer, triangles computed in double precision)"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["hit", "miss", "cut_short", "nested_list", "nested_transform"]
    }
}

// ------------------------------------------------------------------ C08
pub struct C08;
fn norm_rows(m: &crate::s_igeom::M4) -> f64 {
    (0..3).map(|i| (0..3).map(|j| m[i][j].abs()).sum::<f64>()).fold(0.0, f64::max)
}
/// How far a reported point may be off, per coordinate, and the frame's box.
fn point_tol(c: &Chain, r: &RaySpec, a: &Ans) -> f64 {
    // the ray in object coordinates
    let (mut o, mut d) = (r.o, r.d);
    let mut big: f64 = 1.0;
    for t in c.trs.iter().rev() {
        o = mpt(&mabs(&t.inv), abs3(o));
        d = mvec(&mabs(&t.inv), abs3(d));
        big = big.max(len3(o));
    }
    let t = t_of(a).unwrap_or(0.0);
    let reach = len3(o) + t * len3(d);
    let mut tol = match &c.leaf {
        Leaf::Plate(p) => 4.0 * EPS * (len3(p.p) + 1.0),
        Leaf::Sphere { r, .. } => 64.0 * EPS * ((len3(o) * len3(o) + r * r) / r + reach),
        _ => 32.0 * EPS * (reach + big),
    };
    let mut p = match a {
        Some(_) => reach,
        None => 0.0,
    };
    for t in &c.trs {
        let n = norm_rows(&t.m);
        let tr = (0..3).map(|i| t.m[i][3].abs()).fold(0.0, f64::max);
        p = n * p + tr;
        tol = n * tol + 32.0 * EPS * p;
    }
    tol
}
fn outside_by(b: &(V3, V3), p: V3) -> f64 {
    (0..3).map(|i| (b.0[i] - p[i]).max(p[i] - b.1[i])).fold(f64::NEG_INFINITY, f64::max)
}
fn corners(b: &(V3, V3)) -> Vec<V3> {
    (0..8).map(|k| std::array::from_fn(|i| if k >> i & 1 == 0 { b.0[i] } else { b.1[i] })).collect()
}
fn same_box(a: &(V3, V3), b: &(V3, V3)) -> bool {
    box_empty(a) && box_empty(b) || a == b
}
fn union(a: &(V3, V3), b: &(V3, V3)) -> (V3, V3) {
    if box_empty(a) {
        return *b;
    }
    if box_empty(b) {
        return *a;
    }
    (std::array::from_fn(|i| a.0[i].min(b.0[i])), std::array::from_fn(|i| a.1[i].max(b.1[i])))
}
const EMPTY: (V3, V3) = ([f32::MAX as f64; 3], [f32::MIN as f64; 3]);
/// Is `b` the image of `a` under `tr`, up to rounding?
fn judge_map(tr: &Tr, a: &(V3, V3), b: &(V3, V3), run: &mut Run, what: &str) -> Result<(), Violation> {
    run.check();
    if box_empty(a) {
        run.probe("empty_mapped");
        return if box_empty(b) { Ok(()) } else { Err(viol!("map-empty", "{what}: the image of an empty box is {b:?}")) };
    }
    let cs = corners(a);
    for i in 0..3 {
        let v: Vec<f64> = cs.iter().map(|c| mpt(&tr.m, *c)[i]).collect();
        let mag = cs.iter().map(|c| mpt(&mabs(&tr.m), abs3(*c))[i]).fold(0.0, f64::max);
        if !(mag < 1e37) {
            continue;
        }
        let tol = 16.0 * EPS * mag + 1e-30;
        let (lo, hi) = (v.iter().copied().fold(f64::INFINITY, f64::min), v.iter().copied().fold(f64::NEG_INFINITY, f64::max));
        if !(b.0[i] <= lo + tol && b.1[i] >= hi - tol) {
            return Err(viol!("map-loses", "{what}: image of {a:?} under {:?} is {b:?}; axis {i} needs [{lo:e}, {hi:e}]", tr.m));
        }
        if !(b.0[i] >= lo - tol && b.1[i] <= hi + tol) {
            return Err(viol!("map-loose", "{what}: image of {a:?} under {:?} is {b:?}; axis {i} needs only [{lo:e}, {hi:e}]", tr.m));
        }
    }
    Ok(())
}
impl Scenario for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2_500_000,
            Tier::Thorough => 80_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let uniform = rng.chance(70);
        let pol = Policy {
            round: if uniform { 0 } else { *rng.pick(&[100, 500, 1000]) },
            modes: 7,
            crash_fp: *rng.pick(&[0, 0, 100]),
            crash_member: *rng.pick(&[0, 0, 200]),
            ..Policy::default()
        };
        if uniform && rng.below(250) == 0 {
            return gen_crowds(rng, pol);
        }
        let mut p = gen_scene(rng, (2, 16), false, pol, uniform);
        for t in &mut p.steps {
            if t.op == "add" && rng.chance(12) {
                // flat along an axis
                let all = rng.range(1, 7);
                for j in (0..3).filter(|j| all >> j & 1 == 1) {
                    match t.int(3) % 4 {
                        2 => t.f[3 + j] = t.f[j],
                        3 => (t.f[3 + j], t.f[6 + j]) = (t.f[j], t.f[j]),
                        _ => {}
                    }
                }
            }
            if t.op != "ask" {
                continue;
            }
            match rng.below(4) {
                0 => t.op = "box".into(),
                1 => {
                    t.op = "map".into();
                    let mut f = vec![];
                    let (mut a, mut b) = (gen_point(rng, 5.0), gen_point(rng, 5.0));
                    if rng.chance(30) {
                        let (j, k) = (rng.us(3), rng.logu(1.0, 1e5));
                        (a[j], b[j]) = (a[j] * k, b[j] * k);
                    }
                    let flat = if rng.chance(25) { rng.range(1, 7) } else { 0 };
                    for j in (0..3).filter(|j| flat >> j & 1 == 1) {
                        b[j] = a[j];
                    }
                    f.extend(a);
                    f.extend(b);
                    f.extend(gen_tr(rng));
                    t.f = f;
                }
                _ => {}
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        let uniform = plan.knob(0) < 4;
        let mut w = setup(plan);
        let mut tw = Twins::new(w.lists.len());
        for t in &plan.steps {
            env::begin(t.id);
            let cut = |f: Fail, run: &mut Run, what: &str| -> Result<(), Violation> {
                match f {
                    Fail::Injected(_) => {
                        run.probe("cut_short");
                        Ok(())
                    }
                    f => Err(fail_to_violation(f, what)),
                }
            };
            match t.op.as_str() {
                "add" => {
                    let k = t.idx(0, w.lists.len());
                    let before = q_bbox(&*w.lists[k].borrow())?;
                    do_add(&mut w, &mut tw, t, run, fix_points)?;
                    let after = q_bbox(&*w.lists[k].borrow())?;
                    run.check();
                    let ok = if box_empty(&before) { true } else { (0..3).all(|i| after.0[i] <= before.0[i] && after.1[i] >= before.1[i]) };
                    if uniform && !ok {
                        return Err(viol!("shrinks", "adding to list {k} changed its box from {before:?} to {after:?}"));
                    }
                }
                "crowd" => crowd(t, 2, run)?,
                "map" => {
                    let tr = Tr::from_words(t.f.get(6..16).unwrap_or(&[]));
                    let (a, b) = (r32(t.v3(0)), r32(t.v3(3)));
                    let src = match t.int(2) % 22 {
                        0 => Bbox3::default(),
                        11 => {
                            // what the intersection of separate boxes looks like
                            let (mut lo, mut hi): (V3, V3) = (std::array::from_fn(|i| a[i].min(b[i])), std::array::from_fn(|i| a[i].max(b[i])));
                            let turned = 1 + t.idx(1, 7);
                            for j in (0..3).filter(|j| turned >> j & 1 == 1) {
                                std::mem::swap(&mut lo[j], &mut hi[j]);
                            }
                            Bbox3 { pmin: mkpt(lo), pmax: mkpt(hi) }
                        }
                        _ => Bbox3::new(mkpt(a), mkpt(b)),
                    };
                    let (tf, sb) = (tr.get(), box_of(&src));
                    let empty = box_empty(&sb);
                    let res = fcall(true, || {
                        let m = tf.map(src);
                        (m, tf.map_inverse(m), tf.map_inverse(src), tf.inverse().map(m))
                    });
                    let (m, back, inv, back2) = match res {
                        Ok(x) => x,
                        Err(f) => {
                            cut(f, run, "map")?;
                            continue;
                        }
                    };
                    run.note(empty as u64 + 16);
                    let mb = box_of(&m);
                    judge_map(&tr, &sb, &mb, run, "map")?;
                    let it = Tr { m: tr.inv, inv: tr.m };
                    judge_map(&it, &sb, &box_of(&inv), run, "map_inverse")?;
                    judge_map(&it, &mb, &box_of(&back), run, "map and map_inverse")?;
                    judge_map(&it, &mb, &box_of(&back2), run, "map and inverse().map")?;
                    if !empty {
                        // nothing of the original is lost on the way there and back
                        for q in [box_of(&back), box_of(&back2)] {
                            for c in corners(&sb) {
                                let mag = mpt(&mabs(&tr.inv), mpt(&mabs(&tr.m), abs3(c)));
                                let tol = 64.0 * EPS * mag.iter().copied().fold(0.0, f64::max);
                                if outside_by(&q, c) > tol {
                                    return Err(viol!("round-trip", "corner {c:?} of {sb:?} is lost in {q:?} after mapping there and back"));
                                }
                            }
                        }
                    }
                }
                "box" => {
                    let k = t.idx(0, w.lists.len());
                    let list = w.lists[k].clone();
                    let got = match fcall(true, || list.borrow().bbox()) {
                        Ok(b) => box_of(&b),
                        Err(f) => {
                            cut(f, run, "bbox")?;
                            continue;
                        }
                    };
                    let again = q_bbox(&*list.borrow())?;
                    run.check();
                    if uniform && !same_box(&got, &again) {
                        return Err(viol!("box-history", "the box of list {k} is {got:?}, then {again:?}"));
                    }
                    let lim = q_limits(&*list.borrow())?;
                    if !same_box(&(std::array::from_fn(|i| lim[i]), std::array::from_fn(|i| lim[i + 3])), &again) || !box_empty(&again) && (lim[..3] != again.0 || lim[3..] != again.1) {
                        return Err(viol!("limits", "the box of list {k} is {again:?}, its limits {lim:?}"));
                    }
                    if let Some(it) = w.model[k].get(t.int(1).unsigned_abs() as usize % w.model[k].len().max(1)).cloned() {
                        // behind a handle of its own
                        let (b, h) = (q_bbox(&w.object(&it))?, scarlet::geometry::primitive::alloc_primitive(w.object(&it)));
                        let (hb, l) = (q_bbox(&h)?, q_limits(&h)?);
                        if !same_box(&hb, &b) || !box_empty(&b) && (l[..3] != b.0 || l[3..] != b.1) {
                            return Err(viol!("handle", "an object with the box {b:?} has {hb:?} and the limits {l:?} behind a handle"));
                        }
                        run.probe("handle");
                    }
                    // smallest box containing the boxes of the items
                    let mut want = EMPTY;
                    let items = w.model[k].clone();
                    let mut tol = 0.0f64;
                    for it in &items {
                        let b = q_bbox(&w.object(it))?;
                        if !uniform && !box_empty(&b) {
                            tol = tol.max(64.0 * EPS * b.0.iter().chain(&b.1).fold(20.0f64, |m, x| m.max(x.abs())) * 40.0);
                        }
                        want = union(&want, &b);
                    }
                    run.note(items.len() as u64 + 64);
                    let near = |a: f64, b: f64| (a - b).abs() <= tol;
                    let ok = if uniform || box_empty(&want) || box_empty(&got) { same_box(&got, &want) } else { (0..3).all(|i| near(got.0[i], want.0[i]) && near(got.1[i], want.1[i])) };
                    if !ok {
                        return Err(viol!("union", "the box of list {k} is {got:?}, its {} members need {want:?}", items.len()));
                    }
                    if box_empty(&want) {
                        run.probe("empty_list");
                        // neutral in a union
                        let other = Bbox3::new(mkpt([-1.0, 2.0, 0.5]), mkpt([3.0, 4.0, 0.75]));
                        let l = list.borrow().bbox();
                        let (x, y) = env::quiet(|| fcall(true, || (l + other, other.union(&l)))).map_err(|f| fail_to_violation(f, "union"))?;
                        if box_of(&x) != box_of(&other) || box_of(&y) != box_of(&other) {
                            return Err(viol!("empty-neutral", "an empty box joined with {other:?} gives {x:?} and {y:?}"));
                        }
                    }
                    // boxes of transformed items are images of the items' boxes
                    for it in items.iter().filter(|it| !it.trs.is_empty()).take(2) {
                        let mut inner = it.clone();
                        let last = inner.trs.pop().unwrap();
                        let (a, b) = (q_bbox(&w.object(&inner))?, q_bbox(&w.object(it))?);
                        judge_map(&last, &a, &b, run, "transformed member")?;
                        run.probe("transformed_box");
                    }
                }
                _ => {
                    let k = t.idx(0, w.lists.len());
                    let r = RaySpec::from_step(t, 0);
                    let list = w.lists[k].clone();
                    let a = match fcall(true, || list.borrow().intersect(r.get())) {
                        Ok(a) => a,
                        Err(f) => {
                            cut(f, run, "intersect")?;
                            continue;
                        }
                    };
                    // out of range, squares are lost
                    if !(r.o.iter().all(|v| v.abs() < 1e12) && (1e-12..1e12).contains(&len3(r.d))) {
                        run.probe("out_of_range");
                        continue;
                    }
                    let lb = q_bbox(&*list.borrow())?;
                    let mut worst = 0.0f64;
                    for (c, d) in tw.get(&w, k) {
                        let x = q_intersect(d, &r)?;
                        let tol = point_tol(c, &r, &x);
                        worst = worst.max(point_tol(c, &r, if x.is_some() { &x } else { &a }));
                        if let Some(x) = &x {
                            let p = pt(x.surface_interaction.p);
                            if !(un(x.t_ray) < 1e4 && p.iter().all(|v| v.is_finite())) {
                                continue;
                            }
                            let b = q_bbox(d)?;
                            run.check();
                            run.probe("hit_in_box");
                            let by = outside_by(&b, p);
                            if by > tol || by > 0.3 && r.o.iter().all(|v| v.abs() < 1e3) {
                                return Err(viol!(format!("hit-outside/{}", c.leaf.name()), "{} under {} transforms: hit point {p:?} lies {by:e} outside its box {b:?} ({})", c.leaf.name(), c.trs.len(), r.show()));
                            }
                            let by = outside_by(&lb, p);
                            if by > tol.max(1e-4) {
                                return Err(viol!("member-outside", "hit point {p:?} of a member lies {by:e} outside the list's box {lb:?}"));
                            }
                        }
                    }
                    if let Some(x) = &a {
                        let p = pt(x.surface_interaction.p);
                        if un(x.t_ray) < 1e4 && p.iter().all(|v| v.is_finite()) {
                            run.check();
                            let by = outside_by(&lb, p);
                            if by > worst {
                                return Err(viol!("list-hit-outside", "hit point {p:?} of list {k} lies {by:e} outside its box {lb:?} ({})", r.show()));
                            }
                        }
                        run.event(bits(x.t_ray) as u64);
                    }
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run is a history of additions, box queries, ray queries and box mappings on up to four lists, with rounding chosen per run or per operation and queries cut short by member panics and aborts; non-trivial if at least one box was judged; distinct by composition, operations and fault positions"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of the sequence of operations, list shapes and the (step, kind, position) of every fault"
    }
    fn real(&self) -> &'static [&'static str] {
        &["Bbox3 (union, map, map_inverse)", "PrimitiveList::bbox", "TransformedPrimitive::bbox", "Sphere::bbox", "ray queries of all shapes"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["caller-supplied members (plates with a fixed answer, triangles computed in double precision)"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["hit_in_box", "empty_mapped", "empty_list", "transformed_box", "cut_short"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["hit points are compared up to 64 ulp of (origin distance squared + r squared) / r for spheres and of the coordinates for other shapes, amplified by the transforms"]
    }
}

// ------------------------------------------------------------------ C09
pub struct C09;
struct Vb {
    v: V3,
    e: V3,
}
fn lin(m: &crate::s_igeom::M4, x: &Vb, point: bool) -> Vb {
    let v = if point { mpt(m, x.v) } else { mvec(m, x.v) };
    let ma = mabs(m);
    let mag = if point { mpt(&ma, add3(abs3(x.v), x.e)) } else { mvec(&ma, add3(abs3(x.v), x.e)) };
    let e = mvec(&ma, x.e);
    Vb { v, e: add3(e, mul3(mag, 6.0 * EPS)) }
}
fn within(got: V3, want: &Vb) -> bool {
    (0..3).all(|i| (got[i] - want.v[i]).abs() <= want.e[i] + 1e-35)
}
impl Scenario for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 3_000_000,
            Tier::Thorough => 120_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let pol = Policy {
            round: *rng.pick(&[0, 100, 500, 1000]),
            modes: 7,
            crash_fp: *rng.pick(&[0, 0, 0, 60]),
            crash_member: *rng.pick(&[0, 0, 0, 100]),
            reenter: 0,
            ..Policy::default()
        };
        let mut p = Plan { knobs: vec![4, 0], policy: Some(pol), ..Plan::default() };
        for _ in 0..rng.range(1, 4) {
            let leaf = *rng.pick(&[0, 0, 1, 1, 2, 3]);
            let ntr = *rng.pick(&[1i64, 1, 1, 2, 2, 3]);
            let mut f = gen_leaf(rng, leaf);
            for _ in 0..ntr {
                f.extend(gen_tr(rng));
            }
            p.push("add", vec![0, 0, ntr, leaf, rng.range(0, 1)], f);
            for _ in 0..rng.range(1, 4) {
                let f = gen_ray(rng);
                p.push("ask", vec![rng.range(0, 9), rng.range(0, 2)], f);
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        let mut w = setup(plan);
        let mut objs: Vec<(Chain, Dyn, Rc<Tapes>)> = vec![];
        for t in &plan.steps {
            env::begin(t.id);
            if t.op == "add" {
                if let Some((_, mut it)) = w.item(t) {
                    widen(&mut it);
                    if let Base::Leaf(l) = it.base {
                        let tapes = Rc::new(Tapes::default());
                        let tap = Tap { inner: Dyn(l.build()), tapes: tapes.clone() };
                        let c = Chain { leaf: l, trs: it.trs };
                        // directly as a generic argument, or behind a shared list
                        let d = if t.int(4) == 0 { wrap_tap(tap, &c.trs) } else { wrap_list(tap, &c.trs) };
                        objs.push((c, d, tapes));
                    }
                }
                continue;
            }
            if objs.is_empty() {
                continue;
            }
            let (c, d, tapes) = &objs[t.idx(0, objs.len())];
            let r = RaySpec::from_step(t, 0);
            tapes.0.borrow_mut().clear();
            let occl = t.int(1) == 2;
            let ray = r.get();
            let (a, occ) = match fcall(true, || if occl { (None, d.do_intersect(ray)) } else { (d.intersect(ray), false) }) {
                Ok(x) => x,
                Err(Fail::Injected(_)) => {
                    run.probe("cut_short");
                    continue;
                }
                Err(f) => return Err(fail_to_violation(f, "intersect")),
            };
            let tape = tapes.0.borrow().clone();
            let ctx = || format!("{} under {:?}, {}", c.leaf.name(), c.trs.iter().map(|t| t.m).collect::<Vec<_>>(), r.show());
            run.check();
            run.note(mix(c.trs.len() as u64, a.is_some() as u64 * 2 + occl as u64));
            let hit = a.is_some() || occ;
            if let Leaf::Plate(p) = &c.leaf {
                let want = p.t0.filter(|t| *t >= 0.0 && *t <= r.tmax);
                if hit != want.is_some() || (!occl && t_of(&a) != want) {
                    return Err(viol!("hit-or-miss", "the original answers {want:?}, the moved one {} / {occ}: {}", show_ans(&a), ctx()));
                }
            }
            let Some(last) = tape.last() else {
                // never asked: then nothing may be reported
                if hit {
                    return Err(viol!("invented", "{} without asking the original: {}", show_ans(&a), ctx()));
                }
                continue;
            };
            // the ray that arrives
            let (mut o, mut dd) = (Vb { v: r.o, e: [0.0; 3] }, Vb { v: r.d, e: [0.0; 3] });
            let mut far = r.o.iter().chain(&r.d).any(|v| !(v.abs() < 1e37));
            for tr in c.trs.iter().rev() {
                o = lin(&tr.inv, &o, true);
                dd = lin(&tr.inv, &dd, false);
                far |= o.v.iter().chain(&dd.v).any(|v| !(v.abs() < 1e37));
            }
            if far {
                run.probe("out_of_range");
                continue;
            }
            for (got, _, _) in &tape {
                if !within(got.o, &o) || !within(got.d, &dd) {
                    return Err(viol!("ray-in", "the original is asked with {}, expected {:?} {:?}: {}", got.show(), o.v, dd.v, ctx()));
                }
            }
            if tape[0].0.tmax.to_bits() != r.tmax.to_bits() {
                return Err(viol!("extent-in", "the original is asked with extent {:e}: {}", tape[0].0.tmax, ctx()));
            }
            let orig_hit = last.1.is_some() || last.2;
            if hit != orig_hit {
                return Err(viol!("hit-or-miss", "the original answers {} / {}, the moved one {} / {occ}: {}", show_ans(&last.1), last.2, show_ans(&a), ctx()));
            }
            let (Some(a), Some(b)) = (&a, &last.1) else { continue };
            if bits(a.t_ray) != bits(b.t_ray) {
                return Err(viol!("distance", "the original answers distance {:e}, the moved one {:e}: {}", un(b.t_ray), un(a.t_ray), ctx()));
            }
            let (sa, sb) = (&a.surface_interaction, &b.surface_interaction);
            if bits(sa.uv.x()) != bits(sb.uv.x()) || bits(sa.uv.y()) != bits(sb.uv.y()) {
                return Err(viol!("uv", "surface parameters change: {}", ctx()));
            }
            run.probe("hit");
            run.event(bits(a.t_ray) as u64);
            let mut p = Vb { v: pt(sb.p), e: [0.0; 3] };
            let mut u = Vb { v: vc(sb.dpdu), e: [0.0; 3] };
            let mut v = Vb { v: vc(sb.dpdv), e: [0.0; 3] };
            let mut n = nm(sb.n);
            // far out, sums of products overflow
            let finite = |v: V3| v.iter().all(|x| x.abs() < 1e32);
            if !finite(p.v) || !finite(u.v) || !finite(v.v) {
                continue;
            }
            let mut nerr = 0.0;
            let mut cond = 1.0;
            let mut flip = 1.0;
            for tr in &c.trs {
                p = lin(&tr.m, &p, true);
                u = lin(&tr.m, &u, false);
                v = lin(&tr.m, &v, false);
                let x = mnormal(&tr.inv, n);
                let mag = {
                    let ia = mabs(&tr.inv);
                    let na = abs3(n);
                    len3(std::array::from_fn(|i| ia[0][i] * na[0] + ia[1][i] * na[1] + ia[2][i] * na[2]))
                };
                let k = norm_rows(&tr.inv) * norm_rows(&tr.m) * 2.0;
                nerr = nerr * k + 12.0 * EPS * mag / len3(x) + 8.0 * EPS;
                cond *= k;
                n = unit3(x);
                flip *= det3(&tr.m).signum();
            }
            if flip < 0.0 {
                run.probe("mirrored");
            }
            if !within(pt(sa.p), &p) {
                return Err(viol!("point", "point {:?}, expected {:?}: {}", pt(sa.p), p.v, ctx()));
            }
            if !within(vc(sa.dpdu), &u) || !within(vc(sa.dpdv), &v) {
                return Err(viol!("tangent", "tangents {:?} {:?}, expected {:?} {:?}: {}", vc(sa.dpdu), vc(sa.dpdv), u.v, v.v, ctx()));
            }
            if finite(n) {
                let g = nm(sa.n);
                if !((len3(g) - 1.0).abs() <= 1e-5) {
                    return Err(viol!("normal-length", "normal {g:?} has length {}: {}", len3(g), ctx()));
                }
                if !(len3(sub3(g, n)) <= nerr * 2.0 + 1e-6) {
                    return Err(viol!("normal", "normal {g:?}, expected {n:?}: {}", ctx()));
                }
                // perpendicular to the tangents if the original is
                let n0 = nm(sb.n);
                for (t0, t1) in [(vc(sb.dpdu), vc(sa.dpdu)), (vc(sb.dpdv), vc(sa.dpdv))] {
                    if dot3(n0, t0).abs() <= 1e-5 * len3(t0) && len3(t1) > 0.0 && dot3(g, t1).abs() > (1e-4 * cond.min(1e3)) * len3(t1) {
                        return Err(viol!("perpendicular", "normal {g:?} and tangent {t1:?}: {}", ctx()));
                    }
                }
            }
            // the reported point is at the reported distance along the caller's ray
            let t = un(a.t_ray);
            if t < 1e4 {
                let q = add3(r.o, mul3(r.d, t));
                let on_obj = add3(last.0.o, mul3(last.0.d, t));
                let off = abs3(sub3(pt(sb.p), on_obj));
                let applies = !matches!(&c.leaf, Leaf::Plate(p) if !p.along);
                if applies {
                    // discrepancy of the original, the ray's error and the point's error, all in world coordinates
                    let mut e = add3(off, add3(o.e, mul3(dd.e, t)));
                    for tr in &c.trs {
                        e = mvec(&mabs(&tr.m), e);
                    }
                    let inv_err = {
                        // stored inverse is only an inverse up to rounding
                        let mut m = abs3(q);
                        for tr in c.trs.iter().rev() {
                            m = mpt(&mabs(&tr.inv), m);
                        }
                        for tr in &c.trs {
                            m = mpt(&mabs(&tr.m), m);
                        }
                        let mut d = mul3(abs3(r.d), t);
                        for tr in c.trs.iter().rev() {
                            d = mvec(&mabs(&tr.inv), d);
                        }
                        for tr in &c.trs {
                            d = mvec(&mabs(&tr.m), d);
                        }
                        let mut oo = abs3(r.o);
                        for tr in c.trs.iter().rev() {
                            oo = mpt(&mabs(&tr.inv), oo);
                        }
                        for tr in &c.trs {
                            oo = mpt(&mabs(&tr.m), oo);
                        }
                        // entries that ought to vanish are off by as much as the others
                        [8.0 * EPS * add3(m, add3(d, oo)).into_iter().fold(0.0, f64::max); 3]
                    };
                    let tol = add3(add3(e, p.e), inv_err);
                    let g = pt(sa.p);
                    if (0..3).any(|i| (g[i] - q[i]).abs() > 2.0 * tol[i] + 1e-36) {
                        return Err(viol!("off-ray", "point {g:?} is not at distance {t:e} along the ray ({q:?}): {}", ctx()));
                    }
                    run.probe("on_ray");
                }
            }
        }
        w.model.clear();
        w.lists.clear();
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run wraps shapes in one to three nested affine transforms (translation, non-uniform and mirrored scale, rotation, shear and products), directly or through a list, and queries them with random rays while the simulator chooses the rounding of every operation; the ray received by and the answer given by the original are recorded and carried over in double precision; non-trivial if at least one answer was judged; distinct by shapes, nesting, outcomes and faults"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of nesting depth, outcome and the (step, position) of every rounding fault and abort"
    }
    fn real(&self) -> &'static [&'static str] {
        &["TransformedPrimitive", "Transform::map and map_inverse of rays, points, vectors and normals", "Sphere", "Bbox3", "PrimitiveList"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["caller-supplied members; a recorder between the wrapper and the original"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["hit", "mirrored", "on_ray", "cut_short"]
    }
}
fn det3(m: &crate::s_igeom::M4) -> f64 {
    dot3([m[0][0], m[0][1], m[0][2]], cross3([m[1][0], m[1][1], m[1][2]], [m[2][0], m[2][1], m[2][2]]))
}
