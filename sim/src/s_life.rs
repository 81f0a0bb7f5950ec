//! C11: adding is all-or-nothing, and every object handed over is destroyed exactly
//! once, when nothing that contains it is left.

use crate::env::{self, Fail, Policy, K_ALLOC};
use crate::plan::{Plan, Violation};
use crate::prng::{mix, Rng};
use crate::runner::{Run, Scenario, Tier};
use crate::s_interval::fail_to_violation;
use crate::scene::*;
use crate::simf::{fcall, un};
use crate::viol;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay, PrimitiveList, TransformedPrimitive};
use std::cell::RefCell;
use std::rc::Rc;

pub struct C11;

#[derive(Clone)]
enum Ent {
    /// members reached directly or inside an owned list
    Members(Vec<usize>),
    List(usize),
}
struct Slot {
    /// None once the caller has let go of it
    list: Option<Rc<RefCell<PrimitiveList>>>,
    ents: Vec<Ent>,
}
struct St {
    lives: Vec<Rc<Life>>,
    slots: Vec<Slot>,
    handles: Vec<(usize, Dyn)>,
}
impl St {
    fn member(&mut self, id: u32) -> (usize, SimMember) {
        let k = self.lives.len();
        let life = Rc::new(Life::default());
        self.lives.push(life.clone());
        let b = k as f64;
        let plate = Plate {
            id,
            t0: Some(1.0 + b * 0.25),
            along: false,
            p: [b, -b, 0.5],
            n: [0.0, 0.0, 1.0],
            u: [1.0, 0.0, 0.0],
            v: [0.0, 1.0, 0.0],
            uv: [b, 0.5],
            bmin: [-1e6 - b, -1e6, -1e6],
            bmax: [1e6, 1e6 + b, 1e6],
        };
        (k, SimMember { plate, rec: None, life: Some(life) })
    }
    fn contents(&self, k: usize, out: &mut Vec<usize>) {
        for e in &self.slots[k].ents {
            match e {
                Ent::Members(m) => out.extend(m),
                Ent::List(j) => self.contents(*j, out),
            }
        }
    }
    /// Every object is alive while reachable and destroyed once otherwise.
    fn judge_lives(&self, run: &mut Run, when: &str) -> Result<(), Violation> {
        let mut alive = vec![false; self.lives.len()];
        for (k, s) in self.slots.iter().enumerate() {
            if s.list.is_some() {
                let mut c = vec![];
                self.contents(k, &mut c);
                for i in c {
                    alive[i] = true;
                }
            }
        }
        for (i, _) in &self.handles {
            alive[*i] = true;
        }
        run.check();
        for (i, l) in self.lives.iter().enumerate() {
            let d = l.drops.get();
            if alive[i] && d != 0 {
                return Err(viol!("destroyed-early", "object {i} was destroyed {d} times while it is still contained somewhere ({when})"));
            }
            if !alive[i] && d == 0 {
                return Err(viol!("leaked", "object {i} is contained nowhere and was never destroyed ({when})"));
            }
            if !alive[i] && d > 1 {
                return Err(viol!("destroyed-twice", "object {i} was destroyed {d} times ({when})"));
            }
        }
        Ok(())
    }
    /// How often each object is asked in a query of the list that nothing answers.
    fn asked(&self, k: usize) -> Result<Vec<u32>, Violation> {
        let Some(list) = &self.slots[k].list else { return Ok(vec![]) };
        for l in &self.lives {
            l.calls.set(0);
        }
        let r = RaySpec { o: [0.5, 0.25, 3.0], d: [0.0, 0.0, -1.0], tmax: 1e6 };
        let list = list.clone();
        env::quiet(|| fcall(true, || (list.borrow().intersect(r.get()), list.borrow().do_intersect(r.get())))).map_err(|f| fail_to_violation(f, "intersect"))?;
        Ok(self.lives.iter().map(|l| l.calls.get()).collect())
    }
    /// What a list contains, found out by switching on one object at a time.
    fn judge_contents(&self, k: usize, run: &mut Run, when: &str) -> Result<(), Violation> {
        let Some(list) = &self.slots[k].list else { return Ok(()) };
        let mut want = vec![];
        self.contents(k, &mut want);
        run.check();
        let r = RaySpec { o: [0.5, 0.25, 3.0], d: [0.0, 0.0, -1.0], tmax: 1e6 };
        for (i, l) in self.lives.iter().enumerate() {
            if l.drops.get() > 0 && !want.contains(&i) {
                continue;
            }
            // of a large list only the newest and a few others
            if self.lives.len() > 300 && i + 4 < self.lives.len() && (i * 2654435761 + self.lives.len()) % 64 != 0 {
                continue;
            }
            l.on.set(true);
            let a = env::quiet(|| fcall(true, || list.borrow().intersect(r.get())));
            let o = env::quiet(|| fcall(true, || list.borrow().do_intersect(r.get())));
            l.on.set(false);
            let (a, o) = (a.map_err(|f| fail_to_violation(f, "intersect"))?, o.map_err(|f| fail_to_violation(f, "do_intersect"))?);
            let has = a.as_ref().is_some_and(|x| un(x.surface_interaction.uv.x()) == i as f64);
            if has != want.contains(&i) || o != has || a.is_some() != has {
                return Err(viol!("contents", "list {k} {} object {i}, it should {} ({when}); answer {}", if has { "has" } else { "does not have" }, if want.contains(&i) { "have it" } else { "not" }, show_ans(&a)));
            }
        }
        let b = env::quiet(|| fcall(true, || list.borrow().bbox())).map_err(|f| fail_to_violation(f, "bbox"))?;
        if want.is_empty() != box_empty(&box_of(&b)) {
            return Err(viol!("box", "the box of list {k} with {} objects is {b:?} ({when})", want.len()));
        }
        Ok(())
    }
}
fn tr_of(x: i64) -> Tr {
    Tr::from_words(&[(x % 5) as f64, 1.5, -0.75, 2.0, 0.5, ((x / 5) % 5) as f64, 0.5, 1.25, -1.0, 1.0])
}

impl Scenario for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 600_000,
            Tier::Thorough => 40_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, _t: Tier) -> Plan {
        let pol = Policy {
            alloc: *rng.pick(&[0, 150, 400, 800]),
            crash_member: *rng.pick(&[0, 0, 200, 500]),
            crash_fp: *rng.pick(&[0, 0, 100]),
            ..Policy::default()
        };
        let lists = rng.range(1, 4);
        let mut p = Plan { knobs: vec![lists], policy: Some(pol), ..Plan::default() };
        let n = rng.range(3, 40);
        let grow = rng.chance(20);
        for _ in 0..n {
            let op = if grow { "add" } else { *rng.pick(&["add", "add", "add", "add", "share", "share", "nest", "hold", "release", "drop", "ask", "ask"]) };
            p.push(op, vec![rng.range(0, lists - 1), rng.range(0, 9), rng.range(0, 24), rng.range(0, 9)], vec![]);
        }
        if rng.below(1000) == 0 {
            // a list that grows large
            p.steps.truncate(6);
            for _ in 0..rng.range(1, 3) {
                p.push("bulk", vec![0, if rng.chance(30) { rng.range(500, 1100) } else { rng.range(40, 140) }, 0, 0], vec![]);
            }
            for (k, t) in p.steps.iter_mut().enumerate() {
                t.id = k as u32 + 1;
            }
        }
        p
    }
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation> {
        reset_targets(vec![]);
        let n = plan.knob(0).clamp(1, 6) as usize;
        let mut st = St {
            lives: vec![],
            slots: (0..n).map(|_| Slot { list: Some(Rc::new(RefCell::new(PrimitiveList::new()))), ents: vec![] }).collect(),
            handles: vec![],
        };
        for t in &plan.steps {
            env::begin(t.id);
            let k = t.idx(0, n);
            let when = format!("after step {} {}", t.id, t.op);
            let list = st.slots[k].list.clone();
            let mut total = vec![];
            for j in 0..n {
                st.contents(j, &mut total);
            }
            if total.len() > if t.op == "bulk" { 2400 } else { 200 } {
                continue;
            }
            let asked = if matches!(t.op.as_str(), "add" | "share" | "nest") { st.asked(k)? } else { vec![] };
            // (result, what the list gains)
            let mut added: Option<(Result<(), Fail>, Ent)> = None;
            match t.op.as_str() {
                "add" => {
                    let Some(list) = list.clone() else { continue };
                    let tr = tr_of(t.int(2));
                    added = Some(match t.int(1) {
                        0..=3 => {
                            let (i, m) = st.member(t.id);
                            (env::lib(move || list.borrow_mut().add_primitive(m)), Ent::Members(vec![i]))
                        }
                        4 | 5 => {
                            let (i, m) = st.member(t.id);
                            let m = TransformedPrimitive::new(m, tr.get());
                            (env::lib(move || list.borrow_mut().add_primitive(m)), Ent::Members(vec![i]))
                        }
                        6 => {
                            // a list moved into a list, both built under failures
                            let mut own = PrimitiveList::new();
                            let mut ids = vec![];
                            let mut err = None;
                            for _ in 0..t.int(3) % 4 {
                                let (i, m) = st.member(t.id);
                                match env::lib(|| own.add_primitive(m)) {
                                    Ok(()) => ids.push(i),
                                    Err(f) => err = Some(f),
                                }
                            }
                            if let Some(f @ (Fail::Panic(_) | Fail::Budget)) = err {
                                return Err(fail_to_violation(f, "add_primitive"));
                            }
                            run.probe("owned_list");
                            (env::lib(move || list.borrow_mut().add_primitive(own)), Ent::Members(ids))
                        }
                        7 => {
                            let (i, m) = st.member(t.id);
                            let m = TransformedPrimitive::new(TransformedPrimitive::new(m, tr.get()), tr_of(7).get());
                            (env::lib(move || list.borrow_mut().add_primitive(m)), Ent::Members(vec![i]))
                        }
                        _ => {
                            // an object that the caller keeps a handle of
                            let (i, m) = st.member(t.id);
                            let d = Dyn(Rc::new(m));
                            st.handles.push((i, d.clone()));
                            (env::lib(move || list.borrow_mut().add_primitive(d)), Ent::Members(vec![i]))
                        }
                    });
                }
                "share" => {
                    // an object that is in use elsewhere
                    let Some(list) = list.clone() else { continue };
                    if st.handles.is_empty() {
                        continue;
                    }
                    let (i, d) = st.handles[t.idx(1, st.handles.len())].clone();
                    run.probe("shared_object");
                    added = Some(if t.int(2) % 2 == 0 {
                        (env::lib(move || list.borrow_mut().add_primitive(d)), Ent::Members(vec![i]))
                    } else {
                        let m = TransformedPrimitive::new(d, tr_of(t.int(2)).get());
                        (env::lib(move || list.borrow_mut().add_primitive(m)), Ent::Members(vec![i]))
                    });
                }
                "nest" => {
                    let Some(list) = list.clone() else { continue };
                    if k + 1 >= n {
                        continue;
                    }
                    let j = k + 1 + t.idx(1, n - k - 1);
                    let Some(inner) = st.slots[j].list.clone() else { continue };
                    run.probe("shared_list");
                    let s = Shared(inner);
                    added = Some(if t.int(2) % 2 == 0 {
                        (env::lib(move || list.borrow_mut().add_primitive(s)), Ent::List(j))
                    } else {
                        let m = TransformedPrimitive::new(s, tr_of(t.int(2)).get());
                        (env::lib(move || list.borrow_mut().add_primitive(m)), Ent::List(j))
                    });
                }
                "bulk" => {
                    let Some(list) = list.clone() else { continue };
                    for _ in 0..t.int(1).clamp(0, 1200) {
                        let (i, m) = st.member(t.id);
                        match env::lib(|| list.borrow_mut().add_primitive(m)) {
                            Ok(()) => st.slots[k].ents.push(Ent::Members(vec![i])),
                            Err(Fail::Injected(_)) => run.probe("bulk_cut_short"),
                            Err(f) => return Err(fail_to_violation(f, "add_primitive")),
                        }
                    }
                    run.probe("bulk");
                    drop(list);
                    st.judge_contents(k, run, &when)?;
                }
                "hold" => {
                    let (i, m) = st.member(t.id);
                    st.handles.push((i, Dyn(Rc::new(m))));
                }
                "release" => {
                    if !st.handles.is_empty() {
                        let h = t.idx(1, st.handles.len());
                        let h = st.handles.remove(h);
                        drop(h);
                        run.probe("handle_released");
                    }
                }
                "drop" => {
                    if t.int(1) < 4 && list.is_some() {
                        drop(list);
                        let l = st.slots[k].list.take();
                        fcall(true, move || drop(l)).map_err(|f| fail_to_violation(f, "drop"))?;
                        run.probe("list_dropped");
                    }
                    st.judge_lives(run, &when)?;
                    continue;
                }
                _ => {
                    // a query that may be cut short
                    let Some(list) = list.clone() else { continue };
                    for (i, l) in st.lives.iter().enumerate() {
                        l.on.set(i as i64 % 3 != t.int(1) % 3);
                    }
                    let r = RaySpec { o: [0.5, 0.25, 3.0], d: [0.0, 0.0, -1.0], tmax: if t.int(3) % 2 == 0 { 1e6 } else { 3.0 } };
                    let a = fcall(true, || match t.int(2) % 3 {
                        0 => list.borrow().intersect(r.get()).is_some() as u32,
                        1 => list.borrow().do_intersect(r.get()) as u32,
                        _ => {
                            let _ = list.borrow().bbox();
                            2
                        }
                    });
                    for l in &st.lives {
                        l.on.set(false);
                    }
                    match a {
                        Ok(_) => {}
                        Err(Fail::Injected(_)) => run.probe("query_cut_short"),
                        Err(f) => return Err(fail_to_violation(f, "query")),
                    }
                }
            }
            drop(list);
            if let Some((r, ent)) = added {
                run.note(mix(r.is_ok() as u64, t.int(1) as u64 + 16));
                match r {
                    Ok(()) => st.slots[k].ents.push(ent),
                    Err(Fail::Injected(f)) => {
                        run.probe(if f == K_ALLOC { "add_out_of_memory" } else { "add_cut_short" });
                        let now = st.asked(k)?;
                        for (i, (a, b)) in asked.iter().zip(&now).enumerate() {
                            if b > a {
                                return Err(viol!("asked-more", "after an interrupted addition object {i} of list {k} is asked {b} times for one query, {a} times before ({when})"));
                            }
                        }
                    }
                    Err(f) => return Err(fail_to_violation(f, "add_primitive")),
                }
                st.judge_contents(k, run, &when)?;
            }
            st.judge_lives(run, &when)?;
        }
        for k in 0..n {
            st.judge_contents(k, run, "at the end")?;
        }
        // teardown in a seeded order
        let mut order: Vec<usize> = (0..n).collect();
        if plan.run % 2 == 1 {
            order.reverse();
        }
        for k in order {
            st.slots[k].list = None;
            st.judge_lives(run, "while tearing down")?;
        }
        st.handles.clear();
        st.judge_lives(run, "after tearing down")?;
        run.event(st.lives.len() as u64);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run is a history of adding objects (by value, wrapped in transforms, inside lists moved in, as shared handles, as shared lists), querying, releasing handles and dropping lists, in which allocations fail and members panic at seeded points; after every step the life of every object and the contents of the list are compared with a model; non-trivial if at least one comparison was made; distinct by operations, outcomes and fault positions"
    }
    fn measure(&self) -> &'static str {
        "64-bit hash of the sequence of operations, outcomes of additions and the (step, kind, position) of every fault"
    }
    fn real(&self) -> &'static [&'static str] {
        &["PrimitiveList::add_primitive", "alloc_primitive", "TransformedPrimitive", "drop of lists and handles", "Rc and Vec of the standard library"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["global allocator (system allocator that fails on demand)", "allocation-error handler (unwinds)", "caller-supplied members that count their destruction"]
    }
    fn wanted(&self) -> &'static [&'static str] {
        &["add_out_of_memory", "query_cut_short", "shared_object", "shared_list", "owned_list", "list_dropped", "handle_released"]
    }
}
