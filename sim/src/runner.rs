//! Seeded search over runs: worker processes execute striped run numbers, the parent
//! merges their statistics, minimises the first violation in fresh processes and
//! writes the replay and evidence files.

use crate::env::{self, Fault, K_ROUND, KIND_NAMES, NK};
use crate::fpu;
use crate::plan::{Plan, Violation};
use crate::prng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a run reports besides its verdict.
#[derive(Default)]
pub struct Run {
    pub checks: u64,
    pub probes: BTreeMap<&'static str, u64>,
    /// signature of the behaviour reached (outcome classes, not values)
    pub sig: u64,
    pub fired: [u64; NK],
    pub ops: u64,
    pub member_calls: u64,
    pub lib_calls: u64,
    pub faults: Vec<Fault>,
    pub log: u64,
}
impl Run {
    pub fn probe(&mut self, p: &'static str) {
        *self.probes.entry(p).or_insert(0) += 1;
    }
    pub fn check(&mut self) {
        self.checks += 1;
    }
    pub fn note(&mut self, x: u64) {
        self.sig = mix(self.sig, x);
    }
    /// event log: values observed, for the determinism comparison
    pub fn event(&mut self, x: u64) {
        self.log = mix(self.log, x);
    }
    /// Takes over what the environment of this thread recorded.
    pub fn absorb(&mut self) {
        let e = env::take();
        self.ops += e.ops;
        self.member_calls += e.member_calls;
        self.lib_calls += e.lib_calls;
        for f in &e.fired {
            self.fired[f.kind as usize] += 1;
        }
        self.faults.extend(e.fired);
    }
}

pub trait Scenario: Sync {
    fn id(&self) -> &'static str;
    /// number of runs per tier
    fn runs(&self, tier: Tier) -> u64;
    fn gen(&self, rng: &mut Rng, tier: Tier) -> Plan;
    fn exec(&self, plan: &Plan, run: &mut Run) -> Result<(), Violation>;
    fn rule(&self) -> &'static str;
    fn measure(&self) -> &'static str;
    fn real(&self) -> &'static [&'static str];
    fn stubs(&self) -> &'static [&'static str];
    /// probes that must not stay at zero
    fn wanted(&self) -> &'static [&'static str] {
        &[]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[]
    }
    /// percent of the runs whose numbers are made to coincide
    fn coincidences(&self) -> u64 {
        std::env::var("SIM_MUT").ok().and_then(|x| x.parse().ok()).unwrap_or(12)
    }
}
/// Replaces a few numbers of a plan by special ones or by each other.
fn coincide(p: &mut Plan, rng: &mut Rng) {
    let with: Vec<usize> = (0..p.steps.len()).filter(|k| !p.steps[*k].f.is_empty()).collect();
    if with.is_empty() {
        return;
    }
    for _ in 0..rng.range(1, 3) {
        let k = *rng.pick(&with);
        let n = p.steps[k].f.len();
        let (j, i) = (rng.us(n), rng.us(n));
        let (x, y) = (p.steps[k].f[j], p.steps[k].f[i]);
        let twin = {
            let op = &p.steps[k].op;
            let o = *rng.pick(&with);
            (p.steps[o].op == *op && p.steps[o].f.len() == n).then_some(o)
        };
        let near = |rng: &mut Rng, y: f64| if rng.chance(60) { y * (1.0 + rng.sign() * rng.logu(1e-7, 1e-3)) } else { y + rng.sign() * rng.logu(1e-8, 1e-4) };
        let v = match rng.below(17) {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => -1.0,
            4 => *rng.pick(&[0.5, -0.5, 2.0, -2.0, 0.25, 10.0]),
            5 => y,
            6 => -y,
            7 => -x,
            8 => x.round(),
            9 => x * *rng.pick(&[2.0, 0.5, 1e-3, 1e3]),
            10 => fpu::up32(x as f32) as f64,
            11 => fpu::up32(y as f32) as f64,
            12 => *rng.pick(&[std::f64::consts::PI, std::f64::consts::FRAC_PI_2, std::f64::consts::PI as f32 as f64, std::f64::consts::FRAC_PI_4]),
            13 | 14 => near(rng, y),
            15 => {
                let z = twin.map_or(x, |o| p.steps[o].f[j]);
                near(rng, z)
            }
            _ => twin.map_or(y, |o| p.steps[o].f[j]),
        };
        // magnitudes belong to their places
        let odd = |v: f64| v != 0.0 && !(v.abs() > 1e-9 && v.abs() < 1e6);
        if v.is_finite() && (!odd(v) || odd(x)) {
            p.steps[k].f[j] = v;
            // a whole vector of nearly the same
            if n >= 3 && rng.chance(15) {
                let j = j.min(n - 3);
                let how = rng.below(3);
                for i in j..j + 3 {
                    p.steps[k].f[i] = match how {
                        0 => v,
                        1 => near(rng, v),
                        _ => near(rng, v) * rng.sign(),
                    };
                }
            }
        }
        if rng.chance(10) {
            if let Some(o) = twin {
                p.steps[k].f = p.steps[o].f.clone();
            }
        }
    }
}

pub fn run_seed(prop: &str, seed: u64, idx: u64) -> u64 {
    mix(mix(seed, hash_str(prop)), idx)
}
pub fn make_plan(s: &dyn Scenario, seed: u64, idx: u64, tier: Tier) -> Plan {
    let rs = run_seed(s.id(), seed, idx);
    let mut rng = Rng::new(rs);
    let mut p = s.gen(&mut rng, tier);
    let mut crng = Rng::new(mix(rs, 99));
    if crng.chance(s.coincidences()) {
        coincide(&mut p, &mut crng);
    }
    p.property = s.id().to_string();
    p.seed = seed;
    p.run = idx;
    if let Some(pol) = &mut p.policy {
        pol.seed = mix(rs, 77);
    }
    p
}
pub fn exec_plan(s: &dyn Scenario, plan: &Plan) -> (Result<(), Violation>, Run) {
    let mut run = Run::default();
    env::reset(plan.policy.clone(), &plan.faults, None);
    let r = s.exec(plan, &mut run);
    run.absorb();
    // signature: operations, knobs, kinds and steps of the faults that fired
    let mut h = mix(0x51, run.sig);
    for k in &plan.knobs {
        h = mix(h, *k as u64);
    }
    for t in &plan.steps {
        h = mix(h, hash_str(&t.op));
    }
    let mut last = (0, 0);
    for f in &run.faults {
        if f.kind != K_ROUND {
            h = mix(h, (f.step as u64) << 32 | (f.kind as u64) << 24 | f.at as u64);
        } else if last != (f.step, f.at) {
            h = mix(h, (f.step as u64) << 32 | 0xff00_0000 | f.at as u64);
        }
        last = (f.step, f.at);
    }
    run.sig = h;
    (r, run)
}

// ------------------------------------------------------------------ worker
pub fn worker(s: &dyn Scenario, seed: u64, tier: Tier, k: u64, n: u64, total: u64, dir: &Path, cap_s: u64) {
    let start = Instant::now();
    let prog = fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(format!("prog{k}"))).unwrap();
    let mut sigs: Vec<u8> = vec![];
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut checks, mut ops, mut members, mut libs, mut trivial) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut fired = [0u64; NK];
    let mut fault_runs = 0u64;
    let mut log = 0u64;
    let mut idx = k;
    let stop = dir.join("stop");
    let mut capped = false;
    while idx < total {
        if runs % 16 == 0 {
            if start.elapsed() > Duration::from_secs(cap_s) {
                capped = true;
                break;
            }
            if let Ok(t) = fs::read_to_string(&stop) {
                if t.trim().parse::<u64>().is_ok_and(|b| b < idx) {
                    break;
                }
            }
        }
        prog.write_at(&(idx + 1).to_le_bytes(), 0).unwrap();
        let plan = make_plan(s, seed, idx, tier);
        let (r, run) = exec_plan(s, &plan);
        runs += 1;
        checks += run.checks;
        ops += run.ops;
        members += run.member_calls;
        libs += run.lib_calls;
        log = mix(log, mix(run.log, run.sig));
        if !run.faults.is_empty() {
            fault_runs += 1;
        }
        for i in 0..NK {
            fired[i] += run.fired[i];
        }
        for (p, c) in &run.probes {
            *probes.entry(p.to_string()).or_insert(0) += c;
        }
        if run.checks > 0 {
            sigs.extend_from_slice(&run.sig.to_le_bytes());
        } else {
            trivial += 1;
        }
        if let Err(v) = r {
            let mut p = plan.clone();
            p.policy = None;
            p.faults = run.faults.clone();
            fs::write(dir.join(format!("viol{k}.explicit")), p.to_text(Some(&v))).unwrap();
            fs::write(dir.join(format!("viol{k}")), plan.to_text(Some(&v))).unwrap();
            fs::write(&stop, format!("{idx}")).unwrap();
            break;
        }
        idx += n;
    }
    prog.write_at(&0u64.to_le_bytes(), 0).unwrap();
    fs::write(dir.join(format!("sigs{k}")), &sigs).unwrap();
    let mut t = format!("runs {runs}\nchecks {checks}\nops {ops}\nmembers {members}\nlibs {libs}\ntrivial {trivial}\nfault_runs {fault_runs}\nlog {log}\ncapped {}\n", capped as u8);
    for i in 0..NK {
        t += &format!("fired:{} {}\n", KIND_NAMES[i], fired[i]);
    }
    for (p, c) in &probes {
        t += &format!("probe:{p} {c}\n");
    }
    fs::write(dir.join(format!("stat{k}")), t).unwrap();
}

// ------------------------------------------------------------------ fresh-process execution
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Violation(Violation),
    /// the process died or hung: a violation of every property (the library must not
    /// bring the process down)
    Dead(String),
}
impl Outcome {
    pub fn class(&self) -> Option<String> {
        match self {
            Outcome::Ok => None,
            Outcome::Violation(v) => Some(v.class.clone()),
            Outcome::Dead(s) => Some(s.clone()),
        }
    }
}
fn wait_limit(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    let mut nap = Duration::from_micros(200);
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(nap);
        nap = (nap * 2).min(Duration::from_millis(10));
    }
}
pub fn exec_fresh(plan: &Plan, dir: &Path) -> Outcome {
    let path = dir.join("cand");
    fs::write(&path, plan.to_text(None)).unwrap();
    let out = dir.join("cand.out");
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(&path)
        .stdin(Stdio::null())
        .stdout(fs::File::create(&out).unwrap())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    match wait_limit(&mut c, Duration::from_secs(60)) {
        None => Outcome::Dead("hang".into()),
        Some(st) => {
            let t = fs::read_to_string(&out).unwrap_or_default();
            if let Some(l) = t.lines().find(|l| l.starts_with("CLASS ")) {
                let d = t.lines().find(|l| l.starts_with("DETAIL ")).map(|l| l[7..].to_string()).unwrap_or_default();
                Outcome::Violation(Violation::new(&l[6..], d))
            } else if t.lines().any(|l| l == "OK") {
                Outcome::Ok
            } else {
                Outcome::Dead(format!("abort({st})"))
            }
        }
    }
}

/// `exec`: runs a plan (or batch) and prints the outcome.
pub fn exec_file(s: &dyn Scenario, plan: &Plan, tier: Tier) -> Result<(), Violation> {
    if plan.batch.is_empty() {
        return exec_plan(s, plan).0;
    }
    for (k, idx) in plan.batch.iter().enumerate() {
        let p = make_plan(s, plan.seed, *idx, tier);
        let r = exec_plan(s, &p).0;
        if k + 1 == plan.batch.len() {
            return r;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ minimisation
struct Shrinker<'a> {
    class: String,
    dir: &'a Path,
    tries: u32,
    deadline: Instant,
    best: Plan,
    outcome: Outcome,
}
impl Shrinker<'_> {
    fn attempt(&mut self, p: Plan) -> bool {
        if p == self.best || self.tries == 0 || Instant::now() > self.deadline {
            return false;
        }
        self.tries -= 1;
        let o = exec_fresh(&p, self.dir);
        if o.class().as_deref() == Some(&self.class) {
            self.best = p;
            self.outcome = o;
            true
        } else {
            false
        }
    }
    fn ddmin<T: Clone>(&mut self, get: impl Fn(&Plan) -> Vec<T>, set: impl Fn(&mut Plan, Vec<T>)) {
        let mut n = 2;
        loop {
            let cur = get(&self.best);
            if cur.is_empty() || Instant::now() > self.deadline || self.tries == 0 {
                return;
            }
            if n == 2 {
                let mut p = self.best.clone();
                set(&mut p, vec![]);
                if self.attempt(p) {
                    return;
                }
            }
            let chunk = cur.len().div_ceil(n).max(1);
            let mut reduced = false;
            let mut start = 0;
            while start < cur.len() {
                let end = (start + chunk).min(cur.len());
                let mut rest = cur[..start].to_vec();
                rest.extend_from_slice(&cur[end..]);
                let mut p = self.best.clone();
                set(&mut p, rest);
                if self.attempt(p) {
                    reduced = true;
                    break;
                }
                start = end;
            }
            if reduced {
                n = (n - 1).max(2);
            } else if chunk == 1 {
                return;
            } else {
                n = (n * 2).min(cur.len());
            }
        }
    }
    fn simplify_args(&mut self) {
        let mut k = 0;
        while k < self.best.steps.len() {
            for j in 0..self.best.steps[k].f.len() {
                let x = self.best.steps[k].f[j];
                for c in [0.0, 1.0, -1.0, x.round(), (x * 16.0).round() / 16.0, x as f32 as f64] {
                    if k >= self.best.steps.len() || c.to_bits() == x.to_bits() || !c.is_finite() {
                        continue;
                    }
                    let mut p = self.best.clone();
                    p.steps[k].f[j] = c;
                    if self.attempt(p) {
                        break;
                    }
                }
            }
            for j in 0..self.best.steps[k].i.len() {
                for c in [0, 1] {
                    if self.best.steps[k].i[j] == c {
                        break;
                    }
                    let mut p = self.best.clone();
                    p.steps[k].i[j] = c;
                    if self.attempt(p) {
                        break;
                    }
                }
            }
            k += 1;
        }
    }
}

fn minimise(plan: Plan, outcome: Outcome, dir: &Path) -> (Plan, Outcome) {
    let mut s = Shrinker {
        class: outcome.class().unwrap(),
        dir,
        tries: 1500,
        deadline: Instant::now() + Duration::from_secs(60),
        best: plan,
        outcome,
    };
    for _ in 0..2 {
        let before = s.best.clone();
        s.ddmin(|p| p.steps.clone(), |p, v| p.steps = v);
        s.ddmin(|p| p.faults.clone(), |p, v| p.faults = v);
        if s.best == before {
            break;
        }
    }
    s.simplify_args();
    s.ddmin(|p| p.steps.clone(), |p, v| p.steps = v);
    s.ddmin(|p| p.faults.clone(), |p, v| p.faults = v);
    (s.best, s.outcome)
}

// ------------------------------------------------------------------ parent
pub struct Options {
    pub seed: u64,
    pub tier: Tier,
    pub workers: u64,
    pub root: PathBuf,
    pub variant: String,
    pub runs: Option<u64>,
    pub cap_s: u64,
    pub build_s: f64,
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn scratch(id: &str) -> Scratch {
    let d = std::env::temp_dir().join(format!("scarlet-sim.{}.{}", id, std::process::id()));
    fs::create_dir_all(&d).unwrap();
    Scratch(d)
}

pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub logs: Vec<u64>,
}

pub fn spawn_workers(s: &dyn Scenario, o: &Options, total: u64, dir: &Path) -> (Stats, Vec<u64>) {
    let mut kids: Vec<(u64, Child)> = (0..o.workers)
        .map(|k| {
            let c = Command::new(std::env::current_exe().unwrap())
                .args(["worker", s.id(), &o.seed.to_string(), if o.tier == Tier::Quick { "quick" } else { "thorough" }])
                .args([k.to_string(), o.workers.to_string(), total.to_string(), dir.display().to_string(), o.cap_s.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            (k, c)
        })
        .collect();
    let read_prog = |k: u64| -> u64 {
        fs::read(dir.join(format!("prog{k}"))).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0)
    };
    let mut last: BTreeMap<u64, (u64, Instant)> = BTreeMap::new();
    let mut dead = vec![];
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut keep = vec![];
        for (k, mut c) in kids {
            match c.try_wait().unwrap() {
                Some(st) => {
                    let p = read_prog(k);
                    if !st.success() && p > 0 {
                        dead.push(p - 1);
                        fs::write(dir.join("stop"), format!("{}", p - 1)).unwrap();
                    }
                }
                None => {
                    let p = read_prog(k);
                    let e = last.entry(k).or_insert((p, Instant::now()));
                    if e.0 != p {
                        *e = (p, Instant::now());
                    } else if e.1.elapsed() > Duration::from_secs(120) {
                        let _ = c.kill();
                        let _ = c.wait();
                        if p > 0 {
                            dead.push(p - 1);
                            fs::write(dir.join("stop"), format!("{}", p - 1)).unwrap();
                        }
                        continue;
                    }
                    keep.push((k, c));
                }
            }
        }
        kids = keep;
    }
    let mut st = Stats { n: BTreeMap::new(), sigs: HashSet::new(), logs: vec![] };
    for k in 0..o.workers {
        if let Ok(t) = fs::read_to_string(dir.join(format!("stat{k}"))) {
            for l in t.lines() {
                let (a, b) = l.rsplit_once(' ').unwrap();
                let v: u64 = b.parse().unwrap();
                if a == "log" {
                    st.logs.push(v);
                } else {
                    *st.n.entry(a.to_string()).or_insert(0) += v;
                }
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("sigs{k}"))) {
            for c in b.chunks_exact(8) {
                st.sigs.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    (st, dead)
}

fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn json_list(xs: &[&str]) -> String {
    format!("[{}]", xs.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "))
}

/// Exit code of the check.
pub fn check(s: &dyn Scenario, o: &Options) -> i32 {
    let t0 = Instant::now();
    println!("check {} seed={} tier={} variant={} workers={}", s.id(), o.seed, if o.tier == Tier::Quick { "quick" } else { "thorough" }, o.variant, o.workers);
    let sc = scratch(s.id());
    let dir = &sc.0;
    let total = o.runs.unwrap_or_else(|| s.runs(o.tier));
    let (st, dead) = spawn_workers(s, o, total, dir);

    // candidates for a violation, lowest run number first
    let mut cands: Vec<(u64, Option<u64>)> = dead.iter().map(|d| (*d, None)).collect();
    for k in 0..o.workers {
        if let Ok(t) = fs::read_to_string(dir.join(format!("viol{k}"))) {
            if let Ok((p, _)) = Plan::parse(&t) {
                cands.push((p.run, Some(k)));
            }
        }
    }
    cands.sort();
    let mut violation: Option<(Plan, Outcome)> = None;
    for (idx, k) in &cands {
        // 1. explicit faults, 2. the seeded policy, 3. everything the worker ran before
        let mut forms = vec![];
        if let Some(k) = k {
            if let Ok((p, _)) = Plan::parse(&fs::read_to_string(dir.join(format!("viol{k}.explicit"))).unwrap_or_default()) {
                forms.push(p);
            }
        }
        let random = make_plan(s, o.seed, *idx, o.tier);
        forms.push(random.clone());
        let first = idx % o.workers;
        let mut all: Vec<u64> = (0..).map(|j| first + j * o.workers).take_while(|x| x <= idx).collect();
        if all.len() > 4000 {
            all.drain(..all.len() - 4000);
        }
        let batch = Plan { batch: all, knobs: vec![], steps: vec![], policy: None, ..random };
        forms.push(batch);
        for p in forms {
            let out = exec_fresh(&p, dir);
            if out != Outcome::Ok {
                violation = Some(if p.batch.is_empty() {
                    minimise(p, out, dir)
                } else {
                    let lastrun = *p.batch.last().unwrap();
                    let mut sh = Shrinker {
                        class: out.class().unwrap(),
                        dir,
                        tries: 300,
                        deadline: Instant::now() + Duration::from_secs(60),
                        best: p,
                        outcome: out,
                    };
                    sh.ddmin(
                        |p| p.batch[..p.batch.len() - 1].to_vec(),
                        |p, mut v| {
                            v.push(lastrun);
                            p.batch = v;
                        },
                    );
                    (sh.best, sh.outcome)
                });
                break;
            }
        }
        if violation.is_some() {
            break;
        }
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some((plan, out)) = &violation {
        let v = match out {
            Outcome::Violation(v) => v.clone(),
            Outcome::Dead(d) => Violation::new(d.clone(), "the process was brought down"),
            Outcome::Ok => unreachable!(),
        };
        let rdir = o.root.join("replays");
        fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-seed{}-run{}.replay", s.id(), o.seed, plan.run));
        fs::write(&path, plan.to_text(Some(&v))).unwrap();
        println!("violation class={} detail={}", v.class, v.detail);
        println!("run={} steps={} faults={}", plan.run, plan.steps.len(), plan.faults.len());
        println!("VIOLATION property={} replay={}", s.id(), path.display());
        code = 1;
        nviol = 1;
    } else if !cands.is_empty() {
        println!("harness error: run {} failed in the search but in no fresh process", cands[0].0);
        code = 3;
    }
    let runs = st.n.get("runs").copied().unwrap_or(0);
    let missing: Vec<&str> = s.wanted().iter().copied().filter(|w| st.n.get(&format!("probe:{w}")).copied().unwrap_or(0) == 0).collect();
    for w in &missing {
        println!("note: probe {w} was never hit");
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let mut samples = vec![];
    for idx in [0u64, 1, 2] {
        if idx < total {
            samples.push(json_str(&make_plan(s, o.seed, idx, o.tier).to_text(None)));
        }
    }
    let g = |k: &str| st.n.get(k).copied().unwrap_or(0);
    let faults = (0..NK).map(|i| format!("{}: {}", json_str(KIND_NAMES[i]), g(&format!("fired:{}", KIND_NAMES[i])))).collect::<Vec<_>>().join(", ");
    let probes = st.n.iter().filter(|(k, _)| k.starts_with("probe:")).map(|(k, v)| format!("{}: {}", json_str(&k[6..]), v)).collect::<Vec<_>>().join(", ");
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"distinct_measure\": {},\n    \"oracle_checks\": {},\n    \"library_calls\": {},\n    \"simulated_machine_operations\": {},\n    \"member_calls\": {},\n    \"runs_with_a_fault\": {},\n    \"runs_without_an_oracle_check\": {},\n    \"runs_per_hour\": {},\n    \"seeds\": \"one seed per run, derived from VERIF_SEED and the run number\",\n    \"simulated_time\": \"no clock in the system; simulated progress is counted in machine operations and member calls\",\n    \"faults_fired\": {{{}}},\n    \"probes\": {{{}}},\n    \"probes_never_hit\": {},\n    \"stopped_by_wall_cap\": {},\n    \"build_variant\": {},\n    \"real_components\": {},\n    \"stubbed_components\": {},\n    \"samples\": [{}]\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        json_str(s.id()),
        if o.tier == Tier::Quick { "\"quick\"" } else { "\"thorough\"" },
        o.seed,
        runs,
        st.sigs.len(),
        json_str(s.rule()),
        json_str(s.measure()),
        g("checks"),
        g("libs"),
        g("ops"),
        g("members"),
        g("fault_runs"),
        g("trivial"),
        (runs as f64 * 3600.0 / wall) as u64,
        faults,
        probes,
        json_list(&missing),
        g("capped") > 0,
        json_str(&o.variant),
        json_list(s.real()),
        json_list(s.stubs()),
        samples.join(", "),
        json_list(s.assumptions()),
        wall + o.build_s,
        nviol,
    );
    let edir = o.root.join("evidence");
    fs::create_dir_all(&edir).unwrap();
    fs::write(edir.join(format!("{}.json", s.id())), ev).unwrap();
    println!(
        "{}: runs={} distinct={} checks={} ops={} faults=[{}] wall={:.1}s{}",
        s.id(),
        runs,
        st.sigs.len(),
        g("checks"),
        g("ops"),
        (0..NK).map(|i| format!("{} {}", KIND_NAMES[i], g(&format!("fired:{}", KIND_NAMES[i])))).collect::<Vec<_>>().join(", "),
        wall,
        if g("capped") > 0 { " (stopped by the wall cap)" } else { "" }
    );
    std::io::stdout().flush().unwrap();
    code
}

/// Runs the search twice at different worker counts and compares the event logs of
/// every run.
pub fn determinism(s: &dyn Scenario, seed: u64, runs: u64) -> bool {
    let mut logs: Vec<Vec<u64>> = vec![];
    for round in 0..3u64 {
        // in process, in different orders
        let order: Vec<u64> = match round {
            0 => (0..runs).collect(),
            1 => (0..runs).rev().collect(),
            _ => {
                let mut v: Vec<u64> = (0..runs).collect();
                Rng::new(5).shuffle(&mut v);
                v
            }
        };
        let mut l = vec![0; runs as usize];
        for i in order {
            let p = make_plan(s, seed, i, Tier::Quick);
            let (r, run) = exec_plan(s, &p);
            let mut h = mix(run.log, run.sig);
            for f in &run.faults {
                h = mix(h, (f.step as u64) << 40 | (f.kind as u64) << 32 | f.at as u64);
                h = mix(h, f.arg as u64);
            }
            h = mix(h, r.is_err() as u64);
            l[i as usize] = h;
        }
        logs.push(l);
    }
    for i in 0..runs as usize {
        if logs[0][i] != logs[1][i] || logs[0][i] != logs[2][i] {
            println!("{}: run {i} differs between executions", s.id());
            return false;
        }
    }
    let mut h = 0;
    for x in &logs[0] {
        h = mix(h, *x);
    }
    println!("{} seed {} runs {} digest {:016x}", s.id(), seed, runs, h);
    true
}
