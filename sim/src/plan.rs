//! A plan is everything that determines a run: knobs, steps, and either a seeded fault
//! policy or an explicit list of faults. It is also the replay file.

use crate::env::{Fault, Policy, KIND_NAMES};

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub id: u32,
    pub op: String,
    pub i: Vec<i64>,
    pub f: Vec<f64>,
}
impl Step {
    pub fn int(&self, k: usize) -> i64 {
        self.i.get(k).copied().unwrap_or(0)
    }
    pub fn idx(&self, k: usize, n: usize) -> usize {
        self.int(k).unsigned_abs() as usize % n.max(1)
    }
    pub fn num(&self, k: usize) -> f64 {
        self.f.get(k).copied().unwrap_or(0.0)
    }
    pub fn v3(&self, k: usize) -> [f64; 3] {
        [self.num(k), self.num(k + 1), self.num(k + 2)]
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub knobs: Vec<i64>,
    pub steps: Vec<Step>,
    pub policy: Option<Policy>,
    pub faults: Vec<Fault>,
    /// replay of whole random runs executed one after another in one process
    pub batch: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
impl Violation {
    pub fn new(class: impl Into<String>, detail: impl Into<String>) -> Violation {
        Violation { class: class.into(), detail: detail.into() }
    }
}
#[macro_export]
macro_rules! viol {
    ($class:expr, $($a:tt)*) => { $crate::plan::Violation::new($class, format!($($a)*)) };
}

impl Plan {
    pub fn knob(&self, k: usize) -> i64 {
        self.knobs.get(k).copied().unwrap_or(0)
    }
    pub fn push(&mut self, op: &str, i: Vec<i64>, f: Vec<f64>) {
        let id = self.steps.len() as u32 + 1;
        self.steps.push(Step { id, op: op.to_string(), i, f });
    }
    pub fn to_text(&self, v: Option<&Violation>) -> String {
        let mut s = String::from("scarlet-sim replay v1\n");
        s += &format!("property {}\nseed {}\nrun {}\n", self.property, self.seed, self.run);
        if let Some(v) = v {
            s += &format!("class {}\ndetail {}\n", v.class, v.detail.replace('\n', " "));
        }
        if !self.batch.is_empty() {
            s += &format!("batch {}\n", self.batch.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        s += &format!("knobs {}\n", self.knobs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        if let Some(p) = &self.policy {
            s += &format!("policy {}\n", p.words().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        for t in &self.steps {
            s += &format!("step {} {}", t.id, t.op);
            if !t.i.is_empty() {
                s += " i";
                for x in &t.i {
                    s += &format!(" {x}");
                }
            }
            if !t.f.is_empty() {
                s += " f";
                for x in &t.f {
                    s += &format!(" {:016x}", x.to_bits());
                }
                s += " #";
                for x in &t.f {
                    s += &format!(" {x:e}");
                }
            }
            s += "\n";
        }
        for f in &self.faults {
            s += &format!("fault step {} {} at {} arg {}\n", f.step, KIND_NAMES[f.kind as usize], f.at, f.arg);
        }
        s
    }
    pub fn parse(text: &str) -> Result<(Plan, Option<Violation>), String> {
        let mut p = Plan::default();
        let mut class = None;
        let mut detail = String::new();
        let mut lines = text.lines();
        if lines.next() != Some("scarlet-sim replay v1") {
            return Err("not a replay file".into());
        }
        let bad = |l: &str| format!("bad line: {l}");
        for l in lines {
            let body = l.split('#').next().unwrap();
            let w: Vec<&str> = body.split_whitespace().collect();
            if w.is_empty() {
                continue;
            }
            let ints = |w: &[&str]| -> Result<Vec<i64>, String> { w.iter().map(|x| x.parse().map_err(|_| bad(l))).collect() };
            let uints = |w: &[&str]| -> Result<Vec<u64>, String> { w.iter().map(|x| x.parse().map_err(|_| bad(l))).collect() };
            match w[0] {
                "property" => p.property = w[1].into(),
                "seed" => p.seed = w[1].parse().map_err(|_| bad(l))?,
                "run" => p.run = w[1].parse().map_err(|_| bad(l))?,
                "class" => class = Some(l[6..].to_string()),
                "detail" => detail = l.get(7..).unwrap_or("").to_string(),
                "knobs" => p.knobs = ints(&w[1..])?,
                "batch" => p.batch = uints(&w[1..])?,
                "policy" => p.policy = Some(Policy::from_words(&uints(&w[1..])?)),
                "step" => {
                    let mut t = Step { id: w[1].parse().map_err(|_| bad(l))?, op: w[2].into(), i: vec![], f: vec![] };
                    let mut k = 3;
                    let mut mode = ' ';
                    while k < w.len() {
                        match w[k] {
                            "i" => mode = 'i',
                            "f" => mode = 'f',
                            x if mode == 'i' => t.i.push(x.parse().map_err(|_| bad(l))?),
                            x => t.f.push(f64::from_bits(u64::from_str_radix(x, 16).map_err(|_| bad(l))?)),
                        }
                        k += 1;
                    }
                    p.steps.push(t);
                }
                "fault" => {
                    let kind = KIND_NAMES.iter().position(|n| *n == w[3]).ok_or_else(|| bad(l))? as u8;
                    p.faults.push(Fault {
                        step: w[2].parse().map_err(|_| bad(l))?,
                        kind,
                        at: w[5].parse().map_err(|_| bad(l))?,
                        arg: w[7].parse().map_err(|_| bad(l))?,
                    });
                }
                _ => return Err(bad(l)),
            }
        }
        Ok((p, class.map(|c| Violation { class: c, detail })))
    }
}
