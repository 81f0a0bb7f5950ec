//! The simulated environment of one thread: decides, for every machine operation,
//! member call, allocation and scheduling point of the library, whether a fault or a
//! switch happens there. Decisions are keyed by (step, counter within the step), so
//! removing a step from a plan does not move the faults of the others.

use crate::fpu::{self, Mode, Op};
use crate::prng::mix;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

pub const K_ROUND: u8 = 0; // one operation rounds the other way; arg = mode
pub const K_CRASH_FP: u8 = 1; // the computation is aborted at a machine operation
pub const K_CRASH_MEMBER: u8 = 2; // a caller-supplied member panics
pub const K_ALLOC: u8 = 3; // an allocation fails
pub const K_SWITCH: u8 = 4; // another thread is scheduled; arg = thread
pub const K_REENTER: u8 = 5; // a member issues a query of its own while being queried; arg = target
pub const K_CTRL: u8 = 6; // the control state of the thread is another one at this call; arg = register bits
pub const K_LIBM: u8 = 7; // a math-library function rounds the other way throughout the run; at = function, arg = mode
pub const NK: usize = 8;
pub const KIND_NAMES: [&str; NK] = ["round", "crash_fp", "crash_member", "alloc_fail", "switch", "reenter", "ctrl", "libm"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fault {
    pub step: u32,
    pub kind: u8,
    pub at: u32,
    pub arg: u32,
}

/// Swarm-style fault configuration of one random run.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Policy {
    pub seed: u64,
    /// per mille of machine operations that round differently
    pub round: u64,
    /// bit mask of the modes in use
    pub modes: u64,
    /// per mille of steps in which a fault of that kind is placed
    pub crash_fp: u64,
    pub crash_member: u64,
    pub alloc: u64,
    /// per mille of scheduling points
    pub switch: u64,
    /// per mille of member calls
    pub reenter: u64,
    /// per mille of calls
    pub ctrl: u64,
}
impl Policy {
    pub fn words(&self) -> Vec<u64> {
        vec![self.seed, self.round, self.modes, self.crash_fp, self.crash_member, self.alloc, self.switch, self.reenter, self.ctrl]
    }
    pub fn from_words(w: &[u64]) -> Policy {
        Policy { seed: w[0], round: w[1], modes: w[2], crash_fp: w[3], crash_member: w[4], alloc: w[5], switch: w[6], reenter: w[7], ctrl: w[8] }
    }
}

#[derive(Default)]
pub struct Env {
    libm_noted: u32,
    policy: Option<Policy>,
    explicit: HashMap<(u32, u8, u32), u32>,
    pub uniform: Option<Mode>,
    step: u32,
    n_fp: u32,
    n_member: u32,
    n_sched: u32,
    step_ops: u64,
    crash_fp_at: u32,
    crash_member_at: u32,
    pub fired: Vec<Fault>,
    pub ops: u64,
    pub member_calls: u64,
    pub lib_calls: u64,
    pub trace: u64,
}

const NEVER: u32 = u32::MAX;
const STEP_BUDGET: u64 = 2_000_000;

thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env::default());
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static A_ON: Cell<bool> = const { Cell::new(false) };
    static A_LEFT: Cell<u32> = const { Cell::new(NEVER) };
    static A_COUNT: Cell<u32> = const { Cell::new(0) };
    static A_FIRED: Cell<u32> = const { Cell::new(NEVER) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static SCHED: Cell<Option<fn(u32)>> = const { Cell::new(None) };
}

// ------------------------------------------------------------ allocator
pub struct SimAlloc;
#[inline]
fn alloc_fails() -> bool {
    A_ON.try_with(|on| {
        if !on.get() {
            return false;
        }
        let n = A_COUNT.get();
        A_COUNT.set(n + 1);
        if n == A_LEFT.get() {
            A_LEFT.set(NEVER);
            A_FIRED.set(n);
            return true;
        }
        false
    })
    .unwrap_or(false)
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if alloc_fails() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if alloc_fails() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if alloc_fails() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

// ------------------------------------------------------------ failures
#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    /// the simulator aborted the call
    Injected(u8),
    /// the library panicked on its own
    Panic(String),
    /// the call did not finish within the step budget
    Budget,
}
struct InjectedPanic(u8);
struct BudgetPanic;
struct AllocPanic;

pub fn init_process() {
    let loud = std::env::var_os("SIM_DEBUG").is_some();
    std::panic::set_hook(Box::new(move |i| {
        if loud {
            eprintln!("{i}");
        }
    }));
    std::alloc::set_alloc_error_hook(|_| {
        A_ON.set(false);
        panic_any(AllocPanic)
    });
    #[cfg(scarlet_sim)]
    {
        scarlet::math::sim::install_float_hook(hook);
    }
}

#[cfg(scarlet_sim)]
fn hook(op: scarlet::math::sim::FloatOp, a: f32, b: f32) -> f32 {
    use scarlet::math::sim::FloatOp as F;
    let op = match op {
        F::Add => Op::Add,
        F::Sub => Op::Sub,
        F::Mul => Op::Mul,
        F::Div => Op::Div,
        F::Rem => Op::Rem,
        F::Sqrt => Op::Sqrt,
        F::Sin => Op::Sin,
        F::Cos => Op::Cos,
        F::Tan => Op::Tan,
        F::Asin => Op::Asin,
        F::Acos => Op::Acos,
        F::Atan => Op::Atan,
        F::Atan2 => Op::Atan2,
    };
    fp32(op, a, b)
}

// ------------------------------------------------------------ control
pub fn reset(policy: Option<Policy>, faults: &[Fault], uniform: Option<Mode>) {
    ACTIVE.set(false);
    SCHED.set(None);
    ENV.with_borrow_mut(|e| {
        *e = Env { policy, uniform, ..Env::default() };
        for f in faults {
            e.explicit.insert((f.step, f.kind, f.at), f.arg);
        }
        e.crash_fp_at = NEVER;
        e.crash_member_at = NEVER;
    });
}
/// One rounding direction for the whole run.
pub fn set_uniform(m: Mode) {
    ENV.with_borrow_mut(|e| e.uniform = Some(m));
}
pub fn set_sched(f: Option<fn(u32)>) {
    SCHED.set(f);
}
pub fn take() -> Env {
    ENV.with_borrow_mut(std::mem::take)
}

fn place(seed: u64, step: u32, kind: u8, permille: u64, spans: &[u64]) -> u32 {
    let h = mix(mix(seed, step as u64), 0x1000 + kind as u64);
    if permille == 0 || h % 1000 >= permille {
        return NEVER;
    }
    let span = spans[(h >> 20) as usize % spans.len()];
    ((h >> 32) % span) as u32
}

/// Starts step `id`: counters restart, the faults of the step are placed.
pub fn begin(id: u32) {
    let alloc_at = ENV.with_borrow_mut(|e| {
        e.step = id;
        e.n_fp = 0;
        e.n_member = 0;
        e.n_sched = 0;
        e.step_ops = 0;
        match e.policy.clone() {
            Some(p) => {
                e.crash_fp_at = place(p.seed, id, K_CRASH_FP, p.crash_fp, &[2, 8, 32, 128, 512]);
                e.crash_member_at = place(p.seed, id, K_CRASH_MEMBER, p.crash_member, &[1, 3, 8]);
                place(p.seed, id, K_ALLOC, p.alloc, &[1, 2, 3, 6])
            }
            None => {
                let find = |k: u8, e: &Env| e.explicit.keys().filter(|x| x.0 == id && x.1 == k).map(|x| x.2).min().unwrap_or(NEVER);
                e.crash_fp_at = find(K_CRASH_FP, e);
                e.crash_member_at = find(K_CRASH_MEMBER, e);
                find(K_ALLOC, e)
            }
        }
    });
    A_LEFT.set(alloc_at);
    A_COUNT.set(0);
    A_FIRED.set(NEVER);
}

/// A call into the library under the simulator's control.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, Fail> {
    let was = ACTIVE.replace(true);
    A_ON.set(A_LEFT.get() != NEVER);
    let r = catch_unwind(AssertUnwindSafe(f));
    A_ON.set(false);
    ACTIVE.set(was);
    let alloc = A_FIRED.replace(NEVER);
    if QUIET.get() {
        // not part of the history
    } else {
        ENV.with_borrow_mut(|e| e.lib_calls += 1);
    }
    ENV.with_borrow_mut(|e| {
        if alloc != NEVER {
            let f = Fault { step: e.step, kind: K_ALLOC, at: alloc, arg: 0 };
            e.fired.push(f);
        }
    });
    r.map_err(|p| {
        if let Some(i) = p.downcast_ref::<InjectedPanic>() {
            Fail::Injected(i.0)
        } else if p.downcast_ref::<AllocPanic>().is_some() {
            Fail::Injected(K_ALLOC)
        } else if p.downcast_ref::<BudgetPanic>().is_some() {
            Fail::Budget
        } else {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Fail::Panic(m.chars().take(200).map(|c| if c == '\n' { ' ' } else { c }).collect())
        }
    })
}

/// Whether a panic is one the simulator started.
pub fn is_planned(p: &(dyn std::any::Any + Send)) -> bool {
    p.is::<InjectedPanic>() || p.is::<AllocPanic>() || p.is::<BudgetPanic>()
}

/// A call into the library on behalf of an oracle: the run's constant rounding mode
/// applies, nothing else is injected and nothing is counted.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool, u32);
    impl Drop for G {
        fn drop(&mut self) {
            QUIET.set(self.0);
            A_LEFT.set(self.1);
        }
    }
    let _g = G(QUIET.replace(true), A_LEFT.replace(NEVER));
    f()
}
/// faults of this thread so far
pub fn fired() -> usize {
    ENV.with_borrow(|e| e.fired.len())
}
/// whether a member called back into the library since then
pub fn reentered(since: usize) -> bool {
    ENV.with_borrow(|e| e.fired[since.min(e.fired.len())..].iter().any(|f| f.kind == K_REENTER))
}
/// machine operations of this thread so far
pub fn ops() -> u64 {
    ENV.with_borrow(|e| e.ops)
}
pub fn is_quiet() -> bool {
    QUIET.get()
}

/// Runs simulator or caller code that is reached from inside the library without
/// counting it as library code.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool, bool);
    impl Drop for G {
        fn drop(&mut self) {
            ACTIVE.set(self.0);
            A_ON.set(self.1 && A_LEFT.get() != NEVER);
        }
    }
    let _g = G(ACTIVE.replace(false), A_ON.replace(false));
    f()
}
/// Back into the library from caller code (a query issued by a member).
pub fn inside<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool, bool);
    impl Drop for G {
        fn drop(&mut self) {
            ACTIVE.set(self.0);
            A_ON.set(self.1);
        }
    }
    let _g = G(ACTIVE.replace(true), A_ON.replace(A_LEFT.get() != NEVER));
    f()
}
pub fn is_active() -> bool {
    ACTIVE.get()
}

fn sched_point() {
    if let Some(f) = SCHED.get() {
        let n = ENV.with_borrow_mut(|e| {
            e.n_sched += 1;
            e.n_sched - 1
        });
        let on = A_ON.replace(false);
        let was = ACTIVE.replace(false);
        f(n);
        ACTIVE.set(was);
        A_ON.set(on);
    }
}

/// Where the scheduler wants to know whether to switch at this point.
pub fn decide_switch(n: u32, others: u32) -> Option<u32> {
    ENV.with_borrow_mut(|e| {
        let step = e.step;
        let r = match &e.policy {
            Some(p) => {
                let h = mix(mix(p.seed, step as u64), 0x9_0000_0000 + n as u64);
                if h % 1000 < p.switch {
                    Some((h >> 32) as u32 % others.max(1))
                } else {
                    None
                }
            }
            None => e.explicit.get(&(step, K_SWITCH, n)).copied(),
        };
        if let Some(a) = r {
            e.fired.push(Fault { step, kind: K_SWITCH, at: n, arg: a });
        }
        r
    })
}

enum Decision {
    Mode(Mode, u32),
    Crash,
    Budget,
}
/// `libm`: mode of a math-library call. A math library is a fixed, monotone function,
/// so its direction is chosen once per run and function, not per call.
fn decide_fp(op: Op) -> Decision {
    if QUIET.get() {
        return ENV.with_borrow(|e| Decision::Mode(e.uniform.unwrap_or(Mode::Near), NEVER));
    }
    sched_point();
    ENV.with_borrow_mut(|e| {
        let n = e.n_fp;
        e.n_fp += 1;
        e.ops += 1;
        e.step_ops += 1;
        if e.step_ops > STEP_BUDGET {
            return Decision::Budget;
        }
        if n == e.crash_fp_at {
            e.crash_fp_at = NEVER;
            let f = Fault { step: e.step, kind: K_CRASH_FP, at: n, arg: 0 };
            e.fired.push(f);
            return Decision::Crash;
        }
        if let Some(m) = e.uniform {
            return Decision::Mode(m, NEVER);
        }
        let m = match &e.policy {
            Some(p) if p.round > 0 => {
                let h = if op.is_libm() { mix(p.seed, 0xb_0000_0000 + op as u64) } else { mix(mix(p.seed, e.step as u64), n as u64) };
                if h % 1000 < p.round || op.is_libm() && h >> 20 & 1 == 1 {
                    let set: [Mode; 3] = [Mode::Down, Mode::Up, Mode::Zero];
                    let mut k = (h >> 32) as usize % 3;
                    for _ in 0..3 {
                        if p.modes >> k & 1 == 1 {
                            break;
                        }
                        k = (k + 1) % 3;
                    }
                    set[k]
                } else {
                    Mode::Near
                }
            }
            Some(_) => Mode::Near,
            None if e.explicit.is_empty() => Mode::Near,
            None => match e.explicit.get(&if op.is_libm() { (0, K_LIBM, op as u32) } else { (e.step, K_ROUND, n) }) {
                Some(a) => fpu::MODES[*a as usize & 3],
                None => Mode::Near,
            },
        };
        Decision::Mode(m, n)
    })
}
fn note_round(n: u32, m: Mode, op: Op) {
    if n == NEVER {
        return;
    }
    ENV.with_borrow_mut(|e| {
        if op.is_libm() {
            if e.libm_noted >> op as u32 & 1 == 0 {
                e.libm_noted |= 1 << op as u32;
                let f = Fault { step: 0, kind: K_LIBM, at: op as u32, arg: fpu::MODES.iter().position(|x| *x == m).unwrap() as u32 };
                e.fired.push(f)
            }
            return;
        }
        let f = Fault { step: e.step, kind: K_ROUND, at: n, arg: fpu::MODES.iter().position(|x| *x == m).unwrap() as u32 };
        e.fired.push(f)
    })
}

pub fn fp32(op: Op, a: f32, b: f32) -> f32 {
    if !ACTIVE.get() {
        return fpu::native32(op, a, b);
    }
    match decide_fp(op) {
        Decision::Crash => panic_any(InjectedPanic(K_CRASH_FP)),
        Decision::Budget => panic_any(BudgetPanic),
        Decision::Mode(Mode::Near, _) => fpu::native32(op, a, b),
        Decision::Mode(m, n) => {
            let r = fpu::exec32(op, a, b, m);
            if r.to_bits() != fpu::native32(op, a, b).to_bits() {
                note_round(n, m, op);
            }
            r
        }
    }
}
pub fn fp64(op: Op, a: f64, b: f64) -> f64 {
    if !ACTIVE.get() {
        return fpu::native64(op, a, b);
    }
    match decide_fp(op) {
        Decision::Crash => panic_any(InjectedPanic(K_CRASH_FP)),
        Decision::Budget => panic_any(BudgetPanic),
        Decision::Mode(Mode::Near, _) => fpu::native64(op, a, b),
        Decision::Mode(m, n) => {
            let r = fpu::exec64(op, a, b, m);
            if r.to_bits() != fpu::native64(op, a, b).to_bits() {
                note_round(n, m, op);
            }
            r
        }
    }
}

/// A conversion between number formats; `f` performs it in the given direction.
pub fn convert<R: PartialEq>(f: impl Fn(Mode) -> R) -> R {
    if !ACTIVE.get() {
        return f(Mode::Near);
    }
    match decide_fp(Op::Cvt) {
        Decision::Crash => panic_any(InjectedPanic(K_CRASH_FP)),
        Decision::Budget => panic_any(BudgetPanic),
        Decision::Mode(Mode::Near, _) => f(Mode::Near),
        Decision::Mode(m, n) => {
            let r = f(m);
            if r != f(Mode::Near) {
                note_round(n, m, Op::Cvt);
            }
            r
        }
    }
}

/// A caller-supplied member was called. May panic; returns the re-entrancy target.
pub fn member_call() -> Option<u32> {
    if QUIET.get() {
        return None;
    }
    sched_point();
    let (crash, re) = ENV.with_borrow_mut(|e| {
        let n = e.n_member;
        e.n_member += 1;
        e.member_calls += 1;
        e.step_ops += 50;
        if n == e.crash_member_at {
            e.crash_member_at = NEVER;
            let f = Fault { step: e.step, kind: K_CRASH_MEMBER, at: n, arg: 0 };
            e.fired.push(f);
            return (true, None);
        }
        let step = e.step;
        let r = match &e.policy {
            Some(p) if p.reenter > 0 => {
                let h = mix(mix(p.seed, step as u64), 0x5_0000_0000 + n as u64);
                if h % 1000 < p.reenter {
                    Some((h >> 32) as u32 & 0xffff)
                } else {
                    None
                }
            }
            Some(_) => None,
            None => e.explicit.get(&(step, K_REENTER, n)).copied(),
        };
        if let Some(a) = r {
            e.fired.push(Fault { step, kind: K_REENTER, at: n, arg: a });
        }
        (false, r)
    });
    if crash {
        panic_any(InjectedPanic(K_CRASH_MEMBER));
    }
    ENV.with_borrow(|e| {
        if e.step_ops > STEP_BUDGET {
            panic_any(BudgetPanic)
        }
    });
    re
}

/// The mode every operation of plain hardware types runs in during a library call
/// (used where the float type cannot be replaced): the fault is keyed to operation 0.
pub fn plain_mode() -> Mode {
    ENV.with_borrow_mut(|e| {
        if let Some(m) = e.uniform {
            return m;
        }
        match &e.policy {
            Some(p) if p.round > 0 => {
                let h = mix(mix(p.seed, e.step as u64), 0x7_0000_0000);
                let m = fpu::MODES[(h >> 32) as usize % 4];
                if m != Mode::Near {
                    let f = Fault { step: e.step, kind: K_ROUND, at: 0, arg: fpu::MODES.iter().position(|x| *x == m).unwrap() as u32 };
                    e.fired.push(f);
                }
                m
            }
            Some(_) => Mode::Near,
            None => match e.explicit.get(&(e.step, K_ROUND, 0)) {
                Some(a) => fpu::MODES[*a as usize & 3],
                None => Mode::Near,
            },
        }
    })
}

/// The floating-point control state in which call `n` of the step happens.
pub fn ctrl_state(n: u32) -> u32 {
    ENV.with_borrow_mut(|e| {
        let step = e.step;
        let csr = match &e.policy {
            Some(p) => {
                let h = mix(mix(p.seed, step as u64), 0xc_0000_0000 + n as u64);
                if h % 1000 >= p.ctrl {
                    return 0x1f80;
                }
                let k = (h >> 32) as u32;
                0x1f80 | (k & 3) << 13 | if k & 4 != 0 { fpu::FTZ } else { 0 } | if k & 8 != 0 { fpu::DAZ } else { 0 }
            }
            None => match e.explicit.get(&(step, K_CTRL, n)) {
                Some(a) => (*a & 0xe040) | 0x1f80,
                None => return 0x1f80,
            },
        };
        if csr != 0x1f80 {
            e.fired.push(Fault { step, kind: K_CTRL, at: n, arg: csr });
        }
        csr
    })
}
