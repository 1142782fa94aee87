//! Run framework: one case = one spec + one schedule; violations, statistics, shrinking.

use crate::simdisk::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::PathBuf;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Violation {
    /// what kind of failure: minimisation keeps this
    pub class: String,
    pub msg: String,
}

pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), msg: msg.into() })
}

pub trait OrViol<T> {
    fn or_viol(self, class: &str) -> Result<T, Violation>;
}
impl<T, E: std::fmt::Display> OrViol<T> for Result<T, E> {
    fn or_viol(self, class: &str) -> Result<T, Violation> {
        self.map_err(|e| Violation { class: class.into(), msg: format!("{e}") })
    }
}

/// Explicit schedule for replay: stream events (L1) and process events (L2).
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Schedule {
    pub events: Vec<Event>,
    pub proc_events: Vec<String>,
}

pub struct Ctx {
    pub explicit: Option<Schedule>,
    pub fired: Schedule,
    pub stats: BTreeMap<String, u64>,
    pub trace: u64,
    pub steps: u64,
    pub nontrivial: bool,
    pub scratch: PathBuf,
    /// disks whose events have not been collected yet
    open: RefCell<Vec<SimDisk>>,
}

impl Ctx {
    pub fn new(explicit: Option<Schedule>, scratch: PathBuf) -> Self {
        Ctx {
            explicit,
            fired: Schedule::default(),
            stats: BTreeMap::new(),
            trace: 0,
            steps: 0,
            nontrivial: false,
            scratch,
            open: RefCell::new(Vec::new()),
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn probe(&mut self, k: &str, hit: bool) {
        *self.stats.entry(format!("probe.{k}")).or_insert(0) += hit as u64;
    }
    /// a disk whose behaviour is ambient + planned faults, or the explicit replay events
    pub fn disk(&self, stream: u8, img: Image, ambient: Ambient, planned: &[Event]) -> SimDisk {
        let d = SimDisk::new(stream, img).ambient(ambient);
        match &self.explicit {
            Some(s) => d.set_events(&s.events, true),
            None => d.set_events(planned, false),
        }
        self.open.borrow_mut().push(d.clone());
        d
    }
    /// collect what a disk did
    pub fn absorb(&mut self, d: &SimDisk) {
        self.open.borrow_mut().retain(|o| !std::sync::Arc::ptr_eq(&o.0, &d.0));
        let (fired, trace, steps, full) = d.with(|i| {
            let f = std::mem::take(&mut i.fired);
            let full = std::mem::take(&mut i.full_hits);
            (f, i.trace, std::mem::take(&mut i.steps), full)
        });
        self.trace = crate::rng::mix2(self.trace, trace);
        self.steps += steps;
        if full > 0 {
            self.count("fault.disk_full", full);
        }
        for e in &fired {
            self.count(&format!("fault.{:?}.{}", e.op, e.act.label()).to_lowercase(), 1);
        }
        self.fired.events.extend(fired);
    }
}

/// planned fault with its place given as a fraction of the fault-free run
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub stream: u8,
    pub op: Op,
    /// millionths of the number of such operations in the fault-free run; from a million
    /// on, of those that move (or position for) a large piece of data; from two million on,
    /// of the seeks that move and of the transfers after them; from three million on, one of
    /// the last few
    pub frac: u64,
    pub act: Act,
}

pub fn place(plan: &[Plan], ops: &Ops) -> Vec<Event> {
    plan.iter()
        .filter_map(|p| {
            let c = ops.counts[p.op as usize];
            if c == 0 {
                return None;
            }
            let f = p.frac % 1_000_000;
            let list: &[u64] = match p.frac / 1_000_000 {
                1 => &ops.big[p.op as usize],
                2 => &ops.jump[p.op as usize],
                _ => &[],
            };
            let nth = if p.frac >= 3_000_000 {
                c - 1 - (f % 24).min(c - 1)
            } else if !list.is_empty() {
                list[(f * list.len() as u64 / 1_000_000) as usize]
            } else {
                (f * c / 1_000_000).min(c - 1)
            };
            Some(Event { stream: p.stream, op: p.op, nth, act: p.act })
        })
        .collect()
}

pub trait Scenario: Sync + Send {
    fn name(&self) -> &'static str;
    fn gen(&self, seed: u64, idx: u64, tier: Tier) -> Value;
    fn run(&self, spec: &Value, ctx: &mut Ctx) -> Result<(), Violation>;
    fn shrink(&self, spec: &Value) -> Vec<Value>;
}

/// glue from typed scenarios
pub trait Typed: Sync + Send {
    type Spec: Serialize + for<'a> Deserialize<'a> + Clone;
    fn name(&self) -> &'static str;
    fn gen(&self, r: &mut crate::rng::Rng, idx: u64, tier: Tier) -> Self::Spec;
    fn run(&self, s: &Self::Spec, ctx: &mut Ctx) -> Result<(), Violation>;
    fn shrink(&self, _s: &Self::Spec) -> Vec<Self::Spec> {
        Vec::new()
    }
}

pub struct T<X>(pub X);
impl<X: Typed> Scenario for T<X> {
    fn name(&self) -> &'static str {
        self.0.name()
    }
    fn gen(&self, seed: u64, idx: u64, tier: Tier) -> Value {
        let mut r = crate::rng::Rng::new(crate::rng::mix2(seed, idx));
        serde_json::to_value(self.0.gen(&mut r, idx, tier)).unwrap()
    }
    fn run(&self, spec: &Value, ctx: &mut Ctx) -> Result<(), Violation> {
        let s: X::Spec = serde_json::from_value(spec.clone()).expect("spec");
        self.0.run(&s, ctx)
    }
    fn shrink(&self, spec: &Value) -> Vec<Value> {
        let s: X::Spec = serde_json::from_value(spec.clone()).expect("spec");
        self.0.shrink(&s).into_iter().map(|s| serde_json::to_value(s).unwrap()).collect()
    }
}

#[derive(Debug)]
pub enum Outcome {
    Held,
    Bad(Violation),
    /// the simulator itself went wrong
    Harness(String),
}

use std::cell::RefCell;
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let msg = if let Some(o) = p.downcast_ref::<OverBudget>() {
            format!("more than {} I/O steps", o.0 - 1)
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

/// turns a caught panic into a violation or a harness error
pub fn panic_outcome(payload: Box<dyn std::any::Any + Send>) -> Outcome {
    if let Some(s) = payload.downcast_ref::<Violation>() {
        return Outcome::Bad(s.clone());
    }
    let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
    if payload.downcast_ref::<OverBudget>().is_some() {
        return Outcome::Bad(Violation { class: "step-budget".into(), msg });
    }
    if loc.starts_with("src/") || loc.contains("/verif/harness/") {
        return Outcome::Harness(format!("{loc}: {msg}"));
    }
    // file name without the line: stable under edits
    let file = loc.split(':').next().unwrap_or("").to_string();
    Outcome::Bad(Violation { class: "panic".into(), msg: format!("panicked at {file} ({loc}): {msg}") })
}

pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default()
}

/// One run, in a thread of its own: what the standard library keeps per thread (hash keys) starts
/// afresh, and time and randomness come from the seed.
pub fn evaluate(sc: &dyn Scenario, spec: &Value, ctx: &mut Ctx) -> Outcome {
    struct Lend<T>(T);
    unsafe impl<T> Send for Lend<T> {}
    // the caller waits for the thread, nothing is ever used by two threads at once
    let lent = Lend((sc as *const dyn Scenario, ctx as *mut Ctx));
    let mut seed = 0x1234;
    for c in spec.to_string().as_bytes().chunks(8) {
        let mut b = [0; 8];
        b[..c.len()].copy_from_slice(c);
        seed = crate::rng::mix2(seed, u64::from_le_bytes(b));
    }
    std::thread::scope(|t| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(t, move || {
                let lent = lent;
                let Lend((sc, ctx)) = lent;
                crate::env::enter(seed);
                let (sc, ctx) = unsafe { (&*sc, &mut *ctx) };
                let o = evaluate_here(sc, spec, ctx);
                let (time, random) = crate::env::asked();
                if time > 0 {
                    ctx.count("env.time_queries", time);
                }
                if random > 0 {
                    ctx.count("env.random_bytes", random);
                }
                o
            })
            .expect("thread")
            .join()
    })
    .unwrap_or_else(|_| Outcome::Harness("the run's thread ended".into()))
}

fn evaluate_here(sc: &dyn Scenario, spec: &Value, ctx: &mut Ctx) -> Outcome {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sc.run(spec, ctx)));
    if !matches!(r, Ok(Ok(()))) {
        // the run was left early: what its disks did belongs to the schedule
        let open = std::mem::take(&mut *ctx.open.borrow_mut());
        for d in open {
            ctx.absorb(&d);
        }
    }
    match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(v)) => {
            if v.class == "harness" {
                Outcome::Harness(v.msg)
            } else {
                Outcome::Bad(v)
            }
        }
        Err(p) => panic_outcome(p),
    }
}
