//! Several sessions in one process, interleaved (C18).

use crate::fw::*;
use crate::libread::*;
use crate::model::*;
use crate::proc::*;
use crate::refimg::*;
use crate::rng::{mix2, Rng};
use crate::scen_build::*;
use crate::scen_extract::*;
use crate::scen_read::read_disc_spec;
use crate::scen_rebuild::*;
use crate::simdisk::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex};

// ------------------------------------------------------------------ library sessions

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Sess {
    Build(DiscSpec),
    Read(DiscSpec, LayoutSpec, u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CSpec {
    pub sess: Vec<Sess>,
    pub amb: Vec<Ambient>,
    /// faults of session k
    pub plans: Vec<Vec<Plan>>,
    /// run inside each other (Some: at this fraction of the outer one) or side by side
    pub nest: Option<u64>,
    pub seed: u64,
    /// permille of hand-over points at which another session goes on
    pub switch: u64,
}

#[derive(Clone)]
struct Out {
    res: Result<(), String>,
    img: Option<Image>,
    ticks: Vec<Vec<u8>>,
    points: u64,
    ops: Ops,
}

fn run_session(s: &Sess, disk: &SimDisk) -> Out {
    let (res, ticks) = match s {
        Sess::Build(d) => {
            let mut logs = Vec::new();
            let r = build_all(d, disk, &mut logs).map_err(|e| e.to_string());
            (r, logs.iter().map(|l| l.borrow().ticks.iter().map(|t| t.percent).collect()).collect())
        }
        Sess::Read(d, _, seed) => {
            // the reference image lists partitions by table; take the order from there
            let rd = ref_disc_of(s).unwrap();
            let want: Vec<&PartSpec> = rd.parts.iter().map(|p| &p.spec).collect();
            (check_disc(disk.clone(), &d.header(), &d.region(), &want, TmdRule::Exact, &mut Rng::new(*seed)), vec![])
        }
    };
    let (img, points) = disk.with(|i| (i.img.clone(), i.steps));
    let ops = disk.ops();
    Out { res, img: matches!(s, Sess::Build(_)).then_some(img), ticks, points, ops }
}

fn ref_disc_of(s: &Sess) -> Option<RefDisc> {
    match s {
        Sess::Read(d, l, _) => Some(ref_disc(d, *l)),
        _ => None,
    }
}

struct Bst {
    turn: usize,
    alive: Vec<bool>,
    n: u64,
    rng: Rng,
    switch: u64,
    explicit: Option<HashMap<u64, usize>>,
    switched: Vec<(u64, usize)>,
}
struct Baton(Mutex<Bst>, Condvar);

impl Baton {
    fn wait(&self, me: usize) {
        let mut b = self.0.lock().unwrap();
        while b.turn != me {
            b = self.1.wait(b).unwrap();
        }
    }
    fn point(&self, me: usize) {
        let mut b = self.0.lock().unwrap();
        let n = b.n;
        b.n += 1;
        let to = match &b.explicit {
            Some(m) => m.get(&n).copied().filter(|t| b.alive.get(*t) == Some(&true)),
            None => {
                let p = b.switch;
                if b.rng.chance(p) {
                    let others: Vec<usize> = (0..b.alive.len()).filter(|i| b.alive[*i] && *i != me).collect();
                    if others.is_empty() {
                        None
                    } else {
                        Some(*b.rng.pick(&others))
                    }
                } else {
                    None
                }
            }
        };
        if let Some(t) = to {
            b.switched.push((n, t));
            b.turn = t;
            self.1.notify_all();
            while b.turn != me {
                b = self.1.wait(b).unwrap();
            }
        }
    }
    fn done(&self, me: usize) {
        let mut b = self.0.lock().unwrap();
        b.alive[me] = false;
        if let Some(t) = b.alive.iter().position(|a| *a) {
            b.turn = t;
        }
        self.1.notify_all();
    }
}

struct Side(Arc<Baton>, usize);
impl Yield for Side {
    fn yield_now(&self) {
        self.0.point(self.1);
    }
}

/// at its n-th point, runs something else to the end
struct Nest(Mutex<(u64, Option<Box<dyn FnOnce() + Send>>)>);
impl Yield for Nest {
    fn yield_now(&self) {
        let f = {
            let mut g = self.0.lock().unwrap();
            if g.0 == 0 {
                g.1.take()
            } else {
                g.0 -= 1;
                None
            }
        };
        if let Some(f) = f {
            f();
        }
    }
}

type Slot = Arc<Mutex<Option<Result<Out, Violation>>>>;

fn caught(f: impl FnOnce() -> Out) -> Result<Out, Violation> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(o) => Ok(o),
        Err(p) => match panic_outcome(p) {
            Outcome::Bad(v) => Err(v),
            Outcome::Harness(m) => Err(Violation { class: "harness".into(), msg: m }),
            Outcome::Held => unreachable!(),
        },
    }
}

pub struct Conc;
impl Typed for Conc {
    type Spec = CSpec;
    fn name(&self) -> &'static str {
        "sessions_interleaved"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _tier: Tier) -> CSpec {
        let n = *r.pick(&[2usize, 2, 3, 4]);
        let mut sess = Vec::new();
        for _ in 0..n {
            if r.chance(450) {
                let (d, l) = read_disc_spec(r, idx, true);
                sess.push(Sess::Read(d, l, r.next()));
            } else {
                let mut o = build_opts(r, idx);
                o.tree.max_nodes = o.tree.max_nodes.min(12);
                let np = *r.pick(&[1u64, 1, 2]);
                sess.push(Sess::Build(gen_disc(r, np, o)));
            }
        }
        if r.chance(250) {
            // twins: the same content twice at the same time
            sess[1] = sess[0].clone();
        }
        let mut plans = vec![vec![]; n];
        if r.chance(350) {
            let k = r.below(n as u64) as usize;
            for _ in 0..r.range(1, 2) {
                plans[k].push(gen_plan(r, k as u8));
            }
        }
        CSpec {
            amb: (0..n).map(|_| gen_ambient(r)).collect(),
            sess,
            plans,
            nest: r.chance(400).then(|| r.below(1_000_000)),
            seed: r.next(),
            switch: *r.pick(&[20u64, 100, 300, 700]),
        }
    }
    fn shrink(&self, s: &CSpec) -> Vec<CSpec> {
        let mut v = Vec::new();
        if s.sess.len() > 2 {
            for i in 0..s.sess.len() {
                let mut c = s.clone();
                c.sess.remove(i);
                c.amb.remove(i);
                c.plans.remove(i);
                v.push(c);
            }
        }
        for i in 0..s.sess.len() {
            let d = match &s.sess[i] {
                Sess::Build(d) | Sess::Read(d, ..) => d,
            };
            for d2 in shrink_disc(d) {
                if d2.parts.is_empty() {
                    continue;
                }
                let mut c = s.clone();
                match &mut c.sess[i] {
                    Sess::Build(d) | Sess::Read(d, ..) => *d = d2,
                }
                v.push(c);
            }
            if s.amb[i] != Ambient::default() {
                let mut c = s.clone();
                c.amb[i] = Ambient::default();
                v.push(c);
            }
        }
        v
    }
    fn run(&self, s: &CSpec, ctx: &mut Ctx) -> Result<(), Violation> {
        let n = s.sess.len();
        let start: Vec<Image> = s.sess.iter().map(|x| ref_disc_of(x).map(|d| d.img).unwrap_or_default()).collect();
        // alone: first without faults (to place them), then as planned
        let mut alone = Vec::new();
        let mut events = Vec::new();
        for k in 0..n {
            let mk = |ev: &[Event]| {
                let d = ctx.disk(k as u8, start[k].clone(), s.amb[k], ev);
                d.with(|i| i.max_steps = 20_000_000);
                d
            };
            let mut ev = Vec::new();
            if !s.plans[k].is_empty() {
                let o = run_session(&s.sess[k], &SimDisk::new(k as u8, start[k].clone()).ambient(s.amb[k]));
                ev = place(&s.plans[k], &o.ops);
            }
            let d = mk(&ev);
            let o = run_session(&s.sess[k], &d);
            if let (Err(e), true) = (&o.res, d.with(|i| i.hard == 0)) {
                return viol("alone-failed", format!("session {k} fails even alone: {e}"));
            }
            events.push(ev);
            alone.push(o);
        }
        // together
        let disks: Vec<SimDisk> = (0..n)
            .map(|k| {
                let d = ctx.disk(k as u8, start[k].clone(), s.amb[k], &events[k]);
                d.with(|i| i.max_steps = 20_000_000);
                d
            })
            .collect();
        let slots: Vec<Slot> = (0..n).map(|_| Arc::new(Mutex::new(None))).collect();
        let mut nested = 0;
        if let Some(f) = s.nest {
            // innermost first
            let mut inner: Option<Box<dyn FnOnce() + Send>> = None;
            for k in (0..n).rev() {
                if let Some(g) = inner.take() {
                    let at = alone[k].points * mix2(f, k as u64).min(u64::MAX).rem_euclid(1_000_000) / 1_000_000;
                    let y: Arc<dyn Yield> = Arc::new(Nest(Mutex::new((at, Some(g)))));
                    disks[k].with(|i| i.yielder = Some(y));
                    nested += 1;
                }
                let (se, d, slot) = (s.sess[k].clone(), disks[k].clone(), slots[k].clone());
                inner = Some(Box::new(move || {
                    let o = caught(|| run_session(&se, &d));
                    *slot.lock().unwrap() = Some(o);
                }));
            }
            inner.unwrap()();
        } else {
            let explicit = ctx.explicit.as_ref().map(|e| {
                e.events.iter().filter(|e| e.stream == 255).filter_map(|e| if let Act::Short(t) = e.act { Some((e.nth, t as usize)) } else { None }).collect::<HashMap<_, _>>()
            });
            let baton = Arc::new(Baton(
                Mutex::new(Bst { turn: (s.seed % n as u64) as usize, alive: vec![true; n], n: 0, rng: Rng::new(s.seed), switch: s.switch, explicit, switched: vec![] }),
                Condvar::new(),
            ));
            for k in 0..n {
                let y: Arc<dyn Yield> = Arc::new(Side(baton.clone(), k));
                disks[k].with(|i| i.yielder = Some(y));
            }
            std::thread::scope(|sc| {
                for k in 0..n {
                    let (b, d, slot, se) = (baton.clone(), disks[k].clone(), slots[k].clone(), &s.sess[k]);
                    sc.spawn(move || {
                        b.wait(k);
                        let o = caught(|| run_session(se, &d));
                        *slot.lock().unwrap() = Some(o);
                        b.done(k);
                    });
                }
            });
            let b = baton.0.lock().unwrap();
            ctx.count("fault.schedule.session_switch", b.switched.len() as u64);
            for (n, t) in &b.switched {
                ctx.trace = mix2(ctx.trace ^ n, *t as u64);
                ctx.fired.events.push(Event { stream: 255, op: Op::Provider, nth: *n, act: Act::Short(*t as u64) });
            }
        }
        for d in &disks {
            d.with(|i| i.yielder = None);
            ctx.absorb(d);
        }
        ctx.nontrivial = true;
        ctx.probe("nested", nested > 0);
        ctx.probe("one_session_with_faults", disks.iter().any(|d| d.with(|i| i.hard > 0)));
        for k in 0..n {
            let got = match slots[k].lock().unwrap().take() {
                Some(Ok(o)) => o,
                Some(Err(v)) => return Err(Violation { msg: format!("session {k}: {}", v.msg), ..v }),
                // the outer session failed before the point where this one was to start
                None => continue,
            };
            let a = &alone[k];
            if got.res != a.res {
                return viol("interference", format!("session {k}: {:?} alone, {:?} among others", a.res, got.res));
            }
            if got.ticks != a.ticks {
                return viol("interference", format!("session {k}: other progress than alone"));
            }
            if let (Some(x), Some(y)) = (&a.img, &got.img) {
                x.same(y).map_err(|e| Violation { class: "interference".into(), msg: format!("session {k}: other image than alone: {e}") })?;
                if let (Sess::Build(d), true) = (&s.sess[k], got.res.is_ok()) {
                    let want: Vec<&PartSpec> = d.parts.iter().collect();
                    verify_built(y, &disc_header_bytes(&d.header()), &d.region(), &want, Depth::Full).or_viol("wrong-disc")?;
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ Python sessions

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum PSess {
    Ex(ExSpec),
    Rb(DiscSpec),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct PySpec {
    pub sess: Vec<PSess>,
    /// session 1 reads the same disc file as session 0
    pub share: bool,
    /// 0 threads, 1 nested in a progress callback, 2 nested in a selection callback,
    /// 3 own extractor used in progress callback, 4 own extractor used in selection callback
    pub shape: u8,
    pub at: u64,
    /// callback behaviour of each session: 0 plain, 1 raises, 2 not callable, 3 KeyboardInterrupt
    pub cbs: Vec<u8>,
    pub baton: u64,
    pub io: Io,
}

fn cb_value(k: u8, at: u64) -> Value {
    match k {
        1 => json!({"mode": "raise", "at": at}),
        2 => json!({"mode": "none"}),
        3 => json!({"mode": "exit", "at": at}),
        _ => json!({"mode": "plain"}),
    }
}

pub struct PyConc;
impl Typed for PyConc {
    type Spec = PySpec;
    fn name(&self) -> &'static str {
        "python_sessions"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _tier: Tier) -> PySpec {
        let shape = *r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 4]);
        let n = match shape {
            0 => r.range(2, 3),
            1 | 2 => 2,
            _ => 1,
        };
        let mut sess = Vec::new();
        for k in 0..n {
            if r.chance(350) && !(k == 0 && shape >= 2) {
                let p = small_part(r, 0);
                sess.push(PSess::Rb(DiscSpec { seed: r.next(), title: "x".into(), parts: vec![p] }));
            } else {
                let mut e = Extract(Mode::RoundTrip).gen(r, idx * 4 + 1, Tier::Quick);
                e.old = false;
                e.lay.far = 0;
                if shape >= 2 {
                    if e.remove == 0 && shape != 3 {
                        e.remove = 300;
                    }
                    for p in e.disc.parts.iter_mut() {
                        if files(&p.tree).is_empty() {
                            p.tree.push(Node::F { name: "only".into(), len: 3000, seed: r.next(), pad: 0 });
                        }
                    }
                }
                sess.push(PSess::Ex(e));
            }
        }
        let mut io = gen_io(r);
        if shape == 0 && r.chance(150) {
            let p = gen_extract_plan(r);
            io.plans.push(p);
        }
        PySpec {
            share: r.chance(300),
            shape,
            at: *r.pick(&[0u64, 0, 1, 1, 2, 3, 5]),
            cbs: (0..n).map(|_| *r.pick(&[0u8, 0, 1, 1, 2, 3])).collect(),
            sess,
            baton: r.next() >> 1,
            io,
        }
    }
    fn shrink(&self, s: &PySpec) -> Vec<PySpec> {
        let mut v = Vec::new();
        if s.shape == 0 && s.sess.len() > 1 {
            for i in 0..s.sess.len() {
                let mut c = s.clone();
                c.sess.remove(i);
                c.cbs.remove(i);
                v.push(c);
            }
        }
        for i in 0..s.sess.len() {
            match &s.sess[i] {
                PSess::Rb(d) => {
                    for d2 in shrink_disc(d).into_iter().filter(|d| !d.parts.is_empty()) {
                        let mut c = s.clone();
                        c.sess[i] = PSess::Rb(d2);
                        v.push(c);
                    }
                }
                PSess::Ex(e) => {
                    for e2 in Extract(Mode::RoundTrip).shrink(e) {
                        let mut c = s.clone();
                        c.sess[i] = PSess::Ex(e2);
                        v.push(c);
                    }
                }
            }
        }
        v
    }
    fn run(&self, s: &PySpec, ctx: &mut Ctx) -> Result<(), Violation> {
        let mut sb = Sand::new(ctx);
        for d in ["iso", "src", "out"] {
            fs::create_dir(sb.path(d)).unwrap();
        }
        let n = s.sess.len();
        let mut sess = s.sess.clone();
        if s.share && n > 1 {
            let first = match &sess[0] {
                PSess::Ex(a) => Some((a.disc.clone(), a.lay)),
                _ => None,
            };
            if let (Some((d, l)), PSess::Ex(b)) = (first, &mut sess[1]) {
                b.disc = d;
                b.lay = l;
            }
        }
        let mut discs: Vec<Option<RefDisc>> = Vec::new();
        let mut isos: Vec<PathBuf> = Vec::new();
        let dests: Vec<PathBuf> = (0..n).map(|k| sb.path(&format!("out/{k}"))).collect();
        for k in 0..n {
            match &sess[k] {
                PSess::Ex(e) => {
                    let rd = ref_disc(&e.disc, e.lay);
                    let iso = sb.path(&format!("iso/{}", if s.share && k == 1 && matches!(sess[0], PSess::Ex(_)) { 0 } else { k }));
                    write_image(&rd.img, &iso);
                    isos.push(iso);
                    discs.push(Some(rd));
                }
                PSess::Rb(d) => {
                    let src = sb.path(&format!("src/{k}"));
                    write_source(&src, &d.parts[0], &d.region());
                    isos.push(src);
                    discs.push(None);
                }
            }
        }
        let steps = |k: usize, cb: Value| -> Vec<Value> {
            match &sess[k] {
                PSess::Ex(e) => extract_steps(e, discs[k].as_ref().unwrap(), 0, &isos[k], &dests[k], cb, false),
                PSess::Rb(_) => vec![json!({"op": "rebuild", "src": isos[k].to_str().unwrap(), "dest": dests[k].to_str().unwrap(), "cb": cb})],
            }
        };
        let elsewhere = sb.path("out/elsewhere");
        let plain = |k: usize| cb_value(s.cbs[k], s.at);
        let doc = match s.shape {
            0 => json!({"threads": (0..n).map(|k| steps(k, plain(k))).collect::<Vec<_>>(), "baton": s.baton}),
            1 => {
                let inner = steps(1, plain(1));
                json!({"steps": steps(0, json!({"mode": "nested", "at": s.at, "steps": inner}))})
            }
            3 => json!({"steps": steps(0, json!({"mode": "reenter", "at": s.at, "elsewhere": elsewhere.to_str().unwrap()}))}),
            _ => {
                let mut st = steps(0, plain(0));
                let mut put = false;
                for x in st.iter_mut() {
                    if x["op"] == json!("remove") && !put {
                        put = true;
                        x["at"] = json!(s.at);
                        if s.shape == 2 {
                            let inner = steps(1, plain(1));
                            x["steps"] = json!(inner);
                        } else {
                            x["elsewhere"] = json!(elsewhere.to_str().unwrap());
                        }
                    }
                }
                json!({"steps": st})
            }
        };
        let out = sb.path("out");
        let reset = || {
            let _ = fs::remove_dir_all(&out);
            fs::create_dir(&out).unwrap();
        };
        ctx.count("n.python_runs", 1);
        let r = sb.run(ctx, &Prog::Python(doc), &s.io, &reset)?;
        ctx.nontrivial = true;
        no_crash(&r)?;
        if let Some(e) = r.escapes().first() {
            return viol("escape", format!("tried to modify something outside the destination: {e}"));
        }
        if r.end != End::Exit(0) {
            return viol("abort", format!("the interpreter ended with {:?}: {}", r.end, r.err_line()));
        }
        let Some(v) = r.python() else { return viol("harness", format!("no result from the driver: {}", r.err_line())) };
        let faulty = r.hard > 0;
        let mut recs: Vec<Option<Vec<Value>>> = vec![None; n];
        if s.shape == 0 {
            for k in 0..n {
                recs[k] = v["threads"][k].as_array().cloned();
            }
            let order: Vec<u64> = v["order"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
            let sw = order.windows(2).filter(|w| w[0] != w[1]).count() as u64;
            ctx.count("fault.schedule.session_switch", sw);
            for x in &order {
                ctx.trace = mix2(ctx.trace, *x);
            }
            ctx.probe("threads_interleaved", sw > 2 * n as u64);
        } else {
            let st = v["steps"].as_array().cloned().unwrap_or_default();
            for x in &st {
                if let Some(a) = x["nested"].as_array() {
                    ctx.probe("nested_in_callback", true);
                    if n > 1 {
                        recs[1] = Some(a.clone());
                    }
                }
                if let Some(a) = x["inner"].as_array() {
                    ctx.probe("own_extractor_in_callback", true);
                    if let Some(bad) = a.iter().find(|z| **z != json!("refused")) {
                        return viol("reentry", format!("using an extractor inside its own callback: {bad} ({a:?})"));
                    }
                }
            }
            recs[0] = Some(st);
            if elsewhere.exists() {
                return viol("reentry", "using an extractor inside its own callback wrote files");
            }
        }
        for k in 0..n {
            let Some(rc) = &recs[k] else { continue };
            judge_one(&sess[k], discs[k].as_ref(), rc, &dests[k], faulty).map_err(|v| Violation { msg: format!("session {k}: {}", v.msg), ..v })?;
        }
        Ok(())
    }
}

fn judge_one(p: &PSess, rd: Option<&RefDisc>, recs: &[Value], dest: &Path, faulty: bool) -> Result<(), Violation> {
    match p {
        PSess::Ex(e) => {
            judge_extract(e, rd.unwrap(), recs, dest, &Default::default(), faulty)?;
        }
        PSess::Rb(d) => {
            let x = &recs[0];
            if let Some(c) = x["crash"].as_str() {
                return viol("panic", format!("rebuild: {c}: {}", x["msg"]));
            }
            if x["ok"] != json!(true) {
                if faulty {
                    return Ok(());
                }
                return viol("spurious-error", format!("rebuild failed though nothing was wrong: {}", x["msg"]));
            }
            let p = &d.parts[0];
            let want = PartSpec { tree: prune_empty(&p.tree), ..p.clone() };
            let img = read_image(dest).map_err(|e| Violation { class: "wrong-disc".into(), msg: e.to_string() })?;
            verify_built(&img, &outer_header(p), &d.region(), &[&want], Depth::Unordered).or_viol("wrong-disc")?;
        }
    }
    Ok(())
}
