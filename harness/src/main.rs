mod alloc;
mod env;
mod fw;
mod libread;
mod model;
mod proc;
mod props;
mod refimg;
mod rng;
mod scen_build;
mod scen_conc;
mod scen_copy;
mod scen_edit;
mod scen_extract;
mod scen_hist;
mod scen_read;
mod scen_rebuild;
mod scen_table;
mod scen_window;
mod simdisk;

use fw::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

#[derive(Serialize, Deserialize, Clone)]
struct Replay {
    property: String,
    scenario: String,
    seed: u64,
    index: u64,
    class: String,
    msg: String,
    spec: Value,
    schedule: Schedule,
    /// false: the schedule is derived from the spec (the process died before it could be recorded)
    explicit: bool,
    /// cases (scenario, index) that ran before this one in the same process, when the failure needs them
    #[serde(default)]
    before: Vec<(String, u64)>,
    #[serde(default)]
    thorough: bool,
    /// first case of the worker that saw it
    #[serde(default)]
    from: u64,
}

struct Args {
    tier: Tier,
    seed: u64,
    workers: u64,
    runs_pct: u64,
    wall: u64,
}

fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == name).and_then(|i| v.get(i + 1).cloned())
}

fn args() -> Args {
    let tier = arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    Args {
        tier: if tier == "thorough" { Tier::Thorough } else { Tier::Quick },
        seed: arg("--seed")
            .or_else(|| std::env::var("VERIF_SEED").ok())
            .and_then(|s| s.trim().parse().ok())
            .unwrap_or(1),
        workers: arg("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
        runs_pct: arg("--pct").and_then(|s| s.parse().ok()).unwrap_or(100),
        wall: arg("--wall").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3300 } else { 420 }),
    }
}

/// The list of cases of a check: (scenario, local index), scenarios evenly interleaved.
fn cases(p: &props::Prop, a: &Args) -> Vec<(usize, u64)> {
    let mut v: Vec<(u64, usize, u64)> = Vec::new();
    for (i, s) in p.scens.iter().enumerate() {
        let n = if a.tier == Tier::Quick { s.quick } else { s.thorough };
        let n = (n * a.runs_pct).div_ceil(100);
        for k in 0..n {
            v.push((k * 1_000_000 / n, i, k));
        }
    }
    v.sort();
    v.into_iter().map(|(_, s, k)| (s, k)).collect()
}

fn case_seed(seed: u64, prop: &str, scen: &str) -> u64 {
    let mut h = seed;
    for b in prop.bytes().chain(*b"/").chain(scen.bytes()) {
        h = rng::mix2(h, b as u64);
    }
    h
}

fn scratch_root() -> PathBuf {
    let p = std::env::var("SIMCHECK_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir().join(format!("simcheck-{}", std::process::id())));
    p
}

fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let id = std::env::args().nth(2).unwrap_or_default();
    match cmd.as_str() {
        "check" => std::process::exit(check(&id)),
        "worker" => worker(&id),
        "eval" => eval_file(Path::new(&id)),
        "replay" => std::process::exit(replay(Path::new(&id))),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: simcheck check <property> | replay <file>");
            std::process::exit(2);
        }
    }
}

fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

/// library code prints; keep that away from the protocol on stdout
fn take_stdout() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        std::fs::File::from_raw_fd(fd)
    }
}

fn worker(id: &str) {
    let mut out = take_stdout();
    limit_memory();
    install_panic_hook();
    let a = args();
    let p = props::get(id).expect("property");
    let k: u64 = arg("--k").unwrap().parse().unwrap();
    let start: u64 = arg("--from").and_then(|s| s.parse().ok()).unwrap_or(0);
    let list = cases(&p, &a);
    let scratch = scratch_root().join(format!("w{k}"));
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let timing = std::env::var("SIMCHECK_TIME").is_ok();
    let dump = std::env::var("SIMCHECK_TRACE").is_ok();
    for (gi, (si, li)) in list.iter().enumerate() {
        let gi = gi as u64;
        if gi % a.workers != k || gi < start {
            continue;
        }
        let sc = &p.scens[*si];
        writeln!(out, "S {gi}").unwrap();
        let seed = case_seed(a.seed, id, sc.sc.name());
        let spec = sc.sc.gen(seed, *li, a.tier);
        let mut ctx = Ctx::new(None, scratch.clone());
        let t0 = Instant::now();
        let o = evaluate(&*sc.sc, &spec, &mut ctx);
        if timing && t0.elapsed() > Duration::from_millis(500) {
            writeln!(out, "T {gi} {} #{li} {:?}", sc.sc.name(), t0.elapsed()).unwrap();
        }
        for (k, v) in &ctx.stats {
            *stats.entry(k.clone()).or_insert(0) += v;
        }
        *stats.entry(format!("runs.{}", sc.sc.name())).or_insert(0) += 1;
        *stats.entry("steps".into()).or_insert(0) += ctx.steps;
        if dump {
            writeln!(out, "T {gi} {:016x} {} {}", ctx.trace, ctx.steps, serde_json::to_string(&ctx.fired).unwrap().len()).unwrap();
        }
        match o {
            Outcome::Held => {
                let sample = if *li < 1 {
                    let mut s = serde_json::to_string(&json!({"scenario": sc.sc.name(), "index": li, "spec": spec, "fired": ctx.fired})).unwrap();
                    if s.len() > 6000 {
                        let mut cut = 6000;
                        while !s.is_char_boundary(cut) {
                            cut -= 1;
                        }
                        s.truncate(cut);
                        s = serde_json::to_string(&json!({"scenario": sc.sc.name(), "index": li, "truncated_case": s})).unwrap();
                    }
                    s
                } else {
                    String::new()
                };
                writeln!(out, "R {gi} {:016x} {} {}", ctx.trace, ctx.nontrivial as u8, sample).unwrap();
            }
            Outcome::Bad(v) => {
                let r = Replay {
                    property: id.into(),
                    scenario: sc.sc.name().into(),
                    seed: a.seed,
                    index: *li,
                    class: v.class,
                    msg: v.msg,
                    spec,
                    schedule: ctx.fired.clone(),
                    explicit: true,
                    before: Vec::new(),
                    thorough: a.tier != Tier::Quick,
                    from: start,
                };
                writeln!(out, "V {gi} {}", serde_json::to_string(&r).unwrap()).unwrap();
            }
            Outcome::Harness(m) => {
                writeln!(out, "H {gi} {} {}", sc.sc.name(), m.replace('\n', " ")).unwrap();
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    writeln!(out, "Z {}", serde_json::to_string(&stats).unwrap()).unwrap();
}

/// evaluate one case in this process, print the outcome
fn eval_file(f: &Path) {
    let mut out = take_stdout();
    limit_memory();
    install_panic_hook();
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
    let p = props::get(&r.property).expect("property");
    let sc = p.scens.iter().find(|s| s.sc.name() == r.scenario).expect("scenario");
    let scratch = scratch_root().join(format!("e{}", std::process::id()));
    for (name, i) in &r.before {
        let b = p.scens.iter().find(|s| s.sc.name() == *name).expect("scenario");
        let tier = if r.thorough { Tier::Thorough } else { Tier::Quick };
        let spec = b.sc.gen(case_seed(r.seed, &r.property, b.sc.name()), *i, tier);
        let mut ctx = Ctx::new(None, scratch.clone());
        let _ = evaluate(&*b.sc, &spec, &mut ctx);
    }
    let mut ctx = Ctx::new(if r.explicit { Some(r.schedule.clone()) } else { None }, scratch.clone());
    let o = evaluate(&*sc.sc, &r.spec, &mut ctx);
    let _ = std::fs::remove_dir_all(&scratch);
    let v = match o {
        Outcome::Held => json!({"held": true}),
        Outcome::Bad(v) => json!({"held": false, "class": v.class, "msg": v.msg, "fired": ctx.fired}),
        Outcome::Harness(m) => json!({"harness": m}),
    };
    writeln!(out, "{v}").unwrap();
}

struct Eval {
    class: String,
    msg: String,
    fired: Option<Schedule>,
}

/// runs a case in a fresh process; None = held (or the simulator failed)
fn eval_case(r: &Replay, tmp: &Path, timeout: Duration) -> Option<Eval> {
    let f = tmp.join("case.json");
    std::fs::write(&f, serde_json::to_string(r).unwrap()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("eval")
        .arg(&f)
        .env("SIMCHECK_SCRATCH", tmp)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    let mut so = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut s);
        s
    });
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > timeout {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let Some(st) = st else {
        return Some(Eval { class: "hang".into(), msg: "no end within the time limit".into(), fired: None });
    };
    let s = h.join().unwrap();
    if !st.success() {
        return Some(Eval { class: "abort".into(), msg: format!("the process died: {st}"), fired: None });
    }
    let v: Value = serde_json::from_str(s.trim()).ok()?;
    if v.get("held") == Some(&Value::Bool(false)) {
        return Some(Eval {
            class: v["class"].as_str().unwrap().into(),
            msg: v["msg"].as_str().unwrap().into(),
            fired: serde_json::from_value(v["fired"].clone()).ok(),
        });
    }
    None
}

fn minimise(mut best: Replay, tmp: &Path, budget: Duration) -> Replay {
    let t0 = Instant::now();
    let lim = Duration::from_secs(if best.class == "hang" { 30 } else { 60 });
    let p = props::get(&best.property).unwrap();
    let Some(sc) = p.scens.iter().find(|s| s.sc.name() == best.scenario) else { return best };
    let class = best.class.clone();
    let try_case = |c: Replay| -> Option<Replay> {
        let e = eval_case(&c, tmp, lim)?;
        if e.class != class {
            return None;
        }
        let mut c = c;
        c.msg = e.msg;
        if let (true, Some(f)) = (c.explicit, e.fired) {
            c.schedule = f;
        }
        Some(c)
    };
    loop {
        let mut progress = false;
        // schedule: drop chunks, then single events
        if best.explicit {
            let mut n = best.schedule.events.len().next_power_of_two().max(1);
            while n >= 1 && t0.elapsed() < budget {
                let mut i = 0;
                while i < best.schedule.events.len() && t0.elapsed() < budget {
                    let mut c = best.clone();
                    let end = (i + n).min(c.schedule.events.len());
                    c.schedule.events.drain(i..end);
                    match try_case(c) {
                        Some(c) if c.schedule.events.len() < best.schedule.events.len() => {
                            best = c;
                            progress = true;
                        }
                        _ => i += n,
                    }
                }
                n /= 2;
            }
            let mut i = 0;
            while i < best.schedule.proc_events.len() && t0.elapsed() < budget {
                let mut c = best.clone();
                c.schedule.proc_events.remove(i);
                match try_case(c) {
                    Some(c) if c.schedule.proc_events.len() < best.schedule.proc_events.len() => {
                        best = c;
                        progress = true;
                    }
                    _ => i += 1,
                }
            }
        }
        // workload
        'spec: loop {
            if t0.elapsed() > budget {
                break;
            }
            for s in sc.sc.shrink(&best.spec) {
                if t0.elapsed() > budget {
                    break 'spec;
                }
                let mut c = best.clone();
                c.spec = s;
                if let Some(c) = try_case(c) {
                    best = c;
                    progress = true;
                    continue 'spec;
                }
            }
            break;
        }
        if !progress || t0.elapsed() > budget {
            return best;
        }
    }
}

fn replay(f: &Path) -> i32 {
    let r: Replay = match std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {}", f.display());
            return 2;
        }
    };
    let tmp = scratch_root();
    std::fs::create_dir_all(&tmp).unwrap();
    let e = eval_case(&r, &tmp, Duration::from_secs(100));
    let _ = std::fs::remove_dir_all(&tmp);
    match e {
        Some(e) => {
            println!("{}: {}", e.class, e.msg);
            println!("VIOLATION property={} replay={}", r.property, f.display());
            1
        }
        None => {
            println!("the recorded case holds");
            0
        }
    }
}

/// a failure that a fresh process does not show: what ran before it in the same process
/// belongs to the history then, or the code has a source of nondeterminism no seam covers
fn with_history(r: Replay, gi: u64, list: &[(usize, u64)], p: &props::Prop, workers: u64, tmp: &Path) -> Option<(Replay, String)> {
    let t0 = Instant::now();
    let prior: Vec<(String, u64)> = (r.from..gi)
        .filter(|g| g % workers == gi % workers)
        .map(|g| (p.scens[list[g as usize].0].sc.name().to_string(), list[g as usize].1))
        .collect();
    let lim = Duration::from_secs(300);
    let mut n = 1;
    while n < 2 * prior.len() && t0.elapsed() < Duration::from_secs(240) {
        let mut c = r.clone();
        c.before = prior[prior.len().saturating_sub(n)..].to_vec();
        c.explicit = false;
        if let Some(e) = eval_case(&c, tmp, lim) {
            if e.class == c.class {
                let note = format!("needs the {} cases before it in the same process; {}: {}", c.before.len(), e.class, e.msg);
                return Some((c, note));
            }
        }
        n *= 4;
    }
    for explicit in [true, false, true, false, true, false] {
        let c = Replay { explicit, ..r.clone() };
        if let Some(e) = eval_case(&c, tmp, lim) {
            if e.class == c.class {
                return Some((c, format!("repeats in some fresh processes only; {}: {}", e.class, e.msg)));
            }
        }
    }
    // the same case with two outcomes: for the property that there is one, that is the violation
    if r.property == "C08" {
        return Some((r, "differs from one process to the next".into()));
    }
    None
}

enum Msg {
    Line(u64, String),
    End(u64, String),
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let a = args();
    let Some(p) = props::get(id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let list = cases(&p, &a);
    let total = list.len() as u64;
    let tmp = std::env::temp_dir().join(format!("simcheck-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    println!("simcheck {id} tier={:?} seed={} cases={total}", a.tier, a.seed);
    let (tx, rx) = mpsc::channel::<Msg>();
    let spawn = |k: u64, from: u64, tx: mpsc::Sender<Msg>| {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["worker", id, "--k", &k.to_string(), "--from", &from.to_string()])
            .args(["--seed", &a.seed.to_string(), "--workers", &a.workers.to_string(), "--pct", &a.runs_pct.to_string()])
            .args(["--tier", if a.tier == Tier::Quick { "quick" } else { "thorough" }])
            .env("SIMCHECK_SCRATCH", &tmp)
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let so = c.stdout.take().unwrap();
        let mut se = c.stderr.take().unwrap();
        let eh = std::thread::spawn(move || {
            let mut s = Vec::new();
            let _ = std::io::Read::read_to_end(&mut se, &mut s);
            String::from_utf8_lossy(&s).into_owned()
        });
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                let Ok(l) = l else { break };
                if tx.send(Msg::Line(k, l)).is_err() {
                    break;
                }
            }
            let e = eh.join().unwrap_or_default();
            let _ = tx.send(Msg::End(k, e));
        });
        c
    };
    let w = a.workers as usize;
    let mut kids: Vec<_> = (0..a.workers).map(|k| Some(spawn(k, 0, tx.clone()))).collect();
    let mut current: Vec<Option<(u64, Instant)>> = vec![None; w];
    let mut done = vec![false; w];
    let mut finished_ok = vec![false; w];
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut evaluations = 0u64;
    let mut nontrivial = 0u64;
    let mut samples: Vec<(u64, Value)> = Vec::new();
    let mut found: Option<(u64, Replay)> = None;
    let mut harness: Vec<String> = Vec::new();
    let mut truncated = false;
    let hang_limit = Duration::from_secs(120);
    let mk_dead = |gi: u64, class: &str, msg: String| -> Replay {
        let (si, li) = list[gi as usize];
        let sc = &p.scens[si];
        Replay {
            property: id.into(),
            scenario: sc.sc.name().into(),
            seed: a.seed,
            index: li,
            class: class.into(),
            msg,
            spec: sc.sc.gen(case_seed(a.seed, id, sc.sc.name()), li, a.tier),
            schedule: Schedule::default(),
            explicit: false,
            before: Vec::new(),
            thorough: a.tier != Tier::Quick,
            from: 0,
        }
    };
    let better = |found: &mut Option<(u64, Replay)>, gi: u64, r: Replay| {
        if found.as_ref().map_or(true, |f| gi < f.0) {
            *found = Some((gi, r));
        }
    };
    while done.iter().any(|d| !d) {
        match rx.recv_timeout(Duration::from_millis(300)) {
            Ok(Msg::Line(k, l)) => {
                let ku = k as usize;
                let mut it = l.splitn(3, ' ');
                let tag = it.next().unwrap_or("");
                let gi: u64 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
                let rest = it.next().unwrap_or("");
                match tag {
                    "S" => {
                        current[ku] = Some((gi, Instant::now()));
                        if found.as_ref().map_or(false, |f| gi > f.0) {
                            if let Some(c) = kids[ku].as_mut() {
                                let _ = c.kill();
                            }
                            finished_ok[ku] = true;
                        }
                    }
                    "R" => {
                        current[ku] = None;
                        evaluations += 1;
                        let mut it = rest.splitn(3, ' ');
                        let h = u64::from_str_radix(it.next().unwrap_or("0"), 16).unwrap_or(0);
                        if it.next() == Some("1") {
                            nontrivial += 1;
                            traces.insert(h);
                        }
                        if let Some(s) = it.next() {
                            if let Ok(v) = serde_json::from_str(s) {
                                samples.push((gi, v));
                            }
                        }
                    }
                    "V" => {
                        current[ku] = None;
                        evaluations += 1;
                        if let Ok(r) = serde_json::from_str::<Replay>(rest) {
                            better(&mut found, gi, r);
                        }
                    }
                    "H" => {
                        current[ku] = None;
                        harness.push(format!("case {gi}: {rest}"));
                    }
                    "T" => println!("{l}"),
                    "Z" => {
                        let body = l[2..].to_string();
                        if let Ok(m) = serde_json::from_str::<BTreeMap<String, u64>>(&body) {
                            for (k, v) in m {
                                *stats.entry(k).or_insert(0) += v;
                            }
                        }
                        finished_ok[ku] = true;
                    }
                    _ => {}
                }
            }
            Ok(Msg::End(k, err)) => {
                let ku = k as usize;
                let st = kids[ku].as_mut().map(|c| c.wait());
                if !finished_ok[ku] {
                    if let Some((gi, _)) = current[ku].take() {
                        evaluations += 1;
                        let line = err.lines().rev().find(|l| !l.trim().is_empty()).unwrap_or("").to_string();
                        better(&mut found, gi, mk_dead(gi, "abort", format!("the simulated process died ({:?}): {line}", st.map(|s| s.map(|s| s.to_string()).unwrap_or_default()))));
                    } else {
                        harness.push(format!("worker {k} ended early: {err}"));
                    }
                }
                done[ku] = true;
            }
            Err(_) => {}
        }
        // watchdog
        for ku in 0..w {
            if let Some((gi, t)) = current[ku] {
                if t.elapsed() > hang_limit && !finished_ok[ku] {
                    if let Some(c) = kids[ku].as_mut() {
                        let _ = c.kill();
                    }
                    finished_ok[ku] = true;
                    current[ku] = None;
                    better(&mut found, gi, mk_dead(gi, "hang", "the operation did not end".into()));
                }
            }
        }
        if t0.elapsed() > Duration::from_secs(a.wall) {
            truncated = true;
            for ku in 0..w {
                if !done[ku] {
                    finished_ok[ku] = true;
                    if let Some(c) = kids[ku].as_mut() {
                        let _ = c.kill();
                    }
                }
            }
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    if let Some((gi, r)) = found {
        violations = 1;
        println!("case {gi} ({} #{}): {}: {}", r.scenario, r.index, r.class, r.msg);
        // dead cases are confirmed in a fresh process first
        let confirmed = if r.explicit {
            true
        } else {
            match eval_case(&r, &tmp, Duration::from_secs(100)) {
                Some(e) => e.class == r.class,
                None => false,
            }
        };
        if !confirmed {
            println!("harness error: the failure of case {gi} does not repeat in a fresh process");
            code = 2;
        } else {
            let orig = r.clone();
            let secs = std::env::var("SIMCHECK_MIN_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
            let min = minimise(r, &tmp, Duration::from_secs(secs));
            let dir = Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let mut pick = None;
            let derived = Replay { explicit: false, schedule: Schedule::default(), ..orig.clone() };
            let orig2 = orig.clone();
            for c in [min, orig, derived] {
                if let Some(e) = eval_case(&c, &tmp, Duration::from_secs(100)) {
                    if e.class == c.class {
                        pick = Some(c);
                        break;
                    }
                }
            }
            match pick {
                Some(c) => {
                    let path = dir.join(format!("{id}-{}-{}.json", c.scenario, c.index));
                    std::fs::write(&path, serde_json::to_string_pretty(&c).unwrap()).unwrap();
                    println!("minimised: {} events; {}: {}", c.schedule.events.len() + c.schedule.proc_events.len(), c.class, c.msg);
                    println!("VIOLATION property={id} replay={}", path.display());
                    code = 1;
                }
                None => match with_history(orig2, gi, &list, &p, a.workers, &tmp) {
                    Some((c, note)) => {
                        let path = dir.join(format!("{id}-{}-{}.json", c.scenario, c.index));
                        std::fs::write(&path, serde_json::to_string_pretty(&c).unwrap()).unwrap();
                        println!("{note}");
                        println!("VIOLATION property={id} replay={}", path.display());
                        code = 1;
                    }
                    None => {
                        println!("harness error: the failure of case {gi} does not replay");
                        code = 2;
                    }
                },
            }
        }
    } else if !harness.is_empty() {
        for h in harness.iter().take(5) {
            println!("harness error: {h}");
        }
        code = 2;
    }
    // evidence
    samples.sort_by_key(|s| s.0);
    let faults: BTreeMap<_, _> = stats.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<_, _> = stats.iter().filter(|(k, _)| k.starts_with("probe.")).collect();
    let runs: BTreeMap<_, _> = stats.iter().filter(|(k, _)| k.starts_with("runs.")).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id,
        "tier": if a.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": traces.len(),
            "nontrivial_runs": nontrivial,
            "rule": p.rule,
            "samples": samples.into_iter().map(|s| s.1).take(6).collect::<Vec<_>>(),
            "runs_by_scenario": runs,
            "planned_cases": total,
            "cut_short_by_wall_clock": truncated,
            "faults_injected": faults,
            "rare_conditions_hit": probes,
            "simulated_time": {"io_steps": stats.get("steps").copied().unwrap_or(0), "note": "the system has no clock or timer; simulated time is counted in stream operations and system calls decided by the simulator"},
            "runs_per_hour_one_seed_each": (evaluations as f64 / explore_s * 3600.0) as u64,
            "distinct_interleavings_measure": "distinct_nontrivial counts different hashes over the complete sequence of simulator decisions and operation results (kind, position, length, outcome) of a run",
            "other": stats.iter().filter(|(k, _)| k.starts_with("n.")).collect::<BTreeMap<_, _>>(),
            "components": p.components,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&tmp);
    println!("{id}: {evaluations} runs, {} distinct, {:.1} s, exit {code}", traces.len(), wall);
    code
}
