//! Running the real programs (iso-tool, Python module) under the system-call simulator.

use crate::fw::*;
use crate::simdisk::{Ambient, Image, PAGE};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::ffi::OsString;
use std::fs;
use std::io;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::FileExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const KINDS: [&str; 12] = ["open", "read", "write", "lseek", "stat", "readdir", "opendir", "mkdir", "sync", "truncate", "close", "other"];
pub const ACTS: [&str; 11] = ["", "short", "eintr", "error_once", "error_lasting", "torn_write", "zero_transfer_once", "zero_transfer_lasting", "crash", "swap", "error_lasting_one_kind"];
pub const K_OPEN: u8 = 0;
pub const K_READ: u8 = 1;
pub const K_WRITE: u8 = 2;
pub const K_LSEEK: u8 = 3;
pub const K_STAT: u8 = 4;
pub const K_READDIR: u8 = 5;
pub const K_OPENDIR: u8 = 6;
pub const K_MKDIR: u8 = 7;
pub const K_SYNC: u8 = 8;
pub const K_TRUNC: u8 = 9;
pub const A_ERR: u8 = 3;
pub const A_ERRFOREVER: u8 = 4;
pub const A_TORN: u8 = 5;
pub const A_ZERO: u8 = 6;
pub const A_ZEROFOREVER: u8 = 7;
pub const A_CRASH: u8 = 8;
pub const A_SWAP: u8 = 9;
pub const A_ERRKIND: u8 = 10;

/// failures that last, of the sort a program may be tempted to wait out
pub fn stubborn(r: &mut crate::rng::Rng, plans: &mut [PPlan]) {
    if r.chance(500) {
        if let Some(p) = plans.first_mut() {
            p.act = *r.pick(&[A_ERRKIND, A_ERRKIND, A_ERRFOREVER]);
            p.arg = *r.pick(&[11u64, 11, 11, 110, 16, 28, 24, 12, 5, 116]);
        }
    }
}

/// source image, source folder, destination, everything else in the scratch folder
pub const C_ISO: u8 = 0;
pub const C_SRC: u8 = 1;
pub const C_DST: u8 = 2;
pub const C_REST: u8 = 3;

const NK: usize = 12;
const NC: usize = 4;
const MAXFIRED: usize = 65536;
const HDR: usize = (10 + 4) * 8 + NC * NK * 8;
const MAXJUMP: usize = 8192;
const FIRED_OFF: usize = HDR + 16 + MAXJUMP * 24;
const TEXT_OFF: usize = FIRED_OFF + MAXFIRED * 32;
const LOG_LEN: u64 = (TEXT_OFF + (1 << 20)) as u64;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct PEvent {
    pub run: u8,
    pub kind: u8,
    pub cls: u8,
    pub nth: u64,
    pub act: u8,
    pub arg: u64,
}

impl PEvent {
    pub fn show(&self) -> String {
        format!("run {} {} class {} nth {} {} {}", self.run, KINDS[self.kind as usize], self.cls, self.nth, ACTS[self.act as usize], self.arg)
    }
    pub fn parse(s: &str) -> Option<PEvent> {
        let v: Vec<&str> = s.split(' ').collect();
        Some(PEvent {
            run: v.get(1)?.parse().ok()?,
            kind: KINDS.iter().position(|k| Some(k) == v.get(2))? as u8,
            cls: v.get(4)?.parse().ok()?,
            nth: v.get(6)?.parse().ok()?,
            act: ACTS.iter().position(|k| Some(k) == v.get(7))? as u8,
            arg: v.get(8)?.parse().ok()?,
        })
    }
}

fn place(frac: u64, n: u64, jumps: &[(u64, u64)]) -> u64 {
    match frac {
        // where a file is opened, first used or used at another place: folder first, then the place
        3_000_000.. if !jumps.is_empty() => {
            let x = crate::rng::mix2(frac, 77);
            let mut dirs: Vec<u64> = jumps.iter().map(|j| j.1).collect();
            dirs.sort();
            dirs.dedup();
            let d = dirs[(x >> 32) as usize % dirs.len()];
            let v: Vec<u64> = jumps.iter().filter(|j| j.1 == d).map(|j| j.0).collect();
            v[(x & 0xFFFF_FFFF) as usize % v.len()]
        }
        3_000_000.. => (frac - 3_000_000) * n / 1_000_000,
        0..=999_999 => frac * n / 1_000_000,
        1_000_000..=1_999_999 => n - 1 - (frac - 1_000_000).min(n - 1),
        _ => frac - 2_000_000,
    }
    .min(n - 1)
}

/// a fault placed as a fraction of the calls of the fault-free run
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct PPlan {
    pub kind: u8,
    pub cls: u8,
    pub frac: u64,
    pub act: u8,
    pub arg: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Io {
    pub amb: [Ambient; 4],
    pub dirseed: u64,
    pub rndseed: u64,
    pub plans: Vec<PPlan>,
    /// destination capacity in millionths of what the fault-free run writes
    pub cap: Option<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    /// killed by the simulator (planned)
    Crash,
    OverBudget,
    Timeout,
}

pub struct PRes {
    pub end: End,
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub counts: [[u64; NK]; NC],
    pub steps: u64,
    pub trace: u64,
    pub hard: u64,
    pub full: u64,
    pub wbytes: [u64; 4],
    pub fired: Vec<PEvent>,
    jump: Vec<(u32, u32, u64, u64)>,
    clocks: u64,
    pub text: Vec<String>,
    pub maxrss: u64,
}

impl PRes {
    fn jumps(&self, kind: u8, cls: u8) -> Vec<(u64, u64)> {
        self.jump.iter().filter(|j| j.0 == kind as u32 && j.1 == cls as u32).map(|j| (j.2, j.3)).collect()
    }
    /// modifications that were attempted outside the destination
    pub fn escapes(&self) -> Vec<&String> {
        self.text.iter().filter(|t| t.starts_with("E ")).collect()
    }
    /// Some(already opened before) when the swap took place
    pub fn swapped(&self, i: usize) -> Option<bool> {
        self.text.iter().find_map(|t| {
            let v: Vec<&str> = t.split(' ').collect();
            (v[0] == "S" && v[1] == i.to_string() && v[3] == "0").then(|| v[2] == "1")
        })
    }
    pub fn python(&self) -> Option<Value> {
        let s = String::from_utf8_lossy(&self.stdout);
        serde_json::from_str(s.trim_end().rsplit('\n').next()?).ok()
    }
    pub fn err_line(&self) -> String {
        let t = self.stderr.trim();
        let mut s: String = t.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
        if s.len() > 400 {
            s = s.chars().take(400).collect();
        }
        s
    }
}

pub fn build_dir() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("build")
}

pub enum Prog {
    Tool(Vec<OsString>),
    Python(Value),
    /// the library's disc-to-disc copy
    Copy(Vec<OsString>),
}

pub struct Sand {
    pub base: PathBuf,
    pub root: PathBuf,
    ctl: PathBuf,
    nrun: u8,
    pub classes: Vec<(u8, PathBuf)>,
    /// (path, replacement or empty = remove)
    pub swaps: Vec<(PathBuf, Option<PathBuf>)>,
    pub mem: u64,
}

impl Sand {
    pub fn new(ctx: &Ctx) -> Sand {
        unsafe { libc::umask(0) };
        let base = ctx.scratch.join("case");
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(base.join("ctl")).expect("scratch");
        fs::create_dir_all(base.join("root")).expect("scratch");
        let base = fs::canonicalize(&base).unwrap();
        let root = base.join("root");
        Sand {
            ctl: base.join("ctl"),
            classes: vec![(C_ISO, root.join("iso")), (C_SRC, root.join("src")), (C_DST, root.join("out"))],
            root,
            base,
            nrun: 0,
            swaps: vec![],
            mem: 6 << 30,
        }
    }
    pub fn path(&self, s: &str) -> PathBuf {
        self.root.join(s)
    }

    fn exec(&self, prog: &Prog, io: &Io, events: &[PEvent], explicit: bool, cap: Option<u64>, budget: u64, swaps: bool) -> PRes {
        let _real = crate::env::real();
        let conf = self.ctl.join("conf");
        let log = self.ctl.join("log");
        let mut c: Vec<u8> = Vec::new();
        let line = |c: &mut Vec<u8>, k: &str, p: &Path| {
            c.extend_from_slice(k.as_bytes());
            c.extend_from_slice(p.as_os_str().as_bytes());
            c.push(b'\n');
        };
        line(&mut c, "root ", &self.root);
        line(&mut c, "log ", &log);
        for (k, p) in &self.classes {
            line(&mut c, &format!("class {k} "), p);
        }
        for (i, a) in io.amb.iter().enumerate() {
            if a.short > 0 || a.eintr > 0 {
                c.extend_from_slice(format!("ambient {i} {} {} {} {}\n", a.seed, a.short as u32 * 1024 / 1000, a.eintr as u32 * 1024 / 1000, a.style).as_bytes());
            }
        }
        c.extend_from_slice(format!("dirseed {}\nrndseed {}\nbudget {budget}\nexplicit {}\n", io.dirseed, io.rndseed, explicit as u8).as_bytes());
        if let Some(n) = cap {
            c.extend_from_slice(format!("capacity {C_DST} {n}\n").as_bytes());
        }
        for e in events {
            c.extend_from_slice(format!("event {} {} {} {} {}\n", e.kind, e.cls, e.nth, e.act, e.arg).as_bytes());
        }
        if swaps {
            for (p, r) in &self.swaps {
                c.extend_from_slice(b"swap ");
                c.extend_from_slice(p.as_os_str().as_bytes());
                c.push(b'\t');
                if let Some(r) = r {
                    c.extend_from_slice(r.as_os_str().as_bytes());
                }
                c.push(b'\n');
            }
        }
        fs::write(&conf, c).unwrap();
        let _ = fs::remove_file(&log);
        let lf = fs::OpenOptions::new().create(true).read(true).write(true).open(&log).unwrap();
        lf.set_len(LOG_LEN).unwrap();
        let b = build_dir();
        let mut cmd = match prog {
            Prog::Tool(a) => {
                let mut c = Command::new(b.join("iso-tool"));
                c.args(a);
                c
            }
            Prog::Copy(a) => {
                let mut c = Command::new(b.join("disc_riider_copy"));
                c.args(a);
                c
            }
            Prog::Python(doc) => {
                let f = self.ctl.join("steps.json");
                fs::write(&f, serde_json::to_string(doc).unwrap()).unwrap();
                let mut c = Command::new("/usr/bin/python3.12");
                c.args(["-I", "-S", "-B"]).arg(b.join("driver.py")).arg(b.join("pymod")).arg(f);
                c
            }
        };
        let so = self.ctl.join("stdout");
        let se = self.ctl.join("stderr");
        cmd.env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("LC_ALL", "C.UTF-8")
            .env("HOME", "/nonexistent")
            .env("RUST_BACKTRACE", "0")
            .env("LD_PRELOAD", b.join("simshim.so"))
            .env("SIM_CONF", &conf)
            // surroundings that must not matter
            .env("USER", format!("u{}", io.rndseed % 97))
            .env("TZ", ["UTC", "Asia/Tokyo", "America/New_York"][(io.rndseed % 3) as usize])
            .env("TMPDIR", &self.root)
            .env("SOURCE_DATE_EPOCH", (io.rndseed >> 40).to_string())
            .current_dir(&self.root)
            .stdin(Stdio::null())
            .stdout(fs::File::create(&so).unwrap())
            .stderr(fs::File::create(&se).unwrap());
        let mem = self.mem;
        unsafe {
            if libc::geteuid() == 0 {
                // second line of containment: nothing real is writable for this user
                cmd.uid(65534).gid(65534);
            }
            cmd.pre_exec(move || {
                let l = libc::rlimit { rlim_cur: mem, rlim_max: mem };
                libc::setrlimit(libc::RLIMIT_AS, &l);
                let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &z);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let child = cmd.spawn().expect("spawn");
        let pid = child.id() as i32;
        let t0 = Instant::now();
        let mut st = 0i32;
        let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
        let mut wait = 200u64;
        let mut timeout = false;
        loop {
            let r = unsafe { libc::wait4(pid, &mut st, libc::WNOHANG, &mut ru) };
            if r == pid || r < 0 {
                break;
            }
            if t0.elapsed() > Duration::from_secs(60) && !timeout {
                timeout = true;
                unsafe { libc::kill(pid, libc::SIGKILL) };
            }
            std::thread::sleep(Duration::from_micros(wait));
            wait = (wait * 5 / 4).min(5000);
        }
        std::mem::forget(child);
        // read the log
        let mut h = vec![0u8; HDR];
        lf.read_exact_at(&mut h, 0).unwrap();
        let u = |i: usize| u64::from_le_bytes(h[i * 8..i * 8 + 8].try_into().unwrap());
        let (steps, trace, over, hard, full, nfired, ntext, crashed, started) = (u(1), u(2), u(3), u(4), u(5), u(6), u(7), u(8), u(9));
        assert!(started == 1, "the simulator did not start: {}", String::from_utf8_lossy(&fs::read(&se).unwrap_or_default()));
        let wbytes = [u(10), u(11), u(12), u(13)];
        let mut counts = [[0u64; NK]; NC];
        for a in 0..NC {
            for k in 0..NK {
                counts[a][k] = u(14 + a * NK + k);
            }
        }
        let mut jb = vec![0u8; 8 + MAXJUMP * 24];
        lf.read_exact_at(&mut jb[..8], HDR as u64).unwrap();
        let clocks = u64::from_le_bytes(jb[..8].try_into().unwrap());
        lf.read_exact_at(&mut jb[..8], HDR as u64 + 8).unwrap();
        let nj = (u64::from_le_bytes(jb[..8].try_into().unwrap()) as usize).min(MAXJUMP);
        lf.read_exact_at(&mut jb[8..8 + nj * 24], HDR as u64 + 16).unwrap();
        let jump = (0..nj)
            .map(|i| {
                let b = &jb[8 + i * 24..32 + i * 24];
                let w = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
                let q = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
                (w(0), w(4), q(8), q(16))
            })
            .collect();
        let n = (nfired as usize).min(MAXFIRED);
        let mut fb = vec![0u8; n * 32];
        lf.read_exact_at(&mut fb, FIRED_OFF as u64).unwrap();
        let fired = (0..n)
            .map(|i| {
                let b = &fb[i * 32..i * 32 + 32];
                let w = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
                let q = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
                PEvent { run: self.nrun, kind: w(0) as u8, cls: w(4) as u8, nth: q(8), act: w(16) as u8, arg: q(24) }
            })
            .collect();
        let mut tb = vec![0u8; ntext as usize];
        lf.read_exact_at(&mut tb, TEXT_OFF as u64).unwrap();
        let text = String::from_utf8_lossy(&tb).lines().map(|s| s.to_string()).collect();
        let end = if timeout {
            End::Timeout
        } else if over != 0 {
            End::OverBudget
        } else if crashed != 0 {
            End::Crash
        } else if libc::WIFEXITED(st) {
            End::Exit(libc::WEXITSTATUS(st))
        } else {
            End::Signal(libc::WTERMSIG(st))
        };
        PRes {
            end,
            stdout: fs::read(&so).unwrap_or_default(),
            stderr: String::from_utf8_lossy(&fs::read(&se).unwrap_or_default()).into_owned(),
            counts,
            steps,
            trace,
            hard,
            full,
            wbytes,
            fired,
            jump,
            clocks,
            text,
            maxrss: ru.ru_maxrss as u64 * 1024,
        }
    }

    /// One simulated run. `reset` puts the destination back after a rehearsal.
    pub fn run(&mut self, ctx: &mut Ctx, prog: &Prog, io: &Io, reset: &dyn Fn()) -> Result<PRes, Violation> {
        let nrun = self.nrun;
        let explicit = ctx.explicit.is_some();
        let mut events: Vec<PEvent> = Vec::new();
        let mut cap = None;
        let mut budget = 5_000_000;
        if (!explicit && !io.plans.is_empty()) || io.cap.is_some() {
            let r = self.exec(prog, &Io { plans: vec![], cap: None, ..io.clone() }, &[], false, None, budget, false);
            ctx.steps += r.steps;
            budget = r.steps * 6 + 30_000;
            for p in &io.plans {
                let n = r.counts[p.cls as usize][p.kind as usize];
                if n > 0 {
                    events.push(PEvent { run: nrun, kind: p.kind, cls: p.cls, nth: place(p.frac, n, &r.jumps(p.kind, p.cls)), act: p.act, arg: p.arg });
                }
            }
            cap = io.cap.map(|c| r.wbytes[C_DST as usize] * c / 1_000_000);
            reset();
        }
        if let Some(s) = &ctx.explicit {
            events = s.proc_events.iter().filter_map(|e| PEvent::parse(e)).filter(|e| e.run == nrun).collect();
        }
        let r = self.exec(prog, io, &events, explicit, cap, budget, true);
        self.nrun += 1;
        ctx.steps += r.steps;
        ctx.trace = crate::rng::mix2(ctx.trace, r.trace);
        if r.clocks > 0 {
            ctx.count("env.time_queries", r.clocks);
        }
        if r.full > 0 {
            ctx.count("fault.disk_full", r.full);
        }
        for e in &r.fired {
            ctx.count(&format!("fault.syscall.{}.{}", KINDS[e.kind as usize], ACTS[e.act as usize]), 1);
        }
        ctx.fired.proc_events.extend(r.fired.iter().map(|e| e.show()));
        Ok(r)
    }

    pub fn done(self) {
        let _ = fs::remove_dir_all(&self.base);
    }
}

impl Drop for Sand {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.base);
    }
}

/// the end of a run as far as crashes and hangs go
pub fn no_crash(r: &PRes) -> Result<(), Violation> {
    match &r.end {
        End::Exit(101) => viol("panic", format!("the program panicked: {}", r.err_line())),
        End::Exit(_) | End::Crash => {
            if r.stderr.contains("panicked at") {
                return viol("panic", format!("panic: {}", r.err_line()));
            }
            Ok(())
        }
        End::Signal(n) => viol("abort", format!("the program died of signal {n}: {}", r.err_line())),
        End::OverBudget => viol("step-budget", format!("more than {} system calls", r.steps)),
        End::Timeout => viol("hang", "the program did not end within 60 s"),
    }
}

pub fn write_image(img: &Image, p: &Path) {
    let f = fs::File::create(p).unwrap();
    f.set_len(img.len).unwrap();
    for (k, v) in &img.pages {
        let o = k * PAGE;
        if o >= img.len {
            continue;
        }
        let n = (img.len - o).min(PAGE) as usize;
        if v[..n].iter().all(|b| *b == 0) {
            continue;
        }
        f.write_all_at(&v[..n], o).unwrap();
    }
}

pub fn read_image(p: &Path) -> io::Result<Image> {
    use std::os::fd::AsRawFd;
    let f = fs::File::open(p)?;
    let len = f.metadata()?.len();
    let mut img = Image { len, ..Default::default() };
    let mut at = 0u64;
    while at < len {
        let d = unsafe { libc::lseek(f.as_raw_fd(), at as i64, libc::SEEK_DATA) };
        if d < 0 {
            break;
        }
        let e = unsafe { libc::lseek(f.as_raw_fd(), d, libc::SEEK_HOLE) };
        let e = if e < 0 { len } else { e as u64 };
        let mut o = d as u64 / PAGE * PAGE;
        while o < e {
            let n = (len - o).min(PAGE) as usize;
            let mut b = vec![0u8; n];
            f.read_exact_at(&mut b, o)?;
            if b.iter().any(|x| *x != 0) {
                img.write_at(o, &b, None);
            }
            o += PAGE;
        }
        at = o.max(e);
    }
    img.len = len;
    Ok(img)
}

/// all regular files under a folder: path relative to it -> content; folders with a trailing slash
pub fn snapshot(dir: &Path) -> std::collections::BTreeMap<Vec<u8>, Option<Vec<u8>>> {
    fn rec(d: &Path, rel: &mut Vec<u8>, out: &mut std::collections::BTreeMap<Vec<u8>, Option<Vec<u8>>>) {
        let Ok(rd) = fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let l = rel.len();
            if !rel.is_empty() {
                rel.push(b'/');
            }
            rel.extend_from_slice(e.file_name().as_bytes());
            let t = e.file_type().unwrap();
            if t.is_dir() {
                let mut k = rel.clone();
                k.push(b'/');
                out.insert(k, None);
                rec(&e.path(), rel, out);
            } else if t.is_file() {
                out.insert(rel.clone(), Some(fs::read(e.path()).unwrap_or_default()));
            } else {
                out.insert(rel.clone(), Some(b"<special>".to_vec()));
            }
            rel.truncate(l);
        }
    }
    let mut m = std::collections::BTreeMap::new();
    rec(dir, &mut Vec::new(), &mut m);
    m
}

pub fn os(b: &[u8]) -> OsString {
    OsString::from_vec(b.to_vec())
}
