//! Rebuilding a disc from a folder with the real programs.

use crate::fw::*;
use crate::libread::*;
use crate::model::*;
use crate::proc::*;
use crate::refimg::*;
use crate::rng::{content, Rng};
use crate::scen_build::{gen_ambient, Mode};
use crate::simdisk::*;
use disc_riider::WiiIsoReader;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeSet;
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

pub const REQUIRED: [&str; 8] = ["sys/boot.bin", "disc/region.bin", "ticket.bin", "tmd.bin", "cert.bin", "sys/bi2.bin", "sys/apploader.img", "sys/main.dol"];

pub const ERRNOS: [u64; 14] = [5, 5, 13, 13, 2, 2, 2, 28, 24, 12, 116, 22, 11, 122];

/// something about the folder that must make the rebuild fail
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Twist {
    None,
    Missing(u8),
    FolderInstead(u8),
    ShortRegion(u8),
    NoFiles,
    BadUtf8(u64),
    Unencodable(u64),
    CaseClash(u64),
    FolderClash(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RbSpec {
    pub disc: DiscSpec,
    /// 0 command-line tool, 1 Python
    pub via: u8,
    pub via2: u8,
    pub io: Io,
    pub io2: Io,
    pub twist: Twist,
    /// (file, new length or removed) changed by someone else in the middle
    pub swap: Option<(u64, Option<u64>, u64)>,
    pub old_dest: bool,
    /// (which metadata file, position, bytes, cut)
    pub dmg: Vec<(u8, u64, Vec<u8>)>,
    pub cut: Option<(u8, u64)>,
    pub seed: u64,
}

pub fn gen_io(r: &mut Rng) -> Io {
    let mut amb = [Ambient::default(); 4];
    for a in amb.iter_mut() {
        *a = gen_ambient(r);
    }
    Io { amb, dirseed: if r.chance(300) { 0 } else { r.next() | 1 }, rndseed: r.next(), plans: vec![], cap: None }
}

pub fn gen_frac(r: &mut Rng) -> u64 {
    match r.below(16) {
        0 => 999_999,
        1 => r.range(950_000, 999_999),
        2 => r.below(50_000),
        // one of the first or last few
        3 => r.range(1_000_000, 1_000_023),
        4 => r.range(2_000_000, 2_000_023),
        5..=9 => r.range(3_000_000, 3_999_999),
        _ => r.below(1_000_000),
    }
}

pub fn gen_rebuild_plan(r: &mut Rng) -> PPlan {
    let errno = *r.pick(&ERRNOS);
    let (kind, cls) = *r.pick(&[
        (K_OPEN, C_SRC),
        (K_OPEN, C_SRC),
        (K_READ, C_SRC),
        (K_READ, C_SRC),
        (K_READ, C_SRC),
        (K_STAT, C_SRC),
        (K_STAT, C_SRC),
        (K_STAT, C_SRC),
        (K_READDIR, C_SRC),
        (K_READDIR, C_SRC),
        (K_OPENDIR, C_SRC),
        (K_LSEEK, C_SRC),
        (K_OPEN, C_DST),
        (K_WRITE, C_DST),
        (K_WRITE, C_DST),
        (K_WRITE, C_DST),
        (K_READ, C_DST),
        (K_LSEEK, C_DST),
        (K_SYNC, C_DST),
    ]);
    let act = match (kind, cls) {
        (K_WRITE, C_DST) => *r.pick(&[A_ERR, A_ERR, A_ERRFOREVER, A_ERRKIND, A_TORN, A_ZERO, A_ZEROFOREVER]),
        (K_READ, C_DST) => *r.pick(&[A_ERR, A_ERR, A_ERRFOREVER, A_ZERO]),
        _ => *r.pick(&[A_ERR, A_ERR, A_ERR, A_ERR, A_ERRKIND, A_ERRFOREVER]),
    };
    let arg = if act == A_TORN { r.next() & 0xFF_FFFF } else { errno };
    PPlan { kind, cls, frac: gen_frac(r), act, arg }
}

pub fn small_part(r: &mut Rng, ptype: u8) -> PartSpec {
    let big = *r.pick(&[0u64, 0, 0, 500]);
    let o = PartOpts {
        tree: TreeOpts {
            max_nodes: *r.pick(&[0u64, 3, 6, 12, 25]),
            depth: *r.pick(&[0u64, 1, 3, 6]),
            big,
            ascii: r.chance(300),
            sorted: true,
            pad: false,
            empty_dirs: true,
        },
        aim: big > 0,
    };
    let mut p = gen_part(r, ptype, o);
    p.len_mode = 0;
    p
}

pub fn prune_empty(t: &[Node]) -> Vec<Node> {
    t.iter()
        .filter_map(|n| match n {
            Node::F { name, len, seed, .. } => Some(Node::F { name: name.clone(), len: *len, seed: *seed, pad: 0 }),
            Node::D { name, kids } => {
                let k = prune_empty(kids);
                (!k.is_empty()).then(|| Node::D { name: name.clone(), kids: k })
            }
        })
        .collect()
}

pub fn write_tree(dir: &Path, tree: &[Node]) {
    fs::create_dir_all(dir).unwrap();
    for n in tree {
        match n {
            Node::F { name, len, seed, .. } => fs::write(dir.join(name), content(*seed, *len as usize)).unwrap(),
            Node::D { name, kids } => write_tree(&dir.join(name), kids),
        }
    }
}

/// the folder that an extraction would have produced
pub fn write_source(src: &Path, p: &PartSpec, region: &[u8; 32]) {
    let d = src.join("DATA");
    fs::create_dir_all(d.join("sys")).unwrap();
    fs::create_dir_all(d.join("disc")).unwrap();
    fs::write(d.join("sys/boot.bin"), disc_header_bytes(&p.header())).unwrap();
    fs::write(d.join("sys/bi2.bin"), p.bi2()).unwrap();
    fs::write(d.join("sys/apploader.img"), p.apploader_bytes()).unwrap();
    fs::write(d.join("sys/main.dol"), p.dol_bytes()).unwrap();
    fs::write(d.join("disc/header.bin"), b"not used").unwrap();
    fs::write(d.join("disc/region.bin"), region).unwrap();
    fs::write(d.join("ticket.bin"), ticket_bytes(&p.ticket())).unwrap();
    fs::write(d.join("tmd.bin"), tmd_bytes(&p.tmd())).unwrap();
    fs::write(d.join("cert.bin"), cert_bytes(&p.certs())).unwrap();
    write_tree(&d.join("files"), &p.tree);
}

pub fn outer_header(p: &PartSpec) -> Vec<u8> {
    let mut h = p.header();
    h.disable_disc_enc = 0;
    h.disable_hash_verification = 0;
    disc_header_bytes(&h)
}

/// the same path, written in another way
pub fn styled(p: &Path, root: &Path, x: u64) -> PathBuf {
    let Ok(rel) = p.strip_prefix(root) else { return p.to_path_buf() };
    match x % 8 {
        0 => rel.to_path_buf(),
        1 => Path::new(".").join(rel),
        2 => root.join(".").join(rel),
        3 => root.join("..").join(root.file_name().unwrap()).join(rel),
        _ => p.to_path_buf(),
    }
}

/// everything about the files that is not their content: dates, modes, place on the disk
pub fn disturb(dir: &Path, seed: u64) {
    use std::os::unix::fs::PermissionsExt;
    let mut r = Rng::new(seed);
    let mut v: Vec<_> = fs::read_dir(dir).unwrap().flatten().map(|e| e.path()).collect();
    v.sort();
    r.shuffle(&mut v);
    for p in v {
        if p.is_dir() {
            disturb(&p, r.next());
            fs::set_permissions(&p, fs::Permissions::from_mode(*r.pick(&[0o755, 0o777, 0o555, 0o711 | 0o044]))).unwrap();
        } else {
            if r.chance(500) {
                let d = fs::read(&p).unwrap();
                fs::remove_file(&p).unwrap();
                fs::write(&p, d).unwrap();
            }
            let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(r.below(3_000_000_000));
            let f = fs::OpenOptions::new().write(true).open(&p).unwrap();
            f.set_times(fs::FileTimes::new().set_modified(t).set_accessed(t)).unwrap();
            fs::set_permissions(&p, fs::Permissions::from_mode(*r.pick(&[0o644, 0o444, 0o755, 0o777]))).unwrap();
        }
    }
}

pub fn rebuild_prog(via: u8, src: &Path, dest: &Path) -> Prog {
    if via == 0 {
        Prog::Tool(vec![OsString::from("rebuild"), src.into(), dest.into()])
    } else {
        Prog::Python(json!({"steps": [{"op": "rebuild", "src": src.to_str().unwrap(), "dest": dest.to_str().unwrap()}]}))
    }
}

pub struct Verdict {
    pub ok: bool,
    pub progress: Vec<i64>,
    pub msg: String,
}

/// success or failure as the user sees it; crashes are violations
pub fn judge(via: u8, r: &PRes) -> Result<Verdict, Violation> {
    no_crash(r)?;
    if let Some(e) = r.escapes().first() {
        return viol("escape", format!("modified something outside the destination: {e}"));
    }
    if via == 0 {
        let out = String::from_utf8_lossy(&r.stdout);
        let progress = out.lines().filter_map(|l| l.strip_prefix("rebuilding... ")?.strip_suffix('%')?.parse().ok()).collect();
        let ok = r.end == End::Exit(0);
        if !ok && r.end != End::Crash && r.stderr.trim().is_empty() {
            return viol("silent-failure", "the tool failed without a message");
        }
        return Ok(Verdict { ok, progress, msg: r.err_line() });
    }
    if r.end == End::Crash {
        return Ok(Verdict { ok: false, progress: vec![], msg: "killed".into() });
    }
    if r.end != End::Exit(0) {
        return viol("abort", format!("the interpreter ended with {:?}: {}", r.end, r.err_line()));
    }
    let Some(v) = r.python() else { return viol("harness", format!("no result from the driver: {}", r.err_line())) };
    let s = &v["steps"][0];
    if let Some(c) = s["crash"].as_str() {
        return viol("panic", format!("{c}: {}", s["msg"]));
    }
    Ok(Verdict {
        ok: s["ok"] == json!(true),
        progress: s["progress"].as_array().map(|a| a.iter().filter_map(|x| x.as_i64()).collect()).unwrap_or_default(),
        msg: s["msg"].as_str().unwrap_or("").into(),
    })
}

fn dirs_of(t: &[Node]) -> Vec<Vec<String>> {
    let mut v = vec![vec![]];
    walk(t, &mut Vec::new(), &mut |p, n| {
        if let Node::D { .. } = n {
            v.push(p.to_vec());
        }
    });
    v
}

fn set_file(t: &mut Vec<Node>, path: &[String], new: Option<(u64, u64)>) {
    let Some(i) = t.iter().position(|n| n.name() == path[0]) else { return };
    if path.len() > 1 {
        if let Node::D { kids, .. } = &mut t[i] {
            set_file(kids, &path[1..], new);
        }
        return;
    }
    match new {
        None => {
            t.remove(i);
        }
        Some((l, s)) => {
            if let Node::F { len, seed, .. } = &mut t[i] {
                *len = l;
                *seed = s;
            }
        }
    }
}

pub struct Rebuild(pub Mode);

impl Typed for Rebuild {
    type Spec = RbSpec;
    fn name(&self) -> &'static str {
        match self.0 {
            Mode::RoundTrip => "rebuild_exact",
            Mode::Faulted => "rebuild_faults",
            Mode::Crash => "rebuild_crash",
            Mode::Same => "rebuild_twice",
            Mode::Progress => "rebuild_progress",
            Mode::Steps => "rebuild_steps",
            Mode::Valid => "rebuild_damaged",
            Mode::Retry => "rebuild_changing",
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _tier: Tier) -> RbSpec {
        let p = small_part(r, 0);
        let disc = DiscSpec { seed: r.next(), title: "x".into(), parts: vec![p] };
        let mut s = RbSpec {
            disc,
            via: (idx % 3 == 2) as u8,
            via2: (idx % 5 == 1) as u8,
            io: gen_io(r),
            io2: gen_io(r),
            twist: Twist::None,
            swap: None,
            old_dest: r.chance(150),
            dmg: vec![],
            cut: None,
            seed: r.next(),
        };
        match self.0 {
            Mode::RoundTrip => {
                if r.chance(600) {
                    s.twist = match r.below(9) {
                        0 => Twist::Missing(r.below(8) as u8),
                        1 => Twist::FolderInstead(r.below(8) as u8),
                        2 => Twist::ShortRegion(r.below(32) as u8),
                        3 => Twist::NoFiles,
                        4 => Twist::BadUtf8(r.next()),
                        5 => Twist::Unencodable(r.next()),
                        6 | 7 => Twist::CaseClash(r.next()),
                        _ => Twist::FolderClash(r.next()),
                    };
                }
            }
            Mode::Faulted => {
                if r.chance(100) {
                    s.io.cap = Some(r.below(1_000_000));
                } else {
                    for _ in 0..*r.pick(&[1u64, 1, 1, 2, 3]) {
                        s.io.plans.push(gen_rebuild_plan(r));
                    }
                }
            }
            Mode::Crash => {
                s.old_dest = false;
                let kind = *r.pick(&[K_WRITE, K_WRITE, K_WRITE, K_WRITE, K_LSEEK]);
                let frac = match r.below(10) {
                    0 => 999_999,
                    1..=4 => r.range(800_000, 999_999),
                    _ => r.below(1_000_000),
                };
                s.io.plans.push(PPlan { kind, cls: C_DST, frac, act: A_CRASH, arg: r.next() & 0xFF_FFFF });
            }
            Mode::Same => {}
            Mode::Progress => {
                if r.chance(350) {
                    s.io.plans.push(gen_rebuild_plan(r));
                }
            }
            Mode::Steps => {
                for _ in 0..*r.pick(&[1u64, 1, 2, 4]) {
                    s.io.plans.push(gen_rebuild_plan(r));
                }
                stubborn(r, &mut s.io.plans);
                if r.chance(400) {
                    for a in s.io.amb.iter_mut() {
                        a.eintr = 700;
                        a.seed |= 1;
                    }
                }
            }
            Mode::Valid => {
                let which = |r: &mut Rng| *r.pick(&[0u8, 1, 2, 2, 3, 3, 3, 4, 4, 4, 5, 6, 7]);
                for _ in 0..*r.pick(&[1u64, 1, 2, 4]) {
                    let w = which(r);
                    let pos = match w {
                        2 => *r.pick(&[0u64, 0x1F1, 0x1BF, 0x2A0, r.clone().below(0x2A4)]),
                        3 => *r.pick(&[0u64, 0x1DE, 0x1DC, 0x1E0, 0x1E4, r.clone().below(0x208)]),
                        4 => *r.pick(&[0u64, 0x180, 0x240, 0x280, 0x300, 0x340, 0x400, 0x440, r.clone().below(0xA00)]),
                        0 => *r.pick(&[0u64, 0x18, 0x20, 0x5F, 0x60, 0x61, 0x420, r.clone().below(0x440)]),
                        _ => r.below(0x40),
                    };
                    let n = *r.pick(&[1usize, 2, 4, 64]);
                    let v = match r.below(4) {
                        0 => vec![0xFF; n],
                        1 => vec![0; n],
                        2 => (r.below(0x400) as u32).to_be_bytes()[2..].to_vec(),
                        _ => content(r.next() | 7, n),
                    };
                    s.dmg.push((w, pos, v));
                }
                if r.chance(350) {
                    s.cut = Some((which(r), r.below(0xA20)));
                    if r.chance(500) {
                        s.dmg.clear();
                    }
                }
                if r.chance(700) {
                    s.io = Io { dirseed: s.io.dirseed, rndseed: s.io.rndseed, ..Default::default() };
                }
            }
            Mode::Retry => {
                let n = files(&s.disc.parts[0].tree).len() as u64;
                if n == 0 {
                    s.disc.parts[0].tree = vec![Node::F { name: "only".into(), len: 5000, seed: r.next(), pad: 0 }];
                }
                let i = r.below(n.max(1));
                let new = match r.below(10) {
                    0 | 1 => None,
                    2 => Some(0),
                    3 => Some(r.range(GROUP_DATA - 0x400, GROUP_DATA * 2)),
                    _ => Some(gen_len(r, 0)),
                };
                s.swap = Some((i, new, r.next()));
                s.io.plans.push(PPlan { kind: K_OPEN, cls: C_SRC, frac: gen_frac(r), act: A_SWAP, arg: 0 });
            }
        }
        s
    }

    fn shrink(&self, s: &RbSpec) -> Vec<RbSpec> {
        let mut v: Vec<RbSpec> = shrink_disc(&s.disc).into_iter().map(|d| RbSpec { disc: d, ..s.clone() }).collect();
        if s.old_dest {
            v.push(RbSpec { old_dest: false, ..s.clone() });
        }
        for i in 0..s.dmg.len() {
            let mut c = s.clone();
            c.dmg.remove(i);
            v.push(c);
        }
        if s.io.dirseed != 0 {
            let mut c = s.clone();
            c.io.dirseed = 0;
            v.push(c);
        }
        v
    }

    fn run(&self, s: &RbSpec, ctx: &mut Ctx) -> Result<(), Violation> {
        run_rebuild(self.0, s, ctx)
    }
}

fn apply_twist(s: &RbSpec, src: &Path, tree: &[Node]) -> bool {
    let d = src.join("DATA");
    let some_dir = |x: u64| {
        let v = dirs_of(tree);
        let mut p = d.join("files");
        for c in &v[(x % v.len() as u64) as usize] {
            p.push(c);
        }
        p
    };
    match &s.twist {
        Twist::None => return false,
        Twist::Missing(k) => fs::remove_file(d.join(REQUIRED[*k as usize])).unwrap(),
        Twist::FolderInstead(k) => {
            fs::remove_file(d.join(REQUIRED[*k as usize])).unwrap();
            fs::create_dir(d.join(REQUIRED[*k as usize])).unwrap();
        }
        Twist::ShortRegion(n) => fs::write(d.join("disc/region.bin"), &content(7, *n as usize)).unwrap(),
        Twist::NoFiles => fs::remove_dir_all(d.join("files")).unwrap(),
        Twist::BadUtf8(x) => fs::write(some_dir(*x).join(std::ffi::OsStr::from_bytes(b"bad\xff\xfename")), b"1").unwrap(),
        Twist::Unencodable(x) => {
            let n = ["\u{1F600}", "x\u{0E01}y", "na\u{ef}ve", "\u{4f60}\u{4EEC}\u{2764}", "z\u{20AC}"][(*x % 5) as usize];
            fs::write(some_dir(x >> 8).join(n), b"1").unwrap()
        }
        Twist::CaseClash(x) => {
            let p = some_dir(*x);
            fs::write(p.join("qClash.BIN"), b"upper").unwrap();
            fs::write(p.join("Qclash.bin"), if x & 256 == 0 { &b""[..] } else { b"lower" }).unwrap();
        }
        Twist::FolderClash(x) => {
            let p = some_dir(*x);
            fs::write(p.join("qClash"), b"upper").unwrap();
            fs::create_dir(p.join("Qclash")).unwrap();
            fs::write(p.join("Qclash/in"), b"x").unwrap();
        }
    }
    true
}

pub fn check_series(p: &[i64], ok: bool, total: u64) -> Result<(), Violation> {
    if p.is_empty() {
        if ok {
            return viol("progress", "no progress was reported at all");
        }
        return Ok(());
    }
    if p[0] != 0 {
        return viol("progress", format!("progress starts at {}", p[0]));
    }
    for w in p.windows(2) {
        if w[1] < w[0] {
            return viol("progress", format!("progress goes down from {} to {}", w[0], w[1]));
        }
    }
    let last = *p.last().unwrap();
    if last > 100 || p.iter().any(|x| *x < 0) {
        return viol("progress", format!("progress reaches {last}"));
    }
    if ok && total > 0 && last != 100 {
        return viol("progress", format!("successful operation ended at {last} percent"));
    }
    Ok(())
}

fn run_rebuild(mode: Mode, s: &RbSpec, ctx: &mut Ctx) -> Result<(), Violation> {
    let p = &s.disc.parts[0];
    let region = s.disc.region();
    let mut sb = Sand::new(ctx);
    let src = sb.path("src");
    let dest = sb.path("out");
    write_source(&src, p, &region);
    let twisted = apply_twist(s, &src, &p.tree);
    for (w, pos, b) in &s.dmg {
        let f = src.join("DATA").join(REQUIRED[*w as usize]);
        let mut d = fs::read(&f).unwrap();
        for (i, x) in b.iter().enumerate() {
            if let Some(c) = d.get_mut(*pos as usize + i) {
                *c = *x;
            }
        }
        fs::write(&f, d).unwrap();
    }
    if let Some((w, n)) = s.cut {
        let f = src.join("DATA").join(REQUIRED[w as usize]);
        let mut d = fs::read(&f).unwrap();
        d.truncate(n as usize);
        fs::write(&f, d).unwrap();
    }
    if s.old_dest {
        let mut i = Image::default();
        i.write_at(0, &content(s.seed | 7, 0x50000), None);
        if s.seed & 1 == 0 {
            // an older disc with partitions in another table
            i.write_at(0x40000, &[0u8; 0x100], None);
            i.write_at(0x40008, &[0, 0, 0, 1, 0, 1, 0, 0x10], None);
            i.write_at(0x40040, &[0, 1, 0x40, 0, 0, 0, 0, 1], None);
        }
        i.write_at(0xF80_0000 + 0x1000_0000, b"old data at the end", None);
        write_image(&i, &dest);
    }
    // what must be on the disc
    let mut want = PartSpec { tree: prune_empty(&p.tree), ..p.clone() };
    let mut swap_path: Option<Vec<String>> = None;
    if let Some((i, new, seed)) = &s.swap {
        let fl = files(&p.tree);
        if fl.is_empty() {
            return Ok(());
        }
        let f = &fl[(*i % fl.len() as u64) as usize];
        let mut path = src.join("DATA/files");
        for c in &f.0 {
            path.push(c);
        }
        let repl = new.map(|n| {
            let q = sb.path("replacement");
            fs::write(&q, content(*seed, n as usize)).unwrap();
            q
        });
        sb.swaps.push((path, repl));
        swap_path = Some(f.0.clone());
    }
    let total: u64 = files(&p.tree).iter().map(|f| f.1).sum();
    if mode == Mode::Valid {
        sb.mem = 1 << 30;
    }
    let prog = rebuild_prog(s.via, &styled(&src, &sb.root, s.seed), &styled(&dest, &sb.root, s.seed >> 3));
    let d2 = dest.clone();
    let reset = move || {
        let _ = fs::remove_file(&d2);
    };
    ctx.count(if s.via == 0 { "n.tool_runs" } else { "n.python_runs" }, 1);
    let r = sb.run(ctx, &prog, &s.io, &reset)?;
    let v = judge(s.via, &r)?;
    ctx.nontrivial = true;
    let verify = |want: &PartSpec, dest: &PathBuf| -> Result<(), String> {
        let img = read_image(dest).map_err(|e| e.to_string())?;
        verify_built(&img, &outer_header(p), &region, &[want], Depth::Unordered)
    };
    match mode {
        Mode::RoundTrip => {
            ctx.probe("unsuitable_folder", twisted);
            if twisted {
                if v.ok {
                    return viol("false-success", format!("the folder cannot be rebuilt faithfully ({:?}), yet success was reported", s.twist));
                }
                return Ok(());
            }
            if !v.ok {
                return viol("spurious-error", format!("no fault was injected, yet: {}", v.msg));
            }
            verify(&want, &dest).or_viol("wrong-disc")?;
        }
        Mode::Faulted | Mode::Steps => {
            ctx.nontrivial = r.hard > 0;
            ctx.probe("fault_and_error", !v.ok);
            if v.ok {
                verify(&want, &dest).or_viol("false-success")?;
            } else if r.hard == 0 {
                return viol("spurious-error", format!("no fault was injected, yet: {}", v.msg));
            }
            if mode == Mode::Steps && !v.ok {
                let io = Io { plans: vec![], cap: None, ..s.io.clone() };
                let r2 = sb.run(ctx, &prog, &io, &reset)?;
                let v2 = judge(s.via, &r2)?;
                if !v2.ok {
                    return viol("no-recovery", format!("faults have stopped, yet the rebuild fails again: {}", v2.msg));
                }
                verify(&want, &dest).or_viol("wrong-disc")?;
            }
        }
        Mode::Crash => {
            let crashed = r.end == End::Crash;
            ctx.probe("killed", crashed);
            if !crashed {
                if v.ok {
                    verify(&want, &dest).or_viol("wrong-disc")?;
                } else {
                    return viol("spurious-error", format!("no fault was injected, yet: {}", v.msg));
                }
                return Ok(());
            }
            let img = read_image(&dest).unwrap_or_default();
            let mut want_s = want.clone();
            sort_tree(&mut want_s.tree);
            let src = SimDisk::new(1, img);
            if let Ok(mut rd) = WiiIsoReader::open(src) {
                ctx.probe("killed_disc_opens", true);
                for (i, e) in rd.partitions().to_vec().into_iter().enumerate() {
                    let Ok(mut info) = rd.open_partition(e.clone()) else { continue };
                    ctx.probe("killed_partition_opens", true);
                    check_open_part(&mut rd, &mut info, &want_s, TmdRule::Built, &mut Rng::new(s.seed))
                        .map_err(|m| Violation { class: "crash-exposes-garbage".into(), msg: format!("partition {i} at {:#x} opens after the kill, but: {m}", e.get_offset()) })?;
                }
            }
        }
        Mode::Same => {
            if !v.ok {
                return viol("spurious-error", format!("no fault was injected, yet: {}", v.msg));
            }
            let a = read_image(&dest).map_err(|e| Violation { class: "wrong-disc".into(), msg: e.to_string() })?;
            let _ = fs::remove_file(&dest);
            disturb(&src, s.seed ^ 0xD15);
            let prog2 = rebuild_prog(s.via2, &styled(&src, &sb.root, s.seed >> 6), &styled(&dest, &sb.root, s.seed >> 9));
            let r2 = sb.run(ctx, &prog2, &s.io2, &|| {})?;
            let v2 = judge(s.via2, &r2)?;
            if !v2.ok {
                return viol("spurious-error", format!("no fault was injected, yet: {}", v2.msg));
            }
            let b = read_image(&dest).map_err(|e| Violation { class: "wrong-disc".into(), msg: e.to_string() })?;
            a.same(&b).or_viol("images-differ")?;
        }
        Mode::Progress => {
            if !v.ok && r.hard == 0 {
                return viol("spurious-error", format!("no fault was injected, yet: {}", v.msg));
            }
            check_series(&v.progress, v.ok, total)?;
            let no_empty = files(&p.tree).iter().all(|f| f.1 > 0);
            let src_fault = r.fired.iter().any(|e| e.cls == C_SRC && e.act >= A_ERR);
            let other_fault = r.fired.iter().any(|e| e.cls != C_SRC && e.act >= A_ERR);
            if !v.ok && no_empty && total > 0 && src_fault && !other_fault && v.progress.last() == Some(&100) {
                return viol("progress", "100 percent was reported although a source file could not be read");
            }
        }
        Mode::Valid => {
            ctx.probe("damage_refused", !v.ok);
            let limit = (300u64 << 20) + 8 * total;
            if r.maxrss > limit {
                return viol("memory", format!("damaged metadata of a few KiB made the program use {:#x} bytes", r.maxrss));
            }
        }
        Mode::Retry => {
            let (_, new, seed) = s.swap.as_ref().unwrap();
            let path = swap_path.unwrap();
            let took = r.swapped(0);
            ctx.probe("changed_before_it_was_read", took == Some(false));
            ctx.nontrivial = took == Some(false);
            let early = took == Some(false);
            if early {
                set_file(&mut want.tree, &path, new.map(|n| (n, *seed)));
                want.tree = prune_empty(&want.tree);
            }
            if v.ok {
                verify(&want, &dest).or_viol("wrong-disc")?;
            } else if !(early && new.is_none()) {
                return viol("spurious-error", format!("no fault was injected, yet: {}", v.msg));
            }
        }
    }
    Ok(())
}

#[allow(dead_code)]
pub fn name_set(t: &[Node]) -> BTreeSet<Vec<String>> {
    files(t).into_iter().map(|f| f.0).collect()
}
