//! Extracting a disc with the real programs.

use crate::fw::*;
use crate::model::*;
use crate::proc::*;
use crate::refimg::*;
use crate::rng::{content, mix2, Rng};
use crate::scen_build::Mode;
use crate::scen_read::{apply_damage, gen_damage, read_disc_spec, Dmg};
use crate::scen_rebuild::*;
use crate::simdisk::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

pub type Snap = BTreeMap<Vec<u8>, Option<Vec<u8>>>;

pub const SECTIONS: [&str; 3] = ["DATA", "UPDATE", "CHANNEL"];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ExSpec {
    pub disc: DiscSpec,
    pub lay: LayoutSpec,
    /// 0 command-line tool, 1 Python
    pub via: u8,
    pub sections: Vec<u8>,
    pub casing: u64,
    /// permille of files removed by the selection callback
    pub remove: u64,
    pub remove_mode: u8,
    pub cb: u8,
    /// files already in the destination
    pub old: bool,
    pub hash: bool,
    pub io: Io,
    pub dmg: Vec<Dmg>,
    /// partition data size field lowered to this many millionths
    pub shrink: Option<(u8, u64)>,
    pub seed: u64,
    /// rebuild of the extracted folder: 0 tool, 1 Python
    pub via2: u8,
    pub io2: Io,
    /// other command-line operations, for damaged discs
    pub tool_op: u8,
}

pub fn selected(seed: u64, permille: u64, path: &str) -> bool {
    let mut h = seed;
    for b in path.bytes() {
        h = mix2(h, b as u64);
    }
    h % 1000 < permille
}

pub fn cased(seed: u64, s: &str) -> String {
    match seed % 3 {
        0 => s.to_string(),
        1 => s.to_ascii_lowercase(),
        _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c } else { c.to_ascii_lowercase() }).collect(),
    }
}

pub fn removed(s: &ExSpec, tree: &[Node]) -> Vec<String> {
    files(tree).into_iter().map(|f| f.0.join("/")).filter(|p| selected(s.seed, s.remove, p)).collect()
}

pub fn keep_tree(tree: &[Node], gone: &[String], pre: &str) -> Vec<Node> {
    tree.iter()
        .filter_map(|n| {
            let p = if pre.is_empty() { n.name().to_string() } else { format!("{pre}/{}", n.name()) };
            match n {
                Node::F { .. } => (!gone.contains(&p)).then(|| n.clone()),
                Node::D { name, kids } => Some(Node::D { name: name.clone(), kids: keep_tree(kids, gone, &p) }),
            }
        })
        .collect()
}

/// what an extraction of this section must leave behind
pub fn expect_section(rd: &RefDisc, rp: &RefPart, gone: Option<&[String]>, sys_only: bool) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut put = |k: &str, v: Vec<u8>| {
        m.insert(k.as_bytes().to_vec(), v);
    };
    put("sys/boot.bin", disc_header_bytes(&rp.header()));
    put("sys/bi2.bin", rp.spec.bi2());
    put("sys/apploader.img", rp.spec.apploader_bytes());
    put("sys/main.dol", rp.spec.dol_bytes());
    let mut fst = vec![0u8; rp.fst_sz as usize];
    rp.plain(rp.fst_off, &mut fst);
    put("sys/fst.bin", fst);
    if !sys_only {
        put("disc/header.bin", disc_header_bytes(&rd.spec.header()));
        put("disc/region.bin", rd.spec.region().to_vec());
        put("cert.bin", cert_bytes(&rp.spec.certs()));
        put("tmd.bin", tmd_bytes(&rp.spec.tmd()));
        put("ticket.bin", ticket_bytes(&rp.spec.ticket()));
        for (p, len, seed, _) in files(&rp.spec.tree) {
            let p = p.join("/");
            if gone.map_or(false, |g| g.contains(&p)) {
                continue;
            }
            put(&format!("files/{p}"), content(seed, len as usize));
        }
    }
    m
}

/// `pre`: what was there before; it may still be there, unchanged
pub fn compare(got: &Snap, want: &BTreeMap<Vec<u8>, Vec<u8>>, pre: &Snap) -> Result<(), String> {
    for (k, v) in want {
        let name = String::from_utf8_lossy(k);
        match got.get(k) {
            Some(Some(g)) => same_bytes(&name, g, v)?,
            _ => return Err(format!("{name} is missing")),
        }
    }
    for (k, v) in got {
        if v.is_some() && !want.contains_key(k) && pre.get(k) != Some(v) {
            return Err(format!("{} was left behind but is not on the disc", String::from_utf8_lossy(k)));
        }
    }
    Ok(())
}

pub fn gen_extract_plan(r: &mut Rng) -> PPlan {
    let errno = *r.pick(&ERRNOS);
    let (kind, cls) = *r.pick(&[
        (K_OPEN, C_ISO),
        (K_READ, C_ISO),
        (K_READ, C_ISO),
        (K_READ, C_ISO),
        (K_READ, C_ISO),
        (K_LSEEK, C_ISO),
        (K_LSEEK, C_ISO),
        (K_OPEN, C_DST),
        (K_OPEN, C_DST),
        (K_WRITE, C_DST),
        (K_WRITE, C_DST),
        (K_WRITE, C_DST),
        (K_WRITE, C_DST),
        (K_MKDIR, C_DST),
        (K_MKDIR, C_DST),
        (K_STAT, C_DST),
        (K_SYNC, C_DST),
    ]);
    let act = match (kind, cls) {
        (K_WRITE, _) => *r.pick(&[A_ERR, A_ERR, A_ERRFOREVER, A_ERRKIND, A_TORN, A_ZERO, A_ZEROFOREVER]),
        (K_READ, _) => *r.pick(&[A_ERR, A_ERR, A_ERRFOREVER, A_ZERO, A_ZEROFOREVER]),
        _ => *r.pick(&[A_ERR, A_ERR, A_ERR, A_ERR, A_ERRKIND, A_ERRFOREVER]),
    };
    let arg = if act == A_TORN { r.next() & 0xFF_FFFF } else { errno };
    PPlan { kind, cls, frac: gen_frac(r), act, arg }
}

const HOSTILE: [&str; 26] = [
    "..", "..", ".", "/abs", "a/b", "../x", "../../x", "../../../x", "../../../../x", "../../../../../x", "../../../../../../tmp/x", "x/../../../../../y", "//x", "..//..//..//../x",
    "\\..\\x", "C:x", "~", "/../../x", "./../../../../x", "x/", "/", "../", "../../../../", "\u{ff5e}", "con", " ..",
];

fn hostile_tree(r: &mut Rng, tree: &mut Vec<Node>) {
    // chains of parent folders
    if r.chance(350) {
        let depth = r.range(1, 6);
        let leaf = Node::F { name: r.pick(&["x", "passwd", "iso", "guard", "canary"]).to_string(), len: r.below(300), seed: r.next(), pad: 0 };
        let mut n = leaf;
        for _ in 0..depth {
            n = Node::D { name: r.pick(&["..", "..", "..", "sub", "."]).to_string(), kids: vec![n] };
        }
        let at = r.below(tree.len() as u64 + 1) as usize;
        tree.insert(at, n);
    }
    fn rec(r: &mut Rng, t: &mut Vec<Node>, p: u64) {
        for n in t.iter_mut() {
            if r.chance(p) {
                n.set_name(r.pick(&HOSTILE).to_string());
            }
            if let Node::D { kids, .. } = n {
                rec(r, kids, p);
            }
        }
    }
    if r.chance(750) {
        let p = *r.pick(&[60u64, 200, 500]);
        rec(r, tree, p);
    }
    if r.chance(300) {
        tree.push(Node::F { name: r.pick(&HOSTILE).to_string(), len: r.below(3000), seed: r.next(), pad: 0 });
    }
}

/// does the path of a file leave the destination folder?
fn leads_outside(section: &str, path: &[String]) -> bool {
    let mut stack: Vec<&str> = vec![section, "files"];
    for comp in path {
        if comp.starts_with('/') {
            return true;
        }
        for c in comp.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    if stack.pop().is_none() {
                        return true;
                    }
                }
                c => stack.push(c),
            }
        }
    }
    false
}

pub struct Extract(pub Mode);

impl Typed for Extract {
    type Spec = ExSpec;
    fn name(&self) -> &'static str {
        match self.0 {
            Mode::RoundTrip => "extract_exact",
            Mode::Faulted => "extract_faults",
            Mode::Progress => "extract_progress",
            Mode::Steps => "extract_steps",
            Mode::Valid => "extract_damaged",
            Mode::Crash => "extract_hostile",
            Mode::Same => "extract_rebuild",
            Mode::Retry => "extract_short_disc",
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _tier: Tier) -> ExSpec {
        let (mut disc, mut lay) = read_disc_spec(r, idx, true);
        if idx % 4 == 1 {
            let big = small_part(r, 0);
            disc.parts[0].tree = big.tree;
        }
        let all = idx % 7 == 5;
        if all {
            // every section at once, each with something to show
            while disc.parts.len() < 3 {
                disc.parts.push(small_part(r, 0));
            }
            let first = r.below(3);
            for (k, p) in disc.parts.iter_mut().enumerate() {
                p.ptype = ((k as u64 + first) % 3) as u8;
                if files(&p.tree).is_empty() {
                    p.tree.push(Node::F { name: format!("f{k}"), len: r.range(1, 3000), seed: r.next(), pad: 0 });
                }
            }
        }
        if idx % 17 == 6 && self.0 == Mode::Progress {
            let p = &mut disc.parts[0];
            p.tree.retain(|n| n.name() != "huge.dat");
            let at = r.below(p.tree.len() as u64 + 1) as usize;
            p.tree.insert(at, Node::F { name: "huge.dat".into(), len: if idx % 51 == 6 { 0x2A0_0000 + r.below(0x80_0000) } else { r.range(0x100_0000, 0x190_0000) }, seed: r.next(), pad: 0 });
        }
        // names unique on the destination file system
        for p in disc.parts.iter_mut() {
            p.len_mode = 0;
        }
        if self.0 == Mode::Same {
            let p = small_part(r, 0);
            let t = p.tree.clone();
            let i = r.below(disc.parts.len() as u64) as usize;
            disc.parts[i].ptype = 0;
            for q in disc.parts.iter_mut().filter(|q| q.ptype == 0) {
                q.tree = t.clone();
            }
        }
        if idx % 11 == 3 && matches!(self.0, Mode::RoundTrip | Mode::Same) {
            lay.far = 1 + (idx % 3) as u8;
        }
        let mut have: Vec<u8> = disc.parts.iter().map(|p| p.ptype).collect();
        have.sort();
        have.dedup();
        r.shuffle(&mut have);
        let n = if all || idx % 17 == 6 { have.len() } else { r.range(1, have.len() as u64) as usize };
        let mut sections = have[..n].to_vec();
        let via = (self.0 == Mode::Same || self.0 == Mode::Progress || idx % 4 != 0) as u8;
        if via == 0 {
            sections.truncate(1);
        }
        if self.0 == Mode::Same {
            if !sections.contains(&0) {
                sections.push(0);
            }
        }
        if self.0 == Mode::Crash && r.chance(900) {
            for p in disc.parts.iter_mut() {
                if sections.contains(&p.ptype) {
                    hostile_tree(r, &mut p.tree);
                }
            }
        }
        if r.chance(60) && self.0 == Mode::RoundTrip {
            sections.push(r.below(3) as u8);
        }
        let mut s = ExSpec {
            disc,
            lay,
            via,
            sections,
            casing: r.next(),
            remove: *r.pick(&[0u64, 0, 200, 500, 1000]),
            remove_mode: r.below(4) as u8,
            cb: *r.pick(&[0u8, 0, 0, 1, 2]),
            old: r.chance(200),
            hash: r.chance(300),
            io: gen_io(r),
            dmg: vec![],
            shrink: None,
            seed: r.next(),
            via2: r.below(2) as u8,
            io2: gen_io(r),
            tool_op: 0,
        };
        if self.0 == Mode::Same {
            if s.remove == 1000 {
                s.remove = 100;
            }
            for p in s.disc.parts.iter_mut().filter(|p| p.ptype == 0 && files(&p.tree).is_empty()) {
                p.tree.push(Node::F { name: "opening.bnr".into(), len: 1 + idx * 977 % 70_000, seed: idx, pad: 0 });
            }
        }
        match self.0 {
            Mode::Faulted => {
                if r.chance(120) {
                    s.io.cap = Some(r.below(1_000_000));
                } else {
                    for _ in 0..*r.pick(&[1u64, 1, 1, 2, 3]) {
                        s.io.plans.push(gen_extract_plan(r));
                    }
                }
            }
            Mode::Steps => {
                for _ in 0..*r.pick(&[1u64, 1, 2, 4]) {
                    s.io.plans.push(gen_extract_plan(r));
                }
                stubborn(r, &mut s.io.plans);
                if r.chance(400) {
                    for a in s.io.amb.iter_mut() {
                        a.eintr = 700;
                        a.seed |= 1;
                    }
                }
            }
            Mode::Progress => {
                s.cb = 0;
                if r.chance(250) {
                    s.io.plans.push(gen_extract_plan(r));
                }
            }
            Mode::Valid => {
                let rd = ref_disc(&s.disc, s.lay);
                s.dmg = gen_damage(r, &rd);
                s.tool_op = r.below(3) as u8;
                if r.chance(700) {
                    s.io = Io { dirseed: 0, rndseed: s.io.rndseed, ..Default::default() };
                }
            }
            Mode::Retry => {
                if r.chance(500) {
                    s.shrink = Some((r.below(s.disc.parts.len() as u64) as u8, r.below(1_000_000)));
                } else {
                    let rd = ref_disc(&s.disc, s.lay);
                    let at = match r.below(3) {
                        0 => r.below(rd.img.len),
                        1 => rd.img.len - r.below(rd.img.len.min(0x8000)),
                        _ => {
                            let p = &rd.parts[r.below(rd.parts.len() as u64) as usize];
                            p.offset + p.data_off + r.below(rd.img.len - p.offset - p.data_off)
                        }
                    };
                    s.dmg = vec![Dmg::Cut(at)];
                }
            }
            _ => {}
        }
        s
    }

    fn shrink(&self, s: &ExSpec) -> Vec<ExSpec> {
        let mut v: Vec<ExSpec> = Vec::new();
        if self.0 != Mode::Valid {
            v.extend(shrink_disc(&s.disc).into_iter().filter(|d| !d.parts.is_empty()).map(|d| ExSpec { disc: d, ..s.clone() }));
        }
        if s.sections.len() > 1 {
            for i in 0..s.sections.len() {
                let mut c = s.clone();
                c.sections.remove(i);
                v.push(c);
            }
        }
        if s.dmg.len() > 1 {
            for i in 0..s.dmg.len() {
                let mut c = s.clone();
                c.dmg.remove(i);
                v.push(c);
            }
        }
        if s.remove != 0 {
            v.push(ExSpec { remove: 0, ..s.clone() });
        }
        if s.old {
            v.push(ExSpec { old: false, ..s.clone() });
        }
        if s.hash {
            v.push(ExSpec { hash: false, ..s.clone() });
        }
        v
    }

    fn run(&self, s: &ExSpec, ctx: &mut Ctx) -> Result<(), Violation> {
        run_extract(self.0, s, ctx)
    }
}

pub fn first_part<'a>(rd: &'a RefDisc, t: u8) -> Option<&'a RefPart> {
    rd.parts.iter().find(|p| p.spec.ptype == t)
}

pub fn extract_steps(s: &ExSpec, rd: &RefDisc, id: u64, iso: &Path, dest: &Path, cb: Value, watch: bool) -> Vec<Value> {
    let mut st = vec![json!({"op": "open", "id": id, "path": iso.to_str().unwrap()})];
    for t in &s.sections {
        let sec = cased(s.casing, SECTIONS[*t as usize]);
        st.push(json!({"op": "prepare", "id": id, "section": sec}));
        if s.hash {
            st.push(json!({"op": "dol_hash", "id": id, "section": sec}));
        }
        if s.remove > 0 {
            let gone = first_part(rd, *t).map(|p| removed(s, &p.spec.tree)).unwrap_or_default();
            let rm = ["plain", "one", "text", "raise"][s.remove_mode as usize % 4];
            st.push(json!({"op": "remove", "id": id, "section": sec, "paths": gone, "mode": rm}));
        }
    }
    let mut e = json!({"op": "extract", "id": id, "dest": dest.to_str().unwrap(), "cb": cb});
    if watch && s.sections.len() == 1 {
        e["watch"] = json!(dest.join(SECTIONS[s.sections[0] as usize]).join("files").to_str().unwrap());
    }
    st.push(e);
    st
}

/// judges the record of one extraction session; Ok(true) = extraction reported success
pub fn judge_extract(s: &ExSpec, rd: &RefDisc, recs: &[Value], dest: &Path, pre: &Snap, faulty: bool) -> Result<bool, Violation> {
    for r in recs {
        if let Some(c) = r["crash"].as_str() {
            return viol("panic", format!("{}: {c}: {}", r["op"], r["msg"]));
        }
    }
    let bad = |r: &Value| -> Result<(), Violation> {
        if faulty {
            Ok(())
        } else {
            viol("spurious-error", format!("{} failed though nothing was wrong: {}", r["op"], r["msg"]))
        }
    };
    let ok = |r: &Value| r["ok"] == json!(true);
    if !ok(&recs[0]) {
        bad(&recs[0])?;
        return Ok(false);
    }
    let mut i = 1;
    let mut want: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut prepared: Vec<u8> = Vec::new();
    for t in &s.sections {
        let rp = first_part(rd, *t);
        let r = &recs[i];
        i += 1;
        let legit = rp.is_some() && !prepared.contains(t);
        let prep = ok(r);
        if !prep && legit {
            bad(r)?;
        }
        if prep && !legit && s.dmg.is_empty() {
            return viol("false-success", format!("preparing section {} succeeded though it is not there or already prepared", SECTIONS[*t as usize]));
        }
        let here = prep || prepared.contains(t);
        if s.hash {
            let r = &recs[i];
            i += 1;
            if ok(r) {
                if let (Some(rp), true) = (rp, s.dmg.is_empty() && s.shrink.is_none()) {
                    use sha1::Digest;
                    let w: [u8; 20] = sha1::Sha1::digest(rp.spec.dol_bytes()).into();
                    let w: String = w.iter().map(|b| format!("{b:02x}")).collect();
                    if r["value"] != json!(w) {
                        return viol("wrong-hash", format!("executable hash {} instead of {w}", r["value"]));
                    }
                }
            } else if here {
                bad(r)?;
            }
        }
        let mut gone = None;
        if s.remove > 0 {
            let r = &recs[i];
            i += 1;
            if ok(r) {
                gone = Some(());
            } else if here {
                bad(r)?;
            }
        }
        if let (true, Some(rp)) = (here, rp) {
            let g = removed(s, &rp.spec.tree);
            let g = gone.map(|_| g.as_slice());
            let sec = SECTIONS[*t as usize];
            let m: Vec<_> = expect_section(rd, rp, g, false).into_iter().map(|(k, v)| ([sec.as_bytes(), b"/", &k].concat(), v)).collect();
            want.extend(m);
            prepared.push(*t);
        }
    }
    let e = &recs[i];
    if !ok(e) {
        bad(e)?;
        return Ok(false);
    }
    if s.dmg.iter().any(|d| !matches!(d, Dmg::Cut(_))) {
        return Ok(true);
    }
    let got = snapshot(dest);
    if s.old {
        let keep = got.get(&b"old.txt"[..].to_vec());
        if keep != Some(&Some(b"old".to_vec())) {
            return viol("old-file-lost", "an unrelated file in the destination was changed or removed");
        }
    }
    compare(&got, &want, pre).or_viol(if faulty { "false-success" } else { "wrong-extraction" })?;
    Ok(true)
}

fn run_extract(mode: Mode, s: &ExSpec, ctx: &mut Ctx) -> Result<(), Violation> {
    let mut rd = ref_disc(&s.disc, s.lay);
    let mut img = apply_damage(&mut rd, &s.dmg);
    if let Some((k, f)) = s.shrink {
        let p = &rd.parts[k as usize % rd.parts.len()];
        let v = ((p.data_size * f / 1_000_000) >> 2) as u32;
        img.write_at(p.offset + 0x2BC, &v.to_be_bytes(), None);
    }
    let mut sb = Sand::new(ctx);
    let iso = sb.path("iso");
    let dest = sb.path("out");
    write_image(&img, &iso);
    fs::write(sb.path("canary"), b"canary").unwrap();
    fs::create_dir(sb.path("src")).unwrap();
    fs::write(sb.path("src/guard"), b"guard").unwrap();
    {
        use std::os::unix::fs::PermissionsExt;
        fs::set_permissions(&iso, fs::Permissions::from_mode(0o644)).unwrap();
    }
    let fill_old = || {
        if !s.old {
            return;
        }
        fs::create_dir_all(&dest).unwrap();
        fs::write(dest.join("old.txt"), b"old").unwrap();
        for t in &s.sections {
            if let (Some(rp), true) = (first_part(&rd, *t), mode != Mode::Crash) {
                // longer, shorter, or just as long as what will be there
                let g = removed(s, &rp.spec.tree);
                let mut r = Rng::new(s.seed ^ 0x01D);
                let some = *r.pick(&[100u64, 500, 1000]);
                let how = r.below(4);
                for (k, v) in expect_section(&rd, rp, (s.remove > 0).then_some(&g), s.via == 0) {
                    if !r.chance(some) || v.len() > 1 << 22 {
                        continue;
                    }
                    let n = match how {
                        0 => v.len() + r.range(1, 0x30000) as usize,
                        1 => v.len() / 2,
                        2 => v.len(),
                        _ => *r.pick(&[0, v.len() / 2, v.len(), v.len() + 1, v.len() + 0x20000]),
                    };
                    let top = if s.via == 0 { dest.clone() } else { dest.join(SECTIONS[*t as usize]) };
                    let q = top.join(std::ffi::OsStr::from_bytes(&k));
                    let _ = fs::create_dir_all(q.parent().unwrap());
                    let _ = fs::write(q, vec![0xAA; n]);
                }
            }
        }
    };
    fill_old();
    let pre = snapshot(&dest);
    let before: BTreeMap<_, _> = ["canary", "src/guard"].into_iter().map(|p| (p, fs::read(sb.path(p)).unwrap())).collect();
    let reset = || {
        let _ = fs::remove_dir_all(&dest);
        fill_old();
    };
    let sec = s.sections[0];
    let (iso_arg, dest_arg) = (styled(&iso, &sb.root, s.seed), styled(&dest, &sb.root, s.seed >> 3));
    let prog = if s.via == 0 {
        let mut a: Vec<OsString> = match s.tool_op {
            1 => vec!["sections".into(), iso_arg.into()],
            2 => vec!["print-files".into(), iso_arg.into()],
            _ => vec!["extract-sys".into(), iso_arg.into(), dest_arg.into()],
        };
        // DATA is what one gets without asking
        if s.tool_op != 1 && (sec != 0 || s.seed >> 6 & 3 != 0) {
            a.extend(["--section".into(), cased(s.casing, SECTIONS[sec as usize]).into()]);
        }
        Prog::Tool(a)
    } else {
        let cb = match s.cb {
            1 => json!({"mode": "raise", "at": s.seed % 3}),
            2 => json!({"mode": "none"}),
            _ => json!({"mode": "plain"}),
        };
        Prog::Python(json!({"steps": extract_steps(s, &rd, 0, &iso_arg, &dest_arg, cb, mode == Mode::Progress)}))
    };
    if mode == Mode::Valid {
        sb.mem = 1 << 30;
    }
    ctx.count(if s.via == 0 { "n.tool_runs" } else { "n.python_runs" }, 1);
    let r = sb.run(ctx, &prog, &s.io, &reset)?;
    ctx.nontrivial = true;
    no_crash(&r)?;
    if let Some(e) = r.escapes().first() {
        return viol("escape", format!("tried to modify something outside the destination: {e}"));
    }
    for (k, v) in &before {
        if fs::read(sb.path(k)).ok().as_ref() != Some(v) {
            return viol("escape", format!("{k} outside the destination was changed"));
        }
    }
    // nothing new next to the destination
    for e in fs::read_dir(&sb.root).unwrap().flatten() {
        let n = e.file_name();
        if !["iso", "out", "canary", "src"].iter().any(|x| n == *x) {
            return viol("escape", format!("{n:?} appeared next to the destination"));
        }
    }
    let faulty = r.hard > 0 || !s.dmg.is_empty() || s.shrink.is_some();
    let mut recs = Vec::new();
    if s.via == 1 {
        if r.end != End::Exit(0) {
            return viol("abort", format!("the interpreter ended with {:?}: {}", r.end, r.err_line()));
        }
        let Some(v) = r.python() else { return viol("harness", format!("no result from the driver: {}", r.err_line())) };
        recs = v["steps"].as_array().unwrap().clone();
    }
    if mode == Mode::Crash {
        for x in &recs {
            if let Some(c) = x["crash"].as_str() {
                return viol("panic", format!("{}: {c}: {}", x["op"], x["msg"]));
            }
        }
        let mut out = false;
        for t in &s.sections {
            if let Some(rp) = first_part(&rd, *t) {
                let g = removed(s, &rp.spec.tree);
                out |= files(&rp.spec.tree).iter().any(|f| !(s.remove > 0 && g.contains(&f.0.join("/"))) && leads_outside(SECTIONS[*t as usize], &f.0));
            }
        }
        ctx.probe("name_leads_outside", out && s.via == 1);
        let done = recs.last().map_or(false, |x| x["ok"] == json!(true));
        ctx.probe("extracted_all_the_same", done);
        if done && out {
            return viol("false-success", "a name on the disc leads outside the destination, yet the extraction reported success");
        }
        return Ok(());
    }
    if mode == Mode::Valid {
        for x in &recs {
            if let Some(c) = x["crash"].as_str() {
                return viol("panic", format!("{}: {c}: {}", x["op"], x["msg"]));
            }
        }
        let limit = (300u64 << 20) + 8 * img.len;
        if r.maxrss > limit {
            return viol("memory", format!("a damaged image of {:#x} bytes made the program use {:#x} bytes", img.len, r.maxrss));
        }
        return Ok(());
    }
    let judged = if s.via == 0 {
        let rp = first_part(&rd, sec);
        let ok = r.end == End::Exit(0);
        if !ok && r.stderr.trim().is_empty() {
            return viol("silent-failure", "the tool failed without a message");
        }
        match (ok, rp) {
            (true, None) => return viol("false-success", "system files extracted from a section that does not exist"),
            (true, Some(rp)) => {
                compare(&snapshot(&dest), &expect_section(&rd, rp, None, true), &pre).or_viol(if faulty { "false-success" } else { "wrong-extraction" })?;
            }
            (false, Some(_)) if !faulty => return viol("spurious-error", format!("nothing was wrong, yet: {}", r.err_line())),
            _ => {}
        }
        ok
    } else {
        judge_extract(s, &rd, &recs, &dest, &pre, faulty)?
    };
    ctx.probe("success", judged);
    match mode {
        Mode::Faulted => ctx.nontrivial = r.hard > 0,
        Mode::Steps => {
            ctx.nontrivial = r.hard > 0;
            if !judged && r.hard > 0 {
                reset();
                let io = Io { plans: vec![], cap: None, ..s.io.clone() };
                let r2 = sb.run(ctx, &prog, &io, &reset)?;
                no_crash(&r2)?;
                if s.via == 1 {
                    let v = r2.python().unwrap_or_default();
                    let recs = v["steps"].as_array().cloned().unwrap_or_default();
                    if recs.is_empty() {
                        return viol("harness", "no result from the driver");
                    }
                    judge_extract(s, &rd, &recs, &dest, &pre, false)?;
                } else if first_part(&rd, sec).is_some() && r2.end != End::Exit(0) {
                    return viol("no-recovery", format!("faults have stopped, yet: {}", r2.err_line()));
                }
            }
        }
        Mode::Progress => {
            let e = recs.last().unwrap();
            let p: Vec<i64> = e["progress"].as_array().unwrap().iter().filter_map(|x| x.as_i64()).collect();
            let preps: Vec<bool> = recs.iter().filter(|x| x["op"] == json!("prepare")).map(|x| x["ok"] == json!(true)).collect();
            let totals: Vec<u64> = s
                .sections
                .iter()
                .zip(preps)
                .filter(|(_, ok)| *ok)
                .map(|(t, _)| t)
                .filter_map(|t| first_part(&rd, *t))
                .map(|rp| {
                    let g = removed(s, &rp.spec.tree);
                    files(&rp.spec.tree).iter().filter(|f| !(s.remove > 0 && g.contains(&f.0.join("/")))).map(|f| f.1).sum()
                })
                .collect();
            if p.is_empty() {
                if judged {
                    return viol("progress", "no progress was reported at all");
                }
                return Ok(());
            }
            if p[0] != 0 {
                return viol("progress", format!("progress starts at {}", p[0]));
            }
            if p.iter().any(|x| *x > 100 || *x < 0) {
                return viol("progress", format!("progress reaches {}", p.iter().max().unwrap()));
            }
            // per section: back to a lower value only after 100
            let mut parts = 1;
            for w in p.windows(2) {
                if w[1] < w[0] {
                    if w[0] != 100 {
                        return viol("progress", format!("progress goes down from {} to {}", w[0], w[1]));
                    }
                    parts += 1;
                }
            }
            let with_data = totals.iter().filter(|t| **t > 0).count();
            if parts > with_data.max(1) {
                return viol("progress", format!("progress started over {parts} times for {with_data} sections with data"));
            }
            if judged && with_data > 0 && *p.last().unwrap() != 100 {
                return viol("progress", format!("successful extraction ended at {} percent", p.last().unwrap()));
            }
            if let Some(n) = e["at100"].as_u64() {
                ctx.probe("measured_at_100", true);
                if totals.first().is_some_and(|t| n < *t) {
                    return viol("progress", format!("100 reported when {n} of {} bytes were in the destination", totals[0]));
                }
            }
        }
        Mode::Same => {
            if !judged {
                return Ok(());
            }
            let rp = first_part(&rd, 0).unwrap();
            let out2 = sb.path("out2");
            sb.classes = vec![(C_ISO, iso.clone()), (C_SRC, dest.clone()), (C_DST, out2.clone())];
            let prog2 = rebuild_prog(s.via2, &styled(&dest, &sb.root, s.seed >> 6), &styled(&out2, &sb.root, s.seed >> 9));
            let r2 = sb.run(ctx, &prog2, &s.io2, &|| {})?;
            let v = judge(s.via2, &r2)?;
            if files(&prune_empty(&keep_tree(&rp.spec.tree, &if s.remove > 0 { removed(s, &rp.spec.tree) } else { vec![] }, ""))).is_empty() {
                // no files: there is no files folder to rebuild from
                ctx.probe("nothing_left_to_rebuild", true);
                if !v.ok {
                    return Ok(());
                }
            }
            if !v.ok {
                return viol("spurious-error", format!("the extracted folder cannot be rebuilt: {}", v.msg));
            }
            let g = if s.remove > 0 { removed(s, &rp.spec.tree) } else { vec![] };
            let want = PartSpec { tree: prune_empty(&keep_tree(&rp.spec.tree, &g, "")), ..rp.spec.clone() };
            let mut h = rp.header();
            h.disable_disc_enc = 0;
            h.disable_hash_verification = 0;
            let img = read_image(&out2).map_err(|e| Violation { class: "wrong-disc".into(), msg: e.to_string() })?;
            verify_built(&img, &disc_header_bytes(&h), &rd.spec.region(), &[&want], Depth::Unordered).or_viol("wrong-disc")?;
        }
        _ => {}
    }
    Ok(())
}
