//! Histories of calls on the Python module's objects, and what the programs report about a disc.

use crate::fw::*;
use crate::model::*;
use crate::proc::*;
use crate::refimg::*;
use crate::rng::Rng;
use crate::scen_extract::*;
use crate::scen_read::{apply_damage, read_disc_spec, Dmg};
use crate::scen_rebuild::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum HOp {
    /// object, disc
    Open(u8, u8),
    Close(u8),
    Prepare(u8, u8),
    Hash(u8, u8),
    /// section, permille of files removed, seed of the choice
    Remove(u8, u8, u64, u64),
    Print(u8),
    /// destination folder
    Extract(u8, u8),
    /// a section name that does not exist
    Bad(u8, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct HistSpec {
    pub discs: Vec<(DiscSpec, LayoutSpec)>,
    /// 0: Python history, 1: `sections`, 2: `print-files`
    pub via: u8,
    pub section: String,
    pub ops: Vec<HOp>,
    pub casing: u64,
    pub io: Io,
    /// disc, partition, which part of it is broken
    #[serde(default)]
    pub broken: Vec<(u8, u8, u8)>,
}

const BROKEN_DOL: u8 = 0;
const BROKEN_APPLOADER: u8 = 1;
const BROKEN_TICKET: u8 = 2;
const BROKEN_TMD: u8 = 3;
const BROKEN_TABLE: u8 = 4;

fn damage_of(rd: &RefDisc, part: u8, kind: u8) -> Vec<Dmg> {
    let Some(rp) = rd.parts.get(part as usize) else { return vec![] };
    vec![match kind {
        BROKEN_DOL => Dmg::Plain(part, rp.dol_off + 0x90, vec![0xFF; 4]),
        BROKEN_APPLOADER => Dmg::Plain(part, 0x2440 + 0x14, vec![0xFF; 8]),
        BROKEN_TICKET => Dmg::Disc(rp.offset + 0x1F1, vec![9]),
        BROKEN_TMD => Dmg::Disc(rp.offset + rp.tmd_off, vec![9; 4]),
        _ => Dmg::Plain(part, rp.fst_off, vec![0; 4]),
    }]
}

pub struct Hist {
    pub extract: bool,
    pub faults: bool,
}

fn tree_lines(t: &[Node], ind: usize, out: &mut String) {
    for n in t {
        for _ in 0..ind {
            out.push_str("  ");
        }
        out.push_str(n.name());
        out.push('\n');
        if let Node::D { kids, .. } = n {
            tree_lines(kids, ind + 1, out);
        }
    }
}

fn tname(t: u8) -> &'static str {
    ["Data", "Update", "Channel"][t as usize]
}

impl Typed for Hist {
    type Spec = HistSpec;
    fn name(&self) -> &'static str {
        match (self.extract, self.faults) {
            (true, true) => "session_history_faults",
            (true, false) => "session_history",
            (false, true) => "report_faults",
            (false, false) => "report",
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _tier: Tier) -> HistSpec {
        let idx = idx + idx / 36;
        let nd = 1 + r.below(2);
        let mut discs = Vec::new();
        for k in 0..nd {
            let (mut d, mut l) = read_disc_spec(r, idx, true);
            if self.faults {
                l.seed = l.seed / 5 * 5 + 2;
            }
            if k == 0 && r.chance(500) {
                while d.parts.len() < 3 {
                    let t = d.parts.len() as u8;
                    d.parts.push(small_part(r, t));
                }
            }
            if r.chance(250) && !self.extract {
                // the same kind of partition again: the first one counts
                let mut p = small_part(r, 0);
                p.ptype = d.parts[0].ptype;
                d.parts.push(p);
            }
            for p in d.parts.iter_mut() {
                p.len_mode = 0;
            }
            if idx % 9 == 4 && !self.extract {
                let k = r.below(d.parts.len() as u64) as usize;
                d.parts[k].tree = bulk_tree(r);
            }
            discs.push((d, l));
        }
        let via = match (self.extract, self.faults) {
            (true, _) => 0,
            (_, true) => [1u8, 0, 2, 0][(idx % 4) as usize],
            _ => [1u8, 2, 2, 0][(idx % 4) as usize],
        };
        let mut broken = Vec::new();
        if r.chance(300) {
            let k = r.below(nd);
            broken.push((k as u8, r.below(discs[k as usize].0.parts.len() as u64) as u8, r.below(5) as u8));
        }
        let mut io = gen_io(r);
        if self.faults {
            let n = *r.pick(&[1u64, 1, 2, 3]);
            while (io.plans.len() as u64) < n {
                let p = gen_extract_plan(r);
                if self.extract || p.cls == C_ISO {
                    io.plans.push(p);
                }
            }
        }
        let mut ops = vec![HOp::Open(0, 0)];
        if via == 0 {
            let n = *r.pick(&[4u64, 8, 14, 24]);
            // where the model believes things stand, to make most calls meaningful
            let mut open: Vec<(u8, Vec<u8>)> = vec![(0, vec![])];
            for _ in 0..n {
                if open.is_empty() || (open.len() < 3 && r.chance(120)) {
                    let o = (0..4u8).find(|o| !open.iter().any(|x| x.0 == *o)).unwrap();
                    ops.push(HOp::Open(o, r.below(nd) as u8));
                    open.push((o, vec![]));
                    continue;
                }
                let i = r.below(open.len() as u64) as usize;
                let (o, prep) = &mut open[i];
                let o = *o;
                let sec = if !prep.is_empty() && r.chance(800) { *r.pick(prep) } else { r.below(3) as u8 };
                let op = match r.below(20) {
                    0..=4 => {
                        let t = r.below(3) as u8;
                        if !prep.contains(&t) {
                            prep.push(t);
                        }
                        HOp::Prepare(o, t)
                    }
                    5..=8 => HOp::Hash(o, sec),
                    9..=11 => HOp::Remove(o, sec, *r.pick(&[0u64, 200, 500, 1000]), r.next()),
                    12..=14 => HOp::Print(o),
                    15..=17 if self.extract => {
                        prep.clear();
                        HOp::Extract(o, r.below(3) as u8)
                    }
                    18 => HOp::Bad(o, r.below(4) as u8),
                    19 if r.chance(400) => {
                        open.remove(i);
                        HOp::Close(o)
                    }
                    _ => HOp::Hash(o, sec),
                };
                ops.push(op);
            }
            if self.extract {
                ops.push(HOp::Extract(0, 0));
                if r.chance(500) {
                    ops.push(HOp::Prepare(0, discs[0].0.parts[0].ptype));
                    ops.push(HOp::Extract(0, 1));
                }
            } else {
                ops.push(HOp::Print(0));
            }
        }
        let section = match r.below(8) {
            0 => r.pick(&["FOO", "", "DATA ", "0"]).to_string(),
            _ => SECTIONS[r.below(3) as usize].to_string(),
        };
        HistSpec { discs, via, section, ops, casing: r.next(), io, broken }
    }
    fn shrink(&self, s: &HistSpec) -> Vec<HistSpec> {
        let mut v = Vec::new();
        for i in 0..s.broken.len() {
            let mut c = s.clone();
            c.broken.remove(i);
            v.push(c);
        }
        let n = s.ops.len();
        for k in [n / 2, n / 4, 1] {
            let mut i = 1;
            while k > 0 && i < n {
                let mut c = s.clone();
                c.ops.drain(i..(i + k).min(n));
                v.push(c);
                i += k;
            }
        }
        for (k, d) in s.discs.iter().enumerate() {
            v.extend(shrink_disc(&d.0).into_iter().filter(|x| !x.parts.is_empty()).map(|x| {
                let mut c = s.clone();
                c.discs[k].0 = x;
                c
            }));
        }
        v
    }
    fn run(&self, s: &HistSpec, ctx: &mut Ctx) -> Result<(), Violation> {
        run_hist(self, s, ctx)
    }
}

struct Obj {
    disc: usize,
    /// section, tree as pruned so far
    prep: Vec<(u8, Vec<Node>, Vec<String>)>,
    /// an extraction failed: what is still prepared is not promised
    unsure: bool,
}

fn run_hist(sc: &Hist, s: &HistSpec, ctx: &mut Ctx) -> Result<(), Violation> {
    let mut rds: Vec<RefDisc> = s.discs.iter().map(|(d, l)| ref_disc(d, *l)).collect();
    for (d, p, kind) in &s.broken {
        if let Some(rd) = rds.get_mut(*d as usize) {
            let dmg = damage_of(rd, *p, *kind);
            rd.img = apply_damage(rd, &dmg);
        }
    }
    // how the first partition of a kind is broken
    let broken = |d: usize, t: u8, kinds: &[u8]| {
        let i = rds[d].parts.iter().position(|p| p.spec.ptype == t);
        s.broken.iter().any(|b| b.0 as usize == d && Some(b.1 as usize) == i && kinds.contains(&b.2))
    };
    let mut sb = Sand::new(ctx);
    let isos = [sb.path("iso"), sb.path("iso2")];
    sb.classes.push((C_ISO, isos[1].clone()));
    for (rd, p) in rds.iter().zip(&isos) {
        write_image(&rd.img, p);
        use std::os::unix::fs::PermissionsExt;
        fs::set_permissions(p, fs::Permissions::from_mode(0o644)).unwrap();
    }
    let dest = sb.path("out");
    let reset = || {
        let _ = fs::remove_dir_all(&dest);
    };
    if s.via != 0 {
        return run_tool(s, &rds[0], sb, ctx, &reset, &|t| broken(0, t, &[BROKEN_TICKET, BROKEN_TABLE]));
    }
    // ---- the calls
    let sec_name = |t: u8| cased(s.casing, SECTIONS[t as usize]);
    let first = |d: usize, t: u8| first_part(&rds[d], t);
    let disc_of = |ops: &[HOp], o: u8| ops.iter().rev().find_map(|x| if let HOp::Open(a, d) = x { (*a == o).then_some(*d as usize % rds.len()) } else { None });
    let mut steps: Vec<Value> = Vec::new();
    let mut live: Vec<&HOp> = Vec::new();
    {
        let mut open: Vec<u8> = Vec::new();
        for (i, op) in s.ops.iter().enumerate() {
            let o = match op {
                HOp::Open(o, _) | HOp::Close(o) | HOp::Prepare(o, _) | HOp::Hash(o, _) | HOp::Remove(o, ..) | HOp::Print(o) | HOp::Extract(o, _) | HOp::Bad(o, _) => *o,
            };
            match op {
                HOp::Open(..) => open.push(o),
                _ if !open.contains(&o) => continue,
                HOp::Close(_) => open.retain(|x| *x != o),
                _ => {}
            }
            let d = disc_of(&s.ops[..=i], o).unwrap();
            steps.push(match op {
                HOp::Open(..) => json!({"op": "open", "id": o, "path": isos[d].to_str().unwrap()}),
                HOp::Close(_) => json!({"op": "close", "id": o}),
                HOp::Prepare(_, t) => json!({"op": "prepare", "id": o, "section": sec_name(*t)}),
                HOp::Hash(_, t) => json!({"op": "dol_hash", "id": o, "section": sec_name(*t)}),
                HOp::Remove(_, t, pm, seed) => {
                    let gone: Vec<String> = first(d, *t)
                        .map(|p| files(&p.spec.tree).into_iter().map(|f| f.0.join("/")).filter(|p| selected(*seed, *pm, p)).collect())
                        .unwrap_or_default();
                    let mode = ["plain", "one", "text", "raise"][(*seed % 4) as usize];
                    json!({"op": "remove", "id": o, "section": sec_name(*t), "paths": gone, "mode": mode})
                }
                HOp::Print(_) => json!({"op": "print", "id": o}),
                HOp::Extract(_, k) => json!({"op": "extract", "id": o, "dest": dest.join(format!("d{d}_{k}")).to_str().unwrap(), "cb": {"mode": "plain"}}),
                HOp::Bad(_, k) => {
                    let name = ["", "DAT", "data2", "\u{17f}data"][*k as usize % 4];
                    json!({"op": if k % 2 == 0 { "prepare" } else { "dol_hash" }, "id": o, "section": name})
                }
            });
            live.push(op);
        }
    }
    ctx.count("n.python_runs", 1);
    ctx.count("n.calls", steps.len() as u64);
    let r = sb.run(ctx, &Prog::Python(json!({ "steps": steps })), &s.io, &reset)?;
    ctx.nontrivial = !sc.faults || r.hard > 0;
    no_crash(&r)?;
    if r.end != End::Exit(0) {
        return viol("abort", format!("the interpreter ended with {:?}: {}", r.end, r.err_line()));
    }
    if let Some(e) = r.escapes().first() {
        return viol("escape", format!("tried to modify something outside the destination: {e}"));
    }
    let Some(v) = r.python() else { return viol("harness", format!("no result from the driver: {}", r.err_line())) };
    let recs = v["steps"].as_array().unwrap();
    // ---- judged against the model
    let lasting = r.fired.iter().any(|e| matches!(e.act, A_ERRFOREVER | A_ERRKIND | A_ZEROFOREVER));
    let mut objs: BTreeMap<u8, Obj> = BTreeMap::new();
    let mut spurious = Vec::new();
    let mut stdout = String::new();
    let mut dests: BTreeMap<String, (BTreeMap<Vec<u8>, Vec<u8>>, bool)> = BTreeMap::new();
    let mut after_failure = 0u64;
    for (i, (op, rec)) in live.iter().zip(recs).enumerate() {
        if let Some(c) = rec["crash"].as_str() {
            return viol("panic", format!("call {i} {op:?}: {c}: {}", rec["msg"]));
        }
        let ok = rec["ok"] == json!(true);
        let mut fail = || spurious.push(format!("call {i} {op:?}: {}", rec["msg"].as_str().unwrap_or("?")));
        match op {
            HOp::Open(o, d) => {
                objs.remove(o);
                if ok {
                    objs.insert(*o, Obj { disc: *d as usize % rds.len(), prep: vec![], unsure: false });
                } else {
                    fail();
                }
                continue;
            }
            _ => {}
        }
        let o = match op {
            HOp::Close(o) | HOp::Prepare(o, _) | HOp::Hash(o, _) | HOp::Remove(o, ..) | HOp::Print(o) | HOp::Extract(o, _) | HOp::Bad(o, _) => *o,
            HOp::Open(..) => unreachable!(),
        };
        // an object that could not be opened: the driver has none
        let Some(ob) = objs.get_mut(&o) else { continue };
        if !spurious.is_empty() {
            after_failure += 1;
        }
        let mut fail = || spurious.push(format!("call {i} {op:?}: {}", rec["msg"].as_str().unwrap_or("?")));
        match op {
            HOp::Open(..) => {}
            HOp::Close(_) => {
                objs.remove(&o);
            }
            HOp::Bad(..) => {
                if ok {
                    return viol("false-success", format!("call {i} {op:?}: a section that does not exist was accepted"));
                }
            }
            HOp::Prepare(_, t) => {
                let rp = first(ob.disc, *t);
                let twice = ob.prep.iter().any(|p| p.0 == *t);
                let unreadable = broken(ob.disc, *t, &[BROKEN_TICKET, BROKEN_TABLE]);
                if unreadable {
                    if ok {
                        return viol("false-success", format!("call {i} {op:?}: prepared a section that cannot be read"));
                    }
                    ctx.probe("unreadable_refused", true);
                    continue;
                }
                match (ok, rp) {
                    (true, Some(rp)) if !twice => ob.prep.push((*t, rp.spec.tree.clone(), vec![])),
                    (true, _) if !ob.unsure || rp.is_none() => return viol("false-success", format!("call {i} {op:?}: prepared a section that is not there or prepared already")),
                    (false, Some(_)) if !twice && !ob.unsure => fail(),
                    _ => {}
                }
            }
            HOp::Hash(_, t) => {
                let have = ob.prep.iter().any(|p| p.0 == *t);
                let unreadable = broken(ob.disc, *t, &[BROKEN_DOL]);
                if ok && unreadable {
                    return viol("false-success", format!("call {i} {op:?}: hash of an executable that cannot be read"));
                }
                if unreadable && have {
                    ctx.probe("unreadable_refused", true);
                    continue;
                }
                if ok {
                    let Some(rp) = first(ob.disc, *t) else { return viol("false-success", format!("call {i} {op:?}: hash of a section that is not there")) };
                    if !have && !ob.unsure {
                        return viol("false-success", format!("call {i} {op:?}: hash of a section that was not prepared"));
                    }
                    use sha1::Digest;
                    let w: [u8; 20] = sha1::Sha1::digest(rp.spec.dol_bytes()).into();
                    let w: String = w.iter().map(|b| format!("{b:02x}")).collect();
                    if rec["value"] != json!(w) {
                        return viol("wrong-hash", format!("call {i} {op:?}: executable hash {} instead of {w}", rec["value"]));
                    }
                } else if have && !ob.unsure {
                    fail();
                }
            }
            HOp::Remove(_, t, pm, seed) => {
                if ob.unsure {
                    continue;
                }
                let Some(p) = ob.prep.iter_mut().find(|p| p.0 == *t) else {
                    if ok {
                        return viol("false-success", format!("call {i} {op:?}: removing from a section that was not prepared"));
                    }
                    continue;
                };
                if !ok {
                    return viol("spurious-error", format!("call {i} {op:?}: {}", rec["msg"]));
                }
                let all: Vec<String> = files(&p.1).into_iter().map(|f| f.0.join("/")).collect();
                let mut asked: Vec<&str> = rec["asked"].as_array().unwrap().iter().map(|x| x.as_str().unwrap_or("?")).collect();
                asked.sort();
                let mut want: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
                want.sort();
                if asked != want {
                    return viol("selection", format!("call {i} {op:?}: asked about {} files instead of {}", asked.len(), want.len()));
                }
                let gone: Vec<String> = all.iter().filter(|p| selected(*seed, *pm, p)).cloned().collect();
                p.1 = keep_tree(&p.1, &gone, "");
                p.2.extend(gone);
            }
            HOp::Print(_) => {
                if ob.unsure {
                    // not known what is printed: only the part before is judged
                    stdout.push('\0');
                    continue;
                }
                if !ok {
                    return viol("spurious-error", format!("call {i} {op:?}: {}", rec["msg"]));
                }
                for (_, t, _) in &ob.prep {
                    stdout.push_str("section:\n");
                    walk(t, &mut Vec::new(), &mut |p, _| stdout.push_str(&format!("{p:?}\n")));
                }
            }
            HOp::Extract(_, k) => {
                let key = format!("d{}_{k}", ob.disc);
                let e = dests.entry(key).or_default();
                let unreadable = ob.prep.iter().any(|p| broken(ob.disc, p.0, &[BROKEN_DOL, BROKEN_APPLOADER, BROKEN_TMD]));
                if ok && unreadable {
                    return viol("false-success", format!("call {i} {op:?}: extracted a section that cannot be read"));
                }
                if ok && !ob.unsure {
                    for (t, _, gone) in &ob.prep {
                        let sec = SECTIONS[*t as usize];
                        let rp = first(ob.disc, *t).unwrap();
                        let m = expect_section(&rds[ob.disc], rp, Some(gone), false);
                        e.0.extend(m.into_iter().map(|(k, v)| ([sec.as_bytes(), b"/", &k].concat(), v)));
                    }
                    ob.prep.clear();
                } else {
                    e.0.clear();
                    e.1 = true;
                    if !ok && !ob.unsure && !unreadable {
                        fail();
                    }
                    ob.unsure = true;
                    ob.prep.clear();
                }
            }
        }
    }
    ctx.probe("call_after_a_failed_one", after_failure > 0);
    ctx.probe("failed_call", !spurious.is_empty());
    if spurious.len() as u64 > r.hard && !lasting {
        let k = r.hard as usize;
        return viol("spurious-error", format!("{} faults, but {} calls failed; for example {}", r.hard, spurious.len(), spurious[k]));
    }
    // what was printed
    let mut got = String::from_utf8_lossy(&r.stdout).into_owned();
    let cut = got.trim_end().rfind('\n').map_or(0, |p| p + 1);
    got.truncate(cut);
    let got = got.strip_suffix('\n').unwrap_or(&got).to_string();
    let known = stdout.split('\0').next().unwrap();
    let same = if stdout.contains('\0') { got.starts_with(known.trim_end_matches('\n')) } else { got.trim_end_matches('\n') == known.trim_end_matches('\n') };
    if !same {
        return viol("wrong-listing", first_diff(&got, known));
    }
    // what was extracted
    for (k, (want, dirty)) in &dests {
        let snap = snapshot(&dest.join(k));
        for (p, w) in want {
            let name = format!("{k}/{}", String::from_utf8_lossy(p));
            match snap.get(p) {
                Some(Some(g)) => same_bytes(&name, g, w).or_viol("wrong-extraction")?,
                _ => return viol("wrong-extraction", format!("{name} is missing")),
            }
        }
        if !dirty {
            if let Some((p, _)) = snap.iter().find(|(p, v)| v.is_some() && !want.contains_key(*p)) {
                return viol("wrong-extraction", format!("{k}/{} is there but was not to be extracted", String::from_utf8_lossy(p)));
            }
        }
    }
    ctx.probe("extracted", dests.values().any(|d| !d.0.is_empty()));
    Ok(())
}

fn first_diff(got: &str, want: &str) -> String {
    let g: Vec<&str> = got.lines().collect();
    let w: Vec<&str> = want.lines().collect();
    let i = (0..g.len().max(w.len())).find(|&i| g.get(i) != w.get(i)).unwrap_or(0);
    format!("line {i} reads {:?} instead of {:?}", g.get(i), w.get(i))
}

fn run_tool(s: &HistSpec, rd: &RefDisc, mut sb: Sand, ctx: &mut Ctx, reset: &dyn Fn(), unreadable: &dyn Fn(u8) -> bool) -> Result<(), Violation> {
    let iso = sb.path("iso");
    let sec = cased(s.casing, &s.section);
    let mut want = String::new();
    let mut legit = true;
    let args = if s.via == 1 {
        for p in &rd.parts {
            want.push_str(&format!("{}: {:X}\n", tname(p.spec.ptype), p.offset));
        }
        vec![OsString::from("sections"), iso.into()]
    } else {
        match SECTIONS.iter().position(|x| *x == s.section).and_then(|t| first_part(rd, t as u8)) {
            Some(p) if unreadable(p.spec.ptype) => legit = false,
            Some(p) => tree_lines(&p.spec.tree, 0, &mut want),
            None => legit = false,
        }
        let mut a = vec![OsString::from("print-files"), iso.into()];
        // DATA is what is shown when nothing is asked for
        if !(s.section == "DATA" && s.casing % 2 == 0) {
            a.push("--section".into());
            a.push(sec.into());
        }
        a
    };
    ctx.count("n.tool_runs", 1);
    let r = sb.run(ctx, &Prog::Tool(args), &s.io, reset)?;
    ctx.nontrivial = s.io.plans.is_empty() || r.hard > 0;
    no_crash(&r)?;
    let got = String::from_utf8_lossy(&r.stdout).into_owned();
    let ok = r.end == End::Exit(0);
    ctx.probe("success", ok);
    if ok {
        if !legit {
            return viol("false-success", format!("files of the section {:?} were listed, which is not there or cannot be read", s.section));
        }
        if got != want {
            return viol("wrong-listing", first_diff(&got, &want));
        }
    } else {
        if r.stderr.trim().is_empty() {
            return viol("silent-failure", "the tool failed without a message");
        }
        if legit && r.hard == 0 {
            return viol("spurious-error", format!("nothing was wrong, yet: {}", r.err_line()));
        }
        if !want.starts_with(&got) {
            return viol("wrong-listing", first_diff(&got, &want));
        }
    }
    Ok(())
}
