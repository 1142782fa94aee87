//! The file system table on a plain stream: read under legal behaviour (C03) and under source
//! faults (C04), changed and written under destination faults (C05).

use crate::fw::*;
use crate::libread::same_tree;
use crate::model::*;
use crate::refimg::{check_table, fst_serialize};
use crate::rng::{fill_random, mix2, Rng};
use crate::scen_build::{gen_ambient, gen_plan, Mode};
use crate::simdisk::*;
use disc_riider::*;
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom, Write};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TSpec {
    pub tree: Vec<Node>,
    pub seed: u64,
    /// where the table lies, and where it is written
    pub at: u64,
    pub to: u64,
    pub before: u64,
    pub ambient: Ambient,
    pub plans: Vec<Plan>,
}

pub struct Table(pub Mode);

fn places(s: &TSpec, salt: u64) -> Vec<(u64, u32)> {
    let n = files(&s.tree).len() as u64;
    (0..n)
        .map(|i| {
            let v = mix2(s.seed ^ salt, i);
            let o = match v % 5 {
                0 => v >> 40,
                1 => 0xFFFF_FFFF,
                2 => 0x8000_0000 + (v >> 50),
                _ => v >> 32,
            };
            ((o & 0xFFFF_FFFF) << 2, (mix2(v, 1) >> (32 + v % 20)) as u32)
        })
        .collect()
}

fn read_back(d: &SimDisk, s: &TSpec, want: &[(u64, u32)], tree: &[Node]) -> Result<(Result<Fst, String>, bool), Violation> {
    d.with(|i| i.pos = s.before);
    match Fst::read(&mut d.clone(), s.at) {
        Err(e) => Ok((Err(e.to_string()), false)),
        Ok(f) => {
            let r = same_tree(f.get_entries(), tree, "").and_then(|_| {
                fn offs(n: &[FstNode], v: &mut Vec<u64>) {
                    for x in n {
                        match x {
                            FstNode::File { offset, .. } => v.push(*offset),
                            FstNode::Directory { files, .. } => offs(files, v),
                        }
                    }
                }
                let mut v = Vec::new();
                offs(f.get_entries(), &mut v);
                if !v.iter().eq(want.iter().map(|w| &w.0)) {
                    return Err(format!("file offsets {v:x?} instead of {want:x?}"));
                }
                // every file is found under its own path
                for ((path, ..), w) in files(tree).iter().zip(want) {
                    match f.find_node_iter(path.iter().map(|s| s.as_str())) {
                        Some(FstNode::File { offset, length, .. }) if (*offset, *length) == *w => {}
                        x => return Err(format!("looking up {path:?} gives {x:x?} instead of {w:x?}")),
                    }
                }
                Ok(())
            });
            if let Err(m) = r {
                return viol("wrong_table", format!("a table was read without an error but is not the one stored: {m}"));
            }
            Ok((Ok(f), true))
        }
    }
}

impl Table {
    fn writes(&self) -> bool {
        self.0 == Mode::Valid
    }
    fn play(&self, s: &TSpec, d: &SimDisk) -> Result<(), Violation> {
        let from = places(s, 1);
        let mut tree = s.tree.clone();
        fn set(t: &mut [Node], p: &[(u64, u32)], i: &mut usize) {
            for n in t {
                match n {
                    Node::F { len, .. } => {
                        *len = p[*i].1 as u64;
                        *i += 1;
                    }
                    Node::D { kids, .. } => set(kids, p, i),
                }
            }
        }
        set(&mut tree, &from, &mut 0);
        if !self.writes() {
            let (r, _) = read_back(d, s, &from, &tree)?;
            if let Err(e) = r {
                if d.with(|i| i.hard) == 0 {
                    return viol("refused", format!("a well-formed table was refused: {e}"));
                }
                d.heal();
                if let (Err(e), _) = read_back(d, s, &from, &tree)? {
                    return viol("not_recovered", format!("reading the table still fails once the source works again: {e}"));
                }
            }
            return Ok(());
        }
        // the tree comes from an undisturbed copy
        let calm = SimDisk::new(9, d.image());
        let (r, _) = read_back(&calm, s, &from, &tree)?;
        let fst = r.or_viol("refused")?;
        let mut out = FstToBytes::try_from(fst).or_viol("refused")?;
        let to = places(s, 2);
        let want = files(&s.tree);
        let mut i = 0;
        let r = out.callback_all_files_mut::<String, _>(&mut |path, o, l| {
            if want.get(i).map(|w| &w.0) != Some(path) {
                return Err(format!("visited {path:?} as number {i}"));
            }
            (*o, *l) = to[i];
            i += 1;
            Ok(())
        });
        r.or_viol("visit")?;
        if i != want.len() || out.get_total_file_count() != want.len() {
            return viol("visit", format!("{i} files visited, {} counted, of {}", out.get_total_file_count(), want.len()));
        }
        let before = d.image();
        for retry in [false, true] {
            let mut w = d.clone();
            let r = w.seek(SeekFrom::Start(s.to)).map_err(|e| e.to_string()).and_then(|_| {
                out.write_to(&mut w).map_err(|e| e.to_string())?;
                w.flush().map_err(|e| e.to_string())
            });
            match r {
                Ok(()) => {
                    let img = d.image();
                    let raw = img.get(s.to, fst_len(&s.tree) as usize + 64);
                    if let Err(m) = check_table(&raw, &s.tree, &to) {
                        return viol("wrong_table", format!("a table was written without an error but is not right: {m}"));
                    }
                    if img.get(0, s.to as usize) != before.get(0, s.to as usize) {
                        return viol("wrong_table", "writing a table changed bytes before it");
                    }
                    return Ok(());
                }
                Err(e) if retry || d.with(|i| i.hard) == 0 => return viol("refused", format!("writing a table failed on a working stream: {e}")),
                Err(_) => d.heal(),
            }
        }
        Ok(())
    }
}

impl Typed for Table {
    type Spec = TSpec;
    fn name(&self) -> &'static str {
        match self.0 {
            Mode::RoundTrip => "table_read",
            Mode::Faulted => "table_read_faults",
            _ => "table_write_faults",
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _tier: Tier) -> TSpec {
        let o = TreeOpts {
            max_nodes: *r.pick(&[0u64, 3, 8, 30, 120]),
            depth: *r.pick(&[0u64, 1, 4, 12]),
            big: 0,
            ascii: r.chance(300),
            sorted: r.chance(300),
            pad: false,
            empty_dirs: true,
        };
        let tree = if r.chance(40) { bulk_tree(r) } else { gen_tree(r, o) };
        let mut plans = Vec::new();
        if self.0 != Mode::RoundTrip {
            for _ in 0..*r.pick(&[1u64, 1, 1, 2]) {
                let mut p = gen_plan(r, 0);
                if !self.writes() {
                    p.op = *r.pick(&[Op::Read, Op::Read, Op::Seek]);
                    p.act = crate::scen_build::gen_act(r, p.op);
                } else {
                    p.op = *r.pick(&[Op::Write, Op::Write, Op::Write, Op::Seek, Op::Flush]);
                    p.act = crate::scen_build::gen_act(r, p.op);
                }
                plans.push(p);
            }
        }
        TSpec {
            tree,
            seed: r.next(),
            at: *r.pick(&[0u64, 0, 4, 0x7BFC, 0x1234, 0x4000, 0x8000]) + 4 * r.below(3),
            to: *r.pick(&[0u64, 0x20, 0x123, 0x7C00]),
            before: r.below(0x100),
            ambient: gen_ambient(r),
            plans,
        }
    }
    fn shrink(&self, s: &TSpec) -> Vec<TSpec> {
        shrink_tree(&s.tree).into_iter().map(|tree| TSpec { tree, ..s.clone() }).collect()
    }
    fn run(&self, s: &TSpec, ctx: &mut Ctx) -> Result<(), Violation> {
        let from = places(s, 1);
        let offs: Vec<u64> = from.iter().map(|f| f.0).collect();
        let mut raw = fst_serialize(&s.tree, &offs, &mut Rng::new(s.seed), s.seed & 1 == 0);
        // the lengths of files are not those of the tree
        let n = raw.len().min(12 * (count_nodes(&s.tree) + 1));
        let mut fi = 0;
        for k in (12..n).step_by(12) {
            if raw[k] == 0 {
                raw[k + 8..k + 12].copy_from_slice(&from[fi].1.to_be_bytes());
                fi += 1;
            }
        }
        let mut v = vec![0u8; s.at as usize];
        fill_random(s.seed, &mut v);
        // another table where the stream stands
        if s.seed % 3 == 0 && s.before < s.at {
            let other = fst_serialize(&s.tree, &offs.iter().map(|o| o ^ 0x40).collect::<Vec<_>>(), &mut Rng::new(s.seed ^ 1), false);
            for (i, b) in other.iter().enumerate() {
                if let Some(x) = v.get_mut(s.before as usize + i) {
                    *x = *b;
                }
            }
        }
        v.extend_from_slice(&raw);
        let img = Image::from_vec(&v);
        let mut events = Vec::new();
        if !s.plans.is_empty() {
            let d = SimDisk::new(0, img.clone()).ambient(s.ambient);
            d.with(|i| i.max_steps = 4_000_000);
            self.play(s, &d)?;
            events = place(&s.plans, &d.ops());
        }
        let d = ctx.disk(0, img, s.ambient, &events);
        d.with(|i| i.max_steps = 8_000_000);
        let r = self.play(s, &d);
        ctx.absorb(&d);
        ctx.nontrivial = self.0 == Mode::RoundTrip || d.with(|i| i.hard > 0);
        r
    }
}
