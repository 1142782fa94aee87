//! Editing a disc's file tree and building a new disc from it while the source disc is
//! still being read (C14).

use crate::fw::*;
use crate::model::*;
use crate::refimg::*;
use crate::rng::{content, Rng};
use crate::scen_build::{gen_ambient, AddErr, SimErr};
use crate::simdisk::*;
use disc_riider::builder::*;
use disc_riider::structs::*;
use disc_riider::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::io::{Read, Seek};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum EOp {
    /// add (or replace) under a folder; bool: as one path string
    Add(Vec<String>, Node, bool),
    Remove(Vec<String>, bool),
    Rename(Vec<String>, String),
    Find(Vec<String>, bool),
    /// keep only top-level entries whose number modulo this is not zero
    Retain(u64),
    /// visit everything; rename files of this number modulo n by appending the text
    Visit(u64, String),
    Sort,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ESpec {
    pub disc: DiscSpec,
    pub lay: LayoutSpec,
    pub part: u8,
    pub ops: Vec<EOp>,
    pub amb_src: Ambient,
    pub amb_dst: Ambient,
    pub seed: u64,
    /// at last, rename an entry so that it differs from a neighbour only in case
    #[serde(default)]
    pub collide: Option<(Vec<String>, String)>,
}

// ---- model

fn eq_ci(a: &str, b: &str) -> bool {
    lower(a) == lower(b)
}

fn m_dir<'a>(t: &'a mut Vec<Node>, path: &[String]) -> Option<&'a mut Vec<Node>> {
    let mut cur = t;
    for p in path {
        let i = cur.iter().position(|n| n.name() == p)?;
        match &mut cur[i] {
            Node::D { kids, .. } => cur = kids,
            _ => return None,
        }
    }
    Some(cur)
}

fn m_find<'a>(t: &'a [Node], path: &[String]) -> Option<&'a Node> {
    let (last, dirs) = path.split_last()?;
    let mut cur = t;
    for p in dirs {
        match cur.iter().find(|n| n.name() == p)? {
            Node::D { kids, .. } => cur = kids,
            _ => return None,
        }
    }
    cur.iter().find(|n| n.name() == last)
}

fn m_kids<'a>(t: &'a [Node], path: &[String]) -> Option<&'a [Node]> {
    if path.is_empty() {
        return Some(t);
    }
    match m_find(t, path)? {
        Node::D { kids, .. } => Some(kids),
        _ => None,
    }
}

fn m_remove(t: &mut Vec<Node>, path: &[String]) -> Option<Node> {
    let (last, dirs) = path.split_last()?;
    let d = m_dir(t, dirs)?;
    let i = d.iter().position(|n| n.name() == last)?;
    Some(d.remove(i))
}

/// Err: a file is in the way
fn m_add(t: &mut Vec<Node>, path: &[String], node: Node) -> Result<Option<Node>, ()> {
    let put = |v: &mut Vec<Node>, n: Node| -> usize {
        let i = v.iter().position(|x| lower(x.name()) > lower(n.name())).unwrap_or(v.len());
        v.insert(i, n);
        i
    };
    match path.split_first() {
        None => match t.iter().position(|n| eq_ci(n.name(), node.name())) {
            Some(i) => Ok(Some(std::mem::replace(&mut t[i], node))),
            None => {
                put(t, node);
                Ok(None)
            }
        },
        Some((p, rest)) => {
            let i = match t.iter().position(|n| eq_ci(n.name(), p)) {
                Some(i) => i,
                None => put(t, Node::D { name: p.clone(), kids: vec![] }),
            };
            match &mut t[i] {
                Node::D { kids, .. } => m_add(kids, rest, node),
                _ => Err(()),
            }
        }
    }
}

/// as a library node; files of the source disc are recognised by their seed
fn to_lib(n: &Node, offs: &dyn Fn(u64) -> u64) -> FstNode {
    match n {
        Node::F { name, len, seed, .. } => FstNode::File { name: name.clone(), offset: offs(*seed), length: *len as u32 },
        Node::D { name, kids } => FstNode::Directory { name: name.clone(), files: kids.iter().map(|k| to_lib(k, offs)).collect() },
    }
}

fn all_paths(t: &[Node]) -> Vec<(Vec<String>, bool)> {
    let mut v = Vec::new();
    walk(t, &mut Vec::new(), &mut |p, n| v.push((p.to_vec(), matches!(n, Node::D { .. }))));
    v
}

// ---- generation

fn gen_new(r: &mut Rng, name: String, depth: u64) -> Node {
    if depth > 0 && r.chance(250) {
        let mut kids = Vec::new();
        for _ in 0..r.below(4) {
            let k = gen_name(r, false);
            if !kids.iter().any(|x: &Node| eq_ci(x.name(), &k)) {
                kids.push(gen_new(r, k, depth - 1));
            }
        }
        sort_tree(&mut kids);
        Node::D { name, kids }
    } else {
        Node::F { name, len: gen_len(r, 40), seed: r.next() | 1 << 63, pad: if r.chance(100) { 0x41 } else { 0 } }
    }
}

fn swap_case(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

/// keeps the model in step while generating, so that edits mostly hit something
fn gen_edit(r: &mut Rng, t: &[Node]) -> EOp {
    let paths = all_paths(t);
    let dirs: Vec<Vec<String>> = std::iter::once(vec![]).chain(paths.iter().filter(|p| p.1).map(|p| p.0.clone())).collect();
    let any = |r: &mut Rng| -> Vec<String> {
        if paths.is_empty() || r.chance(100) {
            vec![gen_name(r, false)]
        } else {
            let mut p = r.pick(&paths).0.clone();
            if r.chance(80) {
                p.push(gen_name(r, false));
            } else if r.chance(80) {
                let l = p.len() - 1;
                p[l] = swap_case(&p[l]);
            }
            p
        }
    };
    let fresh = |r: &mut Rng| -> String {
        if !paths.is_empty() && r.chance(250) {
            let p = &r.pick(&paths).0;
            let of = p[p.len() - 1].clone();
            near_name(r, &of)
        } else {
            gen_name(r, false)
        }
    };
    match r.below(20) {
        0..=5 => {
            let mut d = r.pick(&dirs).clone();
            if r.chance(250) {
                d.push(fresh(r));
            }
            if r.chance(150) {
                d = any(r);
            }
            if r.chance(200) {
                d = d.iter().map(|s| swap_case(s)).collect();
            }
            let name = if !paths.is_empty() && r.chance(400) {
                // replace something, often with other case
                let p = &r.pick(&paths).0;
                d = p[..p.len() - 1].to_vec();
                let n = p[p.len() - 1].clone();
                if r.chance(400) {
                    swap_case(&n)
                } else {
                    n
                }
            } else if r.chance(400) {
                // close to a neighbour
                match m_kids(t, &d) {
                    Some(k) if !k.is_empty() => {
                        let of = r.pick(k).name().to_string();
                        near_name(r, &of)
                    }
                    _ => fresh(r),
                }
            } else {
                fresh(r)
            };
            EOp::Add(d, gen_new(r, name, 2), r.chance(500))
        }
        6..=9 => EOp::Remove(any(r), r.chance(500)),
        10..=12 => EOp::Rename(any(r), fresh(r)),
        13..=16 => EOp::Find(any(r), r.chance(500)),
        17 if r.chance(250) => EOp::Retain(r.range(3, 9)),
        18 => EOp::Visit(r.range(1, 9), format!("{}", r.below(100))),
        _ => EOp::Sort,
    }
}

fn rename_ok(t: &mut Vec<Node>, path: &[String], new: &str) -> bool {
    let Some((last, dirs)) = path.split_last() else { return false };
    if m_find(t, path).is_none() {
        return false;
    }
    match m_dir(t, dirs) {
        Some(d) => !d.iter().any(|n| n.name() != last && eq_ci(n.name(), new)),
        None => false,
    }
}

fn m_visit(t: &mut Vec<Node>, every: u64, text: &str, n: &mut u64, path: &mut Vec<String>, seen: &mut Vec<Vec<String>>) {
    // names already taken in this folder, ignoring case
    let taken: Vec<Vec<u8>> = t.iter().map(|x| lower(x.name())).collect();
    for x in t.iter_mut() {
        path.push(x.name().to_string());
        seen.push(path.clone());
        *n += 1;
        if *n % every == 0 && x.name().len() < 200 {
            let new = format!("{}{}", x.name(), text);
            if !taken.contains(&lower(&new)) {
                x.set_name(new.clone());
                *path.last_mut().unwrap() = new;
            }
        }
        if let Node::D { kids, .. } = x {
            m_visit(kids, every, text, n, path, seen);
        }
        path.pop();
    }
}

fn m_apply(t: &mut Vec<Node>, op: &EOp) {
    match op {
        EOp::Add(d, n, _) => {
            let _ = m_add(t, d, n.clone());
        }
        EOp::Remove(p, _) => {
            m_remove(t, p);
        }
        EOp::Rename(p, new) => {
            if rename_ok(t, p, new) {
                let (last, dirs) = p.split_last().unwrap();
                let d = m_dir(t, dirs).unwrap();
                let i = d.iter().position(|n| n.name() == last).unwrap();
                d[i].set_name(new.clone());
                sort_tree(t);
            }
        }
        EOp::Retain(k) => {
            let mut i = 0;
            t.retain(|_| {
                i += 1;
                i % k != 0
            });
        }
        EOp::Visit(k, s) => {
            m_visit(t, *k, s, &mut 0, &mut Vec::new(), &mut Vec::new());
            sort_tree(t);
        }
        EOp::Find(..) => {}
        EOp::Sort => sort_tree(t),
    }
}

// ---- the new disc

struct Prov<'a, RS: Read + Seek> {
    rd: &'a mut WiiIsoReader<RS>,
    info: &'a mut WiiPartitionReadInfo,
    fst: Fst,
    model: &'a [Node],
    buf: Vec<u8>,
    dst: SimDisk,
}

impl<RS: Read + Seek> WiiPartitionDefinition<SimErr> for Prov<'_, RS> {
    fn get_disc_header(&mut self) -> Result<DiscHeader, AddErr> {
        Ok(self.info.get_encrypted_header().clone())
    }
    fn get_bi2<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, AddErr> {
        self.buf = self.info.read_bi2(self.rd)?;
        Ok(Cow::Borrowed(&self.buf))
    }
    fn get_apploader<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, AddErr> {
        Ok(self.info.read_apploader(self.rd)?.into())
    }
    fn get_fst(&mut self) -> Result<Fst, AddErr> {
        Ok(self.fst.clone())
    }
    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, AddErr> {
        Ok(self.info.read_dol(self.rd)?.into())
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> Result<(Cow<'a, [u8]>, u32), AddErr> {
        let _ = self.dst.provider_point();
        let Some(Node::F { len, seed, pad, .. }) = m_find(self.model, path) else {
            return Err(PartitionAddError::Custom(SimErr(u64::MAX)));
        };
        if seed >> 63 == 1 {
            return Ok((content(*seed, *len as usize).into(), *pad));
        }
        match self.fst.find_node_iter(path.iter().map(|s| s.as_str())) {
            Some(FstNode::File { offset, length, .. }) => {
                self.info.get_crypto_reader(self.rd).read_into_vec(*offset, *length as u64, &mut self.buf)?;
                Ok((Cow::Borrowed(&self.buf), *pad))
            }
            _ => Err(PartitionAddError::Custom(SimErr(u64::MAX - 1))),
        }
    }
}

pub struct Edit;

impl Typed for Edit {
    type Spec = ESpec;
    fn name(&self) -> &'static str {
        "edit_rebuild"
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _tier: Tier) -> ESpec {
        let np = *r.pick(&[1u64, 1, 2]);
        let o = PartOpts {
            tree: TreeOpts {
                max_nodes: *r.pick(&[0u64, 4, 10, 25, 60]),
                depth: *r.pick(&[0u64, 1, 3, 5]),
                big: *r.pick(&[0u64, 100, 300]),
                ascii: r.chance(300),
                sorted: true,
                pad: false,
                empty_dirs: true,
            },
            aim: false,
        };
        let mut disc = gen_disc(r, np, o);
        // source contents are told apart from new ones by the top bit
        fn clear(t: &mut [Node]) {
            for n in t {
                match n {
                    Node::F { seed, .. } => *seed &= !(1 << 63),
                    Node::D { kids, .. } => clear(kids),
                }
            }
        }
        for p in &mut disc.parts {
            clear(&mut p.tree);
        }
        let part = r.below(np) as u8;
        let lay = LayoutSpec { seed: r.next(), far: 0, spread: false, ragged: r.chance(300) };
        let mut t = disc.parts[part as usize].tree.clone();
        let mut ops = Vec::new();
        for _ in 0..*r.pick(&[1u64, 3, 6, 12, 25]) {
            let op = gen_edit(r, &t);
            m_apply(&mut t, &op);
            ops.push(op);
        }
        let mut collide = None;
        if r.chance(150) {
            let paths = all_paths(&t);
            if !paths.is_empty() {
                let p = r.pick(&paths).0.clone();
                let near = m_kids(&t, &p[..p.len() - 1]).unwrap_or(&[]);
                if near.len() > 1 {
                    let new = swap_case(r.pick(near).name());
                    if !near.iter().any(|n| n.name() == new) {
                        collide = Some((p, new));
                    }
                }
            }
        }
        ESpec { collide, disc, lay, part, ops, amb_src: gen_ambient(r), amb_dst: gen_ambient(r), seed: r.next() }
    }
    fn shrink(&self, s: &ESpec) -> Vec<ESpec> {
        let mut v = Vec::new();
        if s.collide.is_some() {
            v.push(ESpec { collide: None, ..s.clone() });
        }
        let n = s.ops.len();
        for k in [n / 2, n / 4, 1] {
            let mut i = 0;
            while k > 0 && i < n {
                let mut c = s.clone();
                c.ops.drain(i..(i + k).min(n));
                v.push(c);
                i += k;
            }
        }
        for d in shrink_part(&s.disc.parts[s.part as usize]) {
            let mut c = s.clone();
            c.disc.parts[s.part as usize] = d;
            v.push(c);
        }
        v
    }
    fn run(&self, s: &ESpec, ctx: &mut Ctx) -> Result<(), Violation> {
        let disc = ref_disc(&s.disc, s.lay);
        let src = ctx.disk(0, disc.img.clone(), s.amb_src, &[]);
        src.with(|i| i.max_steps = 30_000_000);
        let res = run_edit(s, &disc, &src, ctx);
        ctx.absorb(&src);
        ctx.nontrivial = true;
        res
    }
}

fn run_edit(s: &ESpec, disc: &RefDisc, src: &SimDisk, ctx: &mut Ctx) -> Result<(), Violation> {
    // partition order in the image is by table
    let pi = s.part as usize;
    let rp = &disc.parts[pi];
    let mut rd = WiiIsoReader::open(src.clone()).or_viol("read-failed")?;
    let e = rd.partitions()[pi].clone();
    let mut info = rd.open_partition(e).or_viol("read-failed")?;
    let offsets: std::collections::HashMap<u64, u64> = rp.files.iter().map(|(_, o, _, seed)| (*seed, *o)).collect();
    let offs = |seed: u64| offsets.get(&seed).copied().unwrap_or(0);
    let mut fst = info.get_fst().clone();
    let mut t = rp.spec.tree.clone();
    let mut hits = 0u64;
    for (i, op) in s.ops.iter().enumerate() {
        macro_rules! bad {
            ($($t:tt)*) => {{
                let o = format!("{op:?}");
                return viol("edit", format!("edit {i} ({}): {}", o.chars().take(160).collect::<String>(), format!($($t)*)))
            }};
        }
        let join = |p: &[String], k: usize| -> String {
            // several spellings of the same path
            match k % 3 {
                0 => p.join("/"),
                1 => format!("/{}/", p.join("/")),
                _ => p.join("//"),
            }
        };
        match op {
            EOp::Add(d, n, by_path) => {
                let want = m_add(&mut t, d, n.clone()).map(|o| o.map(|o| to_lib(&o, &offs)));
                let lib = to_lib(n, &offs);
                let got = if *by_path {
                    fst.add_node_path(&join(d, i), lib)
                } else {
                    fst.add_node_iter(d.iter().map(|s| s.as_str()), lib)
                };
                if got != want {
                    bad!("returned {} instead of {}", brief(&got), brief(&want));
                }
                hits += matches!(want, Ok(Some(_))) as u64;
            }
            EOp::Remove(p, by_path) => {
                let want = m_remove(&mut t, p).map(|n| to_lib(&n, &offs));
                let got = if *by_path { fst.remove_node_path(&join(p, i)) } else { fst.remove_node_iter(p.iter().map(|s| s.as_str())) };
                if got != want {
                    bad!("removed {} instead of {}", brief(&got), brief(&want));
                }
                hits += want.is_some() as u64;
            }
            EOp::Find(p, by_path) => {
                let want = m_find(&t, p).map(|n| to_lib(n, &offs));
                let (got, got_mut) = if *by_path {
                    let s = join(p, i);
                    (fst.find_node_path(&s).cloned(), fst.find_node_path_mut(&s).cloned())
                } else {
                    (fst.find_node_iter(p.iter().map(|s| s.as_str())).cloned(), fst.find_node_iter_mut(p.iter().map(|s| s.as_str())).cloned())
                };
                if got != want || got_mut != want {
                    bad!("found {} / {} instead of {}", brief(&got), brief(&got_mut), brief(&want));
                }
            }
            EOp::Rename(p, new) => {
                if rename_ok(&mut t, p, new) {
                    match fst.find_node_iter_mut(p.iter().map(|s| s.as_str())) {
                        Some(FstNode::File { name, .. }) | Some(FstNode::Directory { name, .. }) => *name = new.clone(),
                        None => bad!("not found"),
                    }
                    fst.fix_ordering();
                    m_apply(&mut t, op);
                    hits += 1;
                }
            }
            EOp::Retain(k) => {
                let mut i = 0;
                fst.get_entries_mut().retain(|_| {
                    i += 1;
                    i % k != 0
                });
                m_apply(&mut t, op);
            }
            EOp::Visit(k, text) => {
                let mut want = Vec::new();
                m_visit(&mut t, *k, text, &mut 0, &mut Vec::new(), &mut want);
                let mut got: Vec<Vec<String>> = Vec::new();
                // the same decisions, taken from the model's result
                let names: Vec<String> = {
                    let mut v = Vec::new();
                    walk(&t, &mut Vec::new(), &mut |_, n| v.push(n.name().to_string()));
                    v
                };
                let mut ro: Vec<Vec<String>> = Vec::new();
                let _ = fst.callback_all_files::<(), _>(&mut |p, _| {
                    ro.push(p.iter().map(|s| s.to_string()).collect());
                    Ok(())
                });
                let mut n = 0;
                let _ = fst.callback_all_files_mut::<(), _>(&mut |p, node| {
                    got.push(p.clone());
                    if let Some(x) = names.get(n) {
                        match node {
                            FstNode::File { name, .. } | FstNode::Directory { name, .. } => *name = x.clone(),
                        }
                    }
                    n += 1;
                    Ok(())
                });
                if got != want {
                    let i = (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)).unwrap();
                    bad!("visit {i} was told the path {:?} instead of {:?}", got.get(i), want.get(i));
                }
                if ro.len() != want.len() {
                    bad!("visited {} instead of {} entries", ro.len(), want.len());
                }
                sort_tree(&mut t);
                fst.fix_ordering();
            }
            EOp::Sort => {
                fst.fix_ordering();
                sort_tree(&mut t);
            }
        }
        let want: Vec<FstNode> = t.iter().map(|n| to_lib(n, &offs)).collect();
        if *fst.get_entries() != want {
            let at = diff(fst.get_entries(), &want, "");
            bad!("the tree is not what the edits make it: {at}");
        }
    }
    if let Some((p, new)) = &s.collide {
        let free = p.split_last().and_then(|(_, d)| m_kids(&t, d)).map_or(false, |k| !k.iter().any(|n| n.name() == new));
        if free && m_find(&t, p).is_some() {
            let (last, dirs) = p.split_last().unwrap();
            let d = m_dir(&mut t, dirs).unwrap();
            d.iter_mut().find(|n| n.name() == last).unwrap().set_name(new.clone());
            match fst.find_node_iter_mut(p.iter().map(|s| s.as_str())) {
                Some(FstNode::File { name, .. }) | Some(FstNode::Directory { name, .. }) => *name = new.clone(),
                None => return viol("edit", format!("renaming {p:?}: not found")),
            }
            fst.fix_ordering();
            // entries that differ only in case may come in either order
            fn follow(t: &mut Vec<Node>, lib: &[FstNode]) -> Result<(), String> {
                sort_tree(t);
                if t.len() != lib.len() {
                    return Err(format!("{} instead of {} entries", lib.len(), t.len()));
                }
                for i in 0..t.len() {
                    let Some(k) = (i..t.len()).find(|&k| t[k].name() == lib[i].get_name()) else {
                        return Err(format!("{:?} is not expected here", lib[i].get_name()));
                    };
                    if lower(t[k].name()) != lower(t[i].name()) {
                        return Err(format!("{:?} is out of order", lib[i].get_name()));
                    }
                    t.swap(i, k);
                    if let (Node::D { kids, .. }, FstNode::Directory { files, .. }) = (&mut t[i], &lib[i]) {
                        follow(kids, files)?;
                    }
                }
                Ok(())
            }
            if let Err(e) = follow(&mut t, fst.get_entries()) {
                return viol("edit", format!("after renaming {p:?} to {new:?} (same name but for case): {e}"));
            }
            let want: Vec<FstNode> = t.iter().map(|n| to_lib(n, &offs)).collect();
            if *fst.get_entries() != want {
                return viol("edit", format!("after renaming {p:?} to {new:?}: {}", diff(fst.get_entries(), &want, "")));
            }
            ctx.probe("edit_names_differ_in_case_only", true);
        }
    }
    ctx.probe("edit_hit_existing", hits > 0);
    ctx.count("n.edits", s.ops.len() as u64);
    // build from it
    let mut spec = rp.spec.clone();
    spec.tree = t.clone();
    let dst = ctx.disk(1, Image::default(), s.amb_dst, &[]);
    dst.with(|i| i.max_steps = 60_000_000);
    let tmd = info.read_tmd(&mut rd).or_viol("read-failed")?;
    let certs = info.read_certificates(&mut rd).or_viol("read-failed")?;
    let ticket = info.get_partition_header().ticket.clone();
    let head = rd.get_header().clone();
    let region = *rd.get_region();
    let mut b = WiiDiscBuilder::create(dst.clone(), head, region);
    let mut p = Prov { rd: &mut rd, info: &mut info, fst, model: &t, buf: Vec::new(), dst: dst.clone() };
    let res = b.add_partition(ptype(spec.ptype), ticket, tmd, certs, &mut p, &mut |_| {});
    let res = match res {
        Ok(()) => b.finish().map_err(|e| e.to_string()),
        Err(e) => Err(e.to_string()),
    };
    ctx.absorb(&dst);
    res.or_viol("build-failed")?;
    let img = dst.image();
    verify_built(&img, &disc_header_bytes(&disc.spec.header()), &disc.spec.region(), &[&spec], Depth::Full).or_viol("rebuilt-disc")?;
    // and the source is as before
    if let Err(e) = src.image().same(&disc.img) {
        return viol("source-changed", e);
    }
    Ok(())
}

fn brief<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}").chars().take(140).collect()
}

fn diff(a: &[FstNode], b: &[FstNode], path: &str) -> String {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(FstNode::Directory { name: n, files: x }), Some(FstNode::Directory { name: m, files: y })) if n == m => {
                if x != y {
                    return diff(x, y, &format!("{path}/{n}"));
                }
            }
            (x, y) if x != y => return format!("in {path:?} entry {i} is {} instead of {}", brief(&x), brief(&y)),
            _ => {}
        }
    }
    "?".into()
}
