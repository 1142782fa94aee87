//! Reading discs from a simulated source: histories of reads (C03), source faults (C04),
//! damaged discs (C11), step bounds (C16).

use crate::fw::*;
use crate::libread::*;
use crate::model::*;
use crate::refimg::*;
use crate::rng::{content, Rng};
use crate::scen_build::{gen_ambient, Mode};
use crate::simdisk::*;
use disc_riider::structs::*;
use disc_riider::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Seek, SeekFrom};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Step {
    Read(u64),
    Exact(u64),
    Cur(i64),
    To(u64),
    Bulk(u64, u64),
    /// only for windows with a known length
    End(i64),
    /// read to the end of the window
    All,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum ROp {
    Open(u8),
    /// on one open partition: seek, then steps at the running position
    Sess { slot: u8, off: u64, steps: Vec<Step> },
    /// whole object: 0 tmd, 1 certificates, 2 bi2, 3 apploader, 4 executable, 5 tree, 6 headers
    Obj { slot: u8, which: u8 },
    /// by path; steps inside the file
    File { slot: u8, file: u16, steps: Vec<Step> },
    Window { slot: u8, off: u64, len: Option<u64>, steps: Vec<Step> },
    /// move the shared file, as another user of it would
    Raw(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RSpec {
    pub disc: DiscSpec,
    pub lay: LayoutSpec,
    pub ambient: Ambient,
    pub start_pos: u64,
    pub ops: Vec<ROp>,
    pub plans: Vec<Plan>,
    pub seed: u64,
}

fn gen_steps(r: &mut Rng, size: u64, window: bool, bounded: bool) -> Vec<Step> {
    let n = r.range(1, 6);
    let len = |r: &mut Rng| match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.range(1, 64),
        3 => BLOCK_DATA * r.range(1, 3) + r.below(3) - 1,
        4 => r.range(1, 0x20000),
        5 => size,
        6 => size.saturating_sub(r.below(4)),
        _ => r.range(1, 0x2000),
    }
    .min(0x30_0000);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(match r.below(10) {
            0 | 1 | 2 => Step::Read(len(r)),
            3 | 4 => Step::Exact(len(r)),
            5 => Step::Cur(*r.pick(&[-0x7C00i64, -1, -20, 0, 1, 0x7C00, 0x400, 5, 0x1F_0000])),
            6 => Step::To(if size == 0 { r.below(3) } else { r.below(size + 2) }),
            7 if !window => Step::Bulk(r.below(size + 2), len(r)),
            8 if bounded => Step::End(-(r.below(size + 1) as i64)),
            9 if window && bounded => Step::All,
            _ => Step::Read(len(r)),
        });
    }
    v
}

fn interesting(r: &mut Rng, rp: &RefPart) -> u64 {
    let d = rp.data_size;
    match r.below(10) {
        0 => 0,
        1 => r.below(0x2480),
        2 => rp.dol_off + r.below(0x200),
        3 => rp.fst_off,
        4 if !rp.files.is_empty() => r.pick(&rp.files).1,
        5 => (r.range(1, d / BLOCK_DATA) * BLOCK_DATA + r.below(3)).saturating_sub(1),
        6 => (r.range(1, (d / GROUP_DATA).max(1)) * GROUP_DATA + r.below(3)).saturating_sub(1),
        7 => d - r.below(d.min(5)),
        8 => d + r.below(0x100000),
        _ => r.below(d),
    }
}

pub fn read_disc_spec(r: &mut Rng, idx: u64, small: bool) -> (DiscSpec, LayoutSpec) {
    let nparts = *r.pick(&[1u64, 1, 2, 2, 3, 4]);
    let big = *r.pick(&[0u64, 0, 200, 600]);
    let o = PartOpts {
        tree: TreeOpts {
            max_nodes: *r.pick(&[0u64, 3, 6, 12, 30]),
            depth: *r.pick(&[0u64, 1, 3, 6]),
            big: if small { 0 } else { big },
            ascii: r.chance(300),
            sorted: r.chance(500),
            pad: false,
            empty_dirs: true,
        },
        aim: false,
    };
    let mut disc = gen_disc(r, if small { nparts.min(2) } else { nparts }, o);
    if !small && r.chance(25) {
        let i = r.below(disc.parts.len() as u64) as usize;
        disc.parts[i].tree = bulk_tree(r);
    }
    let lay = LayoutSpec {
        seed: r.next(),
        far: if small { 0 } else { [0, 0, 0, 1, 2, 3][(idx % 6) as usize] },
        spread: r.chance(500),
        ragged: r.chance(300),
    };
    (disc, lay)
}

pub fn gen_ops(r: &mut Rng, rd: &RefDisc, n: u64) -> Vec<ROp> {
    let np = rd.parts.len() as u64;
    let mut slots: Vec<u8> = Vec::new();
    let mut ops = Vec::new();
    for k in 0..n {
        if slots.is_empty() || (slots.len() < 5 && r.chance(if k < 3 { 500 } else { 60 })) {
            let p = r.below(np) as u8;
            slots.push(p);
            ops.push(ROp::Open(p));
            continue;
        }
        // stay with few partitions but switch often
        let slot = r.below(slots.len() as u64) as u8;
        let rp = &rd.parts[slots[slot as usize] as usize];
        ops.push(match r.below(12) {
            0..=3 => {
                let off = interesting(r, rp);
                ROp::Sess { slot, off, steps: gen_steps(r, rp.data_size, false, false) }
            }
            4 | 5 => ROp::Obj { slot, which: r.below(7) as u8 },
            6..=8 if !rp.files.is_empty() => {
                let file = r.below(rp.files.len() as u64) as u16;
                let len = rp.files[file as usize].2;
                ROp::File { slot, file, steps: gen_steps(r, len, true, true) }
            }
            9 | 10 => {
                let off = interesting(r, rp);
                let len = if r.chance(700) { Some(r.range(0, 0x30000)) } else { None };
                ROp::Window { slot, off, len, steps: gen_steps(r, len.unwrap_or(0x40000), true, len.is_some()) }
            }
            _ => ROp::Raw(r.below(rd.img.len + 0x1000)),
        });
    }
    ops
}

/// what a view of part of a partition must show
struct View<'a> {
    rp: &'a RefPart,
    off: u64,
    len: Option<u64>,
}

impl View<'_> {
    /// bytes available from pos
    fn avail(&self, pos: u64) -> u64 {
        let end = match self.len {
            Some(l) => (self.off.saturating_add(l)).min(self.rp.data_size),
            None => self.rp.data_size,
        };
        end.saturating_sub(self.off.saturating_add(pos))
    }
    fn check(&self, what: &str, pos: u64, got: &[u8]) -> Result<(), String> {
        let mut want = vec![0u8; got.len()];
        if self.rp.plain(self.off + pos, &mut want) {
            same_bytes(what, got, &want)?;
        }
        Ok(())
    }
}

pub enum Bad {
    /// the operation returned an error
    Err(String),
    /// wrong data or wrong position
    Wrong(String),
}
type R<T> = Result<T, Bad>;
fn er<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> R<T> {
    r.map_err(|e| Bad::Err(format!("{what}: {e}")))
}
fn wr<T>(r: Result<T, String>) -> R<T> {
    r.map_err(Bad::Wrong)
}
macro_rules! must {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(Bad::Wrong(format!($($t)*))); } };
}

/// runs steps on a stream that stands at `pos`
fn run_steps<S: Read + Seek>(s: &mut S, v: &View, mut pos: u64, steps: &[Step], bulk: &mut dyn FnMut(&mut S, u64, u64) -> Option<std::io::Result<Vec<u8>>>, last: &mut u64) -> R<()> {
    let mut buf = Vec::new();
    for st in steps {
        match st {
            Step::Read(n) => {
                buf.clear();
                buf.resize(*n as usize, 0xA5);
                let res = s.read(&mut buf);
                if res.is_err() {
                    // a failed read must not move the position
                    if let Ok(p) = s.stream_position() {
                        must!(p == pos, "a failed read moved the position from {pos:#x} to {p:#x}");
                    }
                }
                let k = er("read", res)?;
                must!(k as u64 <= *n, "read returned {k} for {n}");
                let a = v.avail(pos);
                must!(k as u64 <= a, "read at {pos:#x} returned {k} bytes, only {a} exist");
                must!(k > 0 || a == 0 || *n == 0, "read at {pos:#x} returned nothing though {a} bytes are left");
                wr(v.check("read", pos, &buf[..k]))?;
                if k > 0 {
                    *last = v.off + pos + k as u64 - 1;
                }
                pos += k as u64;
            }
            Step::Exact(n) => {
                buf.clear();
                buf.resize(*n as usize, 0xA5);
                let a = v.avail(pos);
                let res = s.read_exact(&mut buf);
                if *n <= a {
                    er("read_exact", res)?;
                    wr(v.check("read_exact", pos, &buf))?;
                    if *n > 0 {
                        *last = v.off + pos + n - 1;
                    }
                    pos += n;
                } else {
                    must!(res.is_err(), "read_exact of {n} bytes at {pos:#x} succeeded, only {a} exist");
                    // where it stands now is not promised
                    let p = er("seek", s.seek(SeekFrom::Start(pos)))?;
                    must!(p == pos, "seek went to {p:#x} instead of {pos:#x}");
                }
            }
            Step::Cur(d) => {
                let Some(t) = pos.checked_add_signed(*d) else { continue };
                let p = er("seek", s.seek(SeekFrom::Current(*d)))?;
                must!(p == t, "relative seek went to {p:#x} instead of {t:#x}");
                pos = t;
            }
            Step::To(o) => {
                let p = er("seek", s.seek(SeekFrom::Start(*o)))?;
                must!(p == *o, "seek went to {p:#x} instead of {o:#x}");
                pos = *o;
            }
            Step::End(d) => {
                let Some(t) = v.len.and_then(|l| l.checked_add_signed(*d)) else { continue };
                let p = er("seek", s.seek(SeekFrom::End(*d)))?;
                must!(p == t, "seek from the end went to {p:#x} instead of {t:#x}");
                pos = t;
            }
            Step::All => {
                buf.clear();
                let n = v.avail(pos);
                if n > 8 << 20 {
                    continue;
                }
                let k = er("read_to_end", s.read_to_end(&mut buf))?;
                must!(k as u64 == n && buf.len() as u64 == n, "reading to the end at {pos:#x} gave {k} of {n} bytes");
                wr(v.check("read_to_end", pos, &buf))?;
                if n > 0 {
                    *last = v.off + pos + n - 1;
                }
                pos += n;
            }
            Step::Bulk(o, n) => {
                if let Some(res) = bulk(s, *o, *n) {
                    let b = er("bulk read", res)?;
                    let want = (*n).min(v.rp.data_size.saturating_sub(*o));
                    must!(b.len() as u64 == want, "bulk read of {n} at {o:#x} gave {} instead of {want} bytes", b.len());
                    wr(v.check("bulk read", *o, &b))?;
                    if !b.is_empty() {
                        *last = o + b.len() as u64 - 1;
                    }
                }
            }
        }
        let p = er("position", s.stream_position())?;
        must!(p == pos, "after {st:?} the position is {p:#x} instead of {pos:#x}");
    }
    Ok(())
}

pub struct Open<RS: Read + Seek> {
    pub rd: WiiIsoReader<RS>,
    /// partition number and handle; None: opening failed
    pub slots: Vec<(u8, Option<WiiPartitionReadInfo>)>,
    /// where the last byte of the last successful read of a slot came from
    pub last: [u64; 8],
}

pub fn do_open<RS: Read + Seek>(src: RS, disc: &RefDisc) -> R<Open<RS>> {
    let rd = er("open disc", WiiIsoReader::open(src))?;
    must!(*rd.get_header() == disc.spec.header(), "disc header differs");
    must!(*rd.get_region() == disc.spec.region(), "region differs");
    must!(rd.partitions().len() == disc.parts.len(), "{} partitions instead of {}", rd.partitions().len(), disc.parts.len());
    for (a, b) in rd.partitions().iter().zip(&disc.parts) {
        must!(a.get_offset() == b.offset, "partition offset {:#x} instead of {:#x}", a.get_offset(), b.offset);
        must!(a.get_type() == ptype(b.spec.ptype), "partition type {:?} instead of {:?}", a.get_type(), ptype(b.spec.ptype));
    }
    Ok(Open { rd, slots: Vec::new(), last: [0; 8] })
}

fn open_part<RS: Read + Seek>(o: &mut Open<RS>, disc: &RefDisc, p: u8) -> R<WiiPartitionReadInfo> {
    let e = o.rd.partitions()[p as usize].clone();
    let info = er("open partition", o.rd.open_partition(e))?;
    let rp = &disc.parts[p as usize];
    must!(*info.get_encrypted_header() == rp.header(), "partition disc header differs");
    let h = info.get_partition_header();
    must!(h.ticket == rp.spec.ticket(), "ticket differs");
    must!(*h.data_size == rp.data_size && *h.data_off == rp.data_off, "partition data extent differs");
    must!(info.get_partition_offset() == rp.offset, "partition offset differs");
    wr(same_tree(info.get_fst().get_entries(), &rp.spec.tree, ""))?;
    Ok(info)
}

pub fn do_op<RS: Read + Seek>(o: &mut Open<RS>, disc: &RefDisc, op: &ROp) -> R<()> {
    match op {
        ROp::Open(p) => {
            let i = open_part(o, disc, *p);
            match i {
                Ok(i) => o.slots.push((*p, Some(i))),
                Err(e) => {
                    o.slots.push((*p, None));
                    return Err(e);
                }
            }
        }
        ROp::Raw(p) => {
            er("raw seek", o.rd.file.seek(SeekFrom::Start(*p)))?;
        }
        ROp::Sess { slot, off, steps } => {
            let Open { rd, slots, last } = o;
            let Some((p, Some(info))) = slots.get_mut(*slot as usize) else { return Ok(()) };
            let last = &mut last[*slot as usize % 8];
            let v = View { rp: &disc.parts[*p as usize], off: 0, len: None };
            let mut c = info.get_crypto_reader(rd);
            let q = er("seek", c.seek(SeekFrom::Start(*off)))?;
            must!(q == *off, "seek went to {q:#x} instead of {off:#x}");
            run_steps(&mut c, &v, *off, steps, &mut |c, o, n| {
                let mut b = vec![9; 5];
                Some(c.read_into_vec(o, n, &mut b).map(|_| b))
            }, last)?;
        }
        ROp::Obj { slot, which } => {
            let Open { rd, slots, last } = o;
            let Some((p, Some(info))) = slots.get_mut(*slot as usize) else { return Ok(()) };
            let last = &mut last[*slot as usize % 8];
            let rp = &disc.parts[*p as usize];
            let sp = &rp.spec;
            match which {
                0 => must!(er("title metadata", info.read_tmd(rd))? == sp.tmd(), "title metadata differs"),
                1 => must!(er("certificates", info.read_certificates(rd))? == sp.certs(), "certificates differ"),
                2 => wr(same_bytes("bi2", &er("bi2", info.read_bi2(rd))?, &sp.bi2()))?,
                3 => {
                    let b = er("apploader", info.read_apploader(rd))?;
                    wr(same_bytes("apploader", &b, &sp.apploader_bytes()))?;
                    *last = 0x2440 + b.len() as u64 - 1;
                }
                4 => {
                    let b = er("executable", info.read_dol(rd))?;
                    wr(same_bytes("executable", &b, &sp.dol_bytes()))?;
                    *last = rp.dol_off + b.len() as u64 - 1;
                }
                5 => {
                    let f = er("file system table", Fst::read(&mut info.get_crypto_reader(rd), rp.fst_off))?;
                    wr(same_tree(f.get_entries(), &sp.tree, ""))?;
                }
                _ => {
                    must!(info.get_partition_header().ticket == sp.ticket(), "ticket differs");
                    must!(*info.get_encrypted_header() == rp.header(), "partition disc header differs");
                }
            }
        }
        ROp::File { slot, file, steps } => {
            let Open { rd, slots, last } = o;
            let Some((p, Some(info))) = slots.get_mut(*slot as usize) else { return Ok(()) };
            let last = &mut last[*slot as usize % 8];
            let rp = &disc.parts[*p as usize];
            let Some((path, off, len, seed)) = rp.files.get(*file as usize) else { return Ok(()) };
            let path = path.join("/");
            let Some(mut f) = info.open_file(rd, &path) else {
                return Err(Bad::Wrong(format!("file {path:?} is not found")));
            };
            let v = View { rp, off: *off, len: Some(*len) };
            run_steps(&mut f, &v, 0, steps, &mut |_, _, _| None, last).map_err(|e| match e {
                Bad::Err(e) => Bad::Err(format!("file {path:?}: {e}")),
                Bad::Wrong(e) => Bad::Wrong(format!("file {path:?}: {e}")),
            })?;
            let _ = (content as fn(u64, usize) -> Vec<u8>, seed);
        }
        ROp::Window { slot, off, len, steps } => {
            let Open { rd, slots, last } = o;
            let Some((p, Some(info))) = slots.get_mut(*slot as usize) else { return Ok(()) };
            let last = &mut last[*slot as usize % 8];
            let rp = &disc.parts[*p as usize];
            let mut w = info.open_window(rd, *off, *len);
            let v = View { rp, off: *off, len: *len };
            run_steps(&mut w, &v, 0, steps, &mut |_, _, _| None, last)?;
        }
    }
    Ok(())
}

pub struct ReadSc(pub Mode);

impl Typed for ReadSc {
    type Spec = RSpec;
    fn name(&self) -> &'static str {
        match self.0 {
            Mode::Faulted => "read_faults",
            Mode::Steps => "read_steps",
            Mode::Retry => "read_windows",
            _ => "read_history",
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _tier: Tier) -> RSpec {
        let (mut disc, lay) = read_disc_spec(r, idx, false);
        if self.0 == Mode::Faulted && idx % 2 == 0 {
            // several groups, so that a failed load has something to spoil
            let len = r.range(GROUP_DATA / 2, 3 * GROUP_DATA);
            disc.parts[0].tree.insert(0, Node::F { name: "!groups".into(), len, seed: r.next(), pad: 0 });
        }
        let rd = ref_disc(&disc, lay);
        let n = *r.pick(&[4u64, 8, 16, 30, 60]);
        let mut ops = gen_ops(r, &rd, n);
        if self.0 == Mode::Retry {
            ops.retain(|o| matches!(o, ROp::Open(_) | ROp::File { .. } | ROp::Window { .. } | ROp::Raw(_)));
        }
        let mut plans = Vec::new();
        if self.0 != Mode::RoundTrip {
            for _ in 0..*r.pick(&[1u64, 1, 2, 3, 5]) {
                let op = *r.pick(&[Op::Read, Op::Read, Op::Read, Op::Seek]);
                let k = r.below(12) as u8;
                let act = if op == Op::Read {
                    *r.pick(&[Act::Err(k), Act::Err(k), Act::Err(k), Act::Err(6), Act::Zero, Act::Zero, Act::ZeroForever, Act::ErrForever(k), Act::ErrOp(k)])
                } else {
                    *r.pick(&[Act::Err(k), Act::Err(k), Act::Err(k), Act::ErrForever(k), Act::ErrOp(k)])
                };
                plans.push(Plan { stream: 0, op, frac: r.below(1_000_000) + r.below(3) * 1_000_000, act });
            }
            if self.0 == Mode::Steps && r.chance(300) {
                let k = r.below(12) as u8;
                plans[0].act = *r.pick(&[Act::ErrOp(k), Act::ErrOp(k), Act::ErrForever(k)]);
            }
        }
        RSpec { disc, lay, ambient: gen_ambient(r), start_pos: if r.chance(300) { r.below(0x60000) } else { 0 }, ops, plans, seed: r.next() }
    }
    fn shrink(&self, s: &RSpec) -> Vec<RSpec> {
        let mut v = Vec::new();
        let n = s.ops.len();
        for k in [n / 2, n / 4, n / 8] {
            if k == 0 {
                continue;
            }
            let mut i = 0;
            while i < n {
                let mut c = s.clone();
                // opens keep their slot numbers
                let e = (i + k).min(n);
                c.ops = s.ops.iter().enumerate().filter(|(j, o)| *j < i || *j >= e || matches!(o, ROp::Open(_))).map(|x| x.1.clone()).collect();
                if c.ops.len() < n {
                    v.push(c);
                }
                i += k;
            }
        }
        for i in 0..n.min(80) {
            match &s.ops[i] {
                ROp::Open(_) if i + 1 < n => {}
                _ => {
                    let mut c = s.clone();
                    c.ops.remove(i);
                    v.push(c);
                }
            }
        }
        for i in 0..n.min(40) {
            let mut c = s.clone();
            match &mut c.ops[i] {
                ROp::Sess { steps, .. } | ROp::File { steps, .. } | ROp::Window { steps, .. } if steps.len() > 1 => {
                    for k in 0..steps.len() {
                        let mut c2 = s.clone();
                        if let ROp::Sess { steps, .. } | ROp::File { steps, .. } | ROp::Window { steps, .. } = &mut c2.ops[i] {
                            steps.remove(k);
                        }
                        v.push(c2);
                    }
                }
                _ => {}
            }
        }
        if s.lay.far != 0 {
            v.push(RSpec { lay: LayoutSpec { far: 0, ..s.lay }, ..s.clone() });
        }
        if s.start_pos != 0 {
            v.push(RSpec { start_pos: 0, ..s.clone() });
        }
        v
    }

    fn run(&self, s: &RSpec, ctx: &mut Ctx) -> Result<(), Violation> {
        let disc = ref_disc(&s.disc, s.lay);
        ctx.probe("beyond_4GiB", disc.img.len > 1 << 32);
        ctx.probe("several_tables", disc.parts.iter().any(|p| p.table != disc.parts[0].table));
        ctx.count("n.ops", s.ops.len() as u64);
        let class = |b: &Bad| match b {
            Bad::Err(_) => "read-failed",
            Bad::Wrong(_) => "wrong-data",
        };
        let msg = |i: usize, op: &ROp, b: Bad| {
            let m = match b {
                Bad::Err(m) | Bad::Wrong(m) => m,
            };
            let o = format!("{op:?}");
            format!("operation {i} ({}): {m}", o.chars().take(120).collect::<String>())
        };
        let fault_free = |d: &SimDisk| -> Result<(), Violation> {
            let mut o = match do_open(d.clone(), &disc) {
                Ok(o) => o,
                Err(b) => return viol(class(&b), msg(0, &ROp::Raw(0), b)),
            };
            for (i, op) in s.ops.iter().enumerate() {
                if let Err(b) = do_op(&mut o, &disc, op) {
                    return viol(class(&b), msg(i, op, b));
                }
            }
            Ok(())
        };
        if self.0 == Mode::RoundTrip {
            let d = ctx.disk(0, disc.img.clone(), s.ambient, &[]);
            d.with(|i| {
                i.pos = s.start_pos;
                i.max_steps = 30_000_000;
            });
            let res = fault_free(&d);
            ctx.absorb(&d);
            ctx.nontrivial = true;
            return res;
        }
        // rehearsal
        let d0 = SimDisk::new(0, disc.img.clone()).ambient(s.ambient);
        d0.with(|i| {
            i.pos = s.start_pos;
            i.max_steps = 30_000_000;
        });
        fault_free(&d0)?;
        let (c, dry) = d0.with(|i| (i.counts, i.steps));
        let bound = {
            // every group touched at most once per operation step, plus a piece per 64 bytes
            let bytes: u64 = c[Op::Read as usize];
            4000 + bytes * 8 + disc.img.len.min(1 << 28) / 64
        };
        if self.0 == Mode::Steps && dry > bound * 8 {
            return viol("step-budget", format!("{dry} I/O steps for a fault-free history"));
        }
        let events = place(&s.plans, &d0.ops());
        let d = ctx.disk(0, disc.img.clone(), s.ambient, &events);
        let budget = dry * 4 + 20_000;
        d.with(|i| {
            i.pos = s.start_pos;
            i.max_steps = budget;
        });
        let mut res = Ok(());
        let mut failed = 0;
        let hard = |d: &SimDisk| d.with(|i| i.hard);
        // opening itself may fail; it may be tried again
        let mut o = None;
        for t in 0..3 {
            let h = hard(&d);
            if t == 2 {
                d.heal();
            }
            match do_open(d.clone(), &disc) {
                Ok(x) => {
                    o = Some(x);
                    break;
                }
                Err(b) => {
                    failed += 1;
                    if matches!(b, Bad::Wrong(_)) || hard(&d) == h {
                        res = viol(class(&b), msg(0, &ROp::Raw(0), b));
                        break;
                    }
                }
            }
        }
        if let Some(mut o) = o {
            for (i, op) in s.ops.iter().enumerate() {
                let h = hard(&d);
                if let Err(b) = do_op(&mut o, &disc, op) {
                    failed += 1;
                    if matches!(b, Bad::Wrong(_)) || hard(&d) == h {
                        res = viol(class(&b), msg(i, op, b));
                        break;
                    }
                    // what was read last before the failure is still what it was
                    if let ROp::Sess { slot, .. } | ROp::Obj { slot, .. } | ROp::File { slot, .. } | ROp::Window { slot, .. } = op {
                        let at = o.last[*slot as usize % 8];
                        let again = ROp::Sess { slot: *slot, off: at.saturating_sub(at % GROUP_DATA % 0x300), steps: vec![Step::Read(0x400)] };
                        let h = hard(&d);
                        if let Err(b) = do_op(&mut o, &disc, &again) {
                            if matches!(b, Bad::Wrong(_)) || hard(&d) == h {
                                res = viol("poisoned", format!("right after a failed operation: {}", msg(i, &again, b)));
                                break;
                            }
                        }
                    }
                }
            }
            if res.is_ok() {
                ctx.absorb(&d);
                // the source works again: everything must be readable through the same handles
                d.heal();
                for i in 0..o.slots.len() {
                    if o.slots[i].1.is_none() {
                        let p = o.slots[i].0;
                        match open_part(&mut o, &disc, p) {
                            Ok(x) => o.slots[i].1 = Some(x),
                            Err(b) => {
                                res = viol("poisoned", format!("after the faults stopped: {}", msg(i, &ROp::Open(p), b)));
                                break;
                            }
                        }
                    }
                }
                for (i, op) in s.ops.iter().enumerate() {
                    if res.is_err() {
                        break;
                    }
                    if matches!(op, ROp::Open(_)) {
                        continue;
                    }
                    if let Err(b) = do_op(&mut o, &disc, op) {
                        res = viol("poisoned", format!("after the faults stopped: {}", msg(i, op, b)));
                    }
                }
            }
        }
        ctx.absorb(&d);
        ctx.nontrivial = hard(&d) > 0;
        ctx.probe("operation_failed", failed > 0);
        ctx.probe("several_failed", failed > 1);
        res
    }
}

// ------------------------------------------------------------------ damaged discs

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Dmg {
    /// stored bytes at an absolute position
    Disc(u64, Vec<u8>),
    /// decrypted bytes of a partition (re-encrypted as on a disc)
    Plain(u8, u64, Vec<u8>),
    /// a table of this many entries that share a name of this length
    Shared(u8, u64, u32, u32, u8),
    Cut(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DSpec {
    pub disc: DiscSpec,
    pub lay: LayoutSpec,
    pub ambient: Ambient,
    pub dmg: Vec<Dmg>,
    pub seed: u64,
}

const NASTY: [u32; 18] = [0, 1, 2, 3, 4, 5, 0x7F, 0x80, 0xFF, 0x100, 0xFFFF, 0x10000, 0x00FF_FFFF, 0x0100_0000, 0x3FFF_FFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF];

fn nasty(r: &mut Rng) -> u32 {
    if r.chance(700) {
        let v = *r.pick(&NASTY);
        if r.chance(300) {
            v.wrapping_add(r.below(9) as u32).wrapping_sub(4)
        } else {
            v
        }
    } else {
        r.next() as u32
    }
}

pub struct Damaged;

pub fn gen_damage(r: &mut Rng, rd: &RefDisc) -> Vec<Dmg> {
    let mut v = Vec::new();
    for _ in 0..*r.pick(&[1u64, 1, 1, 2, 3, 6]) {
        let pi = r.below(rd.parts.len() as u64) as u8;
        let rp = &rd.parts[pi as usize];
        let nodes = count_nodes(&rp.spec.tree) as u64 + 1;
        let w32 = |r: &mut Rng| nasty(r).to_be_bytes().to_vec();
        v.push(match r.below(17) {
            // many entries that share one long name
            16 => {
                let n = *r.pick(&[2u32, 40, 1000, 20_000]);
                let len = *r.pick(&[300u32, 5_000, 60_000, 700_000]);
                Dmg::Shared(pi, rp.fst_off, n, len, r.range(0x41, 0x5A) as u8)
            }
            0 => Dmg::Disc(0x40000 + 4 * r.below(8), w32(r)),
            1 => Dmg::Disc(0x40020 + 4 * r.below(24), w32(r)),
            // offsets and sizes in the partition header
            2 => Dmg::Disc(rp.offset + 0x2A4 + 4 * r.below(7), w32(r)),
            3 => Dmg::Disc(rp.offset + if r.chance(300) { 0x1F1 } else { r.below(0x2C0) }, vec![r.next() as u8]),
            // title metadata and certificates
            4 => Dmg::Disc(rp.offset + rp.tmd_off + *r.pick(&[0u64, 0x1DC, 0x1DE, 0x1E0, 0x1EC]), w32(r)),
            5 => Dmg::Disc(rp.offset + rp.cert_off + *r.pick(&[0u64, 0x240, 0x140, 0x300, 0x400, 4]), w32(r)),
            // inner header
            6 => Dmg::Plain(pi, 0x420 + 4 * r.below(4), w32(r)),
            7 => Dmg::Plain(pi, r.below(0x440), vec![r.next() as u8; 1 + r.below(3) as usize]),
            // table entries
            8 | 9 => Dmg::Plain(pi, rp.fst_off + 12 * r.below(nodes) + 4 * r.below(3), w32(r)),
            10 => Dmg::Plain(pi, rp.fst_off + 8, w32(r)),
            11 => Dmg::Plain(pi, rp.fst_off + r.below(rp.fst_bytes.len() as u64), vec![r.next() as u8]),
            // nested directories without end
            12 => {
                let n = *r.pick(&[10u32, 400, 600, 5000, 100_000]);
                let spoil = r.chance(400);
                let mut b = Vec::new();
                for i in 0..n {
                    b.extend_from_slice(&0x0100_0000u32.to_be_bytes());
                    b.extend_from_slice(&i.saturating_sub(1).to_be_bytes());
                    b.extend_from_slice(&if i == 0 || !spoil || r.chance(990) { n } else { nasty(r) }.to_be_bytes());
                }
                b[4..8].fill(0);
                let names = r.below(3);
                b.resize(b.len() + names as usize, 0);
                Dmg::Plain(pi, rp.fst_off, b)
            }
            // apploader and executable headers
            13 => Dmg::Plain(pi, 0x2440 + 0x14 + 4 * r.below(2), w32(r)),
            14 => Dmg::Plain(pi, rp.dol_off + 4 * r.below(0x39), w32(r)),
            _ => Dmg::Cut(match r.below(4) {
                0 => r.below(rd.img.len),
                1 => rp.offset + r.below(0x400),
                2 => rp.offset + rp.data_off + r.below(GROUP + 2),
                _ => *r.pick(&[0u64, 1, 0x43F, 0x440, 0x40000, 0x40001, 0x40020, 0x40027, 0x4E000, 0x4E01F, 0x4E020, 0x50000]),
            }),
        });
    }
    v
}

pub fn apply_damage(rd: &mut RefDisc, dmg: &[Dmg]) -> Image {
    let mut img = rd.img.clone();
    for d in dmg {
        match d {
            Dmg::Disc(o, b) => {
                if *o < img.len {
                    let n = (img.len - o).min(b.len() as u64) as usize;
                    img.write_at(*o, &b[..n], None)
                }
            }
            Dmg::Plain(..) | Dmg::Shared(..) => {
                let (p, o, b) = match d {
                    Dmg::Plain(p, o, b) => (p, o, b.clone()),
                    Dmg::Shared(p, o, n, len, c) => {
                        let mut b = Vec::new();
                        for i in 0..*n {
                            let w = if i == 0 { [0x0100_0000u32, 0, *n] } else { [0; 3] };
                            b.extend(w.iter().flat_map(|w| w.to_be_bytes()));
                        }
                        b.resize(b.len() + *len as usize, *c);
                        b.push(0);
                        (p, o, b)
                    }
                    _ => unreachable!(),
                };
                let Some(rp) = rd.parts.get_mut(*p as usize) else { continue };
                let ng = rp.data_size.div_ceil(GROUP_DATA);
                let mut done = 0usize;
                while done < b.len() {
                    let at = o + done as u64;
                    let g = at / GROUP_DATA;
                    if g >= ng {
                        break;
                    }
                    let i = (at % GROUP_DATA) as usize;
                    let n = (GROUP_DATA as usize - i).min(b.len() - done);
                    if let Some(plain) = rp.groups.get_mut(&g) {
                        plain[i..i + n].copy_from_slice(&b[done..done + n]);
                        let (st, _) = encode_group(plain, &rp.key);
                        img.write_at(rp.offset + rp.data_off + g * GROUP, &st, None);
                    }
                    done += n;
                }
            }
            Dmg::Cut(n) => {
                let n = (*n).min(img.len);
                let keep = img.pages.range(..n.div_ceil(PAGE)).map(|(k, v)| (*k, v.clone())).collect();
                img.pages = keep;
                img.len = n;
            }
        }
    }
    img
}

/// reads everything reachable; errors are fine
pub fn read_everything<RS: Read + Seek>(src: RS, budget: u64) -> (u64, u64) {
    let (mut ok, mut bad) = (0u64, 0u64);
    let Ok(mut rd) = WiiIsoReader::open(src) else { return (0, 1) };
    let mut left = budget;
    for e in rd.partitions().to_vec().into_iter().take(6) {
        let mut info = match rd.open_partition(e) {
            Ok(i) => i,
            Err(_) => {
                bad += 1;
                continue;
            }
        };
        let mut t = |b: bool| if b { ok += 1 } else { bad += 1 };
        t(info.read_tmd(&mut rd).is_ok());
        t(info.read_certificates(&mut rd).is_ok());
        t(info.read_bi2(&mut rd).is_ok());
        t(info.read_apploader(&mut rd).is_ok());
        t(info.read_dol(&mut rd).is_ok());
        let mut files = Vec::new();
        let _ = info.get_fst().callback_all_files::<std::convert::Infallible, _>(&mut |p, n| {
            if let FstNode::File { offset, length, .. } = n {
                if files.len() < 48 {
                    files.push((p.join("/"), *offset, *length));
                }
            }
            Ok(())
        });
        for (i, (p, off, len)) in files.into_iter().enumerate() {
            if left == 0 {
                break;
            }
            let n = (len as u64).min(left);
            left -= n.min(left);
            if i % 2 == 0 {
                let mut v = Vec::new();
                t(info.get_crypto_reader(&mut rd).read_into_vec(off, n, &mut v).is_ok());
            } else if let Some(f) = info.open_file(&mut rd, &p) {
                let mut v = Vec::new();
                t(f.take(n).read_to_end(&mut v).is_ok());
            }
        }
        let mut w = info.open_window(&mut rd, 0, None);
        t(w.seek(SeekFrom::Start(0x2440)).is_ok());
        let mut b = [0u8; 64];
        t(w.read(&mut b).is_ok());
    }
    (ok, bad)
}

impl Typed for Damaged {
    type Spec = DSpec;
    fn name(&self) -> &'static str {
        "read_damaged"
    }
    fn gen(&self, r: &mut Rng, idx: u64, _tier: Tier) -> DSpec {
        let (disc, lay) = read_disc_spec(r, idx, true);
        let rd = ref_disc(&disc, lay);
        let dmg = gen_damage(r, &rd);
        DSpec { disc, lay, ambient: if r.chance(800) { Ambient::default() } else { gen_ambient(r) }, dmg, seed: r.next() }
    }
    fn shrink(&self, s: &DSpec) -> Vec<DSpec> {
        let mut v = Vec::new();
        for i in 0..s.dmg.len() {
            if s.dmg.len() > 1 {
                let mut c = s.clone();
                c.dmg.remove(i);
                v.push(c);
            }
        }
        if s.ambient != Ambient::default() {
            v.push(DSpec { ambient: Ambient::default(), ..s.clone() });
        }
        v
    }
    fn run(&self, s: &DSpec, ctx: &mut Ctx) -> Result<(), Violation> {
        let mut disc = ref_disc(&s.disc, s.lay);
        let img = apply_damage(&mut disc, &s.dmg);
        drop(disc);
        let len = img.len;
        let d = ctx.disk(0, img, s.ambient, &[]);
        // a piece of at least one byte per step in the worst schedule
        d.with(|i| i.max_steps = 2_000_000 + len * 4);
        ctx.nontrivial = true;
        for m in &s.dmg {
            ctx.count(
                match m {
                    Dmg::Disc(..) => "fault.damage.stored_bytes",
                    Dmg::Plain(_, _, b) if b.len() > 100 => "fault.damage.nested_directories",
                    Dmg::Plain(..) => "fault.damage.decrypted_bytes",
                    Dmg::Shared(..) => "fault.damage.shared_names",
                    Dmg::Cut(_) => "fault.damage.truncated",
                },
                1,
            );
        }
        let base = crate::alloc::reset_peak();
        let (ok, bad) = read_everything(d.clone(), 32 << 20);
        let peak = crate::alloc::peak().saturating_sub(base);
        ctx.absorb(&d);
        ctx.count("n.reads_ok", ok);
        ctx.count("n.reads_refused", bad);
        ctx.probe("disc_does_not_open", ok == 0);
        ctx.probe("everything_still_reads", bad == 0);
        let limit = (64 << 20) + 8 * len;
        if peak > limit {
            return viol("memory", format!("a damaged image of {len:#x} bytes made the reader use {peak:#x} bytes of memory"));
        }
        Ok(())
    }
}
