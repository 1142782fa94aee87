//! Building discs into a simulated destination.

use crate::fw::*;
use crate::libread::*;
use crate::model::*;
use crate::refimg::*;
use crate::rng::{content, mix2, Rng};
use crate::simdisk::*;
use disc_riider::builder::*;
use disc_riider::structs::*;
use disc_riider::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::OnceLock;

#[derive(Debug, Clone, PartialEq)]
pub struct SimErr(pub u64);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "provider failed ({})", self.0)
    }
}
impl std::error::Error for SimErr {}
pub type AddErr = PartitionAddError<SimErr>;

#[derive(Clone, Debug)]
pub struct Tick {
    pub percent: u8,
    /// file bytes taken from the provider so far
    pub taken: u64,
    /// files with data not yet asked for
    pub open: usize,
    /// bytes the destination has accepted since this partition was begun
    pub written: u64,
}

#[derive(Default)]
pub struct Obs {
    pub ticks: Vec<Tick>,
    pub taken: u64,
    pub open: usize,
    pub calls: u64,
    /// number of the call that was made to fail
    pub failed: Option<u64>,
    pub asked_unknown: Option<String>,
}

/// kinds of error a provider may report
const PROVKINDS: [std::io::ErrorKind; 10] = [
    std::io::ErrorKind::Other,
    std::io::ErrorKind::NotFound,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::InvalidInput,
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::OutOfMemory,
];

pub fn zeros(n: usize) -> &'static [u8] {
    static Z: OnceLock<Vec<u8>> = OnceLock::new();
    &Z.get_or_init(|| vec![0u8; 300 << 20])[..n]
}

pub struct Prov<'a> {
    pub sp: &'a PartSpec,
    pub files: BTreeMap<Vec<String>, (u64, u64, u32)>,
    pub disk: SimDisk,
    pub obs: Rc<RefCell<Obs>>,
    pub buf: Vec<u8>,
}

impl<'a> Prov<'a> {
    pub fn new(sp: &'a PartSpec, disk: SimDisk, obs: Rc<RefCell<Obs>>) -> Self {
        let files: BTreeMap<_, _> = files(&sp.tree).into_iter().map(|(p, l, s, d)| (p, (l, s, d))).collect();
        {
            let mut o = obs.borrow_mut();
            *o = Obs::default();
            o.open = files.values().filter(|f| f.0 > 0).count();
        }
        Prov { sp, files, disk, obs, buf: Vec::new() }
    }
    fn point(&mut self) -> Result<(), AddErr> {
        let mut o = self.obs.borrow_mut();
        o.calls += 1;
        let id = o.calls;
        drop(o);
        if let Some(k) = self.disk.provider_point() {
            self.obs.borrow_mut().failed = Some(id);
            let msg = format!("provider failed ({id})");
            return Err(match k % 4 {
                0 => PartitionAddError::Custom(SimErr(id)),
                1 => PartitionAddError::BinRW(binrw::Error::AssertFail { pos: id, message: msg }),
                _ => PartitionAddError::IO(std::io::Error::new(PROVKINDS[(k / 4) as usize % PROVKINDS.len()], msg)),
            });
        }
        Ok(())
    }
}

pub fn fst_of(nodes: &[Node], mode: u8) -> Vec<FstNode> {
    nodes
        .iter()
        .map(|n| match n {
            Node::F { name, len, seed, .. } => {
                // what the tree says about position and length is a placeholder
                let (offset, length) = match mode {
                    1 => (0, 0),
                    2 => (mix2(*seed, 1) & 0xFFFF_FFFF, mix2(*seed, 2) as u32),
                    _ => (0, *len as u32),
                };
                FstNode::File { name: name.clone(), offset, length }
            }
            Node::D { name, kids } => FstNode::Directory { name: name.clone(), files: fst_of(kids, mode) },
        })
        .collect()
}

impl<'x> WiiPartitionDefinition<SimErr> for Prov<'x> {
    fn get_disc_header(&mut self) -> Result<DiscHeader, AddErr> {
        self.point()?;
        Ok(self.sp.header())
    }
    fn get_bi2<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, AddErr> {
        self.point()?;
        Ok(self.sp.bi2().into())
    }
    fn get_apploader<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, AddErr> {
        self.point()?;
        Ok(self.sp.apploader_bytes().into())
    }
    fn get_fst(&mut self) -> Result<Fst, AddErr> {
        self.point()?;
        let mut f = Fst::new();
        *f.get_entries_mut() = fst_of(&self.sp.tree, self.sp.len_mode);
        Ok(f)
    }
    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, AddErr> {
        self.point()?;
        Ok(self.sp.dol_bytes().into())
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> Result<(Cow<'a, [u8]>, u32), AddErr> {
        self.point()?;
        let Some((len, seed, pad)) = self.files.get(path).copied() else {
            self.obs.borrow_mut().asked_unknown = Some(format!("{path:?}"));
            return Err(PartitionAddError::Custom(SimErr(u64::MAX)));
        };
        {
            let mut o = self.obs.borrow_mut();
            o.taken += len;
            if len > 0 {
                o.open = o.open.saturating_sub(1);
            }
        }
        if seed & 7 == 0 && len > 1 << 20 {
            return Ok((Cow::Borrowed(zeros(len as usize)), pad));
        }
        let data = content(seed, len as usize);
        if seed & 8 == 0 {
            self.buf = data;
            Ok((Cow::Borrowed(&self.buf), pad))
        } else {
            Ok((Cow::Owned(data), pad))
        }
    }
}

pub fn add_one<WS: std::io::Read + std::io::Write + std::io::Seek>(b: &mut WiiDiscBuilder<WS>, sp: &PartSpec, disk: &SimDisk, obs: &Rc<RefCell<Obs>>) -> Result<(), AddErr> {
    let mut p = Prov::new(sp, disk.clone(), obs.clone());
    let d = disk.clone();
    let base = d.with(|i| i.bytes_written);
    let o = obs.clone();
    b.add_partition(ptype(sp.ptype), sp.ticket(), sp.tmd(), sp.certs(), &mut p, &mut |percent| {
        let written = d.with(|i| i.bytes_written) - base;
        let mut o = o.borrow_mut();
        let (taken, open) = (o.taken, o.open);
        o.ticks.push(Tick { percent, taken, open, written });
    })
}

pub enum Failure {
    Add(usize, AddErr),
    Finish(binrw::Error),
}

impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Failure::Add(i, e) => write!(f, "adding partition {i}: {e}"),
            Failure::Finish(e) => write!(f, "finish: {e}"),
        }
    }
}

/// the whole build, stopping at the first error
pub fn build_all(disc: &DiscSpec, disk: &SimDisk, logs: &mut Vec<Rc<RefCell<Obs>>>) -> Result<(), Failure> {
    let mut b = WiiDiscBuilder::create(disk.clone(), disc.header(), disc.region());
    for (i, p) in disc.parts.iter().enumerate() {
        let obs = Rc::new(RefCell::new(Obs::default()));
        logs.push(obs.clone());
        add_one(&mut b, p, disk, &obs).map_err(|e| Failure::Add(i, e))?;
    }
    b.finish().map_err(Failure::Finish)
}

pub fn check_ticks(sp: &PartSpec, ticks: &[Tick], ok: bool) -> Result<(), Violation> {
    let total: u64 = files(&sp.tree).iter().map(|f| f.1).sum();
    if ticks.is_empty() {
        if ok {
            return viol("progress", "no progress was reported at all");
        }
        return Ok(());
    }
    if ticks[0].percent != 0 {
        return viol("progress", format!("progress starts at {}", ticks[0].percent));
    }
    let mut last = 0;
    for t in ticks {
        if t.percent > 100 {
            return viol("progress", format!("progress {} is above 100", t.percent));
        }
        if t.percent < last {
            return viol("progress", format!("progress goes down from {last} to {}", t.percent));
        }
        last = t.percent;
        if t.percent == 100 {
            if t.open > 0 {
                return viol("progress", format!("100 reported while {} files with data were not even asked for", t.open));
            }
            if t.written + GROUP < total {
                return viol("progress", format!("100 reported when the destination had {} bytes of {total} bytes of file data", t.written));
            }
        }
    }
    if ok && total > 0 && last != 100 {
        return viol("progress", format!("successful add ended at {last} percent"));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    RoundTrip,
    Valid,
    Faulted,
    Crash,
    Retry,
    Same,
    Progress,
    Steps,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BSpec {
    pub disc: DiscSpec,
    pub seed: u64,
    pub ambient: Ambient,
    pub ambient2: Ambient,
    pub plans: Vec<Plan>,
    /// size limit of the destination, in millionths of the final image
    pub cap: Option<u64>,
    /// tries per partition
    pub tries: Vec<u8>,
    pub heal_after: u8,
    /// where the destination stands when handed over
    pub start_pos: u64,
}

pub fn gen_ambient(r: &mut Rng) -> Ambient {
    match r.below(6) {
        0 | 1 => Ambient::default(),
        2 => Ambient { seed: r.next(), short: 1000, eintr: 0, style: r.below(4) as u8 },
        3 => Ambient { seed: r.next(), short: 0, eintr: 300, style: 0 },
        4 => Ambient { seed: r.next(), short: 300, eintr: 150, style: r.below(4) as u8 },
        _ => Ambient { seed: r.next(), short: 40, eintr: 20, style: r.below(4) as u8 },
    }
}

pub fn gen_act(r: &mut Rng, op: Op) -> Act {
    match op {
        Op::Read => {
            let k = r.below(12) as u8;
            *r.pick(&[Act::Err(k), Act::Err(k), Act::ErrForever(k), Act::ErrOp(k), Act::Zero, Act::ZeroForever])
        }
        Op::Write => match r.below(9) {
            0 | 1 => Act::Err(r.below(12) as u8),
            2 => Act::ErrForever(r.below(12) as u8),
            8 => Act::ErrOp(r.below(12) as u8),
            3 | 4 => Act::Torn(r.next() & 0xFFFFFF),
            5 => Act::Zero,
            6 => Act::ZeroForever,
            _ => Act::Err(2),
        },
        Op::Provider => Act::Err(r.below(200) as u8),
        _ => {
            let k = r.below(12) as u8;
            *r.pick(&[Act::Err(k), Act::Err(k), Act::Err(k), Act::Err(k), Act::ErrForever(k), Act::ErrOp(k)])
        }
    }
}

pub fn gen_plan(r: &mut Rng, stream: u8) -> Plan {
    let op = *r.pick(&[Op::Write, Op::Write, Op::Write, Op::Seek, Op::Seek, Op::Read, Op::Read, Op::Flush, Op::Flush, Op::Provider, Op::Provider]);
    let frac = match r.below(10) {
        0 => 999_999,
        1 => r.range(950_000, 999_999),
        _ => r.below(1_000_000),
    };
    let act = gen_act(r, op);
    let frac = frac + *r.pick(&[0u64, 0, 1, 1, 1, 2, 2, 2, 2, 3]) * 1_000_000;
    Plan { stream, op, frac, act }
}

pub fn build_opts(r: &mut Rng, idx: u64) -> PartOpts {
    let big = *r.pick(&[0u64, 0, 300, 800]);
    PartOpts {
        tree: TreeOpts {
            max_nodes: *r.pick(&[0u64, 3, 6, 12, 12, 40, 120]),
            depth: *r.pick(&[0u64, 1, 3, 6]),
            big,
            ascii: r.chance(300),
            sorted: r.chance(600),
            pad: true,
            empty_dirs: true,
        },
        aim: idx % 3 != 0,
    }
}

pub struct Build(pub Mode);

impl Typed for Build {
    type Spec = BSpec;
    fn name(&self) -> &'static str {
        match self.0 {
            Mode::RoundTrip => "build_read",
            Mode::Valid => "build_verify",
            Mode::Faulted => "build_faults",
            Mode::Crash => "build_crash",
            Mode::Retry => "build_retry",
            Mode::Same => "build_twice",
            Mode::Progress => "build_progress",
            Mode::Steps => "build_steps",
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _tier: Tier) -> BSpec {
        let nparts = if idx % 50 == 11 { r.range(4, 9) } else { *r.pick(&[1u64, 1, 1, 1, 2, 2, 3]) };
        let o = build_opts(r, idx);
        let mut disc = gen_disc(r, nparts, o);
        if idx % 40 == 7 {
            // more than one 16 MiB batch
            let len = 0x100_0000 * r.range(1, 2) + r.below(0x3) + r.below(2) * 0x20_0000;
            disc.parts[0].tree.push(Node::F { name: "~~~big".into(), len, seed: r.next(), pad: 0 });
        }
        let mut s = BSpec {
            disc,
            seed: r.next(),
            ambient: gen_ambient(r),
            ambient2: gen_ambient(r),
            plans: vec![],
            cap: None,
            tries: vec![],
            heal_after: 0,
            start_pos: if r.chance(200) { r.below(0x100000) } else { 0 },
        };
        match self.0 {
            Mode::RoundTrip | Mode::Valid | Mode::Same => {}
            Mode::Faulted => {
                if idx % 5 < 2 {
                    // groups that are stored once and not touched again
                    let len = r.range(GROUP_DATA, 4 * GROUP_DATA);
                    s.disc.parts[0].tree.push(Node::F { name: "~~~groups".into(), len, seed: r.next(), pad: 0 });
                }
                if r.chance(120) {
                    s.cap = Some(r.below(1_000_000));
                } else {
                    for _ in 0..*r.pick(&[1u64, 1, 1, 1, 2, 3]) {
                        s.plans.push(gen_plan(r, 0));
                    }
                }
            }
            Mode::Crash => {
                let op = *r.pick(&[Op::Write, Op::Write, Op::Write, Op::Write, Op::Write, Op::Seek, Op::Flush]);
                let frac = match r.below(10) {
                    0 => 999_999,
                    1..=4 => r.range(900_000, 999_999),
                    _ => r.below(1_000_000),
                };
                let frac = frac + *r.pick(&[0u64, 0, 0, 1, 2, 2, 3]) * 1_000_000;
                if !r.chance(60) {
                    s.plans.push(Plan { stream: 0, op, frac, act: Act::Crash(r.next() & 0xFF_FFFF) });
                }
            }
            Mode::Retry => {
                for _ in 0..*r.pick(&[1u64, 1, 2, 3]) {
                    s.plans.push(gen_plan(r, 0));
                }
                s.tries = (0..nparts).map(|_| *r.pick(&[1u8, 2, 2, 3])).collect();
                s.heal_after = *r.pick(&[1u8, 1, 1, 2, 3]);
            }
            Mode::Progress => {
                for p in &mut s.disc.parts {
                    // progress is stated for trees whose lengths are right, or left out
                    if p.len_mode == 2 {
                        p.len_mode = 0;
                    }
                }
                if r.chance(250) {
                    s.plans.push(gen_plan(r, 0));
                }
            }
            Mode::Steps => {
                for _ in 0..*r.pick(&[1u64, 1, 2, 4]) {
                    s.plans.push(gen_plan(r, 0));
                }
                if r.chance(300) && s.plans[0].op != Op::Provider {
                    let k = r.below(12) as u8;
                    s.plans[0].act = *r.pick(&[Act::ErrOp(k), Act::ErrOp(k), Act::ErrForever(k)]);
                }
                if r.chance(400) {
                    s.ambient.eintr = 700;
                    s.ambient.seed |= 1;
                }
            }
        }
        s
    }

    fn shrink(&self, s: &BSpec) -> Vec<BSpec> {
        let mut v: Vec<BSpec> = shrink_disc(&s.disc)
            .into_iter()
            .map(|d| {
                let mut c = s.clone();
                c.disc = d;
                c
            })
            .collect();
        if s.start_pos != 0 {
            v.push(BSpec { start_pos: 0, ..s.clone() });
        }
        if s.cap.is_some() {
            v.push(BSpec { cap: None, ..s.clone() });
        }
        if s.ambient != Ambient::default() {
            v.push(BSpec { ambient: Ambient::default(), ..s.clone() });
        }
        v
    }

    fn run(&self, s: &BSpec, ctx: &mut Ctx) -> Result<(), Violation> {
        run_build(self.0, s, ctx)
    }
}

fn step_bound(s: &BSpec, image: u64) -> u64 {
    let nodes: u64 = s.disc.parts.iter().map(|p| count_nodes(&p.tree) as u64).sum();
    4000 + s.disc.parts.len() as u64 * 4000 + nodes * 200 + if s.ambient.short > 0 { image } else { image / 64 }
}

fn run_build(mode: Mode, s: &BSpec, ctx: &mut Ctx) -> Result<(), Violation> {
    let want: Vec<&PartSpec> = s.disc.parts.iter().collect();
    let head = disc_header_bytes(&s.disc.header());
    let region = s.disc.region();
    let mut r = Rng::new(s.seed);
    let mut logs = Vec::new();
    let finish = |d: &SimDisk, ctx: &mut Ctx| {
        ctx.absorb(d);
    };
    // a fault-free rehearsal, where faults have to be placed or a budget is needed
    let mut events = Vec::new();
    let mut dry_steps = 0;
    let mut dry_len = 0;
    if !s.plans.is_empty() || s.cap.is_some() || mode == Mode::Steps {
        let d = SimDisk::new(0, Image::default()).ambient(s.ambient);
        d.with(|i| {
            i.pos = s.start_pos;
            i.max_steps = 30_000_000;
        });
        build_all(&s.disc, &d, &mut Vec::new()).or_viol("build-failed")?;
        let (st, l) = d.with(|i| (i.steps, i.img.len));
        dry_steps = st;
        dry_len = l;
        events = place(&s.plans, &d.ops());
        if mode == Mode::Steps && st > step_bound(s, l) * 4 {
            return viol("step-budget", format!("a fault-free build of {l:#x} bytes took {st} I/O steps"));
        }
    }
    let disk = ctx.disk(0, Image::default(), s.ambient, &events);
    disk.with(|i| {
        i.pos = s.start_pos;
        i.track_durable = true;
        i.max_steps = 60_000_000;
    });
    let multi = |ctx: &mut Ctx, d: &SimDisk| {
        let c = d.with(|i| i.counts);
        ctx.probe("groups_reloaded", c[Op::Read as usize] > 0);
        ctx.count("n.partitions", s.disc.parts.len() as u64);
        ctx.count("n.files", s.disc.parts.iter().map(|p| files(&p.tree).len() as u64).sum());
    };
    match mode {
        Mode::RoundTrip | Mode::Valid => {
            let res = build_all(&s.disc, &disk, &mut logs);
            finish(&disk, ctx);
            multi(ctx, &disk);
            res.or_viol("build-failed")?;
            ctx.nontrivial = true;
            let img = disk.image();
            if mode == Mode::Valid {
                verify_built(&img, &head, &region, &want, Depth::Full).or_viol("invalid-image")?;
            } else {
                let src = ctx.disk(1, img, s.ambient2, &[]);
                src.with(|i| i.pos = s.start_pos);
                let res = check_disc(src.clone(), &s.disc.header(), &region, &want, TmdRule::Built, &mut r);
                finish(&src, ctx);
                res.or_viol("read-back")?;
            }
        }
        Mode::Faulted => {
            if let (Some(c), None) = (s.cap, &ctx.explicit) {
                disk.with(|i| i.capacity = Some(dry_len * c / 1_000_000));
            } else if let Some(c) = s.cap {
                disk.with(|i| i.capacity = Some(dry_len * c / 1_000_000));
            }
            disk.with(|i| i.flush_loses = true);
            let res = build_all(&s.disc, &disk, &mut logs);
            finish(&disk, ctx);
            multi(ctx, &disk);
            ctx.nontrivial = disk.with(|i| i.hard > 0);
            ctx.probe("fault_and_error", res.is_err());
            for (i, l) in logs.iter().enumerate() {
                let l = l.borrow();
                if let Some(p) = &l.asked_unknown {
                    return viol("provider", format!("the provider of partition {i} was asked for {p}, which is not in its tree"));
                }
                if let Some(id) = l.failed {
                    // what kind of error it was and what it said
                    let right = match &res {
                        Err(Failure::Add(k, e)) => *k == i && e.to_string().contains(&format!("provider failed ({id})")),
                        _ => false,
                    };
                    if !right {
                        let got = match &res {
                            Ok(()) => "success".to_string(),
                            Err(e) => e.to_string(),
                        };
                        return viol("provider-error-lost", format!("the provider of partition {i} failed (call {id}) but the build reported: {got}"));
                    }
                    ctx.probe("provider_failed", true);
                }
            }
            match res {
                Ok(()) => {
                    let img = disk.durable_image();
                    verify_built(&img, &head, &region, &want, Depth::Full).or_viol("false-success")?;
                }
                Err(e) => {
                    if disk.with(|i| i.hard == 0) {
                        return viol("spurious-error", format!("no fault was injected, yet: {e}"));
                    }
                }
            }
        }
        Mode::Crash => {
            let res = build_all(&s.disc, &disk, &mut logs);
            finish(&disk, ctx);
            multi(ctx, &disk);
            let crashed = disk.with(|i| i.crashed);
            ctx.nontrivial = true;
            if !crashed {
                res.or_viol("build-failed")?;
                let img = disk.durable_image();
                ctx.probe("finished_then_power_loss", true);
                verify_built(&img, &head, &region, &want, Depth::Full).or_viol("lost-after-finish")?;
                return Ok(());
            }
            if res.is_ok() {
                return viol("harness", "success after death");
            }
            let img = disk.image();
            let src = SimDisk::new(1, img);
            if let Ok(mut rd) = WiiIsoReader::open(src.clone()) {
                ctx.probe("crashed_disc_opens", true);
                for (i, e) in rd.partitions().to_vec().into_iter().enumerate() {
                    let Ok(mut info) = rd.open_partition(e.clone()) else { continue };
                    ctx.probe("crashed_partition_opens", true);
                    let mut errs = Vec::new();
                    let mut any = false;
                    for p in &want {
                        match check_open_part(&mut rd, &mut info, p, TmdRule::Built, &mut r) {
                            Ok(()) => {
                                any = true;
                                break;
                            }
                            Err(e) => errs.push(e),
                        }
                    }
                    if !any {
                        let k = i.min(errs.len() - 1);
                        return viol("crash-exposes-garbage", format!("partition {i} at {:#x} opens after the crash, but: {}", e.get_offset(), errs[k]));
                    }
                }
            }
        }
        Mode::Retry => {
            let mut b = WiiDiscBuilder::create(disk.clone(), s.disc.header(), region);
            let mut got: Vec<&PartSpec> = Vec::new();
            let mut failures = 0u8;
            let heal = |f: u8| {
                if f >= s.heal_after {
                    disk.heal();
                    true
                } else {
                    false
                }
            };
            let mut failed_once = false;
            for (i, p) in s.disc.parts.iter().enumerate() {
                let tries = s.tries.get(i).copied().unwrap_or(1);
                for _ in 0..tries {
                    let obs = Rc::new(RefCell::new(Obs::default()));
                    let before = disk.with(|i| i.hard);
                    match add_one(&mut b, p, &disk, &obs) {
                        Ok(()) => {
                            got.push(p);
                            break;
                        }
                        Err(e) => {
                            failed_once = true;
                            if disk.with(|i| i.hard) == before {
                                finish(&disk, ctx);
                                return viol("spurious-error", format!("adding partition {i} failed though no fault was injected during it: {e}"));
                            }
                            failures += 1;
                            heal(failures);
                        }
                    }
                }
            }
            let mut left = 4;
            loop {
                let before = disk.with(|i| i.hard);
                match b.finish() {
                    Ok(()) => break,
                    Err(e) => {
                        if disk.with(|i| i.hard) == before {
                            finish(&disk, ctx);
                            return viol("spurious-error", format!("finish failed though no fault was injected during it: {e}"));
                        }
                        left -= 1;
                        if left <= 2 {
                            disk.heal();
                        }
                    }
                }
            }
            finish(&disk, ctx);
            multi(ctx, &disk);
            ctx.nontrivial = failed_once;
            ctx.probe("partition_skipped", got.len() < want.len());
            ctx.probe("retry_succeeded", failed_once && got.len() == want.len());
            drop(b);
            let img = disk.durable_image();
            verify_built(&img, &head, &region, &got, Depth::Full).or_viol("unclean-after-failure")?;
        }
        Mode::Same => {
            build_all(&s.disc, &disk, &mut logs).or_viol("build-failed")?;
            finish(&disk, ctx);
            let d2 = ctx.disk(1, Image::default(), s.ambient2, &[]);
            // an unrelated build in between, so that state left behind would show
            let mut third = s.disc.clone();
            third.parts.truncate(1);
            third.parts[0].seed ^= 0x55;
            third.parts[0].tree.truncate(2);
            build_all(&third, &SimDisk::new(2, Image::default()), &mut logs).or_viol("build-failed")?;
            build_all(&s.disc, &d2, &mut logs).or_viol("build-failed")?;
            finish(&d2, ctx);
            multi(ctx, &disk);
            ctx.nontrivial = true;
            disk.image().same(&d2.image()).or_viol("images-differ")?;
        }
        Mode::Progress => {
            let res = build_all(&s.disc, &disk, &mut logs);
            finish(&disk, ctx);
            multi(ctx, &disk);
            if s.plans.is_empty() {
                if let Err(e) = &res {
                    return viol("build-failed", e.to_string());
                }
            }
            ctx.nontrivial = true;
            let n = logs.len();
            for (i, l) in logs.iter().enumerate() {
                let ok = res.is_ok() || i + 1 < n || matches!(res, Err(Failure::Finish(_)));
                check_ticks(&s.disc.parts[i], &l.borrow().ticks, ok).map_err(|v| Violation { msg: format!("partition {i}: {}", v.msg), ..v })?;
            }
        }
        Mode::Steps => {
            let budget = dry_steps * 4 + 20_000;
            disk.with(|i| i.max_steps = budget);
            let mut b = WiiDiscBuilder::create(disk.clone(), s.disc.header(), region);
            let mut failed = false;
            for (i, p) in s.disc.parts.iter().enumerate() {
                let obs = Rc::new(RefCell::new(Obs::default()));
                if add_one(&mut b, p, &disk, &obs).is_err() {
                    failed = true;
                    ctx.absorb(&disk);
                    disk.heal();
                    disk.with(|i| i.max_steps = budget);
                    if let Err(e) = add_one(&mut b, p, &disk, &obs) {
                        return viol("no-recovery", format!("faults have stopped, yet adding partition {i} again fails: {e}"));
                    }
                }
            }
            if b.finish().is_err() {
                failed = true;
                ctx.absorb(&disk);
                disk.heal();
                disk.with(|i| i.max_steps = budget);
                if let Err(e) = b.finish() {
                    return viol("no-recovery", format!("faults have stopped, yet finishing again fails: {e}"));
                }
            }
            finish(&disk, ctx);
            multi(ctx, &disk);
            ctx.nontrivial = failed || disk.with(|i| i.hard > 0) || s.ambient.eintr > 0;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ more than 4 GiB

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct HSpec {
    pub disc: DiscSpec,
    pub ambient: Ambient,
    pub seed: u64,
}

pub struct Huge(pub Mode);
impl Typed for Huge {
    type Spec = HSpec;
    fn name(&self) -> &'static str {
        match self.0 {
            Mode::Valid => "build_huge_verify",
            Mode::Progress => "build_huge_progress",
            _ => "build_huge_read",
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _tier: Tier) -> HSpec {
        let o = PartOpts {
            tree: TreeOpts { max_nodes: 4, depth: 1, big: 300, ascii: true, sorted: true, pad: false, empty_dirs: true },
            aim: false,
        };
        let mut disc = gen_disc(r, 2, o);
        let n = 17 + (idx % 2);
        let mut t = Vec::new();
        for i in 0..n {
            t.push(Node::F { name: format!("aa{i:02}"), len: (256 << 20) - r.below(2) * 0x1000, seed: 0, pad: 0 });
        }
        t.push(Node::F { name: "zz_after".into(), len: r.range(1, 0x400000), seed: 7, pad: 0 });
        disc.parts[0].tree = t;
        disc.parts[0].len_mode = 0;
        HSpec { disc, ambient: Ambient { seed: r.next(), short: 100, eintr: 50, style: 0 }, seed: r.next() }
    }
    fn shrink(&self, s: &HSpec) -> Vec<HSpec> {
        let mut v = Vec::new();
        if s.disc.parts.len() > 1 {
            let mut c = s.clone();
            c.disc.parts.pop();
            v.push(c);
        }
        v
    }
    fn run(&self, s: &HSpec, ctx: &mut Ctx) -> Result<(), Violation> {
        let disk = ctx.disk(0, Image::default(), s.ambient, &[]);
        let mut logs = Vec::new();
        let res = build_all(&s.disc, &disk, &mut logs);
        ctx.absorb(&disk);
        res.or_viol("build-failed")?;
        let want: Vec<&PartSpec> = s.disc.parts.iter().collect();
        let img = disk.image();
        ctx.nontrivial = true;
        ctx.probe("past_4GiB", img.len > 1 << 32);
        if self.0 == Mode::Progress {
            for (i, l) in logs.iter().enumerate() {
                check_ticks(&s.disc.parts[i], &l.borrow().ticks, true).map_err(|v| Violation { msg: format!("partition {i}: {}", v.msg), ..v })?;
            }
        } else if self.0 == Mode::Valid {
            verify_built(&img, &disc_header_bytes(&s.disc.header()), &s.disc.region(), &want, Depth::Full).or_viol("invalid-image")?;
        } else {
            let src = ctx.disk(1, img, s.ambient, &[]);
            let res = check_disc(src.clone(), &s.disc.header(), &s.disc.region(), &want, TmdRule::Built, &mut Rng::new(s.seed));
            ctx.absorb(&src);
            res.or_viol("read-back")?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ at and beyond the format's limits

/// Workloads at the edge of what the format can hold: either an error, or a correct disc.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Edge {
    /// this many contents in the title metadata
    Contents(u32),
    /// this many files with names of this many bytes
    Names(u32, u32),
    /// one file of this many bytes (zeros)
    File(u64),
    /// this many files of 256 MiB
    Data(u32),
    /// one name that the character set cannot hold, in a folder this deep
    BadName(String, u32),
    /// folders nested this deep
    Depth(u32),
    /// sizes of apploader and executable
    Sys(u32, u32),
    /// this many partitions more
    Parts(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ESpec {
    pub base: DiscSpec,
    pub edge: Edge,
    pub ambient: Ambient,
    pub seed: u64,
    /// the edge partition is added after this many ordinary ones
    pub at: u8,
}

pub struct Limits;

const BAD_NAMES: [&str; 8] = ["é", "ñandú", "한글", "\u{1F600}", "a\u{300}", "中国话", "Ő", "x\u{A0}y"];

struct EdgeProv<'a> {
    inner: Prov<'a>,
    fst: Fst,
    huge: Option<&'a Zeros>,
}

/// untouched zero pages: a file larger than the simulated machine could hold in its heap
struct Zeros(*mut libc::c_void, usize);
impl Zeros {
    fn new(n: usize) -> Zeros {
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
        };
        assert!(p != libc::MAP_FAILED);
        Zeros(p, n)
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0 as *const u8, self.1) }
    }
}
impl Drop for Zeros {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0, self.1) };
    }
}
impl<'x> WiiPartitionDefinition<SimErr> for EdgeProv<'x> {
    fn get_disc_header(&mut self) -> Result<DiscHeader, AddErr> {
        self.inner.get_disc_header()
    }
    fn get_bi2<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, AddErr> {
        self.inner.get_bi2()
    }
    fn get_apploader<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, AddErr> {
        self.inner.get_apploader()
    }
    fn get_fst(&mut self) -> Result<Fst, AddErr> {
        Ok(self.fst.clone())
    }
    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, AddErr> {
        self.inner.get_dol()
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> Result<(Cow<'a, [u8]>, u32), AddErr> {
        if let (Some(h), true) = (self.huge, path.last().map_or(false, |p| p == "huge")) {
            return Ok((Cow::Borrowed(h.bytes()), 0));
        }
        self.inner.get_file_data(path)
    }
}

impl Typed for Limits {
    type Spec = ESpec;
    fn name(&self) -> &'static str {
        "build_limits"
    }
    fn gen(&self, r: &mut Rng, idx: u64, tier: Tier) -> ESpec {
        let o = PartOpts {
            tree: TreeOpts { max_nodes: 5, depth: 2, big: 100, ascii: false, sorted: true, pad: false, empty_dirs: true },
            aim: false,
        };
        let nparts = r.range(1, 3);
        let base = gen_disc(r, nparts, o);
        let edge = match idx % 40 {
            // 94 names of 178480 bytes put the last one exactly at the largest 24-bit offset
            0 => Edge::Names(95, 178_480 + (idx / 40 % 2) as u32),
            13 => Edge::Names(r.range(1_660, 1_690) as u32, r.range(9_920, 10_120) as u32),
            20 => Edge::File((1 << 32) + r.below(3) * 0x100 + r.below(2)),
            27 if tier == Tier::Thorough => Edge::Data(r.range(38, 41) as u32),
            // tables of up to a few groups
            k if k % 8 == 6 => Edge::Names(r.range(20, 150) as u32, r.range(5_000, 50_000) as u32),
            k if k % 8 == 3 => Edge::Parts(r.range(2, 14) as u8),
            k => match k % 5 {
                0 | 1 => Edge::Contents(match r.below(6) {
                    0 => 0,
                    1 => r.range(65_530, 65_545) as u32,
                    2 => r.range(1_000, 4_000) as u32,
                    _ => r.range(740, 860) as u32,
                }),
                2 => Edge::BadName(r.pick(&BAD_NAMES).to_string(), r.below(3) as u32),
                3 => Edge::Depth(*r.pick(&[1u64, 30, 100, 400, 495, 499, 500, 501, 520]) as u32),
                _ => Edge::Sys(r.below(0x50_0000) as u32, r.below(0x80_0000) as u32),
            },
        };
        ESpec { base, edge, ambient: gen_ambient(r), seed: r.next(), at: r.below(3) as u8 }
    }
    fn shrink(&self, s: &ESpec) -> Vec<ESpec> {
        let mut v: Vec<ESpec> = shrink_disc(&s.base).into_iter().map(|d| ESpec { base: d, ..s.clone() }).collect();
        if s.ambient != Ambient::default() {
            v.push(ESpec { ambient: Ambient::default(), ..s.clone() });
        }
        v
    }
    fn run(&self, s: &ESpec, ctx: &mut Ctx) -> Result<(), Violation> {
        let disk = ctx.disk(0, Image::default(), s.ambient, &[]);
        let mut e = s.base.parts[0].clone();
        let mut huge = None;
        // what the answer has to be: None = either
        let mut fits = Some(true);
        match &s.edge {
            Edge::Contents(n) => {
                e.tmd_contents = *n.min(&60_000) as u16;
                let certs = cert_bytes(&e.certs()).len() as u64;
                let end = (704 + 0x1E4 + 36 * *n as u64).div_ceil(0x20) * 0x20 + certs;
                fits = Some(*n > 0 && end <= 0x8000);
            }
            Edge::Names(n, w) => {
                let w = *w as usize;
                e.tree = (0..*n)
                    .map(|i| Node::F { name: format!("{}{i:05}", "n".repeat(w - 5)), len: (i % 500 == 7) as u64 * 100, seed: i as u64, pad: 0 })
                    .collect();
                e.len_mode = 1;
                // the last name has to start within 24 bits
                fits = Some(1 + (*n as u64 - 1) * (w as u64 + 1) <= 0xFF_FFFF);
            }
            Edge::File(n) => {
                e.tree.push(Node::F { name: "~huge".into(), len: 0, seed: 0, pad: 0 });
                huge = Some(*n);
                fits = Some(false);
            }
            Edge::Data(n) => {
                e.tree = (0..*n).map(|i| Node::F { name: format!("a{i:02}"), len: 256 << 20, seed: 0, pad: 0 }).collect();
                e.len_mode = 0;
                let (_, _, _, end) = predict(&e);
                fits = Some(end.div_ceil(GROUP_DATA) <= 0x18000 / 20);
            }
            Edge::BadName(n, d) => {
                let mut node = Node::F { name: n.clone(), len: 10, seed: 3, pad: 0 };
                for _ in 0..*d {
                    node = Node::D { name: "sub".into(), kids: vec![node] };
                }
                e.tree.retain(|x| x.name() != "sub");
                e.tree.push(node);
                fits = Some(false);
            }
            Edge::Depth(d) => {
                let mut node = Node::F { name: "deep".into(), len: 10, seed: 3, pad: 0 };
                for _ in 0..*d {
                    node = Node::D { name: "d".into(), kids: vec![node] };
                }
                e.tree = vec![node];
                // deeper than anything real; the reader may refuse what the builder stores
                fits = None;
            }
            Edge::Parts(_) => {}
            Edge::Sys(a, d) => {
                e.apploader = (*a, a / 3);
                e.dol = vec![*d, 0x10];
            }
        }
        let real_huge = huge.map(|n| Zeros::new(n as usize));
        let mut tmd = e.tmd();
        if let Edge::Contents(n) = &s.edge {
            let c = tmd.contents.first().cloned();
            if let Some(c) = c {
                while tmd.contents.len() < *n as usize {
                    tmd.contents.push(c.clone());
                }
            }
            tmd.contents.truncate(*n as usize);
        }
        let mut b = WiiDiscBuilder::create(disk.clone(), s.base.header(), s.base.region());
        let mut want: Vec<PartSpec> = Vec::new();
        let mut edge_ok = false;
        let mut ordinary = s.base.parts.clone();
        if let Edge::Parts(n) = &s.edge {
            for k in 0..*n {
                let mut p = s.base.parts[k as usize % s.base.parts.len()].clone();
                p.ptype = (p.ptype + k) % 3;
                ordinary.push(p);
            }
        }
        for k in 0..=ordinary.len() {
            if k == (s.at as usize).min(s.base.parts.len()) {
                let obs = Rc::new(RefCell::new(Obs::default()));
                let inner = Prov::new(&e, disk.clone(), obs.clone());
                let mut fst = Fst::new();
                *fst.get_entries_mut() = fst_of(&e.tree, e.len_mode);
                if real_huge.is_some() {
                    fst.get_entries_mut().push(FstNode::create_file("huge".into()));
                }
                let mut prov = EdgeProv { inner, fst, huge: real_huge.as_ref() };
                let res = b.add_partition(ptype(e.ptype), e.ticket(), tmd.clone(), e.certs(), &mut prov, &mut |_| {});
                edge_ok = res.is_ok();
                ctx.probe("edge_refused", !edge_ok);
                ctx.probe("edge_accepted", edge_ok);
                match (&res, fits) {
                    (Ok(()), Some(false)) => {
                        ctx.absorb(&disk);
                        return viol("unstorable-accepted", format!("{:?} cannot be stored, but adding it succeeded", s.edge));
                    }
                    (Err(x), Some(true)) => {
                        ctx.absorb(&disk);
                        return viol("storable-refused", format!("{:?} can be stored, but: {x}", s.edge));
                    }
                    _ => {}
                }
                if edge_ok {
                    want.push(e.clone());
                }
            }
            if let Some(p) = ordinary.get(k) {
                let obs = Rc::new(RefCell::new(Obs::default()));
                if let Err(x) = add_one(&mut b, p, &disk, &obs) {
                    ctx.absorb(&disk);
                    return viol("build-failed", format!("ordinary partition {k}: {x}"));
                }
                want.push(p.clone());
            }
        }
        let fin = b.finish();
        drop(b);
        ctx.absorb(&disk);
        fin.or_viol("build-failed")?;
        ctx.nontrivial = true;
        // contents beyond the model's own are judged through the unchanged partitions only
        let judge: Vec<&PartSpec> = want.iter().collect();
        if matches!(s.edge, Edge::Contents(n) if edge_ok && n != e.tmd_contents as u32) {
            return Ok(());
        }
        verify_built(&disk.image(), &disc_header_bytes(&s.base.header()), &s.base.region(), &judge, Depth::Full).or_viol("invalid-image")?;
        if !matches!(s.edge, Edge::Depth(d) if d > 400) {
            let src = ctx.disk(1, disk.image(), s.ambient, &[]);
            let res = check_disc(src.clone(), &s.base.header(), &s.base.region(), &judge, TmdRule::Built, &mut Rng::new(s.seed));
            ctx.absorb(&src);
            res.or_viol("read-back")?;
        }
        Ok(())
    }
}
