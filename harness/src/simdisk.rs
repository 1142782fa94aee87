//! The simulated disk. Every stream operation of the system under test is a decision
//! point; the decision comes from the run's seed (ambient behaviour), from the fault plan,
//! or, in replay, from an explicit list of events.

use crate::rng::{mix2, Rng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

pub const PAGE: u64 = 0x10000;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Read,
    Write,
    Seek,
    Flush,
    /// content provider calls (fault point outside the disk)
    Provider,
}
pub const OPS: [Op; 5] = [Op::Read, Op::Write, Op::Seek, Op::Flush, Op::Provider];

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    /// transfer only this many bytes (legal)
    Short(u64),
    /// ErrorKind::Interrupted (legal)
    Eintr,
    /// fail this operation once, error kind by index
    Err(u8),
    /// fail this and every later operation of any kind
    ErrForever(u8),
    /// fail this and every later operation of the same kind, others still work
    ErrOp(u8),
    /// write this many bytes, then fail
    Torn(u64),
    /// transfer nothing and report success (end of file / zero-length write), this once
    Zero,
    /// as Zero, from now on
    ZeroForever,
    /// write this many bytes, then the process is gone
    Crash(u64),
}

impl Act {
    pub fn legal(&self) -> bool {
        matches!(self, Act::Short(_) | Act::Eintr)
    }
    pub fn label(&self) -> &'static str {
        match self {
            Act::Short(_) => "short",
            Act::Eintr => "eintr",
            Act::Err(_) => "error_once",
            Act::ErrForever(_) => "error_lasting",
            Act::ErrOp(_) => "error_lasting_one_kind",
            Act::Torn(_) => "torn_write",
            Act::Zero => "zero_transfer_once",
            Act::ZeroForever => "zero_transfer_lasting",
            Act::Crash(_) => "crash",
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct Event {
    pub stream: u8,
    pub op: Op,
    pub nth: u64,
    pub act: Act,
}

/// Ambient, legal behaviour of a stream.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Default)]
pub struct Ambient {
    pub seed: u64,
    /// permille of reads/writes that are shortened
    pub short: u16,
    /// permille of reads/writes that are interrupted
    pub eintr: u16,
    /// 0: any length, 1: tiny pieces, 2: cut near the end
    pub style: u8,
}

pub const ERRKINDS: [io::ErrorKind; 12] = [
    io::ErrorKind::Other,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::StorageFull,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::NotFound,
    io::ErrorKind::WriteZero,
    io::ErrorKind::ConnectionReset,
];

pub fn sim_err(k: u8) -> io::Error {
    io::Error::new(ERRKINDS[k as usize % ERRKINDS.len()], "injected fault")
}

/// Contents of a disk: sparse pages. Cheap to clone.
#[derive(Clone, Default)]
pub struct Image {
    pub pages: BTreeMap<u64, Arc<Vec<u8>>>,
    pub len: u64,
    pub recent: Option<Arc<Vec<u8>>>,
}

impl Image {
    pub fn read_at(&self, mut off: u64, buf: &mut [u8]) {
        let mut done = 0;
        while done < buf.len() {
            let page = off / PAGE;
            let in_page = (off % PAGE) as usize;
            let n = (PAGE as usize - in_page).min(buf.len() - done);
            match self.pages.get(&page) {
                Some(p) => buf[done..done + n].copy_from_slice(&p[in_page..in_page + n]),
                None => buf[done..done + n].fill(0),
            }
            done += n;
            off += n as u64;
        }
    }
    pub fn get(&self, off: u64, len: usize) -> Vec<u8> {
        let mut v = vec![0; len];
        self.read_at(off, &mut v);
        v
    }
    pub fn u32(&self, off: u64) -> u32 {
        let mut b = [0; 4];
        self.read_at(off, &mut b);
        u32::from_be_bytes(b)
    }
    pub fn write_at(&mut self, mut off: u64, data: &[u8], mut touched: Option<&mut BTreeSet<u64>>) {
        let mut done = 0;
        self.len = self.len.max(off + data.len() as u64);
        while done < data.len() {
            let page = off / PAGE;
            let in_page = (off % PAGE) as usize;
            let n = (PAGE as usize - in_page).min(data.len() - done);
            let src = &data[done..done + n];
            if n == PAGE as usize {
                // share identical consecutive pages (huge runs of equal groups)
                let p = match &self.recent {
                    Some(r) if r.as_slice() == src => r.clone(),
                    _ => Arc::new(src.to_vec()),
                };
                self.recent = Some(p.clone());
                self.pages.insert(page, p);
            } else {
                let p = self
                    .pages
                    .entry(page)
                    .or_insert_with(|| Arc::new(vec![0; PAGE as usize]));
                Arc::make_mut(p)[in_page..in_page + n].copy_from_slice(src);
            }
            if let Some(t) = touched.as_deref_mut() {
                t.insert(page);
            }
            done += n;
            off += n as u64;
        }
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.get(0, self.len as usize)
    }
    pub fn from_vec(v: &[u8]) -> Self {
        let mut i = Image::default();
        i.write_at(0, v, None);
        i
    }
    pub fn same(&self, other: &Image) -> Result<(), String> {
        if self.len != other.len {
            return Err(format!("lengths differ: {:#x} / {:#x}", self.len, other.len));
        }
        let zero = vec![0u8; PAGE as usize];
        let keys: BTreeSet<u64> = self.pages.keys().chain(other.pages.keys()).cloned().collect();
        for k in keys {
            let a = self.pages.get(&k).map_or(zero.as_slice(), |p| p.as_slice());
            let b = other.pages.get(&k).map_or(zero.as_slice(), |p| p.as_slice());
            if a != b {
                let i = (0..a.len()).find(|&i| a[i] != b[i]).unwrap();
                return Err(format!("bytes differ first at {:#x}", k * PAGE + i as u64));
            }
        }
        Ok(())
    }
}

/// Payload of the panic with which the simulator leaves a run that exceeds its step budget.
pub struct OverBudget(pub u64);

/// Hand-over point for sessions that run interleaved (C18).
pub trait Yield: Send + Sync {
    fn yield_now(&self);
}

pub struct Inner {
    pub stream: u8,
    pub img: Image,
    pub pos: u64,
    pub ambient: Ambient,
    pub explicit: bool,
    pub planned: HashMap<(Op, u64), Act>,
    pub counts: [u64; 5],
    /// numbers of the operations that move a large piece, and of the seeks before them
    pub big: [Vec<u64>; 5],
    /// numbers of the seeks that really move, and of the transfers right after them
    pub jump: [Vec<u64>; 5],
    jumped: bool,
    /// a failed flush loses what was pending (it stays readable, but is never stored)
    pub flush_loses: bool,
    pub fired: Vec<Event>,
    pub capacity: Option<u64>,
    pub full_hits: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub trace: u64,
    pub faults_on: bool,
    forever: Option<(Option<Op>, Act)>,
    pub crashed: bool,
    pub hard: u64,
    /// write-back model: pages changed since the last successful flush
    pub track_durable: bool,
    dirty: BTreeSet<u64>,
    durable: Image,
    pub bytes_written: u64,
    pub yielder: Option<Arc<dyn Yield>>,
}

/// what a rehearsal did
#[derive(Clone)]
pub struct Ops {
    pub counts: [u64; 5],
    pub big: [Vec<u64>; 5],
    pub jump: [Vec<u64>; 5],
}

#[derive(Clone)]
pub struct SimDisk(pub Arc<Mutex<Inner>>);

impl SimDisk {
    pub fn new(stream: u8, img: Image) -> Self {
        SimDisk(Arc::new(Mutex::new(Inner {
            stream,
            img,
            pos: 0,
            ambient: Ambient::default(),
            explicit: false,
            planned: HashMap::new(),
            counts: [0; 5],
            big: Default::default(),
            jump: Default::default(),
            jumped: true,
            flush_loses: false,
            fired: Vec::new(),
            capacity: None,
            full_hits: 0,
            steps: 0,
            max_steps: u64::MAX,
            trace: 0,
            faults_on: true,
            forever: None,
            crashed: false,
            hard: 0,
            track_durable: false,
            dirty: BTreeSet::new(),
            durable: Image::default(),
            bytes_written: 0,
            yielder: None,
        })))
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn ambient(self, a: Ambient) -> Self {
        self.with(|i| i.ambient = a);
        self
    }
    /// explicit events: replay; they are all there is
    pub fn set_events(&self, ev: &[Event], explicit: bool) {
        self.with(|i| {
            i.explicit = explicit;
            i.planned = ev
                .iter()
                .filter(|e| e.stream == i.stream)
                .map(|e| ((e.op, e.nth), e.act))
                .collect();
        })
    }
    pub fn image(&self) -> Image {
        self.with(|i| i.img.clone())
    }
    /// what a rehearsal did, for placing faults
    pub fn ops(&self) -> Ops {
        self.with(|i| Ops { counts: i.counts, big: i.big.clone(), jump: i.jump.clone() })
    }
    pub fn durable_image(&self) -> Image {
        self.with(|i| i.durable.clone())
    }
    pub fn heal(&self) {
        self.with(|i| i.heal())
    }
    fn maybe_yield(&self) {
        let y = self.with(|i| i.yielder.clone());
        if let Some(y) = y {
            y.yield_now();
        }
    }
    /// a fault point that is not a disk operation: Some = fail now
    pub fn provider_point(&self) -> Option<u8> {
        self.maybe_yield();
        self.with(|i| match i.decide(Op::Provider, 0) {
            Some(Act::Err(k) | Act::ErrForever(k) | Act::ErrOp(k)) => Some(k),
            _ => None,
        })
    }
}

impl Inner {
    pub fn heal(&mut self) {
        self.forever = None;
        self.planned.clear();
        self.capacity = None;
        self.faults_on = false;
    }
    fn note(&mut self, op: Op, a: u64, b: u64) {
        self.trace = mix2(self.trace ^ a, (op as u64) << 56 ^ b);
    }
    fn decide(&mut self, op: Op, len: u64) -> Option<Act> {
        self.steps += 1;
        if self.steps > self.max_steps {
            let s = self.steps;
            std::panic::panic_any(OverBudget(s));
        }
        let nth = self.counts[op as usize];
        self.counts[op as usize] += 1;
        if len >= 0x2000 && matches!(op, Op::Read | Op::Write) {
            self.big[op as usize].push(nth);
            let k = self.counts[Op::Seek as usize];
            if k > 0 && self.big[Op::Seek as usize].last() != Some(&(k - 1)) {
                self.big[Op::Seek as usize].push(k - 1);
            }
        }
        if matches!(op, Op::Read | Op::Write) && std::mem::take(&mut self.jumped) {
            self.jump[op as usize].push(nth);
        }
        if !self.faults_on {
            return None;
        }
        if let Some((only, a)) = self.forever {
            if only.map_or(true, |o| o == op) {
                self.hard += 1;
                return Some(a);
            }
        }
        let mut act = self.planned.get(&(op, nth)).copied();
        if act.is_none() && !self.explicit && matches!(op, Op::Read | Op::Write) && len > 0 {
            let a = self.ambient;
            if a.short != 0 || a.eintr != 0 {
                let mut r = Rng::new(mix2(
                    a.seed ^ (self.stream as u64) << 40,
                    (nth << 3) ^ op as u64,
                ));
                if r.chance(a.eintr as u64) {
                    act = Some(Act::Eintr);
                } else if len > 1 && r.chance(a.short as u64) {
                    let n = match a.style {
                        1 => r.range(1, (len - 1).min(17)),
                        2 => len - r.range(1, (len - 1).min(40)),
                        3 => {
                            // cut at a multiple of an interesting size when possible
                            let unit = *r.pick(&[0x10u64, 0x400, 0x7c00, 0x8000, 0x40000]);
                            let k = (len - 1) / unit;
                            if k > 0 {
                                r.range(1, k) * unit
                            } else {
                                r.range(1, len - 1)
                            }
                        }
                        _ => r.range(1, len - 1),
                    };
                    // keep the number of pieces of a large transfer small
                    let n = if len > 0x4000 && a.style == 1 && !r.chance(50) {
                        r.range(len / 3, len - 1)
                    } else {
                        n
                    };
                    act = Some(Act::Short(n));
                }
            }
        }
        // parameters of planned faults are taken modulo the transfer length
        let act = act.map(|a| match a {
            Act::Torn(n) if len > 0 => Act::Torn(n % len),
            Act::Crash(n) => Act::Crash(if op == Op::Write { n % (len + 1) } else { 0 }),
            a => a,
        });
        if let Some(a) = act {
            // out of domain events (after shrinking) are ignored
            let ok = match (a, op) {
                (Act::Short(n), Op::Read | Op::Write) => n >= 1 && n < len,
                (Act::Short(_), _) => false,
                (Act::Eintr, Op::Read | Op::Write) => len > 0,
                (Act::Eintr, _) => false,
                (Act::Torn(n), Op::Write) => n < len,
                (Act::Torn(_), _) => false,
                (Act::Zero | Act::ZeroForever, Op::Read | Op::Write) => len > 0,
                (Act::Zero | Act::ZeroForever, _) => false,
                _ => true,
            };
            if !ok {
                return None;
            }
            self.fired.push(Event { stream: self.stream, op, nth, act: a });
            if !a.legal() {
                self.hard += 1;
            }
            match a {
                Act::ErrForever(_) | Act::ZeroForever => self.forever = Some((None, a)),
                Act::ErrOp(_) => self.forever = Some((Some(op), a)),
                _ => {}
            }
        }
        act
    }
    fn dead(&self) -> io::Error {
        io::Error::new(io::ErrorKind::Other, "process is dead")
    }
}

impl Read for SimDisk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.maybe_yield();
        self.with(|i| {
            let pos = i.pos;
            let act = i.decide(Op::Read, buf.len() as u64);
            if i.crashed {
                return Err(i.dead());
            }
            let avail = i.img.len.saturating_sub(pos).min(buf.len() as u64) as usize;
            let mut n = avail;
            match act {
                Some(Act::Short(k)) => n = n.min(k as usize),
                Some(Act::Eintr) => {
                    i.note(Op::Read, pos, 1);
                    return Err(io::ErrorKind::Interrupted.into());
                }
                Some(Act::Zero) | Some(Act::ZeroForever) => n = 0,
                Some(Act::Err(k) | Act::ErrForever(k) | Act::ErrOp(k)) => {
                    // a failing read may already have scribbled over part of the buffer
                    let l = buf.len() / 2;
                    buf[..l].fill(0xEE);
                    i.note(Op::Read, pos, 2);
                    return Err(sim_err(k));
                }
                Some(Act::Crash(_)) => {
                    i.crashed = true;
                    return Err(i.dead());
                }
                _ => {}
            }
            i.img.read_at(pos, &mut buf[..n]);
            i.pos += n as u64;
            i.note(Op::Read, pos, (n as u64) << 8 | 3);
            Ok(n)
        })
    }
}

impl Write for SimDisk {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.maybe_yield();
        self.with(|i| {
            let pos = i.pos;
            let act = i.decide(Op::Write, buf.len() as u64);
            if i.crashed {
                return Err(i.dead());
            }
            let mut n = buf.len();
            let mut err = None;
            match act {
                Some(Act::Short(k)) => n = n.min(k as usize),
                Some(Act::Eintr) => {
                    i.note(Op::Write, pos, 1);
                    return Err(io::ErrorKind::Interrupted.into());
                }
                Some(Act::Zero) | Some(Act::ZeroForever) => n = 0,
                Some(Act::Err(k) | Act::ErrForever(k) | Act::ErrOp(k)) => {
                    i.note(Op::Write, pos, 2);
                    return Err(sim_err(k));
                }
                Some(Act::Torn(k)) => {
                    n = n.min(k as usize);
                    err = Some(sim_err(0));
                }
                Some(Act::Crash(k)) => {
                    n = n.min(k as usize);
                    i.crashed = true;
                    err = Some(i.dead());
                }
                _ => {}
            }
            if let Some(cap) = i.capacity {
                let room = cap.saturating_sub(pos) as usize;
                if n > room {
                    i.full_hits += 1;
                    i.hard += 1;
                    n = room;
                    if n == 0 && err.is_none() {
                        i.note(Op::Write, pos, 4);
                        return Err(io::ErrorKind::StorageFull.into());
                    }
                }
            }
            if n > 0 {
                let Inner { img, dirty, track_durable, .. } = i;
                img.write_at(pos, &buf[..n], if *track_durable { Some(dirty) } else { None });
            }
            i.note(Op::Write, pos, (n as u64) << 8 | if err.is_some() { 5 } else { 3 });
            if let Some(e) = err {
                return Err(e);
            }
            i.pos += n as u64;
            i.bytes_written += n as u64;
            Ok(n)
        })
    }

    fn flush(&mut self) -> io::Result<()> {
        self.maybe_yield();
        self.with(|i| {
            let act = i.decide(Op::Flush, 0);
            if i.crashed {
                return Err(i.dead());
            }
            i.note(Op::Flush, 0, act.is_some() as u64);
            if i.flush_loses && matches!(act, Some(Act::Err(_) | Act::ErrForever(_) | Act::ErrOp(_))) {
                i.dirty.clear();
            }
            match act {
                Some(Act::Err(k) | Act::ErrForever(k) | Act::ErrOp(k)) => return Err(sim_err(k)),
                Some(Act::ZeroForever) => return Err(sim_err(0)),
                Some(Act::Crash(_)) => {
                    i.crashed = true;
                    return Err(i.dead());
                }
                _ => {}
            }
            if i.track_durable {
                let pages = std::mem::take(&mut i.dirty);
                for p in pages {
                    let d = i.img.pages[&p].clone();
                    i.durable.pages.insert(p, d);
                }
                i.durable.len = i.img.len;
            }
            Ok(())
        })
    }
}

impl Seek for SimDisk {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.maybe_yield();
        self.with(|i| {
            let act = i.decide(Op::Seek, 0);
            if i.crashed {
                return Err(i.dead());
            }
            match act {
                Some(Act::Err(k) | Act::ErrForever(k) | Act::ErrOp(k)) => return Err(sim_err(k)),
                Some(Act::Crash(_)) => {
                    i.crashed = true;
                    return Err(i.dead());
                }
                _ => {}
            }
            let new = match pos {
                SeekFrom::Start(o) => Some(o),
                SeekFrom::Current(o) => i.pos.checked_add_signed(o),
                SeekFrom::End(o) => i.img.len.checked_add_signed(o),
            };
            match new {
                Some(n) if n <= i64::MAX as u64 => {
                    if n != i.pos {
                        i.jumped = true;
                        let k = i.counts[Op::Seek as usize] - 1;
                        i.jump[Op::Seek as usize].push(k);
                    }
                    i.pos = n;
                    i.note(Op::Seek, n, 0);
                    Ok(n)
                }
                _ => Err(io::ErrorKind::InvalidInput.into()),
            }
        })
    }
}
