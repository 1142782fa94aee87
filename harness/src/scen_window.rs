//! Windows over simulated streams (C13).

use crate::fw::*;
use crate::rng::{content, Rng};
use crate::scen_build::gen_ambient;
use crate::simdisk::*;
use disc_riider::IOWindow;
use serde::{Deserialize, Serialize};
use std::io::{Read, Seek, SeekFrom, Write};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum WOp {
    Read(u64),
    Exact(u64),
    ToEnd,
    Write(u64, u64),
    WriteAll(u64, u64),
    Flush,
    Start(u64),
    Cur(i64),
    End(i64),
    Pos,
    Rewind,
    StreamLen,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Win {
    /// where the stream stands when the window is made
    pub stand: u64,
    pub start: u64,
    pub len: Option<u64>,
    /// a window over the window
    pub inner: Option<(u64, Option<u64>)>,
    pub ops: Vec<WOp>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct WSpec {
    pub size: u64,
    pub seed: u64,
    pub ambient: Ambient,
    pub wins: Vec<Win>,
    pub plans: Vec<Plan>,
    pub cap: Option<u64>,
}

pub struct WindowSc(pub bool);

trait Stream: Read + Write + Seek {}
impl<T: Read + Write + Seek> Stream for T {}

impl Typed for WindowSc {
    type Spec = WSpec;
    fn name(&self) -> &'static str {
        if self.0 {
            "window_faults"
        } else {
            "window_history"
        }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _tier: Tier) -> WSpec {
        let size = *r.pick(&[0u64, 1, 20, 300, 300, 1500, 70_000]);
        let mut wins = Vec::new();
        for _ in 0..*r.pick(&[1u64, 1, 2, 3]) {
            let start = match r.below(5) {
                0 => 0,
                1 => size + r.below(20),
                _ => r.below(size + 1),
            };
            let room = size.saturating_sub(start);
            let len = match r.below(6) {
                0 => None,
                1 => Some(0),
                2 => Some(room),
                3 => Some(room + r.below(50)),
                4 => Some(u64::MAX - r.below(3)),
                _ => Some(r.below(room + 1)),
            };
            let eff = len.unwrap_or(room).min(room + 60);
            let inner = if r.chance(250) {
                let s = r.below(eff + 2);
                Some((s, if r.chance(300) { None } else { Some(r.below(eff.saturating_sub(s) + 3)) }))
            } else {
                None
            };
            let span = match inner {
                Some((s, l)) => l.unwrap_or(eff.saturating_sub(s)),
                None => eff,
            };
            let mut ops = Vec::new();
            for _ in 0..*r.pick(&[2u64, 6, 12, 30]) {
                let n = match r.below(7) {
                    0 => 0,
                    1 => span,
                    2 => span + r.below(4),
                    3 => span.saturating_sub(r.below(4)),
                    4 => r.below(9),
                    _ => r.below(span + 2),
                };
                ops.push(match r.below(20) {
                    0..=3 => WOp::Read(n),
                    4..=6 => WOp::Exact(n),
                    7 => WOp::ToEnd,
                    8 | 9 => WOp::Write(n, r.next()),
                    10 => WOp::WriteAll(n, r.next()),
                    11 => WOp::Flush,
                    12 | 13 => WOp::Start(match r.below(12) {
                        0 => *r.pick(&[u64::MAX, i64::MAX as u64, u64::MAX - 5, 1 << 62, i64::MAX as u64 + 1]),
                        1 => span + r.below(20),
                        _ => r.below(span + 1),
                    }),
                    14 | 15 => WOp::Cur(match r.below(12) {
                        0 => *r.pick(&[i64::MIN, i64::MAX, i64::MIN + 1]),
                        1 => 0,
                        _ => r.below(span + 2) as i64 - r.below(span + 2) as i64,
                    }),
                    16 => WOp::End(match r.below(8) {
                        0 => *r.pick(&[i64::MIN, i64::MAX]),
                        1 => r.below(10) as i64,
                        _ => -(r.below(span + 2) as i64),
                    }),
                    17 => WOp::Pos,
                    18 => WOp::Rewind,
                    _ => WOp::StreamLen,
                });
            }
            wins.push(Win { stand: r.below(size + 30), start, len, inner, ops });
        }
        let mut plans = Vec::new();
        let mut cap = None;
        if self.0 {
            for _ in 0..r.range(1, 6) {
                let op = *r.pick(&[Op::Read, Op::Read, Op::Write, Op::Write, Op::Seek, Op::Flush]);
                let k = r.below(8) as u8;
                let act = match op {
                    Op::Read => *r.pick(&[Act::Err(k), Act::Zero, Act::Eintr]),
                    Op::Write => *r.pick(&[Act::Err(k), Act::Zero, Act::Torn(r.clone().below(0x10000)), Act::Eintr]),
                    _ => Act::Err(k),
                };
                plans.push(Plan { stream: 0, op, frac: r.below(1_000_000), act });
            }
            if r.chance(100) {
                cap = Some(size + r.below(30));
            }
        }
        WSpec { size, seed: r.next(), ambient: gen_ambient(r), wins, plans, cap }
    }
    fn shrink(&self, s: &WSpec) -> Vec<WSpec> {
        let mut v = Vec::new();
        for i in 0..s.wins.len() {
            if s.wins.len() > 1 {
                let mut c = s.clone();
                c.wins.remove(i);
                v.push(c);
            }
            let n = s.wins[i].ops.len();
            for k in [n / 2, n / 4, 1] {
                if k == 0 {
                    continue;
                }
                let mut j = 0;
                while j < n {
                    let mut c = s.clone();
                    c.wins[i].ops.drain(j..(j + k).min(n));
                    v.push(c);
                    j += k;
                }
            }
            if s.wins[i].inner.is_some() {
                let mut c = s.clone();
                c.wins[i].inner = None;
                v.push(c);
            }
            if s.wins[i].stand != 0 {
                let mut c = s.clone();
                c.wins[i].stand = 0;
                v.push(c);
            }
        }
        v
    }
    fn run(&self, s: &WSpec, ctx: &mut Ctx) -> Result<(), Violation> {
        let base = Image::from_vec(&content(s.seed | 7, s.size as usize));
        let mut events = Vec::new();
        if !s.plans.is_empty() {
            let d = SimDisk::new(0, base.clone()).ambient(s.ambient);
            d.with(|i| i.max_steps = 2_000_000);
            play(s, &d, &mut |_, _| {})?;
            events = place(&s.plans, &d.ops());
        }
        let d = ctx.disk(0, base, s.ambient, &events);
        d.with(|i| {
            i.capacity = s.cap;
            i.max_steps = 4_000_000;
        });
        let mut probes: Vec<(&'static str, bool)> = Vec::new();
        let res = play(s, &d, &mut |k, b| probes.push((k, b)));
        for (k, b) in probes {
            ctx.probe(k, b);
        }
        ctx.absorb(&d);
        ctx.nontrivial = !self.0 || d.with(|i| i.hard > 0);
        res
    }
}

fn play(s: &WSpec, d: &SimDisk, probe: &mut dyn FnMut(&'static str, bool)) -> Result<(), Violation> {
    for (wi, w) in s.wins.iter().enumerate() {
        d.with(|i| i.pos = w.stand);
        let mut outer = IOWindow::new(d.clone(), w.start, w.len);
        let r = match w.inner {
            None => play_one(d, &mut outer, w.start, w.len, w.len, &w.ops, probe),
            Some((st, l)) => {
                let mut win = IOWindow::new(&mut outer, st, l);
                // the inner window shows no more than the outer one holds
                let lim = match (w.len, l) {
                    (Some(a), Some(b)) => Some(a.saturating_sub(st).min(b)),
                    (Some(a), None) => Some(a.saturating_sub(st)),
                    (None, b) => b,
                };
                play_one(d, &mut win, w.start + st, lim, l, &w.ops, probe)
            }
        };
        r.map_err(|v| Violation { msg: format!("window {wi} (start {}, length {:?}, inner {:?}): {}", w.start, w.len, w.inner, v.msg), ..v })?;
    }
    Ok(())
}

/// `lim`: bytes the window may touch; `len`: length as given to this window
fn play_one(d: &SimDisk, w: &mut dyn Stream, start: u64, lim: Option<u64>, len: Option<u64>, ops: &[WOp], probe: &mut dyn FnMut(&'static str, bool)) -> Result<(), Violation> {
    let mut pos = 0u64;
    let mut model = d.image();
    let size_of = |m: &Image| m.len;
    for (k, op) in ops.iter().enumerate() {
        let hard0 = d.with(|i| i.hard);
        let fired0 = d.with(|i| i.fired.len());
        macro_rules! bad {
            ($c:expr, $($t:tt)*) => { return viol($c, format!("operation {k} {op:?} at {pos}: {}", format!($($t)*))) };
        }
        let faulted = || d.with(|i| i.hard > hard0);
        let eintr = || d.with(|i| i.fired[fired0..].iter().any(|e| e.act == Act::Eintr));
        // what may be touched from here
        let left = lim.map(|l| l.saturating_sub(pos)).unwrap_or(u64::MAX);
        let there = size_of(&model).saturating_sub(start.saturating_add(pos)).min(left);
        let at = start.saturating_add(pos);
        let mut untouched = true;
        match op {
            WOp::Read(n) => {
                let mut b = vec![0x5A; *n as usize];
                match w.read(&mut b) {
                    Ok(g) => {
                        if g as u64 > (*n).min(there) {
                            bad!("wrong-data", "returned {g} bytes where {} exist", (*n).min(there));
                        }
                        if g == 0 && *n > 0 && there > 0 && !faulted() {
                            bad!("wrong-data", "returned nothing though {there} bytes are left");
                        }
                        if b[..g] != model.get(at, g) {
                            bad!("wrong-data", "returned wrong bytes");
                        }
                        pos += g as u64;
                    }
                    Err(e) => {
                        probe("read_failed", true);
                        if !faulted() && !(eintr() && e.kind() == std::io::ErrorKind::Interrupted) {
                            bad!("spurious-error", "{e}");
                        }
                    }
                }
            }
            WOp::Exact(n) => {
                let mut b = vec![0x5A; *n as usize];
                match w.read_exact(&mut b) {
                    Ok(()) => {
                        if *n > there {
                            bad!("wrong-data", "succeeded though only {there} bytes exist");
                        }
                        if b != model.get(at, *n as usize) {
                            bad!("wrong-data", "returned wrong bytes");
                        }
                        pos += n;
                    }
                    Err(e) => {
                        if *n <= there && !faulted() {
                            bad!("spurious-error", "{e} though {there} bytes exist");
                        }
                        probe("exact_failed", true);
                        // it may have consumed some of what exists, not more
                        match w.stream_position() {
                            Ok(p) => {
                                if p < pos || p > pos + (*n).min(there) {
                                    bad!("position", "a failed exact read moved the position to {p}");
                                }
                                pos = p;
                            }
                            Err(e) => {
                                if !faulted() {
                                    bad!("spurious-error", "position: {e}");
                                }
                            }
                        }
                    }
                }
            }
            WOp::ToEnd => {
                if there > 1 << 22 {
                    continue;
                }
                let mut b = Vec::new();
                match w.read_to_end(&mut b) {
                    Ok(_) => {
                        if b.len() as u64 != there && !(faulted() && (b.len() as u64) < there) {
                            bad!("wrong-data", "{} bytes up to the end instead of {there}", b.len());
                        }
                    }
                    Err(e) => {
                        if !faulted() {
                            bad!("spurious-error", "{e}");
                        }
                    }
                }
                if b.len() as u64 > there || b != model.get(at, b.len()) {
                    bad!("wrong-data", "returned wrong bytes");
                }
                pos += b.len() as u64;
            }
            WOp::Write(n, seed) | WOp::WriteAll(n, seed) => {
                let all = matches!(op, WOp::WriteAll(..));
                let data = content(seed | 7, *n as usize);
                let may = (*n).min(left);
                let res = if all { w.write_all(&data).map(|_| data.len()) } else { w.write(&data) };
                untouched = false;
                let now = d.image();
                match &res {
                    Ok(g) => {
                        let g = *g as u64;
                        if g > may {
                            bad!("out-of-range", "accepted {g} bytes where only {may} fit");
                        }
                        if g == 0 && may > 0 && !faulted() {
                            bad!("write", "accepted nothing though {may} bytes fit");
                        }
                        if g > 0 {
                            model.write_at(at, &data[..g as usize], None);
                        }
                        if let Err(e) = model.same(&now) {
                            // a partial device write behind an error is resolved below; success must be exact
                            bad!("out-of-range", "after writing {g} bytes: {e}");
                        }
                        pos += g;
                    }
                    Err(e) => {
                        probe("write_failed", true);
                        let legal = eintr() && e.kind() == std::io::ErrorKind::Interrupted && !all;
                        if !faulted() && !legal && !(all && *n > left) {
                            bad!("spurious-error", "{e}");
                        }
                        // anything from nothing to all of it may have arrived, nothing else
                        let mut ok = false;
                        let diff_end = {
                            // longest prefix that can explain the new state
                            let have = now.get(at, may.min(1 << 22) as usize);
                            (0..have.len()).take_while(|&i| have[i] == data[i]).count()
                        };
                        for g in (0..=diff_end).rev() {
                            let mut m = model.clone();
                            if g > 0 {
                                m.write_at(at, &data[..g], None);
                            }
                            if m.same(&now).is_ok() {
                                model = m;
                                ok = true;
                                break;
                            }
                            if diff_end - g > 3000 {
                                break;
                            }
                        }
                        if !ok {
                            bad!("out-of-range", "a failed write changed bytes it was not asked to");
                        }
                        match w.stream_position() {
                            Ok(p) => {
                                if p < pos || p > pos + may {
                                    bad!("position", "a failed write moved the position to {p}");
                                }
                                if p > pos && model.get(at, (p - pos) as usize) != data[..(p - pos) as usize] {
                                    bad!("position", "the position moved past data that was not stored");
                                }
                                pos = p;
                            }
                            Err(e) => {
                                if !faulted() {
                                    bad!("spurious-error", "position: {e}");
                                }
                            }
                        }
                    }
                }
            }
            WOp::Flush => {
                if let Err(e) = w.flush() {
                    if !faulted() {
                        bad!("spurious-error", "{e}");
                    }
                }
            }
            WOp::Start(_) | WOp::Cur(_) | WOp::End(_) | WOp::Rewind => {
                let (sf, target): (SeekFrom, Option<i128>) = match op {
                    WOp::Start(o) => (SeekFrom::Start(*o), Some(*o as i128)),
                    WOp::Cur(o) => (SeekFrom::Current(*o), Some(pos as i128 + *o as i128)),
                    WOp::End(o) => (
                        SeekFrom::End(*o),
                        // without a length the end may be unsupported
                        len.map(|l| l as i128 + *o as i128),
                    ),
                    _ => (SeekFrom::Start(0), Some(0)),
                };
                let res = if *op == WOp::Rewind { w.rewind().map(|_| 0) } else { w.seek(sf) };
                // far outside of what any stream addresses: refusing or saturating are both fine
                let wild = target.map_or(false, |t| t + start as i128 > 1 << 50);
                match (res, target) {
                    (Ok(p), Some(t)) if t < 0 => {
                        if p != 0 {
                            bad!("position", "seek before the start went to {p}");
                        }
                        pos = 0;
                    }
                    (Ok(p), Some(t)) if !wild => {
                        if p as i128 != t {
                            bad!("position", "went to {p} instead of {t}");
                        }
                        pos = p;
                    }
                    (Ok(p), Some(_)) => {
                        pos = p;
                    }
                    (Ok(p), None) => {
                        // if it is supported, it has to be the end of the stream
                        let WOp::End(o) = op else { unreachable!() };
                        let e = size_of(&model) as i128 - start as i128 + *o as i128;
                        if p as i128 != e.max(0) {
                            bad!("position", "seek from the end went to {p}");
                        }
                        pos = p;
                    }
                    (Err(e), t) => {
                        let excuse = faulted() || wild || t.map_or(true, |t| t < 0);
                        if !excuse {
                            bad!("spurious-error", "{e}");
                        }
                        probe("seek_refused", true);
                    }
                }
                if wild {
                    // back to known ground
                    match w.seek(SeekFrom::Start(0)) {
                        Ok(p) => {
                            if p != 0 {
                                bad!("position", "seek to the start went to {p}");
                            }
                            pos = 0;
                        }
                        Err(e) => {
                            if !faulted() {
                                bad!("spurious-error", "{e}");
                            }
                            return Ok(());
                        }
                    }
                }
            }
            WOp::Pos => {}
            WOp::StreamLen => {
                // what std::io::Seek offers in terms of the other operations
                if let (Some(l), true) = (len, lim == len) {
                    if start.saturating_add(l) > 1 << 50 {
                        continue;
                    }
                    let r = w.seek(SeekFrom::End(0)).and_then(|e| w.seek(SeekFrom::Start(pos)).map(|_| e));
                    match r {
                        Ok(e) => {
                            if e != l {
                                bad!("position", "the end is at {e} instead of {l}");
                            }
                        }
                        Err(e) => {
                            if !faulted() {
                                bad!("spurious-error", "{e}");
                            }
                            // the first seek may have worked
                            match w.stream_position() {
                                Ok(p) if p == pos || p == l => pos = p,
                                Ok(p) => bad!("position", "after a failed seek the position is {p}"),
                                Err(_) => {}
                            }
                        }
                    }
                }
            }
        }
        if untouched {
            if let Err(e) = d.with(|i| i.img.same(&model)) {
                bad!("out-of-range", "changed the stream: {e}");
            }
        }
        match w.stream_position() {
            Ok(p) => {
                if p != pos {
                    bad!("position", "afterwards the position is {p} instead of {pos}");
                }
            }
            Err(e) => {
                if !faulted() {
                    bad!("spurious-error", "position: {e}");
                }
            }
        }
    }
    Ok(())
}
