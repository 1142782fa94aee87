//! Copying a disc with the library's own disc-to-disc builder: everything of the data
//! partition except what the copy leaves out of its THP folder.

use crate::fw::*;
use crate::libread::*;
use crate::model::*;
use crate::proc::*;
use crate::refimg::*;
use crate::rng::{content, Rng};
use crate::scen_build::Mode;
use crate::scen_extract::first_part;
use crate::scen_read::read_disc_spec;
use crate::scen_rebuild::*;
use crate::simdisk::*;
use disc_riider::WiiIsoReader;
use serde::{Deserialize, Serialize};
use std::fs;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CpSpec {
    pub disc: DiscSpec,
    pub lay: LayoutSpec,
    pub io: Io,
    pub io2: Io,
    pub old_dest: bool,
    pub seed: u64,
}

pub struct CopySc(pub Mode);

fn thp(r: &mut Rng, big: bool) -> Node {
    let mut kids = Vec::new();
    for i in 0..*r.pick(&[0u64, 1, 3, 6, 10]) {
        let stem = *r.pick(&["Demo", "Demo", "demo", "Dem", "DEMO", "xDemo", "Movie", "Demo.", "\u{30c7}Demo"]);
        let name = if i == 0 && stem == "Demo" { "Demo".to_string() } else { format!("{stem}{i}") };
        if r.chance(150) {
            kids.push(Node::D { name, kids: (0..r.below(3)).map(|k| Node::F { name: format!("in{k}"), len: gen_len(r, 0), seed: r.next(), pad: 0 }).collect() });
        } else {
            let len = if big && r.chance(300) { r.range(GROUP_DATA / 2, 2 * GROUP_DATA) } else { gen_len(r, 0) };
            kids.push(Node::F { name, len, seed: r.next(), pad: 0 });
        }
    }
    Node::D { name: "THP".into(), kids }
}

fn plain(t: &[Node], top: bool) -> Vec<Node> {
    t.iter()
        .map(|n| match n {
            Node::F { name, len, seed, .. } => Node::F { name: name.clone(), len: *len, seed: *seed, pad: 0 },
            Node::D { name, kids } if top && name == "THP" => {
                let k: Vec<Node> = kids.iter().filter(|k| k.name().starts_with("Demo")).cloned().collect();
                Node::D { name: name.clone(), kids: plain(&k, false) }
            }
            Node::D { name, kids } => Node::D { name: name.clone(), kids: plain(kids, false) },
        })
        .collect()
}

fn gen_plan(r: &mut Rng) -> PPlan {
    let errno = *r.pick(&ERRNOS);
    let (kind, cls) = *r.pick(&[
        (K_OPEN, C_ISO),
        (K_READ, C_ISO),
        (K_READ, C_ISO),
        (K_READ, C_ISO),
        (K_READ, C_ISO),
        (K_LSEEK, C_ISO),
        (K_LSEEK, C_ISO),
        (K_OPEN, C_DST),
        (K_WRITE, C_DST),
        (K_WRITE, C_DST),
        (K_WRITE, C_DST),
        (K_WRITE, C_DST),
        (K_READ, C_DST),
        (K_LSEEK, C_DST),
        (K_LSEEK, C_DST),
    ]);
    let act = match (kind, cls) {
        (K_WRITE, _) => *r.pick(&[A_ERR, A_ERR, A_ERRFOREVER, A_ERRKIND, A_TORN, A_ZERO, A_ZEROFOREVER]),
        (K_READ, C_DST) => *r.pick(&[A_ERR, A_ERR, A_ERRFOREVER, A_ZERO]),
        (K_READ, _) => *r.pick(&[A_ERR, A_ERR, A_ERRFOREVER, A_ZERO, A_ZEROFOREVER]),
        _ => *r.pick(&[A_ERR, A_ERR, A_ERR, A_ERR, A_ERRKIND, A_ERRFOREVER]),
    };
    let arg = if act == A_TORN { r.next() & 0xFF_FFFF } else { errno };
    PPlan { kind, cls, frac: gen_frac(r), act, arg }
}

impl Typed for CopySc {
    type Spec = CpSpec;
    fn name(&self) -> &'static str {
        match self.0 {
            Mode::Faulted => "copy_faults",
            Mode::Crash => "copy_crash",
            Mode::Same => "copy_twice",
            Mode::Steps => "copy_steps",
            _ => "copy_exact",
        }
    }
    fn gen(&self, r: &mut Rng, idx: u64, _tier: Tier) -> CpSpec {
        let (mut disc, lay) = read_disc_spec(r, idx, true);
        if !disc.parts.iter().any(|p| p.ptype == 0) {
            let i = r.below(disc.parts.len() as u64) as usize;
            disc.parts[i].ptype = 0;
        }
        for p in disc.parts.iter_mut().filter(|p| p.ptype == 0) {
            p.tree.retain(|n| n.name() != "THP");
            let at = r.below(p.tree.len() as u64 + 1) as usize;
            let big = r.chance(300);
            p.tree.insert(at, thp(r, big));
        }
        let mut s = CpSpec { disc, lay, io: gen_io(r), io2: gen_io(r), old_dest: r.chance(300), seed: r.next() };
        match self.0 {
            Mode::Faulted => {
                if r.chance(100) {
                    s.io.cap = Some(r.below(1_000_000));
                } else {
                    for _ in 0..*r.pick(&[1u64, 1, 1, 2]) {
                        s.io.plans.push(gen_plan(r));
                    }
                }
            }
            Mode::Crash => {
                s.old_dest = false;
                let kind = *r.pick(&[K_WRITE, K_WRITE, K_WRITE, K_WRITE, K_LSEEK]);
                let frac = if r.chance(400) { r.range(800_000, 999_999) } else { gen_frac(r) };
                s.io.plans.push(PPlan { kind, cls: C_DST, frac, act: A_CRASH, arg: r.next() & 0xFF_FFFF });
            }
            Mode::Steps => {
                for _ in 0..*r.pick(&[1u64, 1, 2]) {
                    s.io.plans.push(gen_plan(r));
                }
                stubborn(r, &mut s.io.plans);
            }
            _ => {}
        }
        s
    }
    fn shrink(&self, s: &CpSpec) -> Vec<CpSpec> {
        let mut v: Vec<CpSpec> = shrink_disc(&s.disc)
            .into_iter()
            .filter(|d| d.parts.iter().any(|p| p.ptype == 0) && d.parts.iter().all(|p| p.ptype != 0 || p.tree.iter().any(|n| n.name() == "THP" && matches!(n, Node::D { .. }))))
            .map(|d| CpSpec { disc: d, ..s.clone() })
            .collect();
        if s.old_dest {
            v.push(CpSpec { old_dest: false, ..s.clone() });
        }
        v
    }
    fn run(&self, s: &CpSpec, ctx: &mut Ctx) -> Result<(), Violation> {
        run_copy(self.0, s, ctx)
    }
}

fn run_copy(mode: Mode, s: &CpSpec, ctx: &mut Ctx) -> Result<(), Violation> {
    let bin = build_dir().join("disc_riider_copy");
    if !bin.exists() {
        // the library no longer offers it
        ctx.probe("copy_not_offered", true);
        return Ok(());
    }
    let rd = ref_disc(&s.disc, s.lay);
    let p = &first_part(&rd, 0).expect("data partition").spec;
    let head = disc_header_bytes(&rd.spec.header());
    let region = rd.spec.region();
    let want = PartSpec { tree: plain(&p.tree, true), len_mode: 0, ..p.clone() };
    let mut sb = Sand::new(ctx);
    let iso = sb.path("iso");
    let dest = sb.path("out");
    write_image(&rd.img, &iso);
    // it writes into a file that exists already
    let fresh = || {
        let mut i = Image::default();
        if s.old_dest {
            i.write_at(0, &content(s.seed | 7, 0x50000), None);
            i.write_at(0xF80_0000 + 0x1000_0000, b"old data at the end", None);
        }
        write_image(&i, &dest);
        use std::os::unix::fs::PermissionsExt;
        fs::set_permissions(&dest, fs::Permissions::from_mode(0o666)).unwrap();
    };
    fresh();
    let prog = Prog::Copy(vec![styled(&iso, &sb.root, s.seed).into(), styled(&dest, &sb.root, s.seed >> 3).into()]);
    ctx.count("n.copy_runs", 1);
    let r = sb.run(ctx, &prog, &s.io, &fresh)?;
    let v = judge(0, &r)?;
    ctx.nontrivial = true;
    let verify = || -> Result<(), String> {
        let img = read_image(&dest).map_err(|e| e.to_string())?;
        verify_built(&img, &head, &region, &[&want], Depth::Full)
    };
    let spurious = |m: &str| viol("spurious-error", format!("no fault was injected, yet: {m}"));
    match mode {
        Mode::Faulted | Mode::Steps => {
            ctx.nontrivial = r.hard > 0;
            ctx.probe("fault_and_error", !v.ok);
            if v.ok {
                verify().or_viol("false-success")?;
            } else if r.hard == 0 {
                return spurious(&v.msg);
            }
            if mode == Mode::Steps && !v.ok {
                let io = Io { plans: vec![], cap: None, ..s.io.clone() };
                let r2 = sb.run(ctx, &prog, &io, &fresh)?;
                let v2 = judge(0, &r2)?;
                if !v2.ok {
                    return viol("no-recovery", format!("faults have stopped, yet the copy fails again: {}", v2.msg));
                }
                verify().or_viol("wrong-disc")?;
            }
        }
        Mode::Crash => {
            let crashed = r.end == End::Crash;
            ctx.probe("killed", crashed);
            if !crashed {
                if !v.ok {
                    return spurious(&v.msg);
                }
                return verify().or_viol("wrong-disc");
            }
            let img = read_image(&dest).unwrap_or_default();
            if let Ok(mut rd) = WiiIsoReader::open(SimDisk::new(1, img)) {
                for (i, e) in rd.partitions().to_vec().into_iter().enumerate() {
                    let Ok(mut info) = rd.open_partition(e.clone()) else { continue };
                    ctx.probe("killed_partition_opens", true);
                    check_open_part(&mut rd, &mut info, &want, TmdRule::Built, &mut Rng::new(s.seed))
                        .map_err(|m| Violation { class: "crash-exposes-garbage".into(), msg: format!("partition {i} at {:#x} opens after the kill, but: {m}", e.get_offset()) })?;
                }
            }
        }
        Mode::Same => {
            if !v.ok {
                return spurious(&v.msg);
            }
            let a = read_image(&dest).map_err(|e| Violation { class: "wrong-disc".into(), msg: e.to_string() })?;
            fresh();
            let r2 = sb.run(ctx, &prog, &s.io2, &fresh)?;
            let v2 = judge(0, &r2)?;
            if !v2.ok {
                return spurious(&v2.msg);
            }
            let b = read_image(&dest).map_err(|e| Violation { class: "wrong-disc".into(), msg: e.to_string() })?;
            a.same(&b).or_viol("images-differ")?;
        }
        _ => {
            if !v.ok {
                return spurious(&v.msg);
            }
            verify().or_viol("wrong-disc")?;
        }
    }
    // the source stays as it was
    let now = read_image(&iso).map_err(|e| Violation { class: "source-changed".into(), msg: e.to_string() })?;
    rd.img.same(&now).or_viol("source-changed")
}
