//! Reading a disc back through the library and comparing it with the model.

use crate::model::*;
use crate::refimg::{ensure, same_bytes};
use crate::rng::{content, Rng};
use disc_riider::structs::*;
use disc_riider::*;
use std::io::{Read, Seek, SeekFrom};

/// how far the stored title metadata may differ from the supplied one
#[derive(Clone, Copy, PartialEq)]
pub enum TmdRule {
    /// exactly as supplied
    Exact,
    /// as the builder must change it: signature cleared, content hash and size, one padding word
    Built,
}

pub fn norm_tmd(t: &TMD) -> TMD {
    let mut t = t.clone();
    t.sig = [0; 0x100];
    t.fakesign_padding[0] = 0;
    if let Some(c) = t.contents.first_mut() {
        c.size = 0;
        c.hash = [0; 20];
    }
    t
}

pub fn norm_header(h: &DiscHeader) -> DiscHeader {
    let mut h = h.clone();
    h.dol_off = 0.into();
    h.fst_off = 0.into();
    h.fst_sz = 0.into();
    h.fst_max_sz = 0.into();
    h
}

pub fn same_tree(fst: &[FstNode], tree: &[Node], path: &str) -> Result<(), String> {
    let show = |v: Vec<&str>| format!("{v:?}");
    ensure!(
        fst.len() == tree.len(),
        "folder {path:?} has entries {} instead of {}",
        show(fst.iter().map(|n| n.get_name().as_str()).collect()),
        show(tree.iter().map(|n| n.name()).collect())
    );
    for (a, b) in fst.iter().zip(tree) {
        ensure!(a.get_name() == b.name(), "{path}/: entry {:?} instead of {:?}", a.get_name(), b.name());
        match (a, b) {
            (FstNode::File { length, .. }, Node::F { len, .. }) => {
                ensure!(*length as u64 == *len, "{path}/{}: length {length} instead of {len}", b.name())
            }
            (FstNode::Directory { files, .. }, Node::D { kids, .. }) => same_tree(files, kids, &format!("{path}/{}", b.name()))?,
            _ => return Err(format!("{path}/{}: file and folder mixed up", b.name())),
        }
    }
    Ok(())
}

fn io<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{what}: {e}"))
}

fn check_stream<R: Read>(what: &str, rd: &mut R, len: u64, seed: u64, r: &mut Rng) -> Result<(), String> {
    let big = len > 64 << 20;
    let want = if big { Vec::new() } else { content(seed, len as usize) };
    let constant = if seed & 7 == 0 { 0 } else { (seed >> 8) as u8 };
    let mut pos = 0u64;
    let max = *r.pick(&[0x400usize, 0x7C00, 0x10000, 0x10000, 0x200000]);
    let max = if len > 8 << 20 { 0x200000 } else { max };
    let mut buf = vec![0u8; max];
    let mut calls = 0u64;
    loop {
        let k = if big { max } else { r.range(1, max as u64) as usize };
        let n = io(what, rd.read(&mut buf[..k]))?;
        calls += 1;
        ensure!(n <= k, "{what}: read returned more than asked");
        if n == 0 {
            break;
        }
        ensure!(pos + n as u64 <= len, "{what}: delivers more than its {len} bytes");
        if big {
            ensure!(buf[..n].iter().all(|b| *b == constant), "{what}: wrong bytes near {pos:#x}");
        } else {
            same_bytes(what, &buf[..n], &want[pos as usize..pos as usize + n])?;
        }
        pos += n as u64;
        ensure!(calls < 1000 + len, "{what}: does not end");
    }
    ensure!(pos == len, "{what}: delivers {pos} of {len} bytes");
    Ok(())
}

/// Opens one partition and compares everything in it.
pub fn check_part<RS: Read + Seek>(rd: &mut WiiIsoReader<RS>, entry: WiiPartTableEntry, sp: &PartSpec, tmd: TmdRule, r: &mut Rng) -> Result<(), String> {
    let mut info = io("open partition", rd.open_partition(entry))?;
    check_open_part(rd, &mut info, sp, tmd, r)
}

pub fn check_open_part<RS: Read + Seek>(rd: &mut WiiIsoReader<RS>, info: &mut WiiPartitionReadInfo, sp: &PartSpec, tmd: TmdRule, r: &mut Rng) -> Result<(), String> {
    ensure!(info.get_partition_header().ticket == sp.ticket(), "ticket differs");
    ensure!(norm_header(info.get_encrypted_header()) == norm_header(&sp.header()), "partition disc header differs");
    let mut todo = [0, 1, 2, 3, 4, 5];
    r.shuffle(&mut todo);
    for t in todo {
        match t {
            0 => {
                let got = io("title metadata", info.read_tmd(rd))?;
                let want = sp.tmd();
                ensure!(
                    if tmd == TmdRule::Exact { got == want } else { norm_tmd(&got) == norm_tmd(&want) },
                    "title metadata differs"
                );
            }
            1 => ensure!(io("certificates", info.read_certificates(rd))? == sp.certs(), "certificates differ"),
            2 => same_bytes("bi2", &io("bi2", info.read_bi2(rd))?, &sp.bi2())?,
            3 => same_bytes("apploader", &io("apploader", info.read_apploader(rd))?, &sp.apploader_bytes())?,
            4 => same_bytes("executable", &io("executable", info.read_dol(rd))?, &sp.dol_bytes())?,
            _ => {
                same_tree(info.get_fst().get_entries(), &sp.tree, "")?;
                let fst = info.get_fst().clone();
                for (path, len, seed, _) in files(&sp.tree) {
                    let p = path.join("/");
                    let what = format!("file {p:?}");
                    let Some(FstNode::File { offset, .. }) = fst.find_node_iter(path.iter().map(|s| s.as_str())) else {
                        return Err(format!("{what}: not found"));
                    };
                    let offset = *offset;
                    match r.below(4) {
                        0 if len <= 64 << 20 => {
                            let mut v = vec![1, 2, 3];
                            io(&what, info.get_crypto_reader(rd).read_into_vec(offset, len, &mut v))?;
                            same_bytes(&what, &v, &content(seed, len as usize))?;
                        }
                        1 => {
                            let mut w = info.open_window(rd, offset, Some(len));
                            check_stream(&what, &mut w, len, seed, r)?;
                        }
                        2 if len <= 64 << 20 => {
                            let mut c = info.get_crypto_reader(rd);
                            io(&what, c.seek(SeekFrom::Start(offset)))?;
                            let mut v = vec![0; len as usize];
                            io(&what, c.read_exact(&mut v))?;
                            same_bytes(&what, &v, &content(seed, len as usize))?;
                        }
                        _ => {
                            let Some(mut f) = info.open_file(rd, &p) else {
                                return Err(format!("{what}: cannot be opened by path"));
                            };
                            check_stream(&what, &mut f, len, seed, r)?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Everything on a disc, partitions in order.
pub fn check_disc<RS: Read + Seek>(src: RS, head: &DiscHeader, region: &[u8; 32], want: &[&PartSpec], tmd: TmdRule, r: &mut Rng) -> Result<(), String> {
    let mut rd = io("open disc", WiiIsoReader::open(src))?;
    ensure!(rd.get_header() == head, "disc header differs: {:?} instead of {:?}", rd.get_header(), head);
    ensure!(rd.get_region() == region, "region differs");
    let parts = rd.partitions().to_vec();
    ensure!(parts.len() == want.len(), "{} partitions listed instead of {}", parts.len(), want.len());
    let mut order: Vec<usize> = (0..parts.len()).collect();
    r.shuffle(&mut order);
    for i in order {
        ensure!(parts[i].get_type() == ptype(want[i].ptype), "partition {i} has type {:?} instead of {:?}", parts[i].get_type(), ptype(want[i].ptype));
        check_part(&mut rd, parts[i].clone(), want[i], tmd, r).map_err(|e| format!("partition {i}: {e}"))?;
    }
    Ok(())
}
