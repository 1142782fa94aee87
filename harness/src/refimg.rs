//! Independent reference implementation of the Wii disc format: a writer that makes discs in
//! layouts the library's builder never produces, and a verifier for built images.
//! Only AES and SHA-1 come from (shared) crates.

use crate::model::*;
use crate::rng::{content, fill_random, Rng};
use crate::simdisk::Image;
use aes::cipher::{block_padding::NoPadding, BlockDecryptMut, BlockEncryptMut, KeyIvInit};
use sha1::{Digest, Sha1};
use std::collections::BTreeMap;

type Enc = cbc::Encryptor<aes::Aes128>;
type Dec = cbc::Decryptor<aes::Aes128>;

fn sha(b: &[u8]) -> [u8; 20] {
    let mut h = Sha1::new();
    h.update(b);
    h.finalize().into()
}

/// plaintext (0x1F0000 bytes) -> group as stored, and its H3
pub fn encode_group(plain: &[u8], key: &[u8; 16]) -> (Vec<u8>, [u8; 20]) {
    assert_eq!(plain.len() as u64, GROUP_DATA);
    let mut h0 = vec![[0u8; 20 * 31]; 64];
    let mut h1 = vec![[0u8; 20 * 8]; 8];
    let mut h2 = [0u8; 20 * 8];
    for b in 0..64 {
        for j in 0..31 {
            let s = b * 0x7C00 + j * 0x400;
            h0[b][j * 20..j * 20 + 20].copy_from_slice(&sha(&plain[s..s + 0x400]));
        }
        let d = sha(&h0[b]);
        h1[b / 8][(b % 8) * 20..][..20].copy_from_slice(&d);
    }
    for s in 0..8 {
        let d = sha(&h1[s]);
        h2[s * 20..][..20].copy_from_slice(&d);
    }
    let h3 = sha(&h2);
    let mut out = vec![0u8; GROUP as usize];
    for b in 0..64 {
        let blk = &mut out[b * 0x8000..(b + 1) * 0x8000];
        blk[..620].copy_from_slice(&h0[b]);
        blk[0x280..0x280 + 160].copy_from_slice(&h1[b / 8]);
        blk[0x340..0x340 + 160].copy_from_slice(&h2);
        Enc::new(key.into(), &[0u8; 16].into())
            .encrypt_padded_mut::<NoPadding>(&mut blk[..0x400], 0x400)
            .unwrap();
        let iv: [u8; 16] = blk[0x3D0..0x3E0].try_into().unwrap();
        blk[0x400..].copy_from_slice(&plain[b * 0x7C00..(b + 1) * 0x7C00]);
        Enc::new(key.into(), &iv.into())
            .encrypt_padded_mut::<NoPadding>(&mut blk[0x400..], 0x7C00)
            .unwrap();
    }
    (out, h3)
}

/// stored group -> plaintext, checking the whole hash tree; returns the H3
pub fn decode_group(stored: &[u8], key: &[u8; 16], check: bool) -> Result<(Vec<u8>, [u8; 20]), String> {
    let mut plain = vec![0u8; GROUP_DATA as usize];
    let mut hdr = vec![[0u8; 0x400]; 64];
    for b in 0..64 {
        let blk = &stored[b * 0x8000..(b + 1) * 0x8000];
        let iv: [u8; 16] = blk[0x3D0..0x3E0].try_into().unwrap();
        Dec::new(key.into(), &iv.into())
            .decrypt_padded_b2b_mut::<NoPadding>(&blk[0x400..], &mut plain[b * 0x7C00..(b + 1) * 0x7C00])
            .unwrap();
        if check {
            Dec::new(key.into(), &[0u8; 16].into())
                .decrypt_padded_b2b_mut::<NoPadding>(&blk[..0x400], &mut hdr[b])
                .unwrap();
        }
    }
    if !check {
        return Ok((plain, [0; 20]));
    }
    let mut h2 = [0u8; 160];
    for s in 0..8 {
        let mut h1 = [0u8; 160];
        for c in 0..8 {
            let b = s * 8 + c;
            let mut h0 = [0u8; 620];
            for j in 0..31 {
                let o = b * 0x7C00 + j * 0x400;
                h0[j * 20..][..20].copy_from_slice(&sha(&plain[o..o + 0x400]));
            }
            if hdr[b][..620] != h0 {
                return Err(format!("H0 of block {b} does not match its data"));
            }
            if hdr[b][620..640].iter().any(|x| *x != 0) {
                return Err(format!("padding after H0 of block {b} not zero"));
            }
            h1[c * 20..][..20].copy_from_slice(&sha(&h0));
        }
        for c in 0..8 {
            let b = s * 8 + c;
            if hdr[b][0x280..0x280 + 160] != h1 {
                return Err(format!("H1 in block {b} does not match its subgroup"));
            }
            if hdr[b][0x320..0x340].iter().any(|x| *x != 0) {
                return Err(format!("padding after H1 of block {b} not zero"));
            }
        }
        h2[s * 20..][..20].copy_from_slice(&sha(&h1));
    }
    for b in 0..64 {
        if hdr[b][0x340..0x340 + 160] != h2 {
            return Err(format!("H2 in block {b} does not match the group"));
        }
        if hdr[b][0x3E0..0x400].iter().any(|x| *x != 0) {
            return Err(format!("padding after H2 of block {b} not zero"));
        }
    }
    Ok((plain, sha(&h2)))
}

// ------------------------------------------------------------------ reference writer

pub struct RefPart {
    pub spec: PartSpec,
    pub table: u8,
    pub offset: u64,
    pub tmd_off: u64,
    pub cert_off: u64,
    pub data_off: u64,
    pub data_size: u64,
    pub dol_off: u64,
    pub fst_off: u64,
    pub fst_sz: u64,
    pub key: [u8; 16],
    /// materialised plaintext groups
    pub groups: BTreeMap<u64, Vec<u8>>,
    /// file offsets in table order
    pub files: Vec<(Vec<String>, u64, u64, u64)>,
    pub fst_bytes: Vec<u8>,
}

impl RefPart {
    pub fn plain(&self, off: u64, buf: &mut [u8]) -> bool {
        let mut done = 0;
        while done < buf.len() {
            let o = off + done as u64;
            let Some(g) = self.groups.get(&(o / GROUP_DATA)) else { return false };
            let i = (o % GROUP_DATA) as usize;
            let n = (GROUP_DATA as usize - i).min(buf.len() - done);
            buf[done..done + n].copy_from_slice(&g[i..i + n]);
            done += n;
        }
        true
    }
    fn put(&mut self, off: u64, data: &[u8], seed: u64) {
        let mut done = 0;
        while done < data.len() {
            let o = off + done as u64;
            let g = self.group(o / GROUP_DATA, seed);
            let i = (o % GROUP_DATA) as usize;
            let n = (GROUP_DATA as usize - i).min(data.len() - done);
            g[i..i + n].copy_from_slice(&data[done..done + n]);
            done += n;
        }
    }
    fn group(&mut self, g: u64, seed: u64) -> &mut Vec<u8> {
        self.groups.entry(g).or_insert_with(|| {
            let mut v = vec![0u8; GROUP_DATA as usize];
            fill_random(seed ^ g.wrapping_mul(0x1234_5677), &mut v);
            v
        })
    }
    pub fn header(&self) -> disc_riider::structs::DiscHeader {
        let mut h = self.spec.header();
        h.dol_off = self.dol_off.into();
        h.fst_off = self.fst_off.into();
        h.fst_sz = self.fst_sz.into();
        h.fst_max_sz = self.fst_sz.into();
        h
    }
}

pub struct RefDisc {
    pub spec: DiscSpec,
    /// in the order a reader lists them
    pub parts: Vec<RefPart>,
    pub img: Image,
}

#[derive(serde::Serialize, serde::Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct LayoutSpec {
    pub seed: u64,
    /// 0: compact, 1: partitions beyond 4 GiB, 2: file data beyond 4 GiB, 3: both
    pub far: u8,
    /// partitions spread over the four tables
    pub spread: bool,
    /// data size not a multiple of the group size
    pub ragged: bool,
}

/// Hostile or damaged name/structure overrides are applied on top of this.
pub fn fst_serialize(tree: &[Node], offs: &[u64], r: &mut Rng, shuffle: bool) -> Vec<u8> {
    struct Raw {
        dir: bool,
        name: Vec<u8>,
        a: u32,
        b: u32,
    }
    fn rec(nodes: &[Node], parent: u32, offs: &[u64], fi: &mut usize, raws: &mut Vec<Raw>) {
        for n in nodes {
            let idx = raws.len() as u32;
            match n {
                Node::F { name, len, .. } => {
                    raws.push(Raw { dir: false, name: sjis(name), a: (offs[*fi] >> 2) as u32, b: *len as u32 });
                    *fi += 1;
                }
                Node::D { name, kids } => {
                    raws.push(Raw { dir: true, name: sjis(name), a: parent, b: 0 });
                    rec(kids, idx, offs, fi, raws);
                    raws[idx as usize].b = raws.len() as u32;
                }
            }
        }
    }
    let mut raws = vec![Raw { dir: true, name: vec![], a: 0, b: 0 }];
    rec(tree, 0, offs, &mut 0, &mut raws);
    raws[0].b = raws.len() as u32;
    // name table, in any order
    let mut order: Vec<usize> = (1..raws.len()).collect();
    if shuffle {
        r.shuffle(&mut order);
    }
    let mut names = vec![0u8];
    let mut name_off = vec![0u32; raws.len()];
    // nodes may share a name, or the end of one
    let share = r.chance(250);
    let mut seen: BTreeMap<Vec<u8>, u32> = BTreeMap::new();
    for i in order {
        if share {
            if let Some(at) = seen.get(&raws[i].name) {
                name_off[i] = *at;
                continue;
            }
            for k in 0..raws[i].name.len() {
                seen.entry(raws[i].name[k..].to_vec()).or_insert((names.len() + k) as u32);
            }
        }
        name_off[i] = names.len() as u32;
        names.extend_from_slice(&raws[i].name);
        names.push(0);
    }
    let mut out = Vec::new();
    for (i, n) in raws.iter().enumerate() {
        out.extend_from_slice(&(((n.dir as u32) << 24) | name_off[i]).to_be_bytes());
        out.extend_from_slice(&n.a.to_be_bytes());
        out.extend_from_slice(&n.b.to_be_bytes());
    }
    out.extend_from_slice(&names);
    out
}

fn align(n: u64, a: u64) -> u64 {
    n.div_ceil(a) * a
}

pub fn ref_disc(spec: &DiscSpec, lay: LayoutSpec) -> RefDisc {
    let mut r = Rng::new(lay.seed ^ 0x1A1A);
    let mut img = Image::default();
    img.write_at(0, &disc_header_bytes(&spec.header()), None);
    img.write_at(0x4E000, &spec.region(), None);
    let mut parts = Vec::new();
    let mut at = 0x50000u64;
    for p in &spec.parts {
        let table = if lay.spread { r.below(4) as u8 } else { 0 };
        if lay.far & 1 != 0 && r.chance(600) && at < 7 << 30 {
            at += 0x1_0000_0000 + r.below(0x1000) * 0x8000;
        }
        let offset = if r.chance(700) { align(at, 0x8000) } else { align(at + r.below(0x4000), 4) };
        let ticket = p.ticket();
        let tmd = tmd_bytes(&p.tmd());
        let cert = cert_bytes(&p.certs());
        let tmd_off = align(0x2C0 + r.below(3) * 0x40, 4);
        let cert_off = align(tmd_off + tmd.len() as u64 + r.below(0x100), 4);
        let h3_off = align(cert_off + cert.len() as u64, 0x4000).max(0x8000);
        let data_off = h3_off + 0x18000 + r.below(3) * 0x8000;
        let gapseed = r.next();
        let mut rp = RefPart {
            spec: p.clone(),
            table,
            offset,
            tmd_off,
            cert_off,
            data_off,
            data_size: 0,
            dol_off: 0,
            fst_off: 0,
            fst_sz: 0,
            key: ticket.title_key,
            groups: BTreeMap::new(),
            files: Vec::new(),
            fst_bytes: Vec::new(),
        };
        rp.put(0x440, &p.bi2(), gapseed);
        let ap = p.apploader_bytes();
        rp.put(0x2440, &ap, gapseed);
        let mut pos = 0x2440 + ap.len() as u64;
        let dol = p.dol_bytes();
        let flen = fst_len(&p.tree);
        let fs = files(&p.tree);
        // dol, fst and files in any order, with gaps
        let mut items: Vec<usize> = (0..fs.len() + 2).collect();
        if r.chance(600) {
            r.shuffle(&mut items[2..]);
        }
        if r.chance(300) {
            r.shuffle(&mut items);
        }
        let mut offs = vec![0u64; fs.len()];
        // things in different groups
        let scattered = lay.seed % 5 == 2;
        // the table in a group of its own
        let apart = lay.seed % 7 == 3;
        let mut jumps = 0;
        let far_from = if lay.far & 2 != 0 && at < 10 << 30 { r.below(items.len() as u64 + 1) as usize } else { usize::MAX };
        for (k, it) in items.into_iter().enumerate() {
            if k == far_from {
                // past 32 bits, or close to the most the global hash table can describe
                let far = if lay.seed % 4 == 1 && at < 4 << 30 { 0x2_0000_0000 } else { 0x1_0000_0000 };
                pos += far + r.below(1000) * 0x1_0000;
            }
            if scattered && jumps < 10 && r.chance(250) {
                jumps += 1;
                pos += GROUP_DATA * r.range(1, 3) - r.below(0x8000);
            }
            pos = align(pos + if r.chance(300) { r.below(0x900) } else { 0 }, if r.chance(500) { 4 } else { 0x40 });
            match it {
                0 => {
                    rp.dol_off = pos;
                    rp.put(pos, &dol, gapseed);
                    pos += dol.len() as u64;
                }
                1 => {
                    if apart {
                        pos = align(pos + GROUP_DATA, 4);
                    }
                    rp.fst_off = pos;
                    pos += flen;
                    if apart {
                        pos = align(pos + GROUP_DATA, 4);
                    }
                }
                i => {
                    let (_, len, seed, _) = &fs[i - 2];
                    offs[i - 2] = pos;
                    rp.put(pos, &content(*seed, *len as usize), gapseed);
                    pos += len;
                }
            }
        }
        rp.fst_bytes = fst_serialize(&p.tree, &offs, &mut r, lay.seed & 1 == 0);
        rp.fst_sz = align(rp.fst_bytes.len() as u64, 4);
        let (fo, fb) = (rp.fst_off, rp.fst_bytes.clone());
        rp.put(fo, &fb, gapseed);
        pos = pos.max(rp.fst_off + rp.fst_sz);
        let hb = disc_header_bytes(&rp.header());
        rp.put(0, &hb, gapseed);
        rp.files = fs.into_iter().zip(&offs).map(|((p, l, s, _), o)| (p, *o, l, s)).collect();
        rp.data_size = if lay.ragged { align(pos, BLOCK_DATA) } else { align(pos, GROUP_DATA) };
        let ngroups = align(rp.data_size, GROUP_DATA) / GROUP_DATA;
        // neighbours of what is used, so that reads around objects have known bytes
        let used: Vec<u64> = rp.groups.keys().cloned().collect();
        if used.len() as u64 * 4 > ngroups {
            for g in 0..ngroups {
                rp.group(g, gapseed);
            }
        } else {
            rp.group(ngroups - 1, gapseed);
        }
        let mut h3 = vec![0u8; 0x18000];
        for (g, plain) in &rp.groups {
            let (st, h) = encode_group(plain, &rp.key);
            img.write_at(offset + data_off + g * GROUP, &st, None);
            if *g < 4915 {
                h3[*g as usize * 20..][..20].copy_from_slice(&h);
            }
        }
        // the whole last group exists on disc
        let end = offset + data_off + ngroups * GROUP;
        img.len = img.len.max(end);
        // plain part
        let mut head = ticket_bytes(&ticket);
        let mut put32 = |v: u32| head.extend_from_slice(&v.to_be_bytes());
        put32(tmd.len() as u32);
        put32((tmd_off >> 2) as u32);
        put32(cert.len() as u32);
        put32((cert_off >> 2) as u32);
        put32((h3_off >> 2) as u32);
        put32((data_off >> 2) as u32);
        put32((rp.data_size >> 2) as u32);
        img.write_at(offset, &head, None);
        img.write_at(offset + tmd_off, &tmd, None);
        img.write_at(offset + cert_off, &cert, None);
        img.write_at(offset + h3_off, &h3, None);
        at = end;
        parts.push(rp);
    }
    // tables
    parts.sort_by_key(|p| p.table);
    let mut tpos = 0x40020 + r.below(8) * 4;
    for t in 0..4u8 {
        let mine: Vec<&RefPart> = parts.iter().filter(|p| p.table == t).collect();
        if mine.is_empty() {
            if r.chance(300) {
                // an empty table may carry any offset
                img.write_at(0x40004 + 8 * t as u64, &(r.next() as u32).to_be_bytes(), None);
            }
            continue;
        }
        img.write_at(0x40000 + 8 * t as u64, &(mine.len() as u32).to_be_bytes(), None);
        img.write_at(0x40004 + 8 * t as u64, &((tpos >> 2) as u32).to_be_bytes(), None);
        for p in mine {
            img.write_at(tpos, &((p.offset >> 2) as u32).to_be_bytes(), None);
            img.write_at(tpos + 4, &(p.spec.ptype as u32).to_be_bytes(), None);
            tpos += 8;
        }
        tpos += r.below(16) * 4;
    }
    RefDisc { spec: spec.clone(), parts, img }
}

// ------------------------------------------------------------------ verifier

pub struct RawPart {
    pub offset: u64,
    pub ptype: u32,
}

pub fn raw_parts(img: &Image) -> Vec<RawPart> {
    let mut v = Vec::new();
    for t in 0..4u64 {
        let n = img.u32(0x40000 + 8 * t);
        let o = (img.u32(0x40004 + 8 * t) as u64) << 2;
        if n > 10000 {
            continue;
        }
        for i in 0..n as u64 {
            v.push(RawPart { offset: (img.u32(o + 8 * i) as u64) << 2, ptype: img.u32(o + 8 * i + 4) });
        }
    }
    v
}

pub struct PlainView<'a> {
    img: &'a Image,
    base: u64,
    key: [u8; 16],
    cache: BTreeMap<u64, std::rc::Rc<Vec<u8>>>,
    /// last group decoded, keyed by page identity, so that runs of identical groups are cheap
    memo: Option<(Vec<usize>, std::rc::Rc<Vec<u8>>, [u8; 20])>,
}

impl<'a> PlainView<'a> {
    pub fn new(img: &'a Image, base: u64, key: [u8; 16]) -> Self {
        PlainView { img, base, key, cache: BTreeMap::new(), memo: None }
    }
    fn ident(&self, g: u64) -> Option<Vec<usize>> {
        let s = self.base + g * GROUP;
        if s % crate::simdisk::PAGE != 0 {
            return None;
        }
        (0..GROUP / crate::simdisk::PAGE)
            .map(|k| self.img.pages.get(&(s / crate::simdisk::PAGE + k)).map(|p| std::sync::Arc::as_ptr(p) as usize))
            .collect()
    }
    pub fn group(&mut self, g: u64, check: bool) -> Result<(std::rc::Rc<Vec<u8>>, [u8; 20]), String> {
        if !check {
            if let Some(p) = self.cache.get(&g) {
                return Ok((p.clone(), [0; 20]));
            }
        }
        let id = self.ident(g);
        if let (Some(id), Some((mid, p, h))) = (&id, &self.memo) {
            if id == mid && check {
                return Ok((p.clone(), *h));
            }
        }
        if self.base + (g + 1) * GROUP > self.img.len {
            return Err(format!("group {g} is not (fully) in the image"));
        }
        let st = self.img.get(self.base + g * GROUP, GROUP as usize);
        let (p, h) = decode_group(&st, &self.key, check).map_err(|e| format!("group {g}: {e}"))?;
        let p = std::rc::Rc::new(p);
        if self.cache.len() > 12 {
            self.cache.clear();
        }
        self.cache.insert(g, p.clone());
        if let (Some(id), true) = (id, check) {
            self.memo = Some((id, p.clone(), h));
        }
        Ok((p, h))
    }
    pub fn read(&mut self, off: u64, len: usize) -> Result<Vec<u8>, String> {
        let mut out = vec![0u8; len];
        let mut done = 0;
        while done < len {
            let o = off + done as u64;
            let (g, _) = self.group(o / GROUP_DATA, false)?;
            let i = (o % GROUP_DATA) as usize;
            let n = (GROUP_DATA as usize - i).min(len - done);
            out[done..done + n].copy_from_slice(&g[i..i + n]);
            done += n;
        }
        Ok(out)
    }
}

fn be32(b: &[u8], o: usize) -> u32 {
    u32::from_be_bytes(b[o..o + 4].try_into().unwrap())
}

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
pub(crate) use ensure;

fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("length {:#x} instead of {:#x}", a.len(), b.len());
    }
    match (0..a.len()).find(|&i| a[i] != b[i]) {
        Some(i) => format!("differs at {i:#x} ({:02x} instead of {:02x})", a[i], b[i]),
        None => "equal".into(),
    }
}

pub fn same_bytes(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    ensure!(got == want, "{what}: {}", first_diff(got, want));
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Depth {
    /// contents only, entries of a folder in any order
    Unordered,
    /// contents, hash tree, metadata, layout
    Full,
}

/// Judges a built image against what was put in. `want` are the partitions that must be
/// listed, in order. `head` is the outer header as bytes.
pub fn verify_built(img: &Image, head: &[u8], region: &[u8; 32], want: &[&PartSpec], depth: Depth) -> Result<(), String> {
    same_bytes("disc header", &img.get(0, 0x440), head)?;
    same_bytes("region", &img.get(0x4E000, 32), region)?;
    let parts = raw_parts(img);
    let table = (0..4u64)
        .filter(|t| img.u32(0x40000 + 8 * t) > 0)
        .map(|t| ((img.u32(0x40004 + 8 * t) as u64) << 2, img.u32(0x40000 + 8 * t) as u64));
    let listed: u64 = (0..4u64).map(|t| img.u32(0x40000 + 8 * t) as u64).sum();
    ensure!(listed == want.len() as u64, "{listed} partitions listed instead of {}", want.len());
    ensure!(parts.len() == want.len(), "{} partitions listed instead of {}", parts.len(), want.len());
    let mut extents: Vec<(u64, u64, String)> = vec![(0, 0x440, "disc header".into()), (0x40000, 0x40020, "partition info".into()), (0x4E000, 0x4E020, "region".into())];
    extents.extend(table.map(|(o, n)| (o, o + 8 * n, "partition table".into())));
    for (i, (rp, sp)) in parts.iter().zip(want).enumerate() {
        verify_part(img, rp, sp, depth, &mut extents).map_err(|e| format!("partition {i}: {e}"))?;
    }
    if depth == Depth::Full {
        no_overlap("disc", extents)?;
    }
    Ok(())
}

fn no_overlap(what: &str, mut ex: Vec<(u64, u64, String)>) -> Result<(), String> {
    ex.retain(|e| e.1 > e.0);
    ex.sort();
    for w in ex.windows(2) {
        ensure!(w[0].1 <= w[1].0, "{what}: {} ({:#x}..{:#x}) overlaps {} ({:#x}..{:#x})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1);
    }
    Ok(())
}

/// the model tree with its entries in the order in which the stored table lists them
fn reorder(raw: &[u8], n: usize, tree: &[Node], idx: &mut usize, end: usize) -> Vec<Node> {
    let mut left: Vec<Node> = tree.to_vec();
    let mut out = Vec::new();
    while *idx < end.min(n) {
        let i = *idx;
        *idx += 1;
        let e = &raw[i * 12..i * 12 + 12];
        let no = (be32(e, 0) & 0xFF_FFFF) as usize + n * 12;
        let name: &[u8] = raw.get(no..).map_or(&[], |r| r.split(|b| *b == 0).next().unwrap());
        let hit = left.iter().position(|x| sjis(x.name()) == name).map(|k| left.remove(k));
        if e[0] == 1 {
            let stop = be32(e, 8) as usize;
            let kids = match &hit {
                Some(Node::D { kids, .. }) => kids.clone(),
                _ => Vec::new(),
            };
            let kids = reorder(raw, n, &kids, idx, stop.min(end));
            if let Some(Node::D { name, .. }) = hit {
                out.push(Node::D { name, kids });
                continue;
            }
        }
        if let Some(h) = hit {
            out.push(h);
        }
    }
    out.extend(left);
    out
}

pub fn verify_part(img: &Image, rp: &RawPart, sp: &PartSpec, depth: Depth, extents: &mut Vec<(u64, u64, String)>) -> Result<(), String> {
    ensure!(rp.ptype == sp.ptype as u32, "type {} instead of {}", rp.ptype, sp.ptype);
    let off = rp.offset;
    let ticket = sp.ticket();
    let head = img.get(off, 0x2C0);
    same_bytes("ticket", &head[..0x2A4], &ticket_bytes(&ticket))?;
    let tmd_size = be32(&head, 0x2A4) as u64;
    let tmd_off = (be32(&head, 0x2A8) as u64) << 2;
    let cert_size = be32(&head, 0x2AC) as u64;
    let cert_off = (be32(&head, 0x2B0) as u64) << 2;
    let h3_off = (be32(&head, 0x2B4) as u64) << 2;
    let data_off = (be32(&head, 0x2B8) as u64) << 2;
    let data_size = (be32(&head, 0x2BC) as u64) << 2;
    let cert = cert_bytes(&sp.certs());
    ensure!(cert_size == cert.len() as u64, "certificate size {cert_size:#x} instead of {:#x}", cert.len());
    same_bytes("certificates", &img.get(off + cert_off, cert.len()), &cert)?;
    let tmd0 = tmd_bytes(&sp.tmd());
    ensure!(tmd_size == tmd0.len() as u64, "title metadata size {tmd_size:#x} instead of {:#x}", tmd0.len());
    let tmd = img.get(off + tmd_off, tmd0.len());
    ensure!(data_size % GROUP_DATA == 0 && data_size > 0, "data size {data_size:#x} is not a positive number of whole groups");
    let ngroups = data_size / GROUP_DATA;
    let mut pv = PlainView::new(img, off + data_off, ticket.title_key);
    if depth == Depth::Full {
        let h3 = img.get(off + h3_off, 0x18000);
        ensure!(ngroups <= 4915, "more groups than the hash table holds");
        for g in 0..ngroups {
            let (_, h) = pv.group(g, true)?;
            ensure!(h3[g as usize * 20..][..20] == h, "H3 of group {g} does not match the stored group");
        }
        ensure!(h3[ngroups as usize * 20..].iter().all(|b| *b == 0), "global hash table has entries beyond the last group");
        // title metadata
        let mut want = tmd0.clone();
        want[4..0x104].fill(0);
        want[0x1EC..0x1F4].copy_from_slice(&data_size.to_be_bytes());
        want[0x1F4..0x208].copy_from_slice(&sha(&h3));
        // eight bytes of padding are free for the fakesign search
        want[0x19A..0x1A2].copy_from_slice(&tmd[0x19A..0x1A2]);
        same_bytes("title metadata", &tmd, &want)?;
        ensure!(sha(&tmd[0x140..])[0] == 0, "title metadata is not fakesigned: hash does not start with a zero byte");
        extents.push((off, off + 0x2C0, "partition header".into()));
        extents.push((off + tmd_off, off + tmd_off + tmd_size, "title metadata".into()));
        extents.push((off + cert_off, off + cert_off + cert_size, "certificates".into()));
        extents.push((off + h3_off, off + h3_off + 0x18000, "global hash table".into()));
        extents.push((off + data_off, off + data_off + ngroups * GROUP, "partition data".into()));
    }
    // inner header
    let hb = pv.read(0, 0x440)?;
    let mut want_h = disc_header_bytes(&sp.header());
    for o in [0x420usize, 0x424, 0x428, 0x42c] {
        want_h[o..o + 4].copy_from_slice(&hb[o..o + 4]);
    }
    same_bytes("partition disc header", &hb, &want_h)?;
    let dol_off = (be32(&hb, 0x420) as u64) << 2;
    let fst_off = (be32(&hb, 0x424) as u64) << 2;
    let fst_sz = (be32(&hb, 0x428) as u64) << 2;
    let fst_max = (be32(&hb, 0x42c) as u64) << 2;
    same_bytes("bi2", &pv.read(0x440, 0x2000)?, &sp.bi2())?;
    let ap = sp.apploader_bytes();
    same_bytes("apploader", &pv.read(0x2440, ap.len())?, &ap)?;
    let dol = sp.dol_bytes();
    same_bytes("executable", &pv.read(dol_off, dol.len())?, &dol)?;
    // file system table
    ensure!(fst_max >= fst_sz, "table maximum size smaller than its size");
    let root = pv.read(fst_off, 12)?;
    ensure!(be32(&root, 0) == 0x0100_0000 && be32(&root, 4) == 0, "root entry malformed");
    let n = be32(&root, 8) as usize;
    ensure!(n == count_nodes(&sp.tree) + 1, "table has {n} entries instead of {}", count_nodes(&sp.tree) + 1);
    ensure!(fst_sz >= 12 * n as u64 && fst_sz < 12 * n as u64 + fst_len(&sp.tree) + 64, "table size field {fst_sz:#x} implausible");
    let raw = pv.read(fst_off, fst_sz as usize)?;
    let mut idx = 1usize;
    let mut inner: Vec<(u64, u64, String)> = vec![(0, 0x440, "header".into()), (0x440, 0x2440, "bi2".into()), (0x2440, 0x2440 + ap.len() as u64, "apploader".into()), (dol_off, dol_off + dol.len() as u64, "executable".into()), (fst_off, fst_off + fst_sz, "file system table".into())];
    let any;
    let tree = if depth == Depth::Unordered {
        any = reorder(&raw, n, &sp.tree, &mut 1, n);
        &any
    } else {
        &sp.tree
    };
    check_fst(&raw, n, tree, 0, &mut idx, &mut pv, data_size, &mut inner, &mut String::new())?;
    ensure!(idx == n, "table entries left over");
    if depth == Depth::Full {
        no_overlap("partition", inner)?;
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
/// Judges the bytes of a table alone; `files`: offset and length of each file, in order.
pub fn check_table(raw: &[u8], tree: &[Node], files: &[(u64, u32)]) -> Result<(), String> {
    fn rec(raw: &[u8], n: usize, tree: &[Node], files: &[(u64, u32)], parent: usize, idx: &mut usize, fi: &mut usize) -> Result<(), String> {
        for node in tree {
            let i = *idx;
            ensure!(i < n, "table too short");
            *idx += 1;
            let e = &raw[i * 12..i * 12 + 12];
            let no = (be32(e, 0) & 0xFF_FFFF) as usize + n * 12;
            let name = sjis(node.name());
            ensure!(no + name.len() < raw.len() && raw[no..no + name.len()] == name[..] && raw[no + name.len()] == 0, "{:?}: stored name differs", node.name());
            match node {
                Node::D { kids, .. } => {
                    ensure!(e[0] == 1, "{:?}: not marked as folder", node.name());
                    ensure!(be32(e, 4) as usize == parent, "{:?}: parent index {} instead of {parent}", node.name(), be32(e, 4));
                    rec(raw, n, kids, files, i, idx, fi)?;
                    ensure!(be32(e, 8) as usize == *idx, "{:?}: end index {} instead of {}", node.name(), be32(e, 8), *idx);
                }
                Node::F { .. } => {
                    ensure!(e[0] == 0, "{:?}: not marked as file", node.name());
                    let got = ((be32(e, 4) as u64) << 2, be32(e, 8));
                    ensure!(got == files[*fi], "{:?}: place {got:x?} instead of {:x?}", node.name(), files[*fi]);
                    *fi += 1;
                }
            }
        }
        Ok(())
    }
    ensure!(raw.len() >= 12 && be32(raw, 0) == 0x0100_0000 && be32(raw, 4) == 0, "first node wrong");
    let n = be32(raw, 8) as usize;
    ensure!(n == count_nodes(tree) + 1, "{n} nodes instead of {}", count_nodes(tree) + 1);
    ensure!(raw.len() >= n * 12, "table cut off");
    rec(raw, n, tree, files, 0, &mut 1, &mut 0)
}

fn check_fst(raw: &[u8], n: usize, tree: &[Node], parent: usize, idx: &mut usize, pv: &mut PlainView, data_size: u64, inner: &mut Vec<(u64, u64, String)>, path: &mut String) -> Result<(), String> {
    for node in tree {
        let i = *idx;
        ensure!(i < n, "table too short");
        *idx += 1;
        let e = &raw[i * 12..i * 12 + 12];
        let no = (be32(e, 0) & 0xFF_FFFF) as usize + n * 12;
        ensure!(no < raw.len(), "{path}: name offset outside the table");
        let end = (no..raw.len()).find(|&k| raw[k] == 0).ok_or_else(|| format!("{path}: name not terminated inside the table"))?;
        let l = path.len();
        path.push('/');
        path.push_str(node.name());
        ensure!(raw[no..end] == sjis(node.name())[..], "{path}: stored name differs");
        match node {
            Node::D { kids, .. } => {
                ensure!(e[0] == 1, "{path}: not marked as folder");
                ensure!(be32(e, 4) as usize == parent, "{path}: parent index {} instead of {parent}", be32(e, 4));
                check_fst(raw, n, kids, i, idx, pv, data_size, inner, path)?;
                ensure!(be32(e, 8) as usize == *idx, "{path}: end index {} instead of {}", be32(e, 8), *idx);
            }
            Node::F { len, seed, .. } => {
                ensure!(e[0] == 0, "{path}: not marked as file");
                let o = (be32(e, 4) as u64) << 2;
                ensure!(be32(e, 8) as u64 == *len, "{path}: length {} instead of {len}", be32(e, 8));
                ensure!(o + len <= data_size, "{path}: lies outside the partition data");
                if *len <= 64 << 20 {
                    same_bytes(path, &pv.read(o, *len as usize)?, &content(*seed, *len as usize))?;
                } else {
                    ensure!(seed & 7 <= 1, "harness: huge files must have constant content");
                    let b = if seed & 7 == 0 { 0 } else { (seed >> 8) as u8 };
                    let mut done = 0u64;
                    while done < *len {
                        let (g, _) = pv.group((o + done) / GROUP_DATA, true)?;
                        let i = ((o + done) % GROUP_DATA) as usize;
                        let n = (GROUP_DATA - i as u64).min(len - done) as usize;
                        ensure!(g[i..i + n].iter().all(|x| *x == b), "{path}: wrong content");
                        done += n as u64;
                    }
                }
                inner.push((o, o + len, path.clone()));
            }
        }
        path.truncate(l);
    }
    Ok(())
}
