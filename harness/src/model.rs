//! Models of discs: what goes in, and therefore what must come out.

use crate::rng::{content, mix2, Rng};
use disc_riider::structs::*;
use serde::{Deserialize, Serialize};

pub const BLOCK_DATA: u64 = 0x7C00;
pub const GROUP_DATA: u64 = 0x7C00 * 64;
pub const GROUP: u64 = 0x8000 * 64;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Node {
    F { name: String, len: u64, seed: u64, pad: u32 },
    D { name: String, kids: Vec<Node> },
}

impl Node {
    pub fn name(&self) -> &str {
        match self {
            Node::F { name, .. } | Node::D { name, .. } => name,
        }
    }
    pub fn set_name(&mut self, s: String) {
        match self {
            Node::F { name, .. } | Node::D { name, .. } => *name = s,
        }
    }
}

/// visits files in table order with their path
pub fn walk<'a>(nodes: &'a [Node], path: &mut Vec<String>, f: &mut dyn FnMut(&[String], &'a Node)) {
    for n in nodes {
        path.push(n.name().to_string());
        f(path, n);
        if let Node::D { kids, .. } = n {
            walk(kids, path, f);
        }
        path.pop();
    }
}

pub fn files(nodes: &[Node]) -> Vec<(Vec<String>, u64, u64, u32)> {
    let mut v = Vec::new();
    walk(nodes, &mut Vec::new(), &mut |p, n| {
        if let Node::F { len, seed, pad, .. } = n {
            v.push((p.to_vec(), *len, *seed, *pad));
        }
    });
    v
}

pub fn count_nodes(nodes: &[Node]) -> usize {
    let mut c = 0;
    walk(nodes, &mut Vec::new(), &mut |_, _| c += 1);
    c
}

pub fn sjis(s: &str) -> Vec<u8> {
    let (b, _, err) = encoding_rs::SHIFT_JIS.encode(s);
    assert!(!err, "generator made an unencodable name {s:?}");
    b.into_owned()
}

pub fn fst_len(nodes: &[Node]) -> u64 {
    let mut n = 12 + 1;
    walk(nodes, &mut Vec::new(), &mut |_, x| n += 12 + sjis(x.name()).len() as u64 + 1);
    n
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PartSpec {
    /// 0 data, 1 update, 2 channel
    pub ptype: u8,
    pub key_idx: u8,
    /// ticket, tmd, certificates, header fields
    pub seed: u64,
    pub tmd_contents: u16,
    pub title: String,
    pub apploader: (u32, u32),
    /// sizes of the text and data sections
    pub dol: Vec<u32>,
    pub tree: Vec<Node>,
    /// what the provider states as file lengths: 0 the truth, 1 nothing (all zero)
    pub len_mode: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct DiscSpec {
    pub seed: u64,
    pub title: String,
    pub parts: Vec<PartSpec>,
}

pub fn ptype(t: u8) -> WiiPartType {
    match t {
        0 => WiiPartType::Data,
        1 => WiiPartType::Update,
        _ => WiiPartType::Channel,
    }
}

fn sig_type(r: &mut Rng) -> SigType {
    match r.below(3) {
        0 => SigType::Rsa4096,
        1 => SigType::Rsa2048,
        _ => SigType::EllipticalCurve,
    }
}

pub fn sig_num(s: SigType) -> u32 {
    match s {
        SigType::Rsa4096 => 0x10000,
        SigType::Rsa2048 => 0x10001,
        SigType::EllipticalCurve => 0x10002,
    }
}

pub fn disc_header(seed: u64, title: &str) -> DiscHeader {
    let mut r = Rng::new(seed ^ 0xD15C);
    // printable game id, as on every disc (a crash check relies on it not looking like a key type)
    let mut game_id = [0u8; 6];
    for b in game_id.iter_mut() {
        *b = *r.pick(b"ABCDEFGHJKLMNPRSTUVWXYZ0123456789");
    }
    DiscHeader {
        game_id,
        disc_num: r.below(3) as u8,
        disc_version: r.next() as u8,
        audio_streaming: r.next() as u8,
        audio_stream_buf_size: r.next() as u8,
        wii_magic: 0x5D1C9EA3,
        gcn_magic: if r.chance(100) { r.next() as u32 } else { 0 },
        game_title: title.to_string(),
        disable_hash_verification: r.below(2) as u8,
        disable_disc_enc: r.below(2) as u8,
        debug_mon_off: r.next() as u32,
        debug_load_addr: r.next() as u32,
        dol_off: ((r.next() as u32 as u64) << 2).into(),
        fst_off: ((r.next() as u32 as u64) << 2).into(),
        fst_sz: ((r.next() as u32 as u64) << 2).into(),
        fst_max_sz: ((r.next() as u32 as u64) << 2).into(),
        fst_memory_address: r.next() as u32,
        user_position: r.next() as u32,
        user_sz: r.next() as u32,
    }
}

pub fn disc_header_bytes(h: &DiscHeader) -> Vec<u8> {
    let mut b = vec![0u8; 0x440];
    b[..6].copy_from_slice(&h.game_id);
    b[6] = h.disc_num;
    b[7] = h.disc_version;
    b[8] = h.audio_streaming;
    b[9] = h.audio_stream_buf_size;
    b[0x18..0x1c].copy_from_slice(&h.wii_magic.to_be_bytes());
    b[0x1c..0x20].copy_from_slice(&h.gcn_magic.to_be_bytes());
    let t = h.game_title.as_bytes();
    b[0x20..0x20 + t.len()].copy_from_slice(t);
    b[0x60] = h.disable_hash_verification;
    b[0x61] = h.disable_disc_enc;
    let mut put = |o: usize, v: u32| b[o..o + 4].copy_from_slice(&v.to_be_bytes());
    put(0x400, h.debug_mon_off);
    put(0x404, h.debug_load_addr);
    put(0x420, (*h.dol_off >> 2) as u32);
    put(0x424, (*h.fst_off >> 2) as u32);
    put(0x428, (*h.fst_sz >> 2) as u32);
    put(0x42c, (*h.fst_max_sz >> 2) as u32);
    put(0x430, h.fst_memory_address);
    put(0x434, h.user_position);
    put(0x438, h.user_sz);
    b
}

impl PartSpec {
    pub fn ticket(&self) -> Ticket {
        let mut r = Rng::new(self.seed ^ 0x71C);
        Ticket {
            sig_type: sig_type(&mut r),
            sig: r.bytes(),
            sig_issuer: r.bytes(),
            ecdh: r.bytes(),
            ticket_id: r.bytes(),
            console_id: r.bytes(),
            title_id: r.bytes(),
            unk: r.next() as u16,
            ticket_version: r.next() as u16,
            permitted_titles_mask: r.next() as u32,
            permit_mask: r.next() as u32,
            title_export_allowed: r.next() as u8,
            common_key_idx: self.key_idx,
            content_access_permissions: r.bytes(),
            unk2: r.next() as u16,
            time_limits: std::array::from_fn(|_| TicketTimeLimit {
                enable_time_limit: r.next() as u32,
                time_limit: r.next() as u32,
            }),
            title_key: r.bytes(),
        }
    }
    pub fn tmd(&self) -> TMD {
        let mut r = Rng::new(self.seed ^ 0x73D);
        TMD {
            sig_type: sig_type(&mut r),
            sig: r.bytes(),
            sig_issuer: r.bytes(),
            version: r.next() as u8,
            ca_crl_version: r.next() as u8,
            signer_crl_version: r.next() as u8,
            ios_id_major: r.next() as u32,
            ios_id_minor: r.next() as u32,
            title_id_major: r.next() as u32,
            title_id_minor: r.bytes(),
            title_type: r.next() as u32,
            group_id: r.next() as u16,
            fakesign_padding: std::array::from_fn(|_| r.next()),
            access_flags: r.next() as u32,
            title_version: r.next() as u16,
            boot_idx: r.next() as u16,
            contents: (0..self.tmd_contents)
                .map(|_| TMDContent {
                    id: r.next() as u32,
                    index: r.next() as u16,
                    content_type: r.next() as u16,
                    size: r.next(),
                    hash: r.bytes(),
                })
                .collect(),
        }
    }
    pub fn certs(&self) -> [Certificate; 3] {
        let mut r = Rng::new(self.seed ^ 0xCE27);
        std::array::from_fn(|_| {
            let st = sig_type(&mut r);
            let kt = if r.chance(500) { KeyType::Rsa4096 } else { KeyType::Rsa2048 };
            let sl = match st {
                SigType::Rsa4096 => 512,
                SigType::Rsa2048 => 256,
                SigType::EllipticalCurve => 64,
            };
            let kl = match kt {
                KeyType::Rsa4096 => 512,
                KeyType::Rsa2048 => 256,
            };
            Certificate {
                sig_type: st,
                sig: content(r.next() | 7, sl),
                issuer: r.bytes(),
                key_type: kt,
                subject: r.bytes(),
                key: content(r.next() | 7, kl),
                modulus: r.next() as u32,
                pub_exp: r.next() as u32,
            }
        })
    }
    pub fn header(&self) -> DiscHeader {
        disc_header(self.seed ^ 0x4EAD, &self.title)
    }
    pub fn bi2(&self) -> Vec<u8> {
        content(self.seed.rotate_left(9) | 7, 0x2000)
    }
    pub fn apploader_bytes(&self) -> Vec<u8> {
        let (a, b) = self.apploader;
        let mut v = content(self.seed.rotate_left(21) | 7, 0x20 + a as usize + b as usize);
        v[0x14..0x18].copy_from_slice(&a.to_be_bytes());
        v[0x18..0x1c].copy_from_slice(&b.to_be_bytes());
        v
    }
    /// (slot, offset, size) of each section, and the length of the whole
    fn dol_layout(&self) -> (Vec<(usize, u32, u32)>, u32) {
        let how = mix2(self.seed, 0xD01) % 10;
        let mut r = Rng::new(self.seed ^ 0xD01);
        let n = self.dol.len().min(18);
        let mut order: Vec<usize> = (0..n).collect();
        let mut slots: Vec<usize> = (0..18).collect();
        if how >= 8 {
            r.shuffle(&mut order);
        }
        if how == 9 {
            r.shuffle(&mut slots);
        }
        let mut off = 0x100u32;
        let mut end = off;
        let mut v = Vec::new();
        for i in order {
            let s = self.dol[i];
            if (how == 6 || how == 7 || how == 9) && s > 0 && off > 0x100 {
                off += r.below(if how == 7 { 0x2000 } else { 0x80 }) as u32;
            }
            v.push((slots[i], off, s));
            off += s;
            if s > 0 {
                end = off;
            }
        }
        (v, end)
    }
    pub fn dol_len(&self) -> u64 {
        self.dol_layout().1 as u64
    }
    pub fn dol_bytes(&self) -> Vec<u8> {
        let (secs, total) = self.dol_layout();
        let mut v = content(self.seed.rotate_left(33) | 7, total as usize);
        v[..0xE4].fill(0);
        for (i, off, s) in secs {
            v[i * 4..i * 4 + 4].copy_from_slice(&off.to_be_bytes());
            v[0x48 + i * 4..0x48 + i * 4 + 4]
                .copy_from_slice(&(0x8000_0000u32.wrapping_add(off)).to_be_bytes());
            v[0x90 + i * 4..0x90 + i * 4 + 4].copy_from_slice(&s.to_be_bytes());
        }
        v[0xD8..0xE4].copy_from_slice(&[0x80, 0, 1, 2, 0, 0, 3, 4, 0x80, 0, 5, 6]);
        v
    }
}

pub fn enc_title_key(t: &Ticket) -> [u8; 16] {
    use aes::cipher::{block_padding::NoPadding, BlockEncryptMut, KeyIvInit};
    let mut iv = [0u8; 16];
    iv[..8].copy_from_slice(&t.title_id);
    let mut out = t.title_key;
    cbc::Encryptor::<aes::Aes128>::new(
        &COMMON[t.common_key_idx as usize].into(),
        &iv.into(),
    )
    .encrypt_padded_mut::<NoPadding>(&mut out, 16)
    .unwrap();
    out
}

/// the published common keys (kept apart from the library's own table on purpose)
#[rustfmt::skip]
pub const COMMON: [[u8; 16]; 2] = [
    [0xeb, 0xe4, 0x2a, 0x22, 0x5e, 0x85, 0x93, 0xe4, 0x48, 0xd9, 0xc5, 0x45, 0x73, 0x81, 0xaa, 0xf7],
    [0x63, 0xb8, 0x2b, 0xb4, 0xf4, 0x61, 0x4e, 0x2e, 0x13, 0xf2, 0xfe, 0xfb, 0xba, 0x4c, 0x9b, 0x7e],
];

pub fn ticket_bytes(t: &Ticket) -> Vec<u8> {
    let mut b = vec![0u8; 0x2A4];
    b[0..4].copy_from_slice(&sig_num(t.sig_type).to_be_bytes());
    b[4..0x104].copy_from_slice(&t.sig);
    b[0x140..0x180].copy_from_slice(&t.sig_issuer);
    b[0x180..0x1BC].copy_from_slice(&t.ecdh);
    b[0x1BF..0x1CF].copy_from_slice(&enc_title_key(t));
    b[0x1D0..0x1D8].copy_from_slice(&t.ticket_id);
    b[0x1D8..0x1DC].copy_from_slice(&t.console_id);
    b[0x1DC..0x1E4].copy_from_slice(&t.title_id);
    b[0x1E4..0x1E6].copy_from_slice(&t.unk.to_be_bytes());
    b[0x1E6..0x1E8].copy_from_slice(&t.ticket_version.to_be_bytes());
    b[0x1E8..0x1EC].copy_from_slice(&t.permitted_titles_mask.to_be_bytes());
    b[0x1EC..0x1F0].copy_from_slice(&t.permit_mask.to_be_bytes());
    b[0x1F0] = t.title_export_allowed;
    b[0x1F1] = t.common_key_idx;
    b[0x222..0x262].copy_from_slice(&t.content_access_permissions);
    b[0x262..0x264].copy_from_slice(&t.unk2.to_be_bytes());
    for (i, l) in t.time_limits.iter().enumerate() {
        b[0x264 + i * 8..][..4].copy_from_slice(&l.enable_time_limit.to_be_bytes());
        b[0x268 + i * 8..][..4].copy_from_slice(&l.time_limit.to_be_bytes());
    }
    b
}

pub fn tmd_bytes(t: &TMD) -> Vec<u8> {
    let mut b = vec![0u8; 0x1E4 + 36 * t.contents.len()];
    b[0..4].copy_from_slice(&sig_num(t.sig_type).to_be_bytes());
    b[4..0x104].copy_from_slice(&t.sig);
    b[0x140..0x180].copy_from_slice(&t.sig_issuer);
    b[0x180] = t.version;
    b[0x181] = t.ca_crl_version;
    b[0x182] = t.signer_crl_version;
    b[0x184..0x188].copy_from_slice(&t.ios_id_major.to_be_bytes());
    b[0x188..0x18C].copy_from_slice(&t.ios_id_minor.to_be_bytes());
    b[0x18C..0x190].copy_from_slice(&t.title_id_major.to_be_bytes());
    b[0x190..0x194].copy_from_slice(&t.title_id_minor);
    b[0x194..0x198].copy_from_slice(&t.title_type.to_be_bytes());
    b[0x198..0x19A].copy_from_slice(&t.group_id.to_be_bytes());
    for (i, v) in t.fakesign_padding.iter().enumerate() {
        b[0x19A + i * 8..][..8].copy_from_slice(&v.to_be_bytes());
    }
    b[0x1D8..0x1DC].copy_from_slice(&t.access_flags.to_be_bytes());
    b[0x1DC..0x1DE].copy_from_slice(&t.title_version.to_be_bytes());
    b[0x1DE..0x1E0].copy_from_slice(&(t.contents.len() as u16).to_be_bytes());
    b[0x1E0..0x1E2].copy_from_slice(&t.boot_idx.to_be_bytes());
    for (i, c) in t.contents.iter().enumerate() {
        let o = 0x1E4 + 36 * i;
        b[o..o + 4].copy_from_slice(&c.id.to_be_bytes());
        b[o + 4..o + 6].copy_from_slice(&c.index.to_be_bytes());
        b[o + 6..o + 8].copy_from_slice(&c.content_type.to_be_bytes());
        b[o + 8..o + 16].copy_from_slice(&c.size.to_be_bytes());
        b[o + 16..o + 36].copy_from_slice(&c.hash);
    }
    b
}

pub fn cert_bytes(cs: &[Certificate; 3]) -> Vec<u8> {
    let mut b = Vec::new();
    for c in cs {
        b.extend_from_slice(&sig_num(c.sig_type).to_be_bytes());
        b.extend_from_slice(&c.sig);
        b.extend_from_slice(&[0; 60]);
        b.extend_from_slice(&c.issuer);
        b.extend_from_slice(
            &match c.key_type {
                KeyType::Rsa4096 => 0u32,
                KeyType::Rsa2048 => 1,
            }
            .to_be_bytes(),
        );
        b.extend_from_slice(&c.subject);
        b.extend_from_slice(&c.key);
        b.extend_from_slice(&c.modulus.to_be_bytes());
        b.extend_from_slice(&c.pub_exp.to_be_bytes());
        b.extend_from_slice(&[0; 52]);
    }
    b
}

impl DiscSpec {
    pub fn header(&self) -> DiscHeader {
        disc_header(self.seed, &self.title)
    }
    pub fn region(&self) -> [u8; 32] {
        Rng::new(self.seed ^ 0x2E610).bytes()
    }
}

// ---------------------------------------------------------------- generators

const PARTS_OF_NAMES: [&str; 40] = [
    "a", "B", "file", "Demo", "THP", "stage", "oarc", "x.bin", "README", "rel", "Object", "0",
    "9", "_", "-", " ", ".", "..x", "~", "\\", "ソ", "表", "能", "あ", "イ", "ｱ", "ﾝ", "漢字",
    "Ж", "β", "—x", "ー", "arc", ".arc", ".wzs", "L10N", "en_US", "é"
    , "#", "%",
];

/// names that mean something to a file system browser, an editor or a version control system
const SPECIAL_NAMES: [&str; 16] = [
    ".DS_Store", "Thumbs.db", "desktop.ini", ".git", ".hidden", "._x", "lost+found", "~lock", "core", "a.tmp", "b.bak", "fst.bin", "boot.bin", "files", "sys", "main.dol",
];

pub fn gen_name(r: &mut Rng, ascii: bool) -> String {
    if r.chance(15) {
        return r.pick(&SPECIAL_NAMES).to_string();
    }
    loop {
        let mut s = String::new();
        let n = match r.below(20) {
            0 => r.range(6, 30),
            1 => 1,
            _ => r.range(1, 4),
        };
        for _ in 0..n {
            let p = *r.pick(&PARTS_OF_NAMES);
            if (ascii && !p.is_ascii()) || p == "é" {
                continue;
            }
            s.push_str(p);
        }
        if r.chance(500) {
            s.push_str(&format!("{}", r.below(1000)));
        }
        if !name_ok(&s) || (s.trim() != s && !r.chance(300)) {
            continue;
        }
        return s;
    }
}

pub fn name_ok(s: &str) -> bool {
    if s.is_empty() || s == "." || s == ".." || s.len() > 220 {
        return false;
    }
    let (b, _, err) = encoding_rs::SHIFT_JIS.encode(s);
    if err {
        return false;
    }
    let (back, _, err) = encoding_rs::SHIFT_JIS.decode(&b);
    !err && back == s
}

/// a name close to another one: a prefix of it, one more or another last character, or the
/// same beginning for a long way
pub fn near_name(r: &mut Rng, of: &str) -> String {
    let mut s = of.to_string();
    match r.below(8) {
        0 => {
            s.pop();
        }
        // only the case differs
        6 => {
            s = s.chars().map(|c| if r.chance(500) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        }
        7 => s = if s == s.to_ascii_uppercase() { s.to_ascii_lowercase() } else { s.to_ascii_uppercase() },
        1 => s.push(*r.pick(&['0', 'a', 'Z', ' ', '.', '~', '_'])),
        2 => {
            s.pop();
            s.push(*r.pick(&['0', 'a', 'Z', '.', '~', '_', '[']));
        }
        3 => s.insert(0, *r.pick(&['0', 'a', 'Z', '.', '_'])),
        _ => {
            let n = r.range(28, 150) as usize;
            while s.len() < n {
                s.push_str("Long");
            }
            s.push_str(r.pick(&["a", "b", "A", "0", "1", ".x", ""]));
        }
    }
    if name_ok(&s) {
        s
    } else {
        gen_name(r, true)
    }
}

pub fn gen_title(r: &mut Rng) -> String {
    let n = *r.pick(&[0u64, 1, 5, 20, 40, 62, 63]);
    (0..n).map(|_| *r.pick(b"ABCDEF ghijk:'-12") as char).collect()
}

pub fn gen_len(r: &mut Rng, big: u64) -> u64 {
    match r.below(100) {
        0..=9 => 0,
        10..=29 => r.range(1, 80),
        30..=49 => r.range(1, 0x1000),
        50..=64 => {
            let k = r.range(1, 5) * BLOCK_DATA;
            (k + r.range(0, 4)).saturating_sub(2)
        }
        65..=79 => r.range(1, 0x20000),
        80..=84 => (r.range(1, 4) * 0x40 + r.range(0, 2)) - 1,
        85..=88 => (r.range(1, 3) * 0x10000 + r.range(0, 2)) - 1,
        _ => {
            // group sized
            if big == 0 || !r.chance(big) {
                r.range(1, 0x4000)
            } else {
                match r.below(4) {
                    0 => (GROUP_DATA + r.range(0, 4)) - 2,
                    1 => r.range(GROUP_DATA / 2, GROUP_DATA * 2),
                    2 => (2 * GROUP_DATA + r.range(0, 0x80)) - 0x40,
                    _ => r.range(1, GROUP_DATA),
                }
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct TreeOpts {
    pub max_nodes: u64,
    pub depth: u64,
    pub big: u64,
    pub ascii: bool,
    /// unique ignoring ASCII case, and sorted that way
    pub sorted: bool,
    pub pad: bool,
    pub empty_dirs: bool,
}

pub fn lower(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b.to_ascii_lowercase()).collect()
}

pub fn sort_tree(nodes: &mut Vec<Node>) {
    nodes.sort_by(|a, b| lower(a.name()).cmp(&lower(b.name())));
    for n in nodes {
        if let Node::D { kids, .. } = n {
            sort_tree(kids);
        }
    }
}

pub fn gen_tree(r: &mut Rng, o: TreeOpts) -> Vec<Node> {
    let mut budget = if o.max_nodes == 0 { 0 } else { r.range(0, o.max_nodes) };
    if budget == 0 && r.chance(700) {
        budget = 1 + o.max_nodes / 4;
    }
    let mut t = gen_dir(r, &o, &mut budget, o.depth);
    if o.sorted {
        sort_tree(&mut t);
    }
    t
}

fn gen_dir(r: &mut Rng, o: &TreeOpts, budget: &mut u64, depth: u64) -> Vec<Node> {
    let mut out: Vec<Node> = Vec::new();
    let n = r.range(0, *budget).max((depth == o.depth) as u64 * *budget);
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        let mut name = match r.below(20) {
            0..=2 if !out.is_empty() => {
                let k = r.below(out.len() as u64) as usize;
                let of = out[k].name().to_string();
                near_name(r, &of)
            }
            // the same names again and again in different folders
            3 | 4 => r.pick(&["data.bin", "a", "Stage", "x"]).to_string(),
            _ => gen_name(r, o.ascii),
        };
        let mut tries = 0;
        while out.iter().any(|x| {
            if o.sorted {
                lower(x.name()) == lower(&name)
            } else {
                x.name() == name
            }
        }) {
            tries += 1;
            name = format!("{}{}", gen_name(r, o.ascii), if tries > 3 { out.len().to_string() } else { String::new() });
        }
        if depth > 0 && r.chance(250) {
            let mut sub = if r.chance(150) { 0 } else { (*budget).min(r.range(1, 6)) };
            *budget -= sub;
            let kids = gen_dir(r, o, &mut sub, depth - 1);
            *budget += sub;
            if kids.is_empty() && !o.empty_dirs {
                continue;
            }
            out.push(Node::D { name, kids });
        } else {
            out.push(Node::F {
                name,
                len: gen_len(r, o.big),
                seed: r.next(),
                pad: if o.pad && r.chance(150) {
                    *r.pick(&[1u32, 0x3f, 0x40, 0x41, 0x1000, 0x7C00, 0x8001])
                } else {
                    0
                },
            });
        }
    }
    out
}

fn align(n: u64, a: u64) -> u64 {
    n.div_ceil(a) * a
}

/// Where the builder is expected to place things. Only used to aim generated sizes at
/// block and group boundaries, never as an oracle.
pub fn predict(p: &PartSpec) -> (u64, u64, Vec<u64>, u64) {
    let dol = align(0x2440 + 0x20 + p.apploader.0 as u64 + p.apploader.1 as u64, 0x20);
    let dol_len = p.dol_len();
    let fst = align(dol + dol_len, 0x20);
    let mut pos = align(fst + fst_len(&p.tree) + 4, 0x40);
    let mut offs = Vec::new();
    for (_, len, _, pad) in files(&p.tree) {
        offs.push(pos);
        pos = align(pos + len + pad as u64, 0x40);
    }
    (dol, fst, offs, pos)
}

fn nth_file_mut<'a>(nodes: &'a mut [Node], n: &mut usize) -> Option<&'a mut u64> {
    for x in nodes {
        match x {
            Node::F { len, .. } => {
                if *n == 0 {
                    return Some(len);
                }
                *n -= 1;
            }
            Node::D { kids, .. } => {
                if let Some(l) = nth_file_mut(kids, n) {
                    return Some(l);
                }
            }
        }
    }
    None
}

/// aims file ends (or the table itself) at block and group boundaries
pub fn aim(r: &mut Rng, p: &mut PartSpec) {
    // put the file-system table across or at a group boundary
    let long = fst_len(&p.tree) > 0x4000;
    if r.chance(if long { 600 } else { 120 }) {
        let (_, fst, _, _) = predict(p);
        let target = if r.chance(500) {
            GROUP_DATA - *r.pick(&[0u64, 0x20, 0x40, 0x100, 0x400])
        } else {
            // the boundary somewhere inside the table
            GROUP_DATA.saturating_sub(r.range(0, fst_len(&p.tree)) & !0x1f)
        };
        if fst < target && !p.dol.is_empty() {
            let add = (target - fst) as u32;
            let last = p.dol.len() - 1;
            p.dol[last] += add;
        }
    }
    let n = files(&p.tree).len();
    if n == 0 {
        return;
    }
    for _ in 0..r.range(0, 3) {
        let i = r.below(n as u64) as usize;
        let (_, _, offs, _) = predict(p);
        let unit = if r.chance(600) { GROUP_DATA } else { BLOCK_DATA };
        let end = align(offs[i] + 1, unit);
        let delta = *r.pick(&[-0x40i64, -1, 0, 0, 1, 0x40]);
        let len = (end as i64 + delta - offs[i] as i64).max(0) as u64;
        if let Some(l) = nth_file_mut(&mut p.tree, &mut i.clone()) {
            *l = len;
        }
    }
}

#[derive(Clone, Copy)]
pub struct PartOpts {
    pub tree: TreeOpts,
    pub aim: bool,
}

/// many files with long names, so that the file-system table spans blocks or even groups
pub fn bulk_tree(r: &mut Rng) -> Vec<Node> {
    let n = match r.below(12) {
        0 => r.range(9_000, 12_000),
        1..=4 => r.range(1_000, 3_000),
        _ => r.range(60, 700),
    };
    let w = r.range(10, 220) as usize;
    let mut out = Vec::new();
    let mut kids = Vec::new();
    let per_dir = *r.pick(&[1u64, 7, 50, 400, 20_000]);
    for i in 0..n {
        kids.push(Node::F {
            name: format!("{}{i:0>w$}", ["f", "あ", "x-"][(i % 3) as usize]),
            len: match r.below(30) {
                0 => 0,
                1 => r.range(1, 0x9000),
                _ => r.range(1, 0x80),
            },
            seed: r.next(),
            pad: 0,
        });
        if kids.len() as u64 >= per_dir {
            out.push(Node::D { name: format!("dir{:05}", out.len()), kids: std::mem::take(&mut kids) });
        }
    }
    out.extend(kids);
    sort_tree(&mut out);
    out
}

pub fn gen_part(r: &mut Rng, ptype: u8, o: PartOpts) -> PartSpec {
    let bulk = o.aim && o.tree.max_nodes > 12 && r.chance(120);
    let tree = if bulk { bulk_tree(r) } else { gen_tree(r, o.tree) };
    let a = match r.below(40) {
        0 | 1 => (0, 0),
        // across encryption groups
        2 => (r.range(0, 0x280000) as u32, r.range(0, 0x180000) as u32),
        3 | 4 => (r.range(0, 0x40000) as u32, r.range(0, 0x20000) as u32),
        _ => (r.range(0, 0x3000) as u32, r.range(0, 0x1000) as u32),
    };
    let ndol = *r.pick(&[1usize, 1, 2, 3, 7, 8, 18]);
    let mut dol: Vec<u32> = (0..ndol)
        .map(|_| match r.below(10) {
            0 => 0,
            1 => r.range(0, 0x30000) as u32,
            _ => r.range(1, 0x1800) as u32,
        })
        .collect();
    if r.chance(80) {
        // as large as in real games
        dol[ndol - 1] = r.range(0x100000, 0x500000) as u32;
    }
    let mut p = PartSpec {
        ptype,
        key_idx: r.below(2) as u8,
        seed: r.next(),
        tmd_contents: *r.pick(&[1u16, 1, 1, 2, 5, 40]),
        title: gen_title(r),
        apploader: a,
        dol,
        tree,
        len_mode: *r.pick(&[0u8, 0, 1, 1, 2]),
    };
    if o.aim {
        aim(r, &mut p);
    }
    p
}

pub fn gen_disc(r: &mut Rng, nparts: u64, o: PartOpts) -> DiscSpec {
    let parts = (0..nparts)
        .map(|_| {
            let t = if nparts == 1 { *r.pick(&[0u8, 0, 0, 1, 2]) } else { r.below(3) as u8 };
            gen_part(r, t, o)
        })
        .collect();
    DiscSpec { seed: r.next(), title: gen_title(r), parts }
}

// ---------------------------------------------------------------- shrinking

/// simpler variants of a tree, biggest cuts first
pub fn shrink_tree(t: &[Node]) -> Vec<Vec<Node>> {
    let mut out = Vec::new();
    if t.is_empty() {
        return out;
    }
    out.push(Vec::new());
    if t.len() > 3 {
        out.push(t[..t.len() / 2].to_vec());
        out.push(t[t.len() / 2..].to_vec());
    }
    for i in 0..t.len().min(24) {
        let mut c = t.to_vec();
        c.remove(i);
        out.push(c);
    }
    for i in 0..t.len().min(24) {
        match &t[i] {
            Node::D { name, kids } => {
                for k in shrink_tree(kids).into_iter().take(8) {
                    let mut c = t.to_vec();
                    c[i] = Node::D { name: name.clone(), kids: k };
                    out.push(c);
                }
                // pull the children up
                let mut c = t.to_vec();
                c.remove(i);
                let clash = kids.iter().any(|k| c.iter().any(|x| lower(x.name()) == lower(k.name())));
                if !clash && !kids.is_empty() {
                    c.extend(kids.iter().cloned());
                    sort_tree(&mut c);
                    out.push(c);
                }
            }
            Node::F { name, len, seed, pad } => {
                let mut alts = Vec::new();
                for l in [0, 1, len / 2] {
                    if l < *len {
                        alts.push(Node::F { name: name.clone(), len: l, seed: *seed, pad: *pad });
                    }
                }
                if *pad != 0 {
                    alts.push(Node::F { name: name.clone(), len: *len, seed: *seed, pad: 0 });
                }
                for a in alts {
                    let mut c = t.to_vec();
                    c[i] = a;
                    out.push(c);
                }
            }
        }
    }
    out
}

pub fn shrink_part(p: &PartSpec) -> Vec<PartSpec> {
    let mut out = Vec::new();
    for t in shrink_tree(&p.tree) {
        out.push(PartSpec { tree: t, ..p.clone() });
    }
    if p.dol.len() > 1 || p.dol.first().map_or(false, |x| *x > 16) {
        out.push(PartSpec { dol: vec![16], ..p.clone() });
    }
    if p.apploader != (16, 16) {
        out.push(PartSpec { apploader: (16, 16), ..p.clone() });
    }
    if p.tmd_contents > 1 {
        out.push(PartSpec { tmd_contents: 1, ..p.clone() });
    }
    if p.key_idx != 0 {
        out.push(PartSpec { key_idx: 0, ..p.clone() });
    }
    if p.title != "T" {
        out.push(PartSpec { title: "T".into(), ..p.clone() });
    }
    out
}

pub fn shrink_disc(d: &DiscSpec) -> Vec<DiscSpec> {
    let mut out = Vec::new();
    if d.parts.len() > 1 {
        for i in 0..d.parts.len() {
            let mut c = d.clone();
            c.parts.remove(i);
            out.push(c);
        }
    }
    for i in 0..d.parts.len() {
        for p in shrink_part(&d.parts[i]) {
            let mut c = d.clone();
            c.parts[i] = p;
            out.push(c);
        }
    }
    out
}
