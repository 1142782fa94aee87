//! The only source of randomness in the simulator.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b).rotate_left(17))
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability permille/1000
    pub fn chance(&mut self, permille: u64) -> bool {
        self.below(1000) < permille
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut out = [0u8; N];
        fill_random(self.next(), &mut out);
        out
    }
}

pub fn fill_random(seed: u64, out: &mut [u8]) {
    let mut s = mix(seed);
    let mut chunks = out.chunks_exact_mut(8);
    for c in &mut chunks {
        // xorshift64*
        s ^= s >> 12;
        s ^= s << 25;
        s ^= s >> 27;
        c.copy_from_slice(&s.wrapping_mul(0x2545_F491_4F6C_DD1D).to_le_bytes());
    }
    let rest = chunks.into_remainder();
    if !rest.is_empty() {
        s ^= s >> 12;
        s ^= s << 25;
        s ^= s >> 27;
        let b = s.wrapping_mul(0x2545_F491_4F6C_DD1D).to_le_bytes();
        let n = rest.len();
        rest.copy_from_slice(&b[..n]);
    }
}

/// the bytes of a file or object with this content seed
pub fn fill_content(seed: u64, out: &mut [u8]) {
    match seed & 7 {
        0 => out.fill(0),
        1 => out.fill((seed >> 8) as u8),
        2 => {
            for (i, b) in out.iter_mut().enumerate() {
                *b = ((i as u64).wrapping_mul(0x9E37_79B9) >> 16) as u8 ^ (seed >> 8) as u8;
            }
        }
        _ => fill_random(seed, out),
    }
}

pub fn content(seed: u64, len: usize) -> Vec<u8> {
    let mut v = vec![0; len];
    fill_content(seed, &mut v);
    v
}
