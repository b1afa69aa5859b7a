//! Reference digests, written from the RFCs and FIPS 180-4, independently of the library.

fn pad(msg: &[u8], block: usize, lenbytes: usize, be: bool) -> Vec<u8> {
    pad_with(msg, msg.len() as u64, block, lenbytes, be)
}
fn pad_with(tail: &[u8], total: u64, block: usize, lenbytes: usize, be: bool) -> Vec<u8> {
    let mut v = tail.to_vec();
    v.push(0x80);
    while v.len() % block != block - lenbytes {
        v.push(0);
    }
    let bits = (total as u128) * 8;
    if be {
        v.extend_from_slice(&bits.to_be_bytes()[16 - lenbytes..]);
    } else {
        v.extend_from_slice(&bits.to_le_bytes()[..lenbytes]);
    }
    v
}

static PI_SUBST: [u8; 256] = [
    41, 46, 67, 201, 162, 216, 124, 1, 61, 54, 84, 161, 236, 240, 6, 19, 98, 167, 5, 243, 192, 199, 115, 140, 152, 147, 43, 217, 188, 76, 130, 202,
    30, 155, 87, 60, 253, 212, 224, 22, 103, 66, 111, 24, 138, 23, 229, 18, 190, 78, 196, 214, 218, 158, 222, 73, 160, 251, 245, 142, 187, 47, 238, 122,
    169, 104, 121, 145, 21, 178, 7, 63, 148, 194, 16, 137, 11, 34, 95, 33, 128, 127, 93, 154, 90, 144, 50, 39, 53, 62, 204, 231, 191, 247, 151, 3,
    255, 25, 48, 179, 72, 165, 181, 209, 215, 94, 146, 42, 172, 86, 170, 198, 79, 184, 56, 210, 150, 164, 125, 182, 118, 252, 107, 226, 156, 116, 4, 241,
    69, 157, 112, 89, 100, 113, 135, 32, 134, 91, 207, 101, 230, 45, 168, 2, 27, 96, 37, 173, 174, 176, 185, 246, 28, 70, 97, 105, 52, 64, 126, 15,
    85, 71, 163, 35, 221, 81, 175, 58, 195, 92, 249, 206, 186, 197, 234, 38, 44, 83, 13, 110, 133, 40, 132, 9, 211, 223, 205, 244, 65, 129, 77, 82,
    106, 220, 55, 200, 108, 193, 171, 250, 36, 225, 123, 8, 12, 189, 177, 74, 120, 136, 149, 139, 227, 99, 232, 109, 233, 203, 213, 254, 59, 0, 29, 57,
    242, 239, 183, 14, 102, 88, 208, 228, 166, 119, 114, 248, 235, 117, 75, 10, 49, 68, 80, 180, 143, 237, 31, 26, 219, 153, 141, 51, 159, 17, 131, 20,
];

pub fn md2(msg: &[u8]) -> [u8; 16] {
    let mut m = msg.to_vec();
    let p = 16 - m.len() % 16;
    m.extend(std::iter::repeat_n(p as u8, p));
    // checksum
    let mut c = [0u8; 16];
    let mut l = 0u8;
    for blk in m.chunks(16) {
        for j in 0..16 {
            c[j] ^= PI_SUBST[(blk[j] ^ l) as usize];
            l = c[j];
        }
    }
    m.extend_from_slice(&c);
    let mut x = [0u8; 48];
    for blk in m.chunks(16) {
        for j in 0..16 {
            x[16 + j] = blk[j];
            x[32 + j] = x[16 + j] ^ x[j];
        }
        let mut t = 0usize;
        for j in 0..18 {
            for b in x.iter_mut() {
                *b ^= PI_SUBST[t];
                t = *b as usize;
            }
            t = (t + j) % 256;
        }
    }
    x[..16].try_into().unwrap()
}

/// MD4/MD5 with a running state, so that very long messages need no buffer.
#[derive(Clone)]
pub struct Md {
    five: bool,
    s: [u32; 4],
    tail: Vec<u8>,
    total: u64,
}
impl Md {
    pub fn new(five: bool) -> Md {
        Md { five, s: [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476], tail: vec![], total: 0 }
    }
    pub fn add(&mut self, b: &[u8]) {
        self.total += b.len() as u64;
        let mut b = b;
        if !self.tail.is_empty() {
            let n = (64 - self.tail.len()).min(b.len());
            self.tail.extend_from_slice(&b[..n]);
            b = &b[n..];
            if self.tail.len() < 64 {
                return;
            }
            let t = std::mem::take(&mut self.tail);
            self.block(&t);
        }
        let mut it = b.chunks_exact(64);
        for c in &mut it {
            self.block(c);
        }
        self.tail.extend_from_slice(it.remainder());
    }
    pub fn end(mut self) -> [u8; 16] {
        let t = pad_with(&self.tail, self.total, 64, 8, false);
        for c in t.chunks(64) {
            self.block(c);
        }
        let mut o = [0; 16];
        for i in 0..4 {
            o[4 * i..4 * i + 4].copy_from_slice(&self.s[i].to_le_bytes());
        }
        o
    }
    fn block(&mut self, blk: &[u8]) {
        let mut x = [0u32; 16];
        for i in 0..16 {
            x[i] = u32::from_le_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
        }
        if self.five { self.block5(&x) } else { self.block4(&x) }
    }
    fn block4(&mut self, x: &[u32; 16]) {
        let [mut a, mut b, mut c, mut d] = self.s;
        let order: [[usize; 16]; 3] = [
            [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
            [0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15],
            [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15],
        ];
        let rot = [[3, 7, 11, 19], [3, 5, 9, 13], [3, 9, 11, 15]];
        for r in 0..3 {
            for i in 0..16 {
                let (f, k) = match r {
                    0 => ((b & c) | (!b & d), 0),
                    1 => ((b & c) | (b & d) | (c & d), 0x5a827999),
                    _ => (b ^ c ^ d, 0x6ed9eba1),
                };
                let t = a.wrapping_add(f).wrapping_add(x[order[r][i]]).wrapping_add(k).rotate_left(rot[r][i % 4]);
                (a, b, c, d) = (d, t, b, c);
            }
        }
        for (s, v) in self.s.iter_mut().zip([a, b, c, d]) {
            *s = s.wrapping_add(v);
        }
    }
    fn block5(&mut self, x: &[u32; 16]) {
        let [mut a, mut b, mut c, mut d] = self.s;
        let rot = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
        for i in 0..64usize {
            let (f, k) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((b & d) | (c & !d), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), 7 * i % 16),
            };
            let t = a.wrapping_add(f).wrapping_add(x[k]).wrapping_add(md5_t(i)).rotate_left(rot[i / 16][i % 4]);
            (a, b, c, d) = (d, b.wrapping_add(t), b, c);
        }
        for (s, v) in self.s.iter_mut().zip([a, b, c, d]) {
            *s = s.wrapping_add(v);
        }
    }
}
fn md5_t(i: usize) -> u32 {
    static T: std::sync::OnceLock<[u32; 64]> = std::sync::OnceLock::new();
    T.get_or_init(|| std::array::from_fn(|i| (((i + 1) as f64).sin().abs() * 4294967296.0) as u32))[i]
}
pub fn md4(m: &[u8]) -> [u8; 16] {
    let mut h = Md::new(false);
    h.add(m);
    h.end()
}
pub fn md5(m: &[u8]) -> [u8; 16] {
    let mut h = Md::new(true);
    h.add(m);
    h.end()
}

pub fn sha1(m: &[u8]) -> [u8; 20] {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for blk in pad(m, 64, 8, true).chunks(64) {
        let mut w = [0u32; 80];
        for t in 0..80 {
            w[t] = if t < 16 {
                u32::from_be_bytes([blk[4 * t], blk[4 * t + 1], blk[4 * t + 2], blk[4 * t + 3]])
            } else {
                (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1)
            };
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for t in 0..80 {
            let (f, k) = match t / 20 {
                0 => ((b & c) ^ (!b & d), 0x5a827999u32),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let v = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[t]);
            (e, d, c, b, a) = (d, c, b.rotate_left(30), a, v);
        }
        for (x, v) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(v);
        }
    }
    let mut o = [0; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

/// First 64 fractional bits of the square (2) or cube (3) root of n, by integer root extraction.
fn frac_root(n: u64, k: u32) -> u64 {
    // floor(n^(1/k) * 2^64) as u128 by bisection with exact big comparison
    let (mut lo, mut hi) = (0u128, 1u128 << 72);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if pow_le(mid, k, n) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u64
}
/// x^k <= n * 2^(64k)
fn pow_le(x: u128, k: u32, n: u64) -> bool {
    use crate::num::Nat;
    let x = Nat::from_u128(x);
    let mut p = Nat::from_u128(1);
    for _ in 0..k {
        p = p.mul(&x);
    }
    p.cmp(&Nat::from_u128(n as u128).shl(64 * k as usize)) != std::cmp::Ordering::Greater
}
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}
struct Sha2 {
    k: [u64; 80],
    h512: [u64; 8],
    h384: [u64; 8],
}
fn tables() -> &'static Sha2 {
    static T: std::sync::OnceLock<Sha2> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let p = primes(80);
        Sha2 {
            k: std::array::from_fn(|i| frac_root(p[i], 3)),
            h512: std::array::from_fn(|i| frac_root(p[i], 2)),
            h384: std::array::from_fn(|i| frac_root(p[i + 8], 2)),
        }
    })
}
/// Builds the constant tables (call once before runs fork).
pub fn warm_up() {
    tables();
    md5_t(0);
}

fn sha2_32(m: &[u8], mut h: [u32; 8]) -> [u8; 32] {
    let tb = tables();
    for blk in pad(m, 64, 8, true).chunks(64) {
        let mut w = [0u32; 64];
        for t in 0..64 {
            w[t] = if t < 16 {
                u32::from_be_bytes([blk[4 * t], blk[4 * t + 1], blk[4 * t + 2], blk[4 * t + 3]])
            } else {
                let (x, y) = (w[t - 15], w[t - 2]);
                let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
                let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
                w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1)
            };
        }
        let mut v = h;
        for t in 0..64 {
            let e = v[4];
            let a = v[0];
            let t1 = v[7]
                .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
                .wrapping_add((e & v[5]) ^ (!e & v[6]))
                .wrapping_add((tb.k[t] >> 32) as u32)
                .wrapping_add(w[t]);
            let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
fn sha2_64(m: &[u8], mut h: [u64; 8]) -> [u8; 64] {
    let tb = tables();
    for blk in pad(m, 128, 16, true).chunks(128) {
        let mut w = [0u64; 80];
        for t in 0..80 {
            w[t] = if t < 16 {
                u64::from_be_bytes(blk[8 * t..8 * t + 8].try_into().unwrap())
            } else {
                let (x, y) = (w[t - 15], w[t - 2]);
                let s0 = x.rotate_right(1) ^ x.rotate_right(8) ^ (x >> 7);
                let s1 = y.rotate_right(19) ^ y.rotate_right(61) ^ (y >> 6);
                w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1)
            };
        }
        let mut v = h;
        for t in 0..80 {
            let e = v[4];
            let a = v[0];
            let t1 = v[7]
                .wrapping_add(e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41))
                .wrapping_add((e & v[5]) ^ (!e & v[6]))
                .wrapping_add(tb.k[t])
                .wrapping_add(w[t]);
            let t2 = (a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39)).wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0; 64];
    for i in 0..8 {
        o[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
pub fn sha256(m: &[u8]) -> [u8; 32] {
    let t = tables();
    sha2_32(m, t.h512.map(|x| (x >> 32) as u32))
}
pub fn sha224(m: &[u8]) -> [u8; 28] {
    // the low halves of the SHA-384 initial values
    let t = tables();
    sha2_32(m, t.h384.map(|x| x as u32))[..28].try_into().unwrap()
}
pub fn sha512(m: &[u8]) -> [u8; 64] {
    sha2_64(m, tables().h512)
}
pub fn sha384(m: &[u8]) -> [u8; 48] {
    sha2_64(m, tables().h384)[..48].try_into().unwrap()
}

pub fn mgf1(seed: &[u8], len: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut c = 0u32;
    while v.len() < len {
        let mut s = seed.to_vec();
        s.extend_from_slice(&c.to_be_bytes());
        v.extend_from_slice(&sha256(&s));
        c += 1;
    }
    v.truncate(len);
    v
}
/// EME-OAEP encoding (RFC 8017) with SHA-256
pub fn oaep_encode(label: &[u8], msg: &[u8], k: usize, seed: &[u8; 32]) -> Option<Vec<u8>> {
    if msg.len() + 66 > k {
        return None;
    }
    let mut db = sha256(label).to_vec();
    db.resize(k - 33 - 1 - msg.len(), 0);
    db.push(1);
    db.extend_from_slice(msg);
    let mask = mgf1(seed, k - 33);
    for (a, b) in db.iter_mut().zip(&mask) {
        *a ^= b;
    }
    let sm = mgf1(&db, 32);
    let mut o = vec![0];
    o.extend(seed.iter().zip(&sm).map(|(a, b)| a ^ b));
    o.extend(db);
    Some(o)
}
/// The seed and message of an encoded block of k bytes, if it is well formed.
pub fn oaep_decode(label: &[u8], em: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    if em.len() < 66 || em[0] != 0 {
        return None;
    }
    let sm = mgf1(&em[33..], 32);
    let seed: Vec<u8> = em[1..33].iter().zip(&sm).map(|(a, b)| a ^ b).collect();
    let dm = mgf1(&seed, em.len() - 33);
    let db: Vec<u8> = em[33..].iter().zip(&dm).map(|(a, b)| a ^ b).collect();
    if db[..32] != sha256(label) {
        return None;
    }
    let i = db[32..].iter().position(|&b| b != 0)?;
    (db[32 + i] == 1).then(|| (seed, db[33 + i..].to_vec()))
}
