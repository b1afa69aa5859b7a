//! Reference block and stream ciphers, written from FIPS 197, RFC 2268, RFC 2040 and the RC4 description,
//! independently of the library.

const fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = if a & 0x80 != 0 { (a << 1) ^ 0x1b } else { a << 1 };
        b >>= 1;
    }
    r
}
const fn make_sbox() -> [u8; 256] {
    let mut s = [0u8; 256];
    let mut x = 0;
    while x < 256 {
        let mut inv = 0u8;
        if x != 0 {
            // x^254
            let mut r = 1u8;
            let mut i = 0;
            while i < 254 {
                r = gmul(r, x as u8);
                i += 1;
            }
            inv = r;
        }
        let mut y = 0u8;
        let mut i = 0;
        while i < 8 {
            let bit = (inv >> i) ^ (inv >> ((i + 4) % 8)) ^ (inv >> ((i + 5) % 8)) ^ (inv >> ((i + 6) % 8)) ^ (inv >> ((i + 7) % 8)) ^ (0x63 >> i);
            y |= (bit & 1) << i;
            i += 1;
        }
        s[x] = y;
        x += 1;
    }
    s
}
const fn invert(s: &[u8; 256]) -> [u8; 256] {
    let mut r = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        r[s[i] as usize] = i as u8;
        i += 1;
    }
    r
}
const fn multab(k: u8) -> [u8; 256] {
    let mut r = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        r[i] = gmul(i as u8, k);
        i += 1;
    }
    r
}
#[allow(long_running_const_eval)]
static SBOX: [u8; 256] = make_sbox();
#[allow(long_running_const_eval)]
static INV: [u8; 256] = invert(&make_sbox());
static M2: [u8; 256] = multab(2);
static M3: [u8; 256] = multab(3);
static M9: [u8; 256] = multab(9);
static M11: [u8; 256] = multab(11);
static M13: [u8; 256] = multab(13);
static M14: [u8; 256] = multab(14);

#[derive(Clone)]
pub struct Aes {
    w: Vec<[u8; 4]>,
    nr: usize,
}
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [SBOX[t[1] as usize] ^ rcon, SBOX[t[2] as usize], SBOX[t[3] as usize], SBOX[t[0] as usize]];
                rcon = M2[rcon as usize];
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| SBOX[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes { w, nr }
    }
    fn ark(&self, s: &mut [u8; 16], r: usize) {
        for i in 0..16 {
            s[i] ^= self.w[4 * r + i / 4][i % 4];
        }
    }
    pub fn enc(&self, b: [u8; 16]) -> [u8; 16] {
        let mut s = b;
        self.ark(&mut s, 0);
        for r in 1..=self.nr {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = SBOX[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != self.nr {
                for c in 0..4 {
                    let a = [t[4 * c] as usize, t[4 * c + 1] as usize, t[4 * c + 2] as usize, t[4 * c + 3] as usize];
                    for row in 0..4 {
                        t[4 * c + row] = M2[a[row]] ^ M3[a[(row + 1) % 4]] ^ a[(row + 2) % 4] as u8 ^ a[(row + 3) % 4] as u8;
                    }
                }
            }
            s = t;
            self.ark(&mut s, r);
        }
        s
    }
    pub fn dec(&self, b: [u8; 16]) -> [u8; 16] {
        let mut s = b;
        for r in (1..=self.nr).rev() {
            self.ark(&mut s, r);
            if r != self.nr {
                for c in 0..4 {
                    let a = [s[4 * c] as usize, s[4 * c + 1] as usize, s[4 * c + 2] as usize, s[4 * c + 3] as usize];
                    for row in 0..4 {
                        s[4 * c + row] = M14[a[row]] ^ M11[a[(row + 1) % 4]] ^ M13[a[(row + 2) % 4]] ^ M9[a[(row + 3) % 4]];
                    }
                }
            }
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * ((c + row) % 4) + row] = INV[s[4 * c + row] as usize];
                }
            }
            s = t;
        }
        self.ark(&mut s, 0);
        s
    }
}

static PI: [u8; 256] = [
    0xd9, 0x78, 0xf9, 0xc4, 0x19, 0xdd, 0xb5, 0xed, 0x28, 0xe9, 0xfd, 0x79, 0x4a, 0xa0, 0xd8, 0x9d, 0xc6, 0x7e, 0x37, 0x83, 0x2b, 0x76, 0x53, 0x8e,
    0x62, 0x4c, 0x64, 0x88, 0x44, 0x8b, 0xfb, 0xa2, 0x17, 0x9a, 0x59, 0xf5, 0x87, 0xb3, 0x4f, 0x13, 0x61, 0x45, 0x6d, 0x8d, 0x09, 0x81, 0x7d, 0x32,
    0xbd, 0x8f, 0x40, 0xeb, 0x86, 0xb7, 0x7b, 0x0b, 0xf0, 0x95, 0x21, 0x22, 0x5c, 0x6b, 0x4e, 0x82, 0x54, 0xd6, 0x65, 0x93, 0xce, 0x60, 0xb2, 0x1c,
    0x73, 0x56, 0xc0, 0x14, 0xa7, 0x8c, 0xf1, 0xdc, 0x12, 0x75, 0xca, 0x1f, 0x3b, 0xbe, 0xe4, 0xd1, 0x42, 0x3d, 0xd4, 0x30, 0xa3, 0x3c, 0xb6, 0x26,
    0x6f, 0xbf, 0x0e, 0xda, 0x46, 0x69, 0x07, 0x57, 0x27, 0xf2, 0x1d, 0x9b, 0xbc, 0x94, 0x43, 0x03, 0xf8, 0x11, 0xc7, 0xf6, 0x90, 0xef, 0x3e, 0xe7,
    0x06, 0xc3, 0xd5, 0x2f, 0xc8, 0x66, 0x1e, 0xd7, 0x08, 0xe8, 0xea, 0xde, 0x80, 0x52, 0xee, 0xf7, 0x84, 0xaa, 0x72, 0xac, 0x35, 0x4d, 0x6a, 0x2a,
    0x96, 0x1a, 0xd2, 0x71, 0x5a, 0x15, 0x49, 0x74, 0x4b, 0x9f, 0xd0, 0x5e, 0x04, 0x18, 0xa4, 0xec, 0xc2, 0xe0, 0x41, 0x6e, 0x0f, 0x51, 0xcb, 0xcc,
    0x24, 0x91, 0xaf, 0x50, 0xa1, 0xf4, 0x70, 0x39, 0x99, 0x7c, 0x3a, 0x85, 0x23, 0xb8, 0xb4, 0x7a, 0xfc, 0x02, 0x36, 0x5b, 0x25, 0x55, 0x97, 0x31,
    0x2d, 0x5d, 0xfa, 0x98, 0xe3, 0x8a, 0x92, 0xae, 0x05, 0xdf, 0x29, 0x10, 0x67, 0x6c, 0xba, 0xc9, 0xd3, 0x00, 0xe6, 0xcf, 0xe1, 0x9e, 0xa8, 0x2c,
    0x63, 0x16, 0x01, 0x3f, 0x58, 0xe2, 0x89, 0xa9, 0x0d, 0x38, 0x34, 0x1b, 0xab, 0x33, 0xff, 0xb0, 0xbb, 0x48, 0x0c, 0x5f, 0xb9, 0xb1, 0xcd, 0x2e,
    0xc5, 0xf3, 0xdb, 0x47, 0xe5, 0xa5, 0x9c, 0x77, 0x0a, 0xa6, 0x20, 0x68, 0xfe, 0x7f, 0xc1, 0xad,
];

#[derive(Clone)]
pub struct Rc2 {
    k: [u16; 64],
}
impl Rc2 {
    /// RFC 2268: 1..=128 key bytes, 1..=1024 effective bits
    pub fn new(key: &[u8], bits: u32) -> Rc2 {
        let t = key.len();
        let mut l = key.to_vec();
        while l.len() < 128 {
            let n = l.len();
            l.push(PI[(l[n - 1] as usize + l[n - t] as usize) % 256]);
        }
        let t8 = ((bits + 7) / 8) as usize;
        let tm = (255u32 % (1 << (8 + bits as i32 - 8 * t8 as i32))) as u8;
        l[128 - t8] = PI[(l[128 - t8] & tm) as usize];
        for i in (0..128 - t8).rev() {
            l[i] = PI[(l[i + 1] ^ l[i + t8]) as usize];
        }
        let mut k = [0u16; 64];
        for i in 0..64 {
            k[i] = l[2 * i] as u16 + 256 * l[2 * i + 1] as u16;
        }
        Rc2 { k }
    }
    pub fn enc(&self, b: [u8; 8]) -> [u8; 8] {
        let mut r = [0u16; 4];
        for i in 0..4 {
            r[i] = b[2 * i] as u16 | (b[2 * i + 1] as u16) << 8;
        }
        let mut j = 0;
        let s = [1, 2, 3, 5];
        for phase in [5, 6, 5] {
            if j > 0 {
                for i in 0..4usize {
                    r[i] = r[i].wrapping_add(self.k[(r[(i + 3) & 3] & 63) as usize]);
                }
            }
            for _ in 0..phase {
                for i in 0..4usize {
                    let (p1, p2, p3) = (r[(i + 3) & 3], r[(i + 2) & 3], r[(i + 1) & 3]);
                    let v = r[i].wrapping_add(self.k[j]).wrapping_add(p1 & p2).wrapping_add(!p1 & p3);
                    r[i] = v << s[i] | v >> (16 - s[i]);
                    j += 1;
                }
            }
        }
        let mut o = [0; 8];
        for i in 0..4 {
            o[2 * i] = r[i] as u8;
            o[2 * i + 1] = (r[i] >> 8) as u8;
        }
        o
    }
    pub fn dec(&self, b: [u8; 8]) -> [u8; 8] {
        let mut r = [0u16; 4];
        for i in 0..4 {
            r[i] = b[2 * i] as u16 | (b[2 * i + 1] as u16) << 8;
        }
        let s = [1, 2, 3, 5];
        let mut j = 64;
        for (n, phase) in [5, 6, 5].into_iter().enumerate() {
            for _ in 0..phase {
                for i in (0..4usize).rev() {
                    j -= 1;
                    let v = r[i] >> s[i] | r[i] << (16 - s[i]);
                    let (p1, p2, p3) = (r[(i + 3) & 3], r[(i + 2) & 3], r[(i + 1) & 3]);
                    r[i] = v.wrapping_sub(self.k[j]).wrapping_sub(p1 & p2).wrapping_sub(!p1 & p3);
                }
            }
            if n < 2 {
                for i in (0..4usize).rev() {
                    r[i] = r[i].wrapping_sub(self.k[(r[(i + 3) & 3] & 63) as usize]);
                }
            }
        }
        let mut o = [0; 8];
        for i in 0..4 {
            o[2 * i] = r[i] as u8;
            o[2 * i + 1] = (r[i] >> 8) as u8;
        }
        o
    }
}

#[derive(Clone)]
pub struct Rc5 {
    s: Vec<u32>,
    r: usize,
}
impl Rc5 {
    /// RC5-32/r/b, RFC 2040: 0..=255 rounds, 0..=255 key bytes
    pub fn new(key: &[u8], r: usize) -> Rc5 {
        let b = key.len();
        let c = (b.max(1) + 3) / 4;
        let mut l = vec![0u32; c];
        for i in (0..b).rev() {
            l[i / 4] = (l[i / 4] << 8).wrapping_add(key[i] as u32);
        }
        let t = 2 * (r + 1);
        let mut s = vec![0u32; t];
        s[0] = 0xb7e15163;
        for i in 1..t {
            s[i] = s[i - 1].wrapping_add(0x9e3779b9);
        }
        let (mut a, mut bb, mut i, mut j) = (0u32, 0u32, 0, 0);
        for _ in 0..3 * t.max(c) {
            a = s[i].wrapping_add(a).wrapping_add(bb).rotate_left(3);
            s[i] = a;
            let sum = a.wrapping_add(bb);
            bb = l[j].wrapping_add(sum).rotate_left(sum & 31);
            l[j] = bb;
            i = (i + 1) % t;
            j = (j + 1) % c;
        }
        Rc5 { s, r }
    }
    pub fn enc(&self, b: [u8; 8]) -> [u8; 8] {
        let mut x = u32::from_le_bytes([b[0], b[1], b[2], b[3]]).wrapping_add(self.s[0]);
        let mut y = u32::from_le_bytes([b[4], b[5], b[6], b[7]]).wrapping_add(self.s[1]);
        for i in 1..=self.r {
            x = (x ^ y).rotate_left(y & 31).wrapping_add(self.s[2 * i]);
            y = (y ^ x).rotate_left(x & 31).wrapping_add(self.s[2 * i + 1]);
        }
        let mut o = [0; 8];
        o[..4].copy_from_slice(&x.to_le_bytes());
        o[4..].copy_from_slice(&y.to_le_bytes());
        o
    }
    pub fn dec(&self, b: [u8; 8]) -> [u8; 8] {
        let mut x = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let mut y = u32::from_le_bytes([b[4], b[5], b[6], b[7]]);
        for i in (1..=self.r).rev() {
            y = y.wrapping_sub(self.s[2 * i + 1]).rotate_right(x & 31) ^ x;
            x = x.wrapping_sub(self.s[2 * i]).rotate_right(y & 31) ^ y;
        }
        y = y.wrapping_sub(self.s[1]);
        x = x.wrapping_sub(self.s[0]);
        let mut o = [0; 8];
        o[..4].copy_from_slice(&x.to_le_bytes());
        o[4..].copy_from_slice(&y.to_le_bytes());
        o
    }
}

#[derive(Clone)]
pub struct Rc4 {
    s: Vec<usize>,
    i: usize,
    j: usize,
}
impl Rc4 {
    pub fn new(key: &[u8]) -> Rc4 {
        let mut s: Vec<usize> = (0..256).collect();
        let mut j = 0;
        for i in 0..256 {
            j = (j + s[i] + key[i % key.len()] as usize) % 256;
            s.swap(i, j);
        }
        Rc4 { s, i: 0, j: 0 }
    }
    pub fn byte(&mut self) -> u8 {
        self.i = (self.i + 1) % 256;
        self.j = (self.j + self.s[self.i]) % 256;
        self.s.swap(self.i, self.j);
        self.s[(self.s[self.i] + self.s[self.j]) % 256] as u8
    }
    pub fn stream(key: &[u8], n: usize) -> Vec<u8> {
        let mut r = Rc4::new(key);
        (0..n).map(|_| r.byte()).collect()
    }
}
