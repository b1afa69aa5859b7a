//! Reference natural numbers: 32-bit limbs, schoolbook multiplication, Knuth division.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Nat(pub Vec<u32>); // little endian, no leading zero limb

impl Nat {
    pub fn zero() -> Nat {
        Nat(vec![])
    }
    fn norm(mut self) -> Nat {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn from_u128(v: u128) -> Nat {
        Nat((0..4).map(|i| (v >> (32 * i)) as u32).collect()).norm()
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 {
            return None;
        }
        Some(self.0.iter().enumerate().map(|(i, &l)| (l as u128) << (32 * i)).sum())
    }
    pub fn from_be(b: &[u8]) -> Nat {
        let mut v = vec![0u32; b.len() / 4 + 1];
        for (i, &x) in b.iter().rev().enumerate() {
            v[i / 4] |= (x as u32) << (8 * (i % 4));
        }
        Nat(v).norm()
    }
    pub fn from_le(b: &[u8]) -> Nat {
        let mut r = b.to_vec();
        r.reverse();
        Nat::from_be(&r)
    }
    pub fn from_hex(s: &str) -> Nat {
        let mut b = vec![];
        let s = if s.len() % 2 == 1 { format!("0{s}") } else { s.to_string() };
        for i in (0..s.len()).step_by(2) {
            b.push(u8::from_str_radix(&s[i..i + 2], 16).unwrap());
        }
        Nat::from_be(&b)
    }
    /// minimal big-endian bytes (none for zero)
    pub fn to_be(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|l| l.to_le_bytes()).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        v.reverse();
        v
    }
    pub fn to_be_len(&self, n: usize) -> Vec<u8> {
        let v = self.to_be();
        assert!(v.len() <= n);
        let mut o = vec![0; n - v.len()];
        o.extend(v);
        o
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => 32 * self.0.len() - t.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 32).is_some_and(|l| l >> (i % 32) & 1 == 1)
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let mut v = vec![];
        let mut c = 0u64;
        for i in 0..self.0.len().max(o.0.len()) {
            let s = c + *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            v.push(s as u32);
            c = s >> 32;
        }
        v.push(c as u32);
        Nat(v).norm()
    }
    /// self - o, self >= o
    pub fn sub(&self, o: &Nat) -> Nat {
        let mut v = vec![];
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 + b;
            b = 0;
            if d < 0 {
                d += 1 << 32;
                b = -1;
            }
            v.push(d as u32);
        }
        assert_eq!(b, 0);
        Nat(v).norm()
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut v = vec![0u32; self.0.len() + o.0.len()];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u64 * b as u64 + v[i + j] as u64 + c;
                v[i + j] = t as u32;
                c = t >> 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        Nat(v).norm()
    }
    pub fn shl(&self, n: usize) -> Nat {
        if self.is_zero() {
            return Nat::zero();
        }
        let mut v = vec![0u32; n / 32];
        let s = n % 32;
        let mut c = 0u64;
        for &l in &self.0 {
            let t = (l as u64) << s | c;
            v.push(t as u32);
            c = t >> 32;
        }
        v.push(c as u32);
        Nat(v).norm()
    }
    pub fn shr(&self, n: usize) -> Nat {
        let k = n / 32;
        if k >= self.0.len() {
            return Nat::zero();
        }
        let s = n % 32;
        let a = &self.0[k..];
        let v = (0..a.len())
            .map(|i| {
                let hi = *a.get(i + 1).unwrap_or(&0) as u64;
                ((hi << 32 | a[i] as u64) >> s) as u32
            })
            .collect();
        Nat(v).norm()
    }
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero());
        if self.cmp(d) == Ordering::Less {
            return (Nat::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let dv = d.0[0] as u64;
            let mut r = 0u64;
            let mut q = vec![0; self.0.len()];
            for i in (0..self.0.len()).rev() {
                let t = r << 32 | self.0[i] as u64;
                q[i] = (t / dv) as u32;
                r = t % dv;
            }
            return (Nat(q).norm(), Nat(vec![r as u32]).norm());
        }
        // Knuth D
        let s = d.0.last().unwrap().leading_zeros() as usize;
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        let n = v.len();
        if u.len() == self.0.len() {
            u.push(0);
        }
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let num = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >> 32 != 0 || qh * v[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >> 32 != 0 {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + carry;
                carry = p >> 32;
                let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - borrow - carry as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let s = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = s as u32;
                    c = s >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (Nat(q).norm(), Nat(u).norm().shr(s))
    }
    pub fn rem(&self, d: &Nat) -> Nat {
        self.divrem(d).1
    }
    pub fn powmod(&self, e: &Nat, m: &Nat) -> Nat {
        let b = self.rem(m);
        let mut r = Nat::from_u128(1).rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem(m);
            if e.bit(i) {
                r = r.mul(&b).rem(m);
            }
        }
        r
    }
    pub fn gcd(&self, o: &Nat) -> Nat {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            (a, b) = (b.clone(), a.rem(&b));
        }
        a
    }
    /// inverse of self mod m, if coprime
    pub fn inv(&self, m: &Nat) -> Option<Nat> {
        // coefficients kept non-negative modulo m
        let (mut r0, mut r1) = (m.clone(), self.rem(m));
        let (mut t0, mut t1) = (Nat::zero(), Nat::from_u128(1));
        while !r1.is_zero() {
            let (q, r) = r0.divrem(&r1);
            let qt = q.mul(&t1).rem(m);
            let t = t0.add(m).sub(&qt).rem(m);
            (r0, r1) = (r1, r);
            (t0, t1) = (t1, t);
        }
        (r0 == Nat::from_u128(1)).then_some(t0)
    }
    pub fn is_prime(&self) -> bool {
        // Miller-Rabin with fixed bases, enough for the sizes used here
        let two = Nat::from_u128(2);
        if self.cmp(&two) == Ordering::Less {
            return false;
        }
        for p in [2u128, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41] {
            let p = Nat::from_u128(p);
            if *self == p {
                return true;
            }
            if self.rem(&p).is_zero() {
                return false;
            }
        }
        let one = Nat::from_u128(1);
        let n1 = self.sub(&one);
        let s = (0..).find(|&i| n1.bit(i)).unwrap();
        let d = n1.shr(s);
        'a: for a in [2u128, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41] {
            let mut x = Nat::from_u128(a).powmod(&d, self);
            if x == one || x == n1 {
                continue;
            }
            for _ in 1..s {
                x = x.mul(&x).rem(self);
                if x == n1 {
                    continue 'a;
                }
            }
            return false;
        }
        true
    }
}
