//! C10, C11 and C15: RSA messages over a faulty channel, OAEP blocks under damage, and entropy.
use crate::text::{key_private_der, key_public_der, to_nat};
use crate::util::*;
use cryptography::big::BigUint;
use cryptography::pem::PEM;
use cryptography::rsa::{PaddingScheme, PrivateKey, PublicKey, RsaEncryption, RsaPadding, create_keys};
use refmodel::hash::{mgf1, oaep_decode, oaep_encode, sha256};
use refmodel::keys::{KEYS, Key};
use refmodel::num::Nat;
use refmodel::text::pem_text;
use simrt::*;
use std::cell::Cell;
use std::str::FromStr;

pub fn big(n: &Nat) -> BigUint {
    BigUint::from_be_bytes(n.to_be())
}

// ---------------------------------------------------------------------------------------------------------
// a caller's own padding scheme: 00 FF..FF 00 message; minds its lengths

struct Strict<'a> {
    k: usize,
    wrong: &'a Cell<bool>,
    fail: bool,
    /// uses the same encryptors while it is being asked
    nested: Option<&'a Party>,
}
fn strict_encode(msg: &[u8], k: usize) -> Option<Vec<u8>> {
    let ff = k.checked_sub(msg.len() + 2)?;
    let mut v = vec![0];
    v.extend(std::iter::repeat_n(0xff, ff));
    v.push(0);
    v.extend_from_slice(msg);
    Some(v)
}
fn strict_decode(em: &[u8]) -> Option<Vec<u8>> {
    if em.first() != Some(&0) {
        return None;
    }
    let i = 1 + em[1..].iter().position(|&b| b != 0xff)?;
    (em[i] == 0).then(|| em[i + 1..].to_vec())
}
impl Strict<'_> {
    fn nest(&self) {
        let Some(p) = self.nested else { return };
        fault("fault.padding_scheme_reenters");
        let wrong = Cell::new(false);
        let plain = || Strict { k: p.k, wrong: &wrong, fail: false, nested: None };
        let msg = vec![7u8; p.k - 2];
        let r = attempt(|| {
            let c = p.send.encrypt_message(&msg, plain());
            let m = p.recv.decrypt_message(&c, plain());
            (c, m)
        });
        match r {
            Outcome::Done((c, m)) => {
                check!(!wrong.get() && p.model(&c).as_ref() == Some(&msg) && m == msg, "nested", "a message sent by the padding scheme of another ({} bit key) became {}, and arrived as {}", p.key.bits, show(&c), show(&m))
            }
            o => violation("nested", &format!("a message sent by the padding scheme of another ({} bit key): {}", p.key.bits, o.name())),
        }
    }
}
impl PaddingScheme for Strict<'_> {
    fn encode(&self, label: &[u8], message: &[u8], n_len: usize) -> Vec<u8> {
        seam(|| {
            if n_len != self.k || !label.is_empty() {
                self.wrong.set(true);
            }
            self.nest();
            if self.fail {
                crash_now("fault.padding_scheme_failed");
            }
            match strict_encode(message, n_len) {
                Some(v) => v,
                None => std::panic::resume_unwind(Box::new("message too long".to_string())),
            }
        })
    }
    fn decode(&self, label: &[u8], em: &[u8], n_len: usize) -> Result<Vec<u8>, &'static str> {
        seam(|| {
            if n_len != self.k || em.len() != n_len || !label.is_empty() {
                return Err("wrong length");
            }
            self.nest();
            if self.fail {
                crash_now("fault.padding_scheme_failed");
            }
            strict_decode(em).ok_or("malformed")
        })
    }
}

/// No padding at all: the message is the block, and has to be below the modulus.
struct Raw {
    k: usize,
}
impl PaddingScheme for Raw {
    fn encode(&self, _label: &[u8], message: &[u8], n_len: usize) -> Vec<u8> {
        seam(|| {
            if n_len != self.k || message.len() != n_len {
                std::panic::resume_unwind(Box::new("wrong length".to_string()));
            }
            message.to_vec()
        })
    }
    fn decode(&self, _label: &[u8], em: &[u8], n_len: usize) -> Result<Vec<u8>, &'static str> {
        seam(|| if n_len != self.k || em.len() != n_len { Err("wrong length") } else { Ok(em.to_vec()) })
    }
}

// ---------------------------------------------------------------------------------------------------------
// C10

struct Party {
    key: &'static Key,
    n: Nat,
    d: Nat,
    k: usize,
    send: RsaEncryption,
    recv: RsaEncryption,
    oaep: bool,
    raw: bool,
}

fn choose_key() -> &'static Key {
    let class = match draw(40) {
        0..=24 => 0,
        25..=37 => 1,
        38 => 2,
        _ if chance(1, 20) => 4,
        _ => 3,
    };
    let fits = |k: &&Key| match class {
        0 => k.kind == "small" || k.kind == "full",
        4 => k.kind == "large",
        1 => k.kind == "fast" && k.bits <= 609,
        2 => k.kind == "fast" && k.bits > 609,
        _ => k.kind == "real" && k.bits < 545,
    };
    let all: Vec<&'static Key> = KEYS.iter().filter(fits).collect();
    pick(&all)
}

fn load_pair(key: &'static Key) -> (PrivateKey, PublicKey) {
    let n = Nat::from_hex(key.n);
    if n.bits() <= 128 && chance(1, 2) {
        let (p, q, e) = (Nat::from_hex(key.p), Nat::from_hex(key.q), Nat::from_hex(key.e));
        ev("create-keys", &[key.bits as u64]);
        return must("create_keys", || create_keys(big(&p), big(&q), big(&e)));
    }
    let pem = |label: &str, der: Vec<u8>| {
        let t = pem_text(label, &der);
        match attempt(|| PEM::from_str(&t)) {
            Outcome::Done(Ok(p)) => p,
            _ => violation("key-load", &format!("a well-formed PEM file is refused: {t}")),
        }
    };
    let (pr, pu) = (pem("PRIVATE KEY", key_private_der(key).enc()), pem("PUBLIC KEY", key_public_der(key).enc()));
    ev("load-keys", &[key.bits as u64]);
    match (attempt(|| PrivateKey::try_from(pr)), attempt(|| PublicKey::try_from(pu))) {
        (Outcome::Done(Ok(a)), Outcome::Done(Ok(b))) => (a, b),
        _ => violation("key-load", &format!("a well-formed {} bit key is refused", key.bits)),
    }
}

impl Party {
    fn new() -> Party {
        let key = choose_key();
        let n = Nat::from_hex(key.n);
        let k = n.bits().div_ceil(8);
        let (pr, pu) = load_pair(key);
        let oaep = k >= 66 && chance(3, 4);
        let raw = !oaep && chance(1, 6);
        Party { key, d: Nat::from_hex(key.d), k, send: pu.into(), recv: pr.into(), oaep, raw, n }
    }
    fn max_len(&self) -> usize {
        self.k.saturating_sub(if self.oaep { 66 } else if self.raw { 0 } else { 2 })
    }
    fn encrypt(&self, msg: &[u8], fail: bool) -> Outcome<Vec<u8>> {
        if self.oaep {
            return attempt(|| self.send.encrypt_message(msg, RsaPadding));
        }
        if self.raw {
            return attempt(|| self.send.encrypt_message(msg, Raw { k: self.k }));
        }
        let wrong = Cell::new(false);
        let nested = self.nested();
        let r = attempt(|| self.send.encrypt_message(msg, Strict { k: self.k, wrong: &wrong, fail, nested }));
        check!(!wrong.get(), "padding-length", "encrypting with a {} bit key asked the padding scheme for another length than {} bytes or with a label", self.key.bits, self.k);
        r
    }
    fn decrypt(&self, ct: &[u8], fail: bool) -> Outcome<Vec<u8>> {
        if self.oaep {
            return attempt(|| self.recv.decrypt_message(ct, RsaPadding));
        }
        if self.raw {
            return attempt(|| self.recv.decrypt_message(ct, Raw { k: self.k }));
        }
        let wrong = Cell::new(false);
        let nested = self.nested();
        attempt(|| self.recv.decrypt_message(ct, Strict { k: self.k, wrong: &wrong, fail, nested }))
    }
    fn nested(&self) -> Option<&Party> {
        (self.key.bits <= 128 && self.k >= 3 && chance(1, 12)).then_some(self)
    }
    /// what the ciphertext really holds
    fn model(&self, ct: &[u8]) -> Option<Vec<u8>> {
        let m = Nat::from_be(ct).powmod(&self.d, &self.n);
        let em = m.to_be_len(self.k);
        match (self.oaep, self.raw) {
            (true, _) => oaep_decode(b"", &em).map(|x| x.1),
            (_, true) => Some(em),
            _ => strict_decode(&em),
        }
    }
}

struct Parcel {
    to: usize,
    sent_to: usize,
    msg: usize,
    bytes: Vec<u8>,
    intact: bool,
    at: u64,
}

/// A whole block, near the modulus as a rule and sometimes above it.
fn raw_block(p: &Party) -> Vec<u8> {
    let one = Nat::from_u128(1);
    let small = Nat::from_u128(draw(300) as u128);
    let all = Nat::from_be(&vec![0xff; p.k]);
    let m = match draw(6) {
        0 => Nat::from_be(&gen_bytes(p.k)),
        1 => p.n.sub(&one),
        2 => p.n.clone(),
        3 if small.cmp(&p.n) == std::cmp::Ordering::Less => p.n.sub(&small),
        4 => p.n.add(&small),
        _ => Nat::from_be(&gen_bytes(p.k)).rem(&p.n),
    };
    if m.cmp(&all) == std::cmp::Ordering::Greater { all.to_be_len(p.k) } else { m.to_be_len(p.k) }
}

fn raw_numbers(p: &Party) {
    // the numeric interface
    let m = match draw(5) {
        0 => Nat::zero(),
        1 => Nat::from_u128(1),
        2 => p.n.sub(&Nat::from_u128(1)),
        _ => Nat::from_be(&gen_bytes(p.k + 1)).rem(&p.n),
    };
    let e = Nat::from_hex(p.key.e);
    let want = m.powmod(&e, &p.n);
    ev_bytes("number", &m.to_be());
    let c = match attempt(|| p.send.encrypt(big(&m))) {
        Outcome::Done(c) => c,
        o => violation("refused", &format!("encrypting the number {} under a {} bit key: {}", show(&m.to_be()), p.key.bits, o.name())),
    };
    check!(to_nat(&c) == want, "number", "{} encrypts to {} under a {} bit key, should be {}", show(&m.to_be()), show(&c.to_be_bytes()), p.key.bits, show(&want.to_be()));
    match attempt(|| p.recv.decrypt(c)) {
        Outcome::Done(b) => check!(to_nat(&b) == m, "number", "{} decrypts to {} under a {} bit key, should be {}", show(&want.to_be()), show(&b.to_be_bytes()), p.key.bits, show(&m.to_be())),
        o => violation("refused", &format!("decrypting the number {} under a {} bit key: {}", show(&want.to_be()), p.key.bits, o.name())),
    }
}

pub fn c10() {
    let nparties = range(1, 2);
    let parties: Vec<Party> = (0..nparties).map(|_| Party::new()).collect();
    let costly = parties.iter().any(|p| p.key.bits > 128);
    let mut msgs: Vec<Vec<u8>> = vec![];
    let mut wire: Vec<Parcel> = vec![];
    let mut now = 0;
    let faulty = chance(3, 4);
    let nmsg = if costly { range(1, 2) } else { session(6) };
    for i in 0..nmsg {
        let to = draw(nparties as u64) as usize;
        let p = &parties[to];
        if p.key.bits <= 128 && chance(1, 4) {
            raw_numbers(p);
        }
        let max = p.max_len();
        let n = match draw(5) {
            0 => 0,
            1 => max,
            2 if !costly => max + range(0, 3),
            _ => range(0, max),
        };
        let msg = if p.raw { raw_block(p) } else { gen_bytes(n) };
        let n = msg.len();
        let fail = !p.oaep && faulty && chance(1, 10);
        ev("send", &[i as u64, to as u64, p.key.bits as u64, n as u64, p.oaep as u64]);
        ev_bytes("message", &msg);
        let r = p.encrypt(&msg, fail);
        let fits = if p.raw { Nat::from_be(&msg).cmp(&p.n) == std::cmp::Ordering::Less } else { n <= max && p.k >= if p.oaep { 66 } else { 2 } };
        let ct = match r {
            Outcome::Done(c) => c,
            Outcome::Crashed => {
                msgs.push(msg);
                continue;
            }
            Outcome::Refused(m) => {
                check!(!fits, "refused", "encrypting a message of {n} bytes (at most {max} fit) for a {} bit key was refused: {m}", p.key.bits);
                count("probe.too_long_refused");
                msgs.push(msg);
                continue;
            }
        };
        ev("ciphertext-len", &[ct.len() as u64]);
        if ct.len() < p.k || ct.first() == Some(&0) {
            count("probe.short_ciphertext");
        }
        check!(ct.len() <= p.k, "ciphertext", "the ciphertext of {n} bytes under a {} bit key has {} bytes", p.key.bits, ct.len());
        let held = p.model(&ct);
        check!(
            held.as_deref() == Some(&msg[..]),
            "ciphertext",
            "the ciphertext {} of message {} under a {} bit key does not hold that message (it holds {})",
            show(&ct),
            show(&msg),
            p.key.bits,
            held.map_or("none".into(), |h| show(&h))
        );
        msgs.push(msg);
        let copies = if faulty && chance(1, 5) { 2 } else { 1 };
        if copies == 2 {
            fault("fault.duplicate");
        }
        for _ in 0..copies {
            now += 100;
            wire.push(Parcel { to, sent_to: to, msg: i, bytes: ct.clone(), intact: true, at: now });
        }
    }
    if faulty {
        for j in 0..wire.len() {
            if chance(1, 3) {
                wire[j].at += draw(1000);
                fault("fault.delay_reorder");
            }
            if chance(1, 2) {
                continue;
            }
            let other = wire[draw(wire.len() as u64) as usize].bytes.clone();
            let before = wire[j].bytes.clone();
            let to = wire[j].to;
            let b = &mut wire[j].bytes;
            if b.is_empty() {
                continue;
            }
            match draw(10) {
                8 => {
                    cancel(b);
                    fault("fault.bytes_exchanged");
                }
                0 => {
                    let i = range(0, b.len() - 1);
                    b[i] ^= 1 << draw(8);
                    fault("fault.bit_flip");
                }
                1 => {
                    b.truncate(range(0, b.len() - 1));
                    fault("fault.truncated");
                }
                2 => {
                    let more = gen_bytes(range(1, 3));
                    b.extend(more);
                    fault("fault.extended");
                }
                3 => {
                    let z = range(1, 3);
                    b.splice(0..0, vec![0; z]);
                    fault("fault.zeros_in_front");
                }
                4 => {
                    let i = range(0, b.len());
                    b.truncate(i);
                    b.extend_from_slice(&other[i.min(other.len())..]);
                    fault("fault.mixed_up");
                }
                5 => {
                    let t = draw(nparties as u64) as usize;
                    wire[j].to = t;
                    if t != to {
                        fault("fault.misdelivered");
                    }
                }
                6 => {
                    let i = range(0, b.len() - 1);
                    b.remove(i);
                    fault("fault.byte_lost");
                }
                7 => {
                    *b = Nat::from_be(b).add(&parties[to].n).to_be();
                    fault("fault.modulus_added");
                }
                _ => {
                    let n = b.len();
                    *b = gen_bytes(n);
                    fault("fault.replaced");
                }
            }
            let p = &mut wire[j];
            p.intact = p.bytes == before && p.to == p.sent_to;
        }
        if chance(1, 6) && !wire.is_empty() {
            let i = draw(wire.len() as u64) as usize;
            wire.remove(i);
            fault("fault.loss");
        }
    }
    wire.sort_by_key(|p| p.at);
    // a receiver may keep its buffer from one ciphertext to the next
    let paged = chance(1, 2);
    let mut page = Vec::with_capacity(200);
    for w in &wire {
        advance_us(100);
        let p = &parties[w.to];
        let fail = !p.oaep && faulty && chance(1, 12);
        ev("deliver", &[w.msg as u64, w.to as u64, w.intact as u64]);
        ev_bytes("bytes", &w.bytes);
        page.clear();
        page.extend_from_slice(&w.bytes);
        let r = p.decrypt(if paged { &page } else { &w.bytes }, fail);
        ev(r.name(), &[]);
        let what = format!(
            "{} ciphertext {} ({} bytes, sent for party {}, delivered to party {} with a {} bit key)",
            if w.intact { "intact" } else { "altered" },
            show(&w.bytes),
            w.bytes.len(),
            w.sent_to,
            w.to,
            p.key.bits
        );
        match r {
            Outcome::Done(m) if w.intact => {
                check!(m == msgs[w.msg], "exact", "{what} decrypts to {}, sent was {}", show(&m), show(&msgs[w.msg]));
                count("probe.delivered");
            }
            Outcome::Done(m) => {
                let held = p.model(&w.bytes);
                check!(held.as_deref() == Some(&m[..]), "invented", "{what} decrypts to {}, but it holds {}", show(&m), held.map_or("no message".into(), |h| show(&h)));
                count("probe.altered_but_holds_message");
            }
            Outcome::Refused(m) => {
                check!(!w.intact, "lost", "{what} is refused: {m}; sent was {}", show(&msgs[w.msg]));
                count("probe.altered_refused");
            }
            Outcome::Crashed => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------------------
// C11

fn gen_oaep_label() -> Vec<u8> {
    if chance(1, 3) {
        return vec![];
    }
    let n = if chance(1, 60) { gen_len(70_000) } else { gen_len(200) };
    gen_bytes(n)
}

/// A block that is masked correctly but whose contents are not what encoding produces.
fn crafted(label: &[u8], k: usize) -> Vec<u8> {
    let seed: [u8; 32] = prng_bytes(32, draw(1 << 30)).try_into().unwrap();
    let mut db = sha256(label).to_vec();
    let n = k - 33;
    db.resize(n, 0);
    let kind = draw(7);
    let at = range(32, n - 1);
    match kind {
        0 => {} // no separator at all
        1 => db[at] = 2,
        2 => db[at] = pick(&[0xffu8, 0x81, 0x10, 3, 0x80]),
        3 => {
            // junk before the separator
            db[at] = pick(&[2u8, 0xff, 0x80]);
            let j = range(at, n - 1);
            if j != at {
                db[j] = 1;
            }
        }
        4 => {
            let i = range(0, 31);
            db[i] ^= 1 << draw(8);
            db[at] = 1;
        }
        5 => {
            // a good one, with a message of whatever follows
            db[at] = 1;
            let m = gen_bytes(n - at - 1);
            db[at + 1..].copy_from_slice(&m);
        }
        _ => {
            db[..32].fill(0);
            db[at] = 1;
        }
    }
    let first = if chance(1, 5) { pick(&[1u8, 0x80, 0xff]) } else { 0 };
    let mask = mgf1(&seed, n);
    for (a, b) in db.iter_mut().zip(&mask) {
        *a ^= b;
    }
    let sm = mgf1(&db, 32);
    let mut o = vec![first];
    o.extend(seed.iter().zip(&sm).map(|(a, b)| a ^ b));
    o.extend(db);
    fault("fault.contents_malformed");
    o
}

fn c11_op() {
    let label = gen_oaep_label();
    // the mask generator's counter passes one and two bytes
    let n = match draw(400) {
        399 if chance(1, 150) => 2_097_000 + range(0, 400),
        399 => range(8000, 8500),
        380..=398 => gen_len(3000),
        _ => gen_len(300),
    };
    let msg = gen_bytes(n);
    let k = n + 66 + pick(&[0usize, 1, 2, 31, 32, 33, 100, 190]);
    ev("oaep", &[label.len() as u64, n as u64, k as u64]);
    let by_reference = chance(1, 2);
    let em = if by_reference {
        let seed: [u8; 32] = match draw(4) {
            0 => [0; 32],
            1 => [0xff; 32],
            _ => prng_bytes(32, draw(1 << 30)).try_into().unwrap(),
        };
        oaep_encode(&label, &msg, k, &seed).unwrap()
    } else {
        let em = match attempt(|| RsaPadding.encode(&label, &msg, k)) {
            Outcome::Done(e) => e,
            o => violation("refused", &format!("encoding {n} bytes to {k}: {}", o.name())),
        };
        check!(em.len() == k, "length", "encoding {n} bytes to {k} gives {} bytes", em.len());
        match oaep_decode(&label, &em) {
            Some((_, m)) => check!(m == msg, "encode", "encoding {n} bytes {} to {k} gives a block that holds {}", show(&msg), show(&m)),
            None => violation("encode", &format!("encoding {n} bytes {} with a label of {} to {k} gives a block no conforming decoder accepts: {}", show(&msg), label.len(), show(&em))),
        }
        em
    };
    let try_decode = |label: &[u8], em: &[u8], claimed: usize, why: &str| {
        let r = attempt(|| RsaPadding.decode(label, em, claimed));
        let want = if em.len() == claimed { oaep_decode(label, em).map(|x| x.1) } else { None };
        ev_bytes("block", em);
        match (r, want) {
            (Outcome::Done(Ok(m)), Some(w)) => check!(m == w, "exact", "{why}: decoding gives {}, should be {}", show(&m), show(&w)),
            (Outcome::Done(Err(e)), Some(w)) => violation("lost", &format!("{why}: a well-formed block holding {} is refused: {e}", show(&w))),
            (Outcome::Done(Ok(m)), None) => violation("accepted", &format!("{why}: a malformed block of {} bytes (claimed length {claimed}) decodes to {}", em.len(), show(&m))),
            (Outcome::Done(Err(_)), None) => count("probe.refused"),
            (Outcome::Refused(p), _) => violation("panic", &format!("{why}: decoding {} bytes {} with claimed length {claimed} panicked: {p}", em.len(), show(em))),
            (Outcome::Crashed, _) => harness_error("stray crash"),
        }
    };
    try_decode(&label, &em, k, "undamaged");
    for _ in 0..range(1, 3) {
        let mut b = em.clone();
        let mut l = label.clone();
        let mut claimed = None;
        match draw(11) {
            9 => {
                if chance(1, 4) {
                    cancel(&mut l);
                } else {
                    cancel(&mut b);
                }
                fault("fault.bytes_exchanged");
            }
            0 => {
                for _ in 0..range(1, 3) {
                    let i = range(0, b.len() - 1);
                    b[i] ^= 1 << draw(8);
                }
                fault("fault.bit_flip");
            }
            1 => {
                b.truncate(range(0, b.len()));
                fault("fault.truncated");
            }
            2 => {
                b.truncate(range(0, 70.min(b.len())));
                fault("fault.truncated");
            }
            3 => {
                let more = gen_bytes(range(1, 40));
                b.extend(more);
                fault("fault.extended");
            }
            4 => {
                let c = match draw(4) {
                    0 => k + range(0, 2) - 1,
                    1 => range(0, 70),
                    2 => range(0, 2 * k),
                    _ => pick(&[0usize, 1, 32, 33, 34, 65, 66, 1 << 20]),
                };
                claimed = Some(c);
                fault("fault.claimed_length");
            }
            5 => {
                if l.is_empty() || chance(1, 3) {
                    l.push(draw(256) as u8);
                } else if chance(1, 2) {
                    let i = range(0, l.len() - 1);
                    l[i] ^= 1 << draw(8);
                } else {
                    l.pop();
                }
                fault("fault.other_label");
            }
            6 => {
                let i = range(0, b.len() - 1);
                b.remove(i);
                if chance(1, 2) {
                    b.push(0);
                }
                fault("fault.byte_lost");
            }
            7 => {
                let i = range(0, b.len() - 1);
                let j = range(i, b.len() - 1);
                b[i..=j].fill(pick(&[0u8, 0xff]));
                fault("fault.range_filled");
            }
            8 => {
                // the first byte, which is not masked
                b[0] = pick(&[1u8, 2, 0x80, 0xff]);
                fault("fault.first_byte");
            }
            _ => b = crafted(&l, k),
        }
        let c = claimed.unwrap_or(if chance(3, 4) { b.len() } else { k });
        for _ in 0..if b.len() > 3000 { 1 } else { burst() } {
            try_decode(&l, &b, c, "damaged");
        }
    }
}
/// The counter of the mask generator passes three bytes.
fn long_block() {
    simrt::heavy();
    let k = (1usize << 29) + 33 + 200;
    let msg = prng_bytes(100, 7);
    ev("oaep", &[0, 100, k as u64]);
    let seed: [u8; 32] = prng_bytes(32, 8).try_into().unwrap();
    let em = oaep_encode(b"", &msg, k, &seed).unwrap();
    match attempt(|| RsaPadding.decode(b"", &em, k)) {
        Outcome::Done(Ok(m)) => check!(m == msg, "exact", "decoding a block of {k} bytes gives {}, should be {}", show(&m), show(&msg)),
        Outcome::Done(Err(e)) => violation("lost", &format!("a well-formed block of {k} bytes is refused: {e}")),
        o => violation("panic", &format!("decoding a block of {k} bytes: {}", o.name())),
    }
}
pub fn c11() {
    let idx = run_index();
    if forced(1 << 40, if idx == 0 { HUGE_RUN } else { 0 }) == HUGE_RUN {
        return long_block();
    }
    for _ in 0..session(4) {
        perhaps_in_cleanup(c11_op);
    }
}

// ---------------------------------------------------------------------------------------------------------
// C15

fn seeds(count_: usize, label: &[u8], msg: &[u8], k: usize, party: Option<&Party>) -> Vec<[u8; 32]> {
    (0..count_)
        .map(|_| {
            let em = match party {
                None => match attempt(|| RsaPadding.encode(label, msg, k)) {
                    Outcome::Done(e) => e,
                    o => violation("refused", &format!("encoding {} bytes to {k}: {}", msg.len(), o.name())),
                },
                Some(p) => match p.encrypt(msg, false) {
                    Outcome::Done(c) => Nat::from_be(&c).powmod(&p.d, &p.n).to_be_len(p.k),
                    o => violation("refused", &format!("encrypting {} bytes: {}", msg.len(), o.name())),
                },
            };
            match oaep_decode(label, &em) {
                Some((s, _)) => s.try_into().unwrap(),
                None => violation("encode", "the encoded block is not a well-formed OAEP block, so its seed cannot be found"),
            }
        })
        .collect()
}

pub fn c15() {
    let n = range(0, 20);
    let msg = gen_bytes(n);
    let through_rsa = chance(1, 6);
    let party = through_rsa.then(|| {
        let key = KEYS.iter().filter(|k| k.kind == "fast" && k.bits >= 690 && k.bits <= 768).nth(draw(2) as usize).unwrap();
        let (pr, pu) = load_pair(key);
        let nn = Nat::from_hex(key.n);
        Party { key, d: Nat::from_hex(key.d), k: nn.bits().div_ceil(8), send: pu.into(), recv: pr.into(), oaep: true, raw: false, n: nn }
    });
    let label = if through_rsa { vec![] } else { gen_oaep_label() };
    let k = n + 66 + range(0, 60);
    let (ea, eb) = (1 + draw(1 << 40), 1 + draw(1 << 40));
    let count_a = range(2, if through_rsa { 3 } else { 12 });
    ev("entropy", &[ea, eb, through_rsa as u64, count_a as u64]);
    steady_clock();
    // another process, started from the same state, given other entropy
    let page = sys::map_shared(4096) as *mut [u8; 65];
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        set_entropy(eb);
        let s = seeds(2, &label, &msg, k, party.as_ref());
        unsafe {
            (&mut (*page))[..32].copy_from_slice(&s[0]);
            (&mut (*page))[32..64].copy_from_slice(&s[1]);
            (*page)[64] = 1;
            sys::_exit(0)
        }
    }
    let mut st = 0;
    while unsafe { sys::waitpid(pid, &mut st, 0) } != pid {}
    fault("fault.process_with_other_entropy");
    set_entropy(ea);
    let mine = seeds(count_a, &label, &msg, k, party.as_ref());
    let other: [u8; 65] = unsafe { *page };
    if other[64] != 1 {
        harness_error("the second process did not report its seeds");
    }
    let mut all = mine.clone();
    all.push(other[..32].try_into().unwrap());
    all.push(other[32..64].try_into().unwrap());
    if all.iter().all(|s| *s == [42; 32]) {
        // recorded in known_findings.txt: the seed is the constant 42
        count("known.seed-constant-42");
        return;
    }
    for i in 0..all.len() {
        for j in 0..i {
            let where_ = if i < mine.len() { "in one process" } else { "in two processes with different entropy" };
            check!(all[i] != all[j], "seed-repeated", "two encodings of the same message {where_} used the same seed {}", show(&all[i]));
        }
    }
    if ea == eb {
        return;
    }
    count("probe.seeds_compared");
}
