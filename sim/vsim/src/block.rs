//! C03, C04 and C05: block-cipher pipelines with failing sinks, ciphers and modes, and a block channel.
use crate::util::*;
use cryptography::aes::{Aes, Key128, Key192, Key256};
use cryptography::pad::{BitPadding, PkcsPadding};
use cryptography::{BlockCipher, BlockCipherMode, BlockEncryption, EcbMode, rc2, rc5};
use refmodel::cipher as m;
use simrt::sched::yield_seam;
use simrt::*;
use std::cell::{Cell, RefCell};

// ---------------------------------------------------------------------------------------------------------
// ciphers: how to make them, the library's, and the model's

#[derive(Clone, Debug)]
pub enum Kind {
    Aes(Vec<u8>, bool), // key, made from words
    Rc2(Vec<u8>, u16),
    Rc5(Vec<u8>, u8),
    Toy(u64),
}

pub fn gen_kind(n: usize) -> Kind {
    match n {
        16 if chance(3, 4) => {
            let k = pick(&[16usize, 24, 32]);
            Kind::Aes(gen_bytes(k), chance(1, 3))
        }
        8 if chance(3, 4) => {
            if chance(1, 2) {
                let k = range(1, 128);
                let bits = pick(&[64u16, 40, 63, 128, 1, 7, 8, 9, 1024, 129, 1000]);
                Kind::Rc2(gen_bytes(k), bits)
            } else {
                let k = range(1, 64);
                Kind::Rc5(gen_bytes(k), pick(&[12u8, 0, 1, 2, 16, 20, 255]))
            }
        }
        _ => Kind::Toy(draw(1 << 32)),
    }
}

pub fn make_aes(key: &[u8], words: bool) -> Aes {
    let w = |i: usize| u64::from_be_bytes(key[8 * i..8 * i + 8].try_into().unwrap());
    match (key.len(), words) {
        (16, true) => Key128::from([w(0), w(1)]).into(),
        (24, true) => Key192::from([w(0), w(1), w(2)]).into(),
        (32, true) => Key256::from([w(0), w(1), w(2), w(3)]).into(),
        (16, _) => Aes::with_128_bit_key(key.try_into().unwrap()),
        (24, _) => Aes::with_192_bit_key(key.try_into().unwrap()),
        _ => Aes::with_256_bit_key(key.try_into().unwrap()),
    }
}

fn toy_f(x: u8, seed: u64, i: usize) -> u8 {
    let mut s = seed ^ ((x as u64) << 40) ^ ((i as u64) << 3);
    splitmix(&mut s) as u8
}
fn toy_enc<const N: usize>(seed: u64, mut b: [u8; N]) -> [u8; N] {
    if N == 1 {
        b[0] = b[0].wrapping_mul(5).wrapping_add(seed as u8);
        return b;
    }
    for round in 0..2 {
        for i in 0..N {
            b[i] = b[i].wrapping_add(toy_f(b[(i + N - 1) % N], seed, i + round * N));
        }
    }
    b
}
fn toy_dec<const N: usize>(seed: u64, mut b: [u8; N]) -> [u8; N] {
    if N == 1 {
        b[0] = b[0].wrapping_sub(seed as u8).wrapping_mul(205);
        return b;
    }
    for round in (0..2).rev() {
        for i in (0..N).rev() {
            b[i] = b[i].wrapping_sub(toy_f(b[(i + N - 1) % N], seed, i + round * N));
        }
    }
    b
}

pub enum Lib {
    Aes(Aes),
    Rc2(rc2),
    Rc5(rc5),
    Toy(u64),
}
pub fn make_lib(k: &Kind) -> Lib {
    match k {
        Kind::Aes(key, w) => Lib::Aes(must("AES key setup", || make_aes(key, *w))),
        Kind::Rc2(key, bits) => Lib::Rc2(must("RC2 key setup", || rc2::from_key(key, *bits))),
        Kind::Rc5(key, r) => Lib::Rc5(must("RC5 key setup", || rc5::new(key, *r))),
        Kind::Toy(s) => Lib::Toy(*s),
    }
}
pub enum Model {
    Aes(Box<m::Aes>),
    Rc2(Box<m::Rc2>),
    Rc5(Box<m::Rc5>),
    Toy(u64),
}
fn arr<const A: usize, const B: usize>(x: [u8; A]) -> [u8; B] {
    x[..].try_into().unwrap()
}
impl Model {
    pub fn new(k: &Kind) -> Model {
        match k {
            Kind::Aes(key, _) => Model::Aes(Box::new(m::Aes::new(key))),
            Kind::Rc2(key, bits) => Model::Rc2(Box::new(m::Rc2::new(key, *bits as u32))),
            Kind::Rc5(key, r) => Model::Rc5(Box::new(m::Rc5::new(key, *r as usize))),
            Kind::Toy(s) => Model::Toy(*s),
        }
    }
    pub fn enc<const N: usize>(&self, b: [u8; N]) -> [u8; N] {
        match self {
            Model::Aes(c) => arr(c.enc(arr(b))),
            Model::Rc2(c) => arr(c.enc(arr(b))),
            Model::Rc5(c) => arr(c.enc(arr(b))),
            Model::Toy(s) => toy_enc(*s, b),
        }
    }
    pub fn dec<const N: usize>(&self, b: [u8; N]) -> [u8; N] {
        match self {
            Model::Aes(c) => arr(c.dec(arr(b))),
            Model::Rc2(c) => arr(c.dec(arr(b))),
            Model::Rc5(c) => arr(c.dec(arr(b))),
            Model::Toy(s) => toy_dec(*s, b),
        }
    }
}

/// The cipher handed to the library: the library's own behind a device that may fail.
struct Device<'a> {
    lib: &'a Lib,
    calls: Cell<u64>,
    fail_at: u64,
    fail_late: bool,
    yields: bool,
}
impl<'a> Device<'a> {
    fn call<T>(&self, f: impl FnOnce() -> T) -> T {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if n == self.fail_at && !self.fail_late {
            seam(|| crash_now("fault.cipher_device_failed"));
        }
        if self.yields {
            seam(yield_seam);
        }
        let r = f();
        if n == self.fail_at {
            seam(|| crash_now("fault.cipher_device_failed_late"));
        }
        r
    }
}
impl<const N: usize> BlockCipher<N> for Device<'_> {
    fn encrypt(&self, b: [u8; N]) -> [u8; N] {
        self.call(|| match self.lib {
            Lib::Aes(c) => arr(c.encrypt(arr(b))),
            Lib::Rc2(c) => arr(c.encrypt(arr(b))),
            Lib::Rc5(c) => arr(c.encrypt(arr(b))),
            Lib::Toy(s) => toy_enc(*s, b),
        })
    }
    fn decrypt(&self, b: [u8; N]) -> [u8; N] {
        self.call(|| match self.lib {
            Lib::Aes(c) => arr(c.decrypt(arr(b))),
            Lib::Rc2(c) => arr(c.decrypt(arr(b))),
            Lib::Rc5(c) => arr(c.decrypt(arr(b))),
            Lib::Toy(s) => toy_dec(*s, b),
        })
    }
}

// ---------------------------------------------------------------------------------------------------------
// modes

#[derive(Clone, Copy, Debug, PartialEq)]
enum Chain {
    Ecb,
    Cbc,
    Cfb,
    Ctr,
    Pcbc,
}
fn xor<const N: usize>(a: [u8; N], b: [u8; N]) -> [u8; N] {
    std::array::from_fn(|i| a[i] ^ b[i])
}
#[derive(Clone)]
struct ChainState<const N: usize> {
    chain: Chain,
    reg: [u8; N],
}
impl<const N: usize> ChainState<N> {
    fn step(&mut self, block: [u8; N], encrypt: bool, e: impl Fn([u8; N]) -> [u8; N], d: impl Fn([u8; N]) -> [u8; N]) -> [u8; N] {
        match (self.chain, encrypt) {
            (Chain::Ecb, true) => e(block),
            (Chain::Ecb, false) => d(block),
            (Chain::Cbc, true) => {
                self.reg = e(xor(block, self.reg));
                self.reg
            }
            (Chain::Cbc, false) => {
                let p = xor(d(block), self.reg);
                self.reg = block;
                p
            }
            (Chain::Cfb, true) => {
                self.reg = xor(e(self.reg), block);
                self.reg
            }
            (Chain::Cfb, false) => {
                let p = xor(e(self.reg), block);
                self.reg = block;
                p
            }
            (Chain::Ctr, _) => {
                let k = e(self.reg);
                for x in self.reg.iter_mut().rev() {
                    *x = x.wrapping_add(1);
                    if *x != 0 {
                        break;
                    }
                }
                xor(k, block)
            }
            (Chain::Pcbc, true) => {
                let c = e(xor(block, self.reg));
                self.reg = xor(block, c);
                c
            }
            (Chain::Pcbc, false) => {
                let p = xor(d(block), self.reg);
                self.reg = xor(p, block);
                p
            }
        }
    }
}
/// The mode handed to the library: logs the blocks it is given and may fail.
struct Mode<'a, const N: usize> {
    st: ChainState<N>,
    log: &'a RefCell<Vec<[u8; N]>>,
    wrong_way: &'a Cell<bool>,
    decrypting: bool,
    fail_at: u64,
    reenters_at: u64,
    yields: bool,
}
impl<const N: usize> Mode<'_, N> {
    fn note(&mut self, block: [u8; N], enc: bool) {
        seam(|| {
            if enc == self.decrypting {
                self.wrong_way.set(true);
            }
            let n = self.log.borrow().len() as u64;
            if n == self.fail_at {
                self.fail_at = u64::MAX;
                crash_now("fault.mode_failed");
            }
            if n == self.reenters_at {
                fault("fault.mode_reenters");
                nested();
            }
            self.log.borrow_mut().push(block);
            if self.yields {
                yield_seam();
            }
        })
    }
}
impl<const N: usize> BlockCipherMode<N> for Mode<'_, N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, cipher: &C, block: [u8; N]) -> [u8; N] {
        self.note(block, true);
        if self.st.chain == Chain::Ecb {
            return EcbMode.encrypt_block(cipher, block);
        }
        self.st.step(block, true, |b| cipher.encrypt(b), |b| cipher.decrypt(b))
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, cipher: &C, block: [u8; N]) -> [u8; N] {
        self.note(block, false);
        if self.st.chain == Chain::Ecb {
            return EcbMode.decrypt_block(cipher, block);
        }
        self.st.step(block, false, |b| cipher.encrypt(b), |b| cipher.decrypt(b))
    }
}

fn model_pad<const N: usize>(msg: &[u8]) -> Vec<u8> {
    let p = N - msg.len() % N;
    let mut v = msg.to_vec();
    v.resize(msg.len() + p, p as u8);
    v
}
/// length without well-formed PKCS#7 padding
fn model_unpad<const N: usize>(b: &[u8]) -> Option<usize> {
    let p = *b.last()? as usize;
    if p == 0 || p > N || p > b.len() || b[b.len() - p..].iter().any(|&x| x as usize != p) {
        return None;
    }
    Some(b.len() - p)
}
/// the mode's transformation of whole blocks
fn model_blocks<const N: usize>(k: &Model, st: &ChainState<N>, data: &[u8], encrypt: bool) -> Vec<u8> {
    let mut st = st.clone();
    data.chunks_exact(N).flat_map(|b| st.step(b.try_into().unwrap(), encrypt, |x| k.enc(x), |x| k.dec(x))).collect()
}

// ---------------------------------------------------------------------------------------------------------
// one pipeline

#[derive(Clone, Copy, Debug)]
struct Faults {
    sink_at: u64,
    cipher_at: u64,
    cipher_late: bool,
    mode_at: u64,
    reenter_at: u64,
    mode_reenters_at: u64,
    yields: bool,
}
const NO_FAULTS: Faults =
    Faults { sink_at: u64::MAX, cipher_at: u64::MAX, cipher_late: false, mode_at: u64::MAX, reenter_at: u64::MAX, mode_reenters_at: u64::MAX, yields: false };

fn gen_faults(bytes: usize, blocks: usize, yields: bool) -> Faults {
    let mut f = NO_FAULTS;
    f.yields = yields;
    match draw(7) {
        1 => f.sink_at = range(0, bytes) as u64,
        2 => {
            f.cipher_at = range(0, blocks) as u64;
            f.cipher_late = chance(1, 2);
        }
        3 => f.mode_at = range(0, blocks) as u64,
        4 => f.sink_at = (range(0, blocks) * (bytes / blocks.max(1)).max(1)) as u64,
        _ => {}
    }
    if chance(1, 6) {
        f.reenter_at = range(0, bytes) as u64;
    }
    if chance(1, 12) {
        f.mode_reenters_at = range(0, blocks) as u64;
    }
    f
}

struct Job<'a, const N: usize> {
    kind: &'a Kind,
    lib: &'a Lib,
    st: ChainState<N>,
    input: &'a [u8],
    decrypt: bool,
    faults: Faults,
    /// give the library its own types directly instead of the harness' wrappers
    direct: bool,
}
struct JobResult<const N: usize> {
    outcome: Outcome<()>,
    out: Vec<u8>,
    seen: Vec<[u8; N]>,
    wrong_way: bool,
    after_failure: bool,
    instrumented: bool,
}

fn run_job<const N: usize>(j: Job<N>) -> JobResult<N> {
    let out = RefCell::new(Vec::new());
    let failed = Cell::new(false);
    let after = Cell::new(false);
    let log = RefCell::new(vec![]);
    let wrong_way = Cell::new(false);
    let f = j.faults;
    let sink = |b: u8| {
        seam(|| {
            if failed.get() {
                after.set(true);
                return;
            }
            let n = out.borrow().len() as u64;
            if n == f.sink_at {
                failed.set(true);
                crash_now("fault.sink_failed");
            }
            if f.yields {
                yield_seam();
            }
            if n == f.reenter_at {
                fault("fault.sink_reenters");
                nested();
            }
            out.borrow_mut().push(b);
        })
    };
    let direct = j.direct && j.st.chain == Chain::Ecb && !matches!(j.kind, Kind::Toy(_)) && f.cipher_at == u64::MAX && f.mode_at == u64::MAX;
    let outcome = if direct {
        count("probe.library_types_direct");
        attempt(|| match j.kind {
            Kind::Aes(k, w) => {
                let c = make_aes(k, *w);
                if j.decrypt { BlockEncryption::decrypt(c, EcbMode, j.input, sink) } else { BlockEncryption::encrypt(c, EcbMode, j.input, sink) }
            }
            Kind::Rc2(k, b) => {
                let c = rc2::from_key(k, *b);
                if j.decrypt { BlockEncryption::decrypt(c, EcbMode, j.input, sink) } else { BlockEncryption::encrypt(c, EcbMode, j.input, sink) }
            }
            Kind::Rc5(k, r) => {
                let c = rc5::new(k, *r);
                if j.decrypt { BlockEncryption::decrypt(c, EcbMode, j.input, sink) } else { BlockEncryption::encrypt(c, EcbMode, j.input, sink) }
            }
            Kind::Toy(_) => unreachable!(),
        })
    } else {
        let dev = Device { lib: j.lib, calls: Cell::new(0), fail_at: f.cipher_at, fail_late: f.cipher_late, yields: f.yields };
        let mode = Mode::<N> { st: j.st, log: &log, wrong_way: &wrong_way, decrypting: j.decrypt, fail_at: f.mode_at, reenters_at: f.mode_reenters_at, yields: f.yields };
        attempt(|| {
            if j.decrypt {
                BlockEncryption::decrypt(dev, mode, j.input, sink)
            } else {
                BlockEncryption::encrypt(dev, mode, j.input, sink)
            }
        })
    };
    JobResult {
        outcome,
        out: out.take(),
        seen: log.take(),
        wrong_way: wrong_way.get(),
        after_failure: after.get(),
        instrumented: !direct,
    }
}

/// A complete encryption and decryption from inside someone else's sink.
fn nested() {
    let key = prng_bytes(16, draw(1000));
    let msg = prng_bytes(range(0, 40), 7);
    let model = m::Aes::new(&key);
    let c = make_aes(&key, false);
    let mut ct = vec![];
    let mut pt = vec![];
    let r = attempt(|| BlockEncryption::encrypt(c, EcbMode::<16>, &msg, |b| ct.push(b)));
    let want: Vec<u8> = model_pad::<16>(&msg).chunks_exact(16).flat_map(|b| model.enc(b.try_into().unwrap())).collect();
    check!(matches!(r, Outcome::Done(())) && ct == want, "nested", "an encryption started from inside a sink gave {} instead of {}", show(&ct), show(&want));
    let c = make_aes(&key, false);
    let r = attempt(|| BlockEncryption::decrypt(c, EcbMode::<16>, &want, |b| pt.push(b)));
    check!(matches!(r, Outcome::Done(())) && pt == msg, "nested", "a decryption started from inside a sink gave {} instead of {}", show(&pt), show(&msg));
}

fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("first difference at byte {i}: {:?} should be {:?}; lengths {} and {}", a.get(i), b.get(i), a.len(), b.len())
}

/// What must hold of every pipeline call, completed or not. `full` is all a completed call may deliver.
fn judge<const N: usize>(what: &str, r: &JobResult<N>, input_blocks: &[u8], full: &[u8], must_finish: bool) {
    check!(!r.wrong_way, "direction", "{what}: the mode was run in the wrong direction");
    check!(!r.after_failure, "after-failure", "{what}: the sink was called again after it had failed");
    check!(
        r.out.len() <= full.len() && r.out[..] == full[..r.out.len()],
        "output",
        "{what}: what was delivered is not a prefix of what should be: {}",
        diff(&r.out, full)
    );
    if r.instrumented {
        let want = input_blocks.chunks_exact(N);
        check!(r.seen.len() <= want.len(), "mode-blocks", "{what}: the mode was given {} blocks, there are {}", r.seen.len(), want.len());
        for (i, (a, b)) in r.seen.iter().zip(want).enumerate() {
            check!(a[..] == *b, "mode-blocks", "{what}: the mode's block {i} is {}, should be {}", show(a), show(b));
        }
    }
    match &r.outcome {
        Outcome::Done(()) => {
            check!(r.out.len() == full.len(), "output", "{what}: only {} of {} bytes were delivered", r.out.len(), full.len());
            if r.instrumented {
                check!(r.seen.len() * N == input_blocks.len(), "mode-blocks", "{what}: the mode was given {} of {} blocks", r.seen.len(), input_blocks.len() / N);
            }
        }
        Outcome::Refused(m) => {
            check!(!must_finish, "refused", "{what}: refused a legal call: {m}");
        }
        Outcome::Crashed => {}
    }
}

macro_rules! dispatch {
    ($n:expr, $f:ident ( $($a:expr),* )) => {
        match $n {
            1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*), 7 => $f::<7>($($a),*), 8 => $f::<8>($($a),*), 12 => $f::<12>($($a),*),
            16 => $f::<16>($($a),*), 17 => $f::<17>($($a),*), 24 => $f::<24>($($a),*), 32 => $f::<32>($($a),*),
            64 => $f::<64>($($a),*), 100 => $f::<100>($($a),*), 127 => $f::<127>($($a),*), 128 => $f::<128>($($a),*),
            129 => $f::<129>($($a),*), 200 => $f::<200>($($a),*), 254 => $f::<254>($($a),*), 255 => $f::<255>($($a),*),
            _ => unreachable!(),
        }
    };
}
const SIZES: &[usize] = &[16, 8, 4, 1, 2, 3, 5, 7, 12, 17, 24, 32, 64, 100, 127, 128, 129, 200, 254, 255];
fn gen_n() -> usize {
    match draw(5) {
        0 | 1 => 16,
        2 => 8,
        _ => pick(SIZES),
    }
}
fn gen_chain() -> Chain {
    pick(&[Chain::Ecb, Chain::Ecb, Chain::Cbc, Chain::Cfb, Chain::Ctr, Chain::Pcbc])
}
fn gen_msg(n: usize) -> Vec<u8> {
    let len = match draw(12) {
        0 => 0,
        1..=4 => range(0, 5) * n + pick(&[0usize, 1, n / 2, n - 1]).min(n - 1),
        11 if chance(1, 12) => {
            // now and then more than 2^16 blocks
            if chance(1, 40) { (65536 * n.min(32) + range(0, 3 * n)).saturating_sub(n) } else { range(0, 90_000) }
        }
        _ => gen_len(2500),
    };
    match draw(8) {
        1 => {
            // blocks that repeat, are blank or look like padding
            let pool = [vec![0u8; n], vec![0xff; n], vec![n as u8; n], vec![1; n], gen_bytes(n), gen_bytes(n)];
            let mut v = vec![];
            while v.len() < len {
                v.extend_from_slice(&pool[draw(6) as usize]);
                if v.len() > 200 * n {
                    let w = v.clone();
                    v.extend(w);
                }
            }
            v.truncate(len);
            v
        }
        2 => {
            // ends as if it were padded already
            let mut v = gen_bytes(len);
            let k = range(1, n);
            let from = v.len().saturating_sub(k);
            v[from..].fill(k as u8);
            v
        }
        _ => gen_bytes(len),
    }
}
fn gen_state<const N: usize>() -> ChainState<N> {
    let chain = gen_chain();
    let iv = if chain == Chain::Ecb { vec![0; N] } else { gen_bytes(N) };
    ChainState { chain, reg: iv.try_into().unwrap() }
}

fn tasks_of(ops: fn(bool)) {
    let ntasks = pick(&[1usize, 1, 2, 3]);
    sched::configure();
    let tasks = (0..ntasks)
        .map(|_| {
            let n = session(3);
            Box::new(move || {
                for _ in 0..n {
                    perhaps_in_cleanup(|| ops(ntasks > 1));
                    yield_seam();
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sched::run_tasks(tasks);
}

// ---------------------------------------------------------------------------------------------------------
// messages of more than 2^32 bytes and blocks

fn far<const N: usize>(idx: u64) -> [u8; N] {
    let x = idx.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    std::array::from_fn(|i| ((x >> 56) as u8) ^ ((x >> 33) as u8).wrapping_add(i as u8))
}
struct NoCipher;
impl<const N: usize> BlockCipher<N> for NoCipher {
    fn encrypt(&self, b: [u8; N]) -> [u8; N] {
        b
    }
    fn decrypt(&self, b: [u8; N]) -> [u8; N] {
        b
    }
}
/// A mode that numbers the blocks: what it gives back tells which call it was.
struct Counting<'a, const N: usize> {
    at: u64,
    blocks: u64,
    last: [u8; N],
    other: &'a Cell<u64>,
}
impl<const N: usize> Counting<'_, N> {
    fn next(&mut self, block: [u8; N], last_in: [u8; N], last_out: [u8; N]) -> [u8; N] {
        let i = self.at;
        self.at += 1;
        let last = i + 1 == self.blocks;
        if block != if last { last_in } else { [0; N] } && self.other.get() == u64::MAX {
            self.other.set(i);
        }
        if last { last_out } else { far(i) }
    }
}
impl<const N: usize> BlockCipherMode<N> for Counting<'_, N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, _: &C, block: [u8; N]) -> [u8; N] {
        let l = far(self.blocks - 1);
        self.next(block, self.last, l)
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, _: &C, block: [u8; N]) -> [u8; N] {
        self.next(block, [0; N], self.last)
    }
}
fn huge_message<const N: usize>(decrypt: bool) {
    simrt::heavy();
    count("probe.beyond_2_32_bytes");
    let len = (1usize << 32) + range(0, 5000); // of the message
    let pad = N - len % N;
    let blocks = ((len + pad) / N) as u64;
    ev("huge", &[N as u64, decrypt as u64, len as u64]);
    let mut last = [0u8; N];
    last[N - pad..].fill(pad as u8);
    if decrypt {
        let l = far::<N>(blocks - 1);
        last[..N - pad].copy_from_slice(&l[..N - pad]);
    }
    let size = if decrypt { len + pad } else { len };
    let input = unsafe { core::slice::from_raw_parts(sys::map_zero(size), size) };
    let other = Cell::new(u64::MAX);
    let mode = Counting::<N> { at: 0, blocks, last, other: &other };
    let (mut at, mut j, mut cur, mut bad) = (0u64, 0usize, far::<N>(0), None);
    let sink = |b: u8| {
        if b != cur[j] && bad.is_none() {
            bad = Some(at * N as u64 + j as u64);
        }
        j += 1;
        if j == N {
            j = 0;
            at += 1;
            cur = far(at);
        }
    };
    let r = attempt(|| if decrypt { BlockEncryption::decrypt(NoCipher, mode, input, sink) } else { BlockEncryption::encrypt(NoCipher, mode, input, sink) });
    let what = format!("{} a message of {len} bytes with {N} byte blocks", if decrypt { "decrypting" } else { "encrypting" });
    let out = at * N as u64 + j as u64;
    let want = if decrypt { len } else { len + pad } as u64;
    match r {
        Outcome::Done(()) => {
            check!(other.get() == u64::MAX, "blocks", "{what}: block {} reached the mode changed", other.get());
            check!(bad.is_none(), "output", "{what}: output byte {} is wrong", bad.unwrap());
            check!(out == want, "output", "{what}: {out} bytes were delivered, should be {want}");
        }
        o => violation("refused", &format!("{what}: {} after {out} bytes", o.name())),
    }
}
/// The first runs of a check are the long ones.
fn huge_first(decrypt: bool) -> bool {
    let idx = run_index();
    match forced(1 << 40, if idx < 2 { HUGE_RUN + idx } else { 0 }).checked_sub(HUGE_RUN) {
        Some(0) => huge_message::<1>(decrypt),
        Some(1) => huge_message::<7>(decrypt),
        _ => return false,
    }
    true
}

// ---------------------------------------------------------------------------------------------------------
// C03

fn c03_op<const N: usize>(kind: Kind, yields: bool) {
    let st = gen_state::<N>();
    let msg = gen_msg(N);
    let lib = make_lib(&kind);
    let model = Model::new(&kind);
    let padded = model_pad::<N>(&msg);
    let want = model_blocks(&model, &st, &padded, true);
    let faults = gen_faults(want.len(), want.len() / N, yields);
    let direct = chance(1, 3);
    ev("encrypt", &[N as u64, msg.len() as u64, st.chain as u64]);
    ev_str("with", &format!("{kind:?} {:?} {faults:?}", st.chain));
    ev_bytes("message", &msg);
    let what = format!("encrypting {} bytes with {} byte blocks ({kind:?}, {:?}, {faults:?})", msg.len(), N, st.chain);
    let r = run_job(Job { kind: &kind, lib: &lib, st: st.clone(), input: &msg, decrypt: false, faults, direct });
    ev_bytes("delivered", &r.out);
    judge(&what, &r, &padded, &want, true);
    if matches!(r.outcome, Outcome::Crashed) {
        // the same cipher object, now without failures
        let what = format!("after a failure, {what}");
        let r = run_job(Job { kind: &kind, lib: &lib, st, input: &msg, decrypt: false, faults: NO_FAULTS, direct: false });
        judge(&what, &r, &padded, &want, true);
    }
}
pub fn c03() {
    if huge_first(false) {
        return;
    }
    tasks_of(|yields| {
        let n = gen_n();
        let kind = gen_kind(n);
        dispatch!(n, c03_op(kind, yields))
    })
}

// ---------------------------------------------------------------------------------------------------------
// C04

fn damage_blocks<const N: usize>(ct: &mut Vec<u8>) -> bool {
    let before = ct.clone();
    for _ in 0..range(1, 3) {
        let n = ct.len() / N;
        if n == 0 {
            break;
        }
        let i = range(0, n - 1);
        match draw(7) {
            0 => {
                ct[i * N + range(0, N - 1)] ^= 1 << draw(8);
                fault("fault.bit_flip");
            }
            1 => {
                let j = range(0, n - 1);
                for k in 0..N {
                    ct.swap(i * N + k, j * N + k);
                }
                fault("fault.blocks_swapped");
            }
            2 => {
                ct.drain(i * N..(i + 1) * N);
                fault("fault.block_lost");
            }
            3 => {
                let b = ct[i * N..(i + 1) * N].to_vec();
                let at = range(0, n) * N;
                ct.splice(at..at, b);
                fault("fault.block_repeated");
            }
            4 => {
                let b = gen_bytes(N);
                ct[i * N..(i + 1) * N].copy_from_slice(&b);
                fault("fault.block_replaced");
            }
            5 => {
                ct.truncate(range(0, n) * N);
                fault("fault.tail_lost");
            }
            _ => {
                // not the last block: the padding survives
                if n > 1 {
                    let i = range(0, n - 2);
                    ct[i * N + range(0, N - 1)] ^= 1 << draw(8);
                    fault("fault.bit_flip");
                }
            }
        }
    }
    *ct != before
}

fn c04_op<const N: usize>(kind: Kind, yields: bool) {
    let st = gen_state::<N>();
    let msg = gen_msg(N);
    let lib = make_lib(&kind);
    let model = Model::new(&kind);
    let mut ct = model_blocks(&model, &st, &model_pad::<N>(&msg), true);
    let damaged = chance(1, 2) && damage_blocks::<N>(&mut ct);
    let plain = model_blocks(&model, &st, &ct, false);
    let well_formed = model_unpad::<N>(&plain);
    if !damaged && well_formed != Some(msg.len()) {
        harness_error("the model does not decrypt its own ciphertext");
    }
    if damaged {
        count(if well_formed.is_some() { "probe.damaged_but_padding_ok" } else { "probe.damaged_padding_bad" });
    }
    let faults = gen_faults(plain.len(), (plain.len() / N).max(1), yields);
    let direct = chance(1, 3);
    ev("decrypt", &[N as u64, ct.len() as u64, st.chain as u64, damaged as u64]);
    ev_str("with", &format!("{kind:?} {:?} {faults:?}", st.chain));
    ev_bytes("ciphertext", &ct);
    let what = format!("decrypting {} bytes with {} byte blocks ({kind:?}, {:?}, damaged {damaged}, {faults:?})", ct.len(), N, st.chain);
    let r = run_job(Job { kind: &kind, lib: &lib, st: st.clone(), input: &ct, decrypt: true, faults, direct });
    ev_bytes("delivered", &r.out);
    match well_formed {
        Some(n) => judge(&what, &r, &ct, &plain[..n], true),
        None => {
            // whether it is refused is C05's business; here: nothing invented
            if plain.starts_with(&r.out) {
                return;
            }
            violation("output", &format!("{what}: delivered plaintext that the ciphertext does not hold: {}", diff(&r.out, &plain)));
        }
    }
    if matches!(r.outcome, Outcome::Crashed) {
        let what = format!("after a failure, {what}");
        let r = run_job(Job { kind: &kind, lib: &lib, st, input: &ct, decrypt: true, faults: NO_FAULTS, direct: false });
        judge(&what, &r, &ct, &plain[..well_formed.unwrap()], true);
    }
}
pub fn c04() {
    if huge_first(true) {
        return;
    }
    tasks_of(|yields| {
        let n = gen_n();
        let kind = gen_kind(n);
        dispatch!(n, c04_op(kind, yields))
    })
}

/// One message of the crowd scenario, either way.
pub fn message_op(yields: bool) {
    let n = pick(&[16usize, 8]);
    let kind = gen_kind(n);
    match (n, chance(1, 2)) {
        (16, true) => c03_op::<16>(kind, yields),
        (16, false) => c04_op::<16>(kind, yields),
        (_, true) => c03_op::<8>(kind, yields),
        (_, false) => c04_op::<8>(kind, yields),
    }
}

// ---------------------------------------------------------------------------------------------------------
// C05

/// A plaintext whose last block is (probably) not what padding produces.
fn gen_last_block<const N: usize>(msg: &[u8]) -> Vec<u8> {
    let mut p = model_pad::<N>(msg);
    let n = p.len();
    match draw(9) {
        0 => {
            p[n - 1] = 0;
            fault("fault.padding_zero");
        }
        1 => {
            p[n - 1] = pick(&[(N + 1).min(255) as u8, 255, 128, 0, 200]);
            fault("fault.padding_too_big");
        }
        2 => {
            let k = p[n - 1] as usize;
            let i = n - range(1, k);
            p[i] ^= 1 << draw(8);
            fault("fault.padding_byte_flipped");
        }
        3 => {
            let k = p[n - 1] as usize;
            let i = n - k;
            p[i] = draw(256) as u8;
            fault("fault.padding_first_byte");
        }
        4 => {
            p[n - 1] = range(0, N) as u8;
            fault("fault.padding_count_changed");
        }
        5 => {
            p[n - N..].fill(pick(&[N as u8, 0, 1, (N + 1).min(255) as u8]));
            fault("fault.padding_block_filled");
        }
        6 => {
            let v = range(0, 255) as u8;
            let from = n - range(1, N);
            p[from..].fill(v);
            fault("fault.padding_run");
        }
        7 => {
            let b = gen_bytes(N);
            p[n - N..].copy_from_slice(&b);
            fault("fault.last_block_replaced");
        }
        _ => {}
    }
    p
}

fn c05_op<const N: usize>(kind: Kind, yields: bool) {
    let st = gen_state::<N>();
    let msg = gen_msg(N);
    let lib = make_lib(&kind);
    let model = Model::new(&kind);
    let what_kind = draw(3);
    let p = if what_kind == 0 { model_pad::<N>(&msg) } else { gen_last_block::<N>(&msg) };
    let mut ct = model_blocks(&model, &st, &p, true);
    if what_kind == 0 || chance(1, 6) {
        // cut or extended anywhere
        match draw(4) {
            0 => {
                ct.truncate(range(0, ct.len()));
                fault("fault.truncated");
            }
            1 => {
                ct.extend(gen_bytes(range(1, N)));
                fault("fault.extended");
            }
            2 => {
                ct.clear();
                fault("fault.emptied");
            }
            _ => {
                let i = range(0, ct.len() - 1);
                ct.remove(i);
                fault("fault.byte_lost");
            }
        }
    } else if chance(1, 4) {
        damage_blocks::<N>(&mut ct);
    }
    let whole = !ct.is_empty() && ct.len() % N == 0;
    let plain = model_blocks(&model, &st, &ct, false);
    let ok = if whole { model_unpad::<N>(&plain[plain.len() - N..]).map(|k| plain.len() - N + k) } else { None };
    let mut faults = gen_faults(plain.len(), (plain.len() / N).max(1), yields);
    if chance(2, 3) {
        faults = Faults { reenter_at: faults.reenter_at, yields, ..NO_FAULTS };
    }
    let direct = chance(1, 3);
    ev("decrypt", &[N as u64, ct.len() as u64, st.chain as u64, ok.is_some() as u64]);
    ev_str("with", &format!("{kind:?} {:?} {faults:?}", st.chain));
    ev_bytes("plain", &plain);
    let what = format!("decrypting {} bytes with {} byte blocks ({kind:?}, {:?}, {faults:?})", ct.len(), N, st.chain);
    let r = run_job(Job { kind: &kind, lib: &lib, st, input: &ct, decrypt: true, faults, direct });
    ev_bytes("delivered", &r.out);
    if let Some(n) = ok {
        count("probe.well_formed");
        return judge(&what, &r, &ct, &plain[..n], true);
    }
    count(if !whole { "probe.not_whole_blocks" } else { "probe.padding_malformed" });
    if let Outcome::Done(()) = r.outcome {
        let tail = if whole { show(&plain[plain.len() - N..]) } else { String::new() };
        violation(
            "accepted",
            &format!("{what}: accepted {}; {} bytes were delivered", if whole { format!("a last block that decrypts to {tail}, which is not padding") } else { "a length that is not a whole, positive number of blocks".into() }, r.out.len()),
        )
    }
    let safe = if whole { &plain[..plain.len() - N] } else { &[] };
    check!(
        safe.starts_with(&r.out),
        "released",
        "{what}: refused, but {} bytes were delivered, at most {} may be: {}",
        r.out.len(),
        safe.len(),
        diff(&r.out, safe)
    );
}

fn c05_pads<const N: usize>() {
    let n = range(0, N + 2);
    let part = gen_bytes(n);
    ev("pad", &[N as u64, n as u64]);
    ev_bytes("part", &part);
    let a = attempt(|| PkcsPadding::<N>.pad(&part));
    let b = attempt(|| BitPadding::<N>.pad(&part));
    if n < N {
        let want: [u8; N] = model_pad::<N>(&part).try_into().unwrap();
        let mut bits = [0; N];
        bits[..n].copy_from_slice(&part);
        bits[n] = 0x80;
        match (a, b) {
            (Outcome::Done(a), Outcome::Done(b)) => {
                check!(a == want, "pad", "PkcsPadding::<{N}>.pad of {n} bytes gives {}, should be {}", show(&a), show(&want));
                check!(b == bits, "pad", "BitPadding::<{N}>.pad of {n} bytes gives {}, should be {}", show(&b), show(&bits));
            }
            (a, b) => violation("refused", &format!("padding {n} bytes to a block of {N}: PKCS {}, bit {}", a.name(), b.name())),
        }
    } else {
        count("probe.overfull_block");
        check!(!matches!(a, Outcome::Done(_)), "accepted", "PkcsPadding::<{N}>.pad accepted {n} bytes");
        check!(!matches!(b, Outcome::Done(_)), "accepted", "BitPadding::<{N}>.pad accepted {n} bytes");
    }
    // PKCS#7 blocks, genuine and damaged
    let short = gen_bytes(range(0, N - 1));
    let p = gen_last_block::<N>(&short);
    let blk: [u8; N] = p[p.len() - N..].try_into().unwrap();
    let want = model_unpad::<N>(&blk);
    ev_bytes("pkcs-block", &blk);
    match (attempt(|| PkcsPadding::<N>.unpad(blk)), want) {
        (Outcome::Done(k), Some(w)) => check!(k == w, "unpad", "PkcsPadding::<{N}>.unpad({}) gives {k}, should be {w}", show(&blk)),
        (Outcome::Done(k), None) => violation("accepted", &format!("PkcsPadding::<{N}>.unpad accepts {} as {k} bytes; no padding gives that block", show(&blk))),
        (Outcome::Refused(m), Some(w)) => violation("refused", &format!("PkcsPadding::<{N}>.unpad refuses {} ({w} bytes): {m}", show(&blk))),
        _ => {}
    }
    bit_padding::<N>();
}
fn bit_padding<const N: usize>() {
    let mut blk = [0u8; N];
    let k = range(0, N - 1);
    let data = gen_bytes(k);
    blk[..k].copy_from_slice(&data);
    blk[k] = 0x80;
    ev("bit-pad", &[N as u64, k as u64]);
    match attempt(|| BitPadding::<N>.pad(&data)) {
        Outcome::Done(b) => check!(b == blk, "pad", "BitPadding::<{N}>.pad of {k} bytes gives {}, should be {}", show(&b), show(&blk)),
        o => violation("refused", &format!("BitPadding::<{N}>.pad of {k} bytes: {}", o.name())),
    }
    match draw(6) {
        0 => {
            let i = range(0, N - 1);
            blk[i] ^= 1 << draw(8);
            fault("fault.bit_flip");
        }
        1 => {
            blk[k] = draw(256) as u8;
            fault("fault.marker_changed");
        }
        2 => {
            let i = range(k, N - 1);
            blk[i] = draw(256) as u8;
            fault("fault.zero_changed");
        }
        3 => {
            blk = gen_bytes(N).try_into().unwrap();
            fault("fault.last_block_replaced");
        }
        _ => {}
    }
    let last = blk.iter().rposition(|&b| b != 0);
    let want = last.filter(|&i| blk[i] == 0x80);
    ev_bytes("bit-block", &blk);
    match (attempt(|| BitPadding::<N>.unpad(blk)), want) {
        (Outcome::Done((b, k)), Some(w)) => {
            let mut data = [0; N];
            data[..w].copy_from_slice(&blk[..w]);
            check!(k == w && b == data, "unpad", "BitPadding::<{N}>.unpad({}) gives {k} bytes {}, should be {w} bytes {}", show(&blk), show(&b), show(&data));
        }
        (Outcome::Done((_, k)), None) => violation("accepted", &format!("BitPadding::<{N}>.unpad accepts {} as {k} bytes; no padding gives that block", show(&blk))),
        (Outcome::Refused(m), Some(w)) => violation("refused", &format!("BitPadding::<{N}>.unpad refuses {} ({w} bytes): {m}", show(&blk))),
        _ => {}
    }
}
pub fn c05() {
    tasks_of(|yields| {
        let n = gen_n();
        if chance(1, 3) {
            if chance(1, 8) {
                // larger blocks than PKCS#7 can pad
                return match draw(5) {
                    0 => bit_padding::<256>(),
                    1 => bit_padding::<257>(),
                    2 => bit_padding::<300>(),
                    3 => bit_padding::<1024>(),
                    _ => bit_padding::<4096>(),
                };
            }
            return dispatch!(n, c05_pads());
        }
        let kind = gen_kind(n);
        dispatch!(n, c05_op(kind, yields))
    })
}
