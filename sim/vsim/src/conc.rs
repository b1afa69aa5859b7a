//! C12, C13 and C14: many callers at once. The library is compiled with pre-emption points at every edge, load
//! and store; tasks share ciphers, keys, buffers and inputs, some of them fail, stall or give bad arguments.
use crate::block::{Kind, Lib, Model, make_lib};
use crate::text::{c07_op, check_asn1, gen_label, gen_payload, near_label, gen_tree, key_private_der, key_public_der, nest, public_der, to_nat};
use crate::util::{Shared, *};
use cryptography::big::BigUint;
use cryptography::pem::PEM;
use cryptography::rsa::{PaddingScheme, PrivateKey, PublicKey, RsaEncryption, RsaPadding, create_keys};
use cryptography::sha::{Hash160, Hash224, Hash256, Hash384, Hash512, sha1, sha224, sha256, sha384, sha512};
use cryptography::{BlockCipher, StreamCipher, rc2, rc4, rc5};
use hex::FromHex;
use refmodel::keys::{KEYS, Key};
use refmodel::num::Nat;
use refmodel::text::pem_text;
use refmodel::{cipher as mc, hash as mh};
use simrt::sched::yield_seam;
use simrt::*;
use std::str::FromStr;
use std::sync::Arc;

/// In some runs all tasks do the same kind of operation, so that they meet in the same code.
fn gen_focus(kinds: u64) -> Option<u64> {
    if chance(1, 3) { Some(draw(kinds)) } else { None }
}

/// Runs `n` tasks of `ops` operations each over a shared world.
fn crowd<W: 'static>(world: W, max_ops: usize, op_fn: fn(&Shared<W>, usize)) {
    let w = Arc::new(Shared::new(world));
    let ntasks = pick(&[2usize, 1, 2, 3, 4]);
    // now and then all tasks do the same few things over and over, with the same arguments
    let scripts: Arc<Vec<u64>> = Arc::new(if chance(1, 5) { (0..range(1, 3)).map(|_| draw(1 << 40)).collect() } else { vec![] });
    if !scripts.is_empty() {
        count("probe.same_arguments");
    }
    if !scripts.is_empty() && ntasks > 1 && chance(2, 3) { sched::configure_static() } else { sched::configure() }
    let tasks = (0..ntasks)
        .map(|t| {
            let w = w.clone();
            let scripts = scripts.clone();
            // a lone task runs without switches, so it can afford a long history
            let most = match ntasks {
                1 if chance(1, 60) => 100 * max_ops,
                1 if chance(1, 2) => 12 * max_ops,
                1 => 2 * max_ops,
                _ if !scripts.is_empty() => 2 * max_ops,
                _ => max_ops,
            };
            let n = range(1, most);
            Box::new(move || {
                for _ in 0..n {
                    if scripts.is_empty() {
                        perhaps_in_cleanup(|| op_fn(&w, t));
                    } else {
                        let s = scripts[draw(scripts.len() as u64) as usize];
                        scripted(s, || op_fn(&w, t));
                    }
                    yield_seam();
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sched::run_tasks(tasks);
}

// ---------------------------------------------------------------------------------------------------------
// C12

fn any_kind() -> Kind {
    match draw(3) {
        0 => {
            let k = pick(&[16usize, 24, 32]);
            Kind::Aes(gen_bytes(k), chance(1, 3))
        }
        1 => {
            let n = if chance(1, 6) { pick(&[128usize, 127, 1, 2]) } else { range(1, 128) };
            let bits = if chance(1, 3) { pick(&[64u16, 40, 1, 7, 8, 9, 63, 128, 1023, 1024]) } else { range(1, 1024) as u16 };
            Kind::Rc2(gen_bytes(n), bits)
        }
        _ => {
            let n = match draw(6) {
                0 => pick(&[0usize, 1, 3, 4, 5, 255, 254]),
                1 => range(0, 255),
                _ => range(0, 40),
            };
            let r = if chance(1, 3) { draw(256) as u8 } else { pick(&[12u8, 0, 1, 2, 8, 16, 20, 255]) };
            Kind::Rc5(gen_bytes(n), r)
        }
    }
}
/// Same algorithm, nearly the same parameters.
fn near_kind(k: &Kind) -> Kind {
    match k {
        Kind::Aes(key, w) => match draw(4) {
            0 => Kind::Aes(key.clone(), !w),
            1 => {
                // another key size that begins alike
                let n = pick(&[16usize, 24, 32]);
                let mut v = key.clone();
                v.resize(n, 0);
                Kind::Aes(v, *w)
            }
            _ => {
                let mut v = key.clone();
                let i = range(0, v.len() - 1);
                v[i] ^= 1 << draw(8);
                Kind::Aes(v, *w)
            }
        },
        Kind::Rc2(key, bits) => match draw(3) {
            0 => Kind::Rc2(key.clone(), (*bits as i64 + pick(&[1i64, -1, 8, -8, 64])).clamp(1, 1024) as u16),
            _ => Kind::Rc2(related_key(key, 128), *bits),
        },
        Kind::Rc5(key, r) => match draw(3) {
            0 => Kind::Rc5(key.clone(), r.wrapping_add(pick(&[1u8, 255, 4, 12]))),
            _ if key.is_empty() => Kind::Rc5(vec![0], *r),
            _ => Kind::Rc5(related_key(key, 255), *r),
        },
        Kind::Toy(s) => Kind::Toy(s ^ 1),
    }
}

struct Ciphers {
    focus: Option<u64>,
    kinds: Vec<Kind>,
    made: Vec<Option<Arc<Lib>>>,
    blocks: Vec<[u8; 16]>,
    rc4_keys: Vec<Vec<u8>>,
    /// RC4 sessions passed around: key number, position, cipher
    sessions: Vec<(usize, usize, StreamCipher<rc4>)>,
    /// long-lived buffers reused for keys, one per task
    key_buf: Vec<Vec<u8>>,
}

/// Key setup from a buffer that is reused for other keys afterwards.
fn make_from(buf: &mut Vec<u8>, k: &Kind) -> Lib {
    buf.clear();
    match k {
        Kind::Rc2(key, bits) => {
            buf.extend_from_slice(key);
            Lib::Rc2(must("RC2 key setup", || rc2::from_key(buf, *bits)))
        }
        Kind::Rc5(key, r) => {
            buf.extend_from_slice(key);
            Lib::Rc5(must("RC5 key setup", || rc5::new(buf, *r)))
        }
        k => make_lib(k),
    }
}

fn block_op(lib: &Lib, b: [u8; 16], enc: bool) -> Outcome<Vec<u8>> {
    let h: [u8; 8] = b[..8].try_into().unwrap();
    attempt(|| match (lib, enc) {
        (Lib::Aes(c), true) => c.encrypt(b).to_vec(),
        (Lib::Aes(c), false) => c.decrypt(b).to_vec(),
        (Lib::Rc2(c), true) => c.encrypt(h).to_vec(),
        (Lib::Rc2(c), false) => c.decrypt(h).to_vec(),
        (Lib::Rc5(c), true) => c.encrypt(h).to_vec(),
        (Lib::Rc5(c), false) => c.decrypt(h).to_vec(),
        (Lib::Toy(_), _) => vec![],
    })
}
fn model_op(m: &Model, b: [u8; 16], enc: bool) -> Vec<u8> {
    let h: [u8; 8] = b[..8].try_into().unwrap();
    match (m, enc) {
        (Model::Aes(_), true) => m.enc::<16>(b).to_vec(),
        (Model::Aes(_), false) => m.dec::<16>(b).to_vec(),
        (_, true) => m.enc::<8>(h).to_vec(),
        (_, false) => m.dec::<8>(h).to_vec(),
    }
}

fn cipher_op(w: &Shared<Ciphers>, me: usize) {
    let st = w.get();
    let which = st.focus.unwrap_or_else(|| draw(10));
    match which {
        // single blocks, on a shared or a new cipher
        0..=5 => {
            let i = draw(st.kinds.len() as u64) as usize;
            let kind = st.kinds[i].clone();
            ev_str("cipher", &format!("{kind:?}"));
            let lib = match &w.get().made[i] {
                Some(l) if which != 0 && chance(1, 2) => {
                    count("probe.shared_cipher");
                    l.clone()
                }
                _ => {
                    let mut buf = std::mem::take(&mut w.get().key_buf[me]);
                    let l = Arc::new(make_from(&mut buf, &kind));
                    buf.fill(0xee);
                    w.get().key_buf[me] = buf;
                    w.get().made[i] = Some(l.clone());
                    l
                }
            };
            let model = Model::new(&kind);
            let mut last: Option<Vec<u8>> = None;
            for _ in 0..range(1, 6) {
                let pool = w.get().blocks.len() as u64;
                let b = match (draw(5), &last) {
                    (0 | 1, _) => w.get().blocks[draw(pool) as usize],
                    (2, Some(l)) => {
                        let mut b = [0; 16];
                        b[..l.len()].copy_from_slice(l);
                        b
                    }
                    _ => gen_bytes(16).try_into().unwrap(),
                };
                let enc = chance(1, 2);
                ev("block", &[i as u64, enc as u64]);
                let want = model_op(&model, b, enc);
                match block_op(&lib, b, enc) {
                    Outcome::Done(got) => {
                        check!(
                            got == want,
                            "block",
                            "task {me}: {kind:?} {} of block {} gives {}, should be {}",
                            if enc { "encryption" } else { "decryption" },
                            show(&b[..want.len()]),
                            show(&got),
                            show(&want)
                        );
                        last = Some(got);
                    }
                    o => violation("refused", &format!("task {me}: a block operation with {kind:?} did not finish: {}", outcome_text(&o))),
                }
            }
        }
        // whole messages with failing sinks, ciphers and modes
        6 => crate::block::message_op(true),
        // RC4, one-shot and in long-lived sessions
        7 | 8 => {
            let k = draw(st.rc4_keys.len() as u64) as usize;
            let key = st.rc4_keys[k].clone();
            let n = if chance(1, 8) { range(0, 2000) } else { range(0, 120) };
            let data = gen_bytes(n);
            ev("rc4", &[k as u64, n as u64]);
            if which == 7 {
                let (dec, want) = (chance(1, 2), xor(&data, &mc::Rc4::stream(&key, n)));
                let r = attempt(|| {
                    let c = rc4::new(&key);
                    if dec { c.decrypt(&data) } else { c.encrypt(&data) }
                });
                match r {
                    Outcome::Done(got) => check!(got == want, "rc4", "task {me}: RC4 with key {} of {} gives {}, should be {}", show(&key), show(&data), show(&got), show(&want)),
                    o => violation("refused", &format!("RC4 with key {}: {}", show(&key), outcome_text(&o))),
                }
                return;
            }
            // take a session (or open one), use it, and give it back for the next task
            let nses = w.get().sessions.len();
            let (k, pos, mut c) = if nses > 0 && chance(2, 3) {
                w.get().sessions.swap_remove(draw(nses as u64) as usize)
            } else {
                (k, 0, must("rc4::new", || StreamCipher::new(rc4::new(&key))))
            };
            let key = w.get().rc4_keys[k].clone();
            let want = xor(&data, &mc::Rc4::stream(&key, pos + n)[pos..]);
            let fail_at = if chance(1, 6) { range(0, n) } else { usize::MAX };
            let mut out = Vec::with_capacity(n);
            let src = data.iter().enumerate().map(|(i, &b)| {
                if i == fail_at {
                    seam(|| crash_now("fault.source_panic"));
                }
                seam(yield_seam);
                b
            });
            let r = attempt(|| {
                for b in c.encrypt(src) {
                    out.push(b);
                }
            });
            check!(out[..] == want[..out.len()], "rc4", "task {me}: RC4 session with key {} from position {pos} gives {}, should be {}", show(&key), show(&out), show(&want));
            match r {
                Outcome::Done(()) => {
                    check!(out.len() == n, "rc4", "task {me}: {} of {n} bytes came out", out.len());
                    w.get().sessions.push((k, pos + n, c));
                }
                Outcome::Crashed => {}
                o => violation("refused", &format!("an RC4 session: {}", outcome_text(&o))),
            }
        }
        // bad arguments: whatever happens to this call, nobody else may notice
        _ => {
            fault("fault.bad_argument");
            let n = range(0, 400);
            let key = gen_bytes(n);
            match draw(5) {
                0 => drop(attempt(|| rc2::from_key(&key, 0))),
                1 => drop(attempt(|| rc2::from_key(&[key, vec![7; 129]].concat(), 64))),
                2 => drop(attempt(|| rc2::from_key(&[1, 2, 3], 1025 + n as u16))),
                3 => drop(attempt(|| rc5::new(&[key, vec![7; 256]].concat(), 12))),
                _ => drop(attempt(|| rc4::new(&[]))),
            }
        }
    }
}
fn outcome_text<T>(o: &Outcome<T>) -> String {
    match o {
        Outcome::Refused(m) => format!("panicked: {m}"),
        o => o.name().into(),
    }
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

pub fn c12() {
    threads!(moved rc4, moved StreamCipher<rc4>; shared cryptography::aes::Aes, shared rc2, shared rc5);
    let mut kinds = vec![any_kind()];
    for _ in 0..draw(4) {
        let k = if chance(2, 3) { near_kind(&kinds[draw(kinds.len() as u64) as usize].clone()) } else { any_kind() };
        kinds.push(k);
    }
    let n = pick(&[16usize, 1, 5, 32, 256, 300]);
    let base = gen_bytes(n);
    let mut rc4_keys = vec![base.clone()];
    for _ in 0..draw(3) {
        rc4_keys.push(related_key(&base, 300));
    }
    let blocks = (0..range(1, 3)).map(|_| gen_bytes(16).try_into().unwrap()).collect();
    // some ciphers exist before the crowd starts
    let made = kinds.iter().map(|k| if chance(1, 3) { Some(Arc::new(make_lib(k))) } else { None }).collect();
    let key_buf = (0..4).map(|_| Vec::with_capacity(512)).collect();
    crowd(Ciphers { focus: gen_focus(9), kinds, made, blocks, rc4_keys, sessions: vec![], key_buf }, 5, cipher_op);
}

// ---------------------------------------------------------------------------------------------------------
// C13

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sha {
    S1,
    S224,
    S256,
    S384,
    S512,
}
const SHAS: [Sha; 5] = [Sha::S256, Sha::S1, Sha::S224, Sha::S384, Sha::S512];

fn model_sha(a: Sha, m: &[u8]) -> Vec<u8> {
    match a {
        Sha::S1 => mh::sha1(m).to_vec(),
        Sha::S224 => mh::sha224(m).to_vec(),
        Sha::S256 => mh::sha256(m).to_vec(),
        Sha::S384 => mh::sha384(m).to_vec(),
        Sha::S512 => mh::sha512(m).to_vec(),
    }
}
fn lib_sha(a: Sha, m: &[u8]) -> Vec<u8> {
    match a {
        Sha::S1 => <[u8; 20]>::from(sha1(m)).to_vec(),
        Sha::S224 => <[u8; 28]>::from(sha224(m)).to_vec(),
        Sha::S256 => <[u8; 32]>::from(sha256(m)).to_vec(),
        Sha::S384 => <[u8; 48]>::from(sha384(m)).to_vec(),
        Sha::S512 => <[u8; 64]>::from(sha512(m)).to_vec(),
    }
}
fn hex_of(b: &[u8], upper: bool) -> String {
    b.iter().map(|x| if upper { format!("{x:02X}") } else { format!("{x:02x}") }).collect()
}

macro_rules! views {
    ($t:ty, $w:ty, $n:expr, $bytes:expr, $hash:expr) => {{
        let bytes: &[u8] = $bytes;
        const WB: usize = <$w>::BITS as usize / 8;
        let words: [$w; $n] = std::array::from_fn(|i| <$w>::from_be_bytes(bytes[i * WB..(i + 1) * WB].try_into().unwrap()));
        let name = stringify!($t);
        let from_words: $t = must("hash from words", || <$t>::from(words));
        let back: [$w; $n] = must("hash to words", || from_words.clone().into());
        check!(back == words, "views", "{name} from words {words:x?} gives back words {back:x?}");
        let b: [u8; $n * WB] = must("hash to bytes", || from_words.clone().into());
        check!(b[..] == *bytes, "views", "{name} from words {words:x?} gives bytes {}, should be {}", show(&b), show(bytes));
        let upper = chance(1, 2);
        let text = hex_of(bytes, upper);
        match attempt(|| <$t>::from_hex(&text)) {
            Outcome::Done(Ok(h)) => {
                let b: [u8; $n * WB] = h.clone().into();
                check!(b[..] == *bytes && h == from_words, "views", "{name} from hex {text} is {}", show(&b));
                if let Some(g) = $hash {
                    let g: $t = g;
                    check!(g == h, "views", "{name}: a digest differs from the one read from its own hex text {text}");
                    let gw: [$w; $n] = must("hash to words", || g.into());
                    check!(gw == words, "views", "{name}: the words of a digest are {gw:x?}, should be {words:x?}");
                }
            }
            o => violation("views", &format!("{name} from hex {text} was refused ({})", o.name())),
        }
        // another value is another value
        let mut other = bytes.to_vec();
        let i = range(0, other.len() - 1);
        match draw(4) {
            // changed in two places alike, or two parts exchanged
            1 => {
                let (j, x) = (range(0, other.len() - 1), 1 + draw(255) as u8);
                other[i] ^= x;
                other[j] ^= x;
            }
            2 => {
                let j = range(0, other.len() - 1);
                other.swap(i, j);
            }
            3 => {
                let (j, x) = (range(0, other.len() - 1), 1 + draw(255) as u8);
                other[i] = other[i].wrapping_add(x);
                other[j] = other[j].wrapping_sub(x);
            }
            _ => other[i] ^= 1 << draw(8),
        }
        if other != bytes && let Outcome::Done(Ok(h)) = attempt(|| <$t>::from_hex(hex_of(&other, false))) {
            check!(h != from_words, "views", "{name}: different values {} and {} are called equal", show(&other), show(bytes));
        }
        // text that denotes no such value
        let mut bad = text.clone().into_bytes();
        match draw(5) {
            0 => drop(bad.pop()),
            1 => bad.truncate(bad.len() - 2),
            2 => bad.extend_from_slice(b"00"),
            3 => {
                let i = range(0, bad.len() - 1);
                bad[i] = pick(b"gG xz:-+\0\x80\xff");
            }
            _ => bad.clear(),
        }
        fault("fault.bad_hex");
        match attempt(|| <$t>::from_hex(&bad)) {
            Outcome::Done(Err(_)) => {}
            Outcome::Done(Ok(_)) => violation("views", &format!("{name} was read from {:?}", String::from_utf8_lossy(&bad))),
            o => violation("views", &format!("{name} from {:?}: {}", String::from_utf8_lossy(&bad), o.name())),
        }
    }};
}

struct Digests {
    focus: Option<u64>,
    sha: Option<Sha>,
    messages: Vec<Arc<Vec<u8>>>,
    bufs: Vec<Vec<u8>>,
}

fn digest_op(w: &Shared<Digests>, me: usize) {
    match w.get().focus.unwrap_or_else(|| draw(8)) {
        0..=3 => {
            let a = w.get().sha.unwrap_or_else(|| pick(&SHAS));
            let n = w.get().messages.len() as u64;
            let shared = w.get().messages[draw(n) as usize].clone();
            let mut buf = std::mem::take(&mut w.get().bufs[me]);
            let own = chance(1, 2);
            let msg: &[u8] = if own {
                // the task's own buffer, refilled in place
                let cap = buf.capacity();
                buf.clear();
                let mut v = if chance(1, 2) { shared.to_vec() } else { crate::digest::gen_message(false) };
                if !v.is_empty() && chance(1, 2) {
                    let i = range(0, v.len() - 1);
                    v[i] ^= 1 << draw(8);
                }
                v.truncate(cap);
                buf.extend_from_slice(&v);
                &buf
            } else {
                let a = if chance(1, 3) { range(0, shared.len()) } else { 0 };
                let b = if chance(1, 3) { range(a, shared.len()) } else { shared.len() };
                &shared[a..b]
            };
            ev("sha", &[a as u64, msg.len() as u64, own as u64]);
            ev_bytes("message", msg);
            let want = model_sha(a, msg);
            match attempt(|| lib_sha(a, msg)) {
                Outcome::Done(got) => check!(got == want, "digest", "task {me}: {a:?} of {} bytes {} gives {}, should be {}", msg.len(), show(msg), show(&got), show(&want)),
                o => violation("refused", &format!("{a:?} of {} bytes: {}", msg.len(), outcome_text(&o))),
            }
            w.get().bufs[me] = buf;
        }
        4 | 5 => crate::digest::one(1),
        _ => {
            let a = w.get().sha.unwrap_or_else(|| pick(&SHAS));
            let real = chance(1, 2);
            let n = w.get().messages.len() as u64;
            let msg = w.get().messages[draw(n) as usize].clone();
            let len = match a {
                Sha::S1 => 20,
                Sha::S224 => 28,
                Sha::S256 => 32,
                Sha::S384 => 48,
                Sha::S512 => 64,
            };
            let bytes = if real { model_sha(a, &msg) } else { gen_bytes(len) };
            ev("views", &[a as u64, real as u64]);
            ev_bytes("value", &bytes);
            match a {
                Sha::S1 => views!(Hash160, u32, 5, &bytes, real.then(|| must("sha1", || sha1(&msg)))),
                Sha::S224 => views!(Hash224, u32, 7, &bytes, real.then(|| must("sha224", || sha224(&msg)))),
                Sha::S256 => views!(Hash256, u32, 8, &bytes, real.then(|| must("sha256", || sha256(&msg)))),
                Sha::S384 => views!(Hash384, u64, 6, &bytes, real.then(|| must("sha384", || sha384(&msg)))),
                Sha::S512 => views!(Hash512, u64, 8, &bytes, real.then(|| must("sha512", || sha512(&msg)))),
            }
        }
    }
}

/// Digests of that many zero bytes: lengths whose bit count (or byte count) does not fit 32 bits.
static HUGE: [(usize, &str, &str); 10] = [
    (536870973, "sha1", "5f928da2a1b9aa405a4e8e74bdc8dc7721734db8"),
    (536870973, "sha224", "898fa9e241ecc0fbc5a5394d2db274a66900c08fe4399b98d17d8d3c"),
    (536870973, "sha256", "61d4b08885e42107cdb1faaeeeae32fb18bb42c3ba41a4c1cdcfa3ac61833985"),
    (536870973, "sha384", "7d29454d076f02f6892c6e688f9824c6bf80509a5edc83922188e62349debb80e76979a1020eb2d802d0263f432d4d78"),
    (536870973, "sha512", "782aefc6f89b2d35287de3eb862845f71dda242b2019dce00aaca1bef45aedaf0c8f9776dbca4f848aa2abea70e89d7824b9d3bb406a4c6bdb7de66041d4fb76"),
    (4294967357, "sha1", "cd5647a5aec0fc6e98827aa49f95b6352b7e3001"),
    (4294967357, "sha224", "dc70992176099f6f63081bdd7448cc0d6b87e0ebb107cebee3d89a79"),
    (4294967357, "sha256", "6ad1747650fe69fe6b8b826ae66d837dd4c9a29bbcdca81ee3b9bc71c503f75e"),
    (4294967357, "sha384", "9cddb27b6c755100cd1165846e9f00cfdf1b3efef4c6b1bd153f215c7c844c18db296c52c61f7c67787be653cdf3d974"),
    (4294967357, "sha512", "c6b021c6a676889fceb678d55190dfe41439ef87dac8fdacbf1f1cc263577f7ec59b118e4c30e6cd677fe54b21e90c4cbf1b2ccbc9af9168d850f6cfea29ab1d"),
];

fn huge_sha(i: usize) {
    let (n, name, want) = HUGE[i];
    simrt::heavy();
    ev("huge", &[i as u64, n as u64]);
    count("probe.beyond_2_32_bits");
    // read-only zero pages: costs address space, not memory
    let p = sys::map_zero(n);
    let msg = unsafe { core::slice::from_raw_parts(p, n) };
    let r = attempt(|| match name {
        "sha1" => lib_sha(Sha::S1, msg),
        "sha224" => lib_sha(Sha::S224, msg),
        "sha256" => lib_sha(Sha::S256, msg),
        "sha384" => lib_sha(Sha::S384, msg),
        _ => lib_sha(Sha::S512, msg),
    });
    match r {
        Outcome::Done(got) => check!(hex_of(&got, false) == want, "digest", "{name} of {n} zero bytes gives {}, should be {want}", hex_of(&got, false)),
        o => violation("refused", &format!("{name} of {n} bytes: {}", outcome_text(&o))),
    }
}

/// One long message, not all of it the same.
fn long_sha() {
    let a = pick(&SHAS);
    let n = match draw(3) {
        0 => (1 << range(20, 24)) + range(0, 300) - 150,
        1 => range(1 << 18, 1 << 20),
        _ => range(1 << 20, 1 << 23),
    };
    let msg = prng_bytes(n, draw(1 << 32));
    ev("long", &[n as u64]);
    let want = model_sha(a, &msg);
    match attempt(|| lib_sha(a, &msg)) {
        Outcome::Done(got) => check!(got == want, "digest", "{a:?} of {n} bytes gives {}, should be {}", show(&got), show(&want)),
        o => violation("refused", &format!("{a:?} of {n} bytes: {}", outcome_text(&o))),
    }
}

pub fn c13() {
    threads!(; shared Hash160, shared Hash224, shared Hash256, shared Hash384, shared Hash512);
    let idx = run_index();
    // the longest first, so that they end with the rest
    let f = forced(1 << 40, if idx < 10 { HUGE_RUN + 9 - idx } else { 0 });
    if (HUGE_RUN..HUGE_RUN + 10).contains(&f) {
        return huge_sha((f - HUGE_RUN) as usize);
    }
    if forced(2, (idx % 1000 == 17) as u64) == 1 {
        return long_sha();
    }
    let tiny = chance(1, 4);
    let mut messages: Vec<Arc<Vec<u8>>> = vec![];
    for i in 0..range(1, 3) {
        let m = if i > 0 && chance(1 + tiny as u64, 3) {
            // one that differs from the first in a few bytes only
            let mut m = messages[0].to_vec();
            for _ in 0..range(1, 3) {
                if !m.is_empty() {
                    let i = range(0, m.len() - 1);
                    m[i] ^= 1 + draw(255) as u8;
                }
            }
            m
        } else if tiny {
            let n = if chance(1, 2) { pick(&[4usize, 8, 16, 1, 2, 3]) } else { range(0, 20) };
            gen_bytes(n)
        } else {
            crate::digest::gen_message(false)
        };
        messages.push(Arc::new(m));
    }
    let bufs = (0..4).map(|_| Vec::with_capacity(4096)).collect();
    let sha = if chance(1 + tiny as u64, 3) { Some(pick(&SHAS)) } else { None };
    let focus = if tiny && chance(1, 2) { Some(0) } else { gen_focus(8) };
    crowd(Digests { focus, sha, messages, bufs }, 4, digest_op);
}

// ---------------------------------------------------------------------------------------------------------
// C14

struct Keyring {
    key: &'static Key,
    n: Nat,
    e: Nat,
    d: Nat,
    send: RsaEncryption,
    recv: RsaEncryption,
}
struct Numbers {
    focus: Option<u64>,
    arith: Option<u64>,
    /// numbers that RSA operations use again and again
    inputs: Vec<Nat>,
    regs: Vec<Nat>,
    shared: Vec<BigUint>,
    keys: Vec<Arc<Keyring>>,
    pems: Vec<Arc<(PEM, String)>>,
}

fn gen_nat() -> Nat {
    let n = match draw(8) {
        0 => range(0, 2),
        1 => pick(&[15usize, 16, 17, 31, 32, 33, 64]),
        2 => range(0, 80),
        3 if chance(1, 6) => range(0, 300),
        4 if chance(1, 20) => range(250, 1100),
        _ => range(0, 24),
    };
    match draw(4) {
        0 => {
            // a power of two, plus or minus a little
            let p = Nat::from_u128(1).shl(range(0, 8 * n + 8));
            match draw(3) {
                0 => p,
                1 => p.add(&Nat::from_u128(draw(300) as u128)),
                _ => {
                    let s = Nat::from_u128(1 + draw(255) as u128);
                    if p.cmp(&s).is_lt() { p } else { p.sub(&s) }
                }
            }
        }
        _ => Nat::from_be(&gen_bytes(n)),
    }
}
/// A number that has something to do with `a`: equal, off by a little, alike at the top or at the bottom, a multiple.
fn near_nat(a: &Nat) -> Nat {
    let one = Nat::from_u128(1);
    let minus = |a: &Nat, b: &Nat| if a.cmp(b).is_lt() { b.sub(a) } else { a.sub(b) };
    match draw(8) {
        0 => a.clone(),
        1 => a.add(&Nat::from_u128(1 + draw(300) as u128)),
        2 => minus(a, &Nat::from_u128(1 + draw(300) as u128)),
        3 => a.add(&one.shl(range(0, a.bits() + 2))),
        4 => minus(a, &one.shl(range(0, a.bits() + 2))),
        5 => a.shr(range(0, a.bits())),
        6 => a.mul(&Nat::from_u128(1 + draw(1 << 20) as u128)).add(&Nat::from_u128(draw(3) as u128)),
        _ => {
            // the complement within its own length
            let v: Vec<u8> = a.to_be().iter().map(|b| !b).collect();
            Nat::from_be(&v)
        }
    }
}
fn lib_num(n: &Nat) -> BigUint {
    let be = n.to_be();
    let zeros = match draw(16) {
        12..=14 => range(0, 5),
        15 => pick(&[7usize, 8, 16, 17, 33, 64, 100, 128, 129, 300]) + range(0, 2),
        _ => 0,
    };
    match draw(3) {
        0 => {
            let mut v = be.clone();
            v.reverse();
            v.extend(std::iter::repeat_n(0, zeros));
            must("from_le_bytes", || BigUint::from_le_bytes(&v))
        }
        1 if n.bits() <= 128 => must("from u128", || BigUint::from(n.to_u128().unwrap())),
        _ => {
            let mut v = vec![0; zeros];
            v.extend_from_slice(&be);
            must("from_be_bytes", || BigUint::from_be_bytes(&v))
        }
    }
}
fn lib_num_plain(n: &Nat) -> BigUint {
    BigUint::from_be_bytes(n.to_be())
}
fn same_num(what: &str, got: &BigUint, want: &Nat) {
    let b = must("to_be_bytes", || got.to_be_bytes());
    check!(b == want.to_be(), "number", "{what} gives {}, should be {}", show(&b), show(&want.to_be()));
    let bits = must("bits_used", || got.bits_used());
    check!(bits as usize == want.bits(), "number", "{what}: {bits} bits used, should be {}", want.bits());
    let i = range(0, want.bits() + 9);
    check!(must("is_set", || got.is_set(i as u32)) == want.bit(i), "number", "{what}: bit {i} of {} is wrong", show(&b));
    match must("as_u128", || got.as_u128()) {
        Ok(v) => check!(want.to_u128() == Some(v), "number", "{what}: as_u128 of {} is {v:#x}", show(&b)),
        Err(_) => check!(want.bits() > 128, "number", "{what}: as_u128 of {} was refused", show(&b)),
    }
}

fn gen_shift(a: &Nat) -> usize {
    match draw(8) {
        0..=2 => 8 * range(0, 20),
        3 => (a.bits() + range(0, 20)).saturating_sub(10),
        4 if chance(1, 8) => range(0, 9000),
        _ => range(0, 70),
    }
}

/// Numbers whose length in bits or bytes passes 2^16 and shifts by as much.
fn giant_op() {
    count("probe.giant_numbers");
    let around = |v: &[usize]| pick(v) + range(0, 18) - 9;
    let len = if chance(1, 2) { around(&[8192, 65536]) } else { range(4000, 70_000) };
    let a = Nat::from_be(&gen_bytes(len));
    let s = if chance(1, 2) { around(&[65536, 8 * 65536, 32768]) } else { range(9000, 600_000) };
    let b = match draw(3) {
        0 => near_nat(&a),
        1 => gen_nat(),
        _ => {
            let n = range(1, len);
            Nat::from_be(&gen_bytes(n))
        }
    };
    let (big, small) = if a.cmp(&b).is_lt() { (&b, &a) } else { (&a, &b) };
    let mut x = must("from_be_bytes", || BigUint::from_be_bytes(big.to_be()));
    let y = must("from_be_bytes", || BigUint::from_be_bytes(small.to_be()));
    let kind = draw(6);
    ev("giant", &[kind, big.bits() as u64, small.bits() as u64, s as u64]);
    let want = match kind {
        0 => {
            must("addition", || x += &y);
            big.add(small)
        }
        1 => {
            must("subtraction", || x -= &y);
            big.sub(small)
        }
        2 => {
            must("left shift", || x <<= s as u32);
            big.shl(s)
        }
        3 => {
            must("right shift", || x >>= s as u32);
            big.shr(s)
        }
        4 if big.bits() - small.bits() < 12 && !small.is_zero() => {
            must("remainder", || x %= &y);
            big.rem(small)
        }
        _ => {
            let c = must("comparison", || x.cmp(&y));
            check!(c == big.cmp(small), "number", "comparing numbers of {} and {} bits gives {c:?}", big.bits(), small.bits());
            big.clone()
        }
    };
    same_num(&format!("operation {kind} on numbers of {} and {} bits, shift {s},", big.bits(), small.bits()), &x, &want);
}

fn arith_op(w: &Shared<Numbers>) {
    if chance(1, 300) {
        return giant_op();
    }
    let nregs = w.get().regs.len() as u64;
    let pick_nat = || if chance(1, 2) { w.get().regs[draw(nregs) as usize].clone() } else { gen_nat() };
    let mut a = pick_nat();
    // the right-hand side is often an object other tasks are reading at the same time
    let j = draw(w.get().shared.len() as u64) as usize;
    let use_shared = chance(1, 2);
    let b = if use_shared {
        w.get().regs[j].clone()
    } else if chance(1, 2) {
        near_nat(&a)
    } else {
        pick_nat()
    };
    if use_shared && chance(1, 2) {
        a = near_nat(&b);
    }
    let own = lib_num(&b);
    let bl: &BigUint = if use_shared { &w.get().shared[j] } else { &own };
    let mut al = lib_num(&a);
    let (ah, bh) = (show(&a.to_be()), show(&b.to_be()));
    let kind = w.get().arith.unwrap_or_else(|| draw(11));
    ev("arith", &[kind]);
    ev_bytes("a", &a.to_be());
    ev_bytes("b", &b.to_be());
    let want;
    let what;
    match kind {
        0 => {
            must("addition", || al += bl);
            want = a.add(&b);
            what = format!("{ah} + {bh}");
        }
        1 => {
            let s = draw(256) as u8;
            must("addition of a byte", || al += s);
            want = a.add(&Nat::from_u128(s as u128));
            what = format!("{ah} + byte {s}");
        }
        2 | 3 => {
            if a.cmp(&b).is_lt() {
                // the other way round
                let mut x = bl.clone();
                if kind == 2 {
                    must("subtraction", || x -= &al);
                } else {
                    x = must("subtraction", || x - &al);
                }
                al = x;
                want = b.sub(&a);
                what = format!("{bh} - {ah}");
            } else {
                if kind == 2 {
                    must("subtraction", || al -= bl);
                } else {
                    al = must("subtraction", || al - bl);
                }
                want = a.sub(&b);
                what = format!("{ah} - {bh}");
            }
        }
        4 | 5 => {
            if b.is_zero() {
                return;
            }
            must("remainder", || al %= bl);
            want = a.rem(&b);
            what = format!("{ah} mod {bh}");
        }
        6 => {
            let s = gen_shift(&a);
            must("left shift", || al <<= s as u32);
            want = a.shl(s);
            what = format!("{ah} << {s}");
        }
        7 => {
            let s = gen_shift(&a);
            must("right shift", || al >>= s as u32);
            want = a.shr(s);
            what = format!("{ah} >> {s}");
        }
        8 => {
            let got = must("comparison", || (al.cmp(bl), al.partial_cmp(bl), al == *bl, al < *bl));
            let c = a.cmp(&b);
            check!(
                got == (c, Some(c), c.is_eq(), c.is_lt()),
                "number",
                "comparing {ah} with {bh} gives {got:?}, should be {c:?}"
            );
            want = a.clone();
            what = format!("{ah} after a comparison");
        }
        9 => {
            // set or clear a bit below the top byte's
            if a.bits() < 9 {
                return;
            }
            let top = (a.bits() - 1) / 8 * 8;
            let i = range(0, top - 1);
            let on = chance(1, 2);
            must("update", || al.update(i as u32, on));
            let bit = Nat::from_u128(1).shl(i);
            want = match (a.bit(i), on) {
                (false, true) => a.add(&bit),
                (true, false) => a.sub(&bit),
                _ => a.clone(),
            };
            what = format!("setting bit {i} of {ah} to {on}");
        }
        _ => {
            fault("fault.bad_argument");
            // whatever these do to their own operands, nobody else may notice
            match draw(4) {
                0 => {
                    let big = a.add(&b).add(&Nat::from_u128(1));
                    let (mut x, y) = (al.clone(), lib_num(&big));
                    drop(attempt(move || x -= &y));
                }
                1 => {
                    let mut x = al.clone();
                    drop(attempt(move || x %= &BigUint::from(0)));
                }
                2 => drop(attempt(|| create_keys(lib_num_plain(&a), lib_num_plain(&Nat::from_u128(1).shl(128 + a.bits())), BigUint::from(3)))),
                _ => {}
            }
            match attempt(|| al.update(a.bits() as u32 + 8 + draw(100) as u32, true)) {
                Outcome::Refused(_) => {}
                _ => {
                    // grew instead of refusing: not this property's business
                    return;
                }
            }
            want = a.clone();
            what = format!("{ah} after a refused update");
        }
    }
    same_num(&what, &al, &want);
    if use_shared {
        check!(to_nat(bl) == b, "number", "{what} changed its right-hand side {bh} to {}", show(&bl.to_be_bytes()));
    }
    let r = draw(nregs) as usize;
    if r >= w.get().shared.len() {
        w.get().regs[r] = want;
    }
}

fn rsa_number_op(w: &Shared<Numbers>, k: &Keyring) {
    let one = Nat::from_u128(1);
    let m = match draw(12) {
        6..=11 => {
            let i = draw(w.get().inputs.len() as u64) as usize;
            w.get().inputs[i].clone()
        }
        0 => Nat::zero(),
        1 => one.clone(),
        2 => k.n.sub(&one),
        3 => Nat::from_be(&gen_bytes(k.n.bits().div_ceil(8) + 2)),
        _ => Nat::from_be(&gen_bytes(k.n.bits().div_ceil(8) + 1)).rem(&k.n),
    };
    let private = chance(1, 3);
    let (e, x) = if private { (&k.recv, &k.d) } else { (&k.send, &k.e) };
    let want = m.powmod(x, &k.n);
    ev("rsa", &[k.key.bits as u64, private as u64]);
    ev_bytes("number", &m.to_be());
    let ml = lib_num(&m);
    let dec = chance(1, 2);
    match attempt(|| if dec { e.decrypt(ml) } else { e.encrypt(ml) }) {
        Outcome::Done(c) => same_num(&format!("{} to the power {} mod {}", show(&m.to_be()), show(&x.to_be()), k.key.n), &c, &want),
        o => violation("refused", &format!("an RSA operation on {} with a {} bit key: {}", show(&m.to_be()), k.key.bits, outcome_text(&o))),
    }
}

/// A public key made of any two numbers: its operation is a power modulo the first.
fn power_op() {
    let two = Nat::from_u128(2);
    let size = pick(&[4usize, 2, 8, 12, 1, 17]);
    let mut n = match draw(4) {
        0 => Nat::from_u128(1).shl(range(1, 8 * size)).add(&Nat::from_u128(draw(4) as u128)),
        _ => Nat::from_be(&gen_bytes(size)),
    };
    if n.cmp(&two).is_lt() {
        n = two;
    }
    let e = match draw(4) {
        // few bits set, far apart
        0 => Nat::from_u128(1).shl(range(0, 60)).add(&Nat::from_u128(1).shl(range(0, 60))),
        1 => Nat::from_u128(draw(20) as u128),
        _ => {
            let len = range(1, 6);
            Nat::from_be(&gen_bytes(len))
        }
    };
    let m = match draw(5) {
        0 => near_nat(&n),
        1 => n.mul(&Nat::from_u128(draw(5) as u128)),
        2 => Nat::from_be(&gen_bytes(size + 1)),
        _ => Nat::from_be(&gen_bytes(size)).rem(&n),
    };
    power(&m, &e, &n);
    // and with one of the three a little different
    let like = |a: &Nat| {
        let mut v = a.to_be();
        if v.is_empty() {
            return Nat::from_u128(1);
        }
        if chance(1, 2) {
            cancel(&mut v);
        } else {
            let i = range(0, v.len() - 1);
            v[i] ^= 1 << draw(8);
        }
        Nat::from_be(&v)
    };
    for _ in 0..range(0, 2) {
        match draw(3) {
            0 => power(&like(&m), &e, &n),
            1 => power(&m, &like(&e), &n),
            _ => {
                let n = like(&n);
                if n.bits() >= 2 {
                    power(&m, &e, &n)
                }
            }
        }
    }
}
fn power(m: &Nat, e: &Nat, n: &Nat) {
    ev_bytes("modulus", &n.to_be());
    ev_bytes("exponent", &e.to_be());
    ev_bytes("base", &m.to_be());
    let key = match attempt(|| PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: public_der(n, e).enc() })) {
        Outcome::Done(Ok(k)) => k,
        // whether odd numbers are accepted as a key is not this property's business
        _ => return,
    };
    let enc: RsaEncryption = key.into();
    let ml = lib_num(m);
    match attempt(|| enc.encrypt(ml)) {
        Outcome::Done(c) => same_num(&format!("{} to the power {} mod {}", show(&m.to_be()), show(&e.to_be()), show(&n.to_be())), &c, &m.powmod(e, n)),
        Outcome::Refused(_) => {}
        o => violation("refused", &format!("a power: {}", outcome_text(&o))),
    }
}

fn small_prime(max: u64) -> Nat {
    loop {
        let n = Nat::from_u128(3 + 2 * draw(max) as u128);
        if n.is_prime() {
            return n;
        }
        // on a shrunk tape every draw is 0: 3 is prime, so this ends
    }
}
fn create_op() {
    let one = Nat::from_u128(1);
    let (p, q, e) = if chance(1, 2) {
        let small: Vec<&Key> = KEYS.iter().filter(|k| k.kind == "small" || k.kind == "full").collect();
        let k = pick(&small);
        (Nat::from_hex(k.p), Nat::from_hex(k.q), Nat::from_hex(k.e))
    } else {
        let p = small_prime(1 << 14);
        let q = small_prime(pick(&[50u64, 1 << 10, 1 << 20]));
        let e = if chance(1, 3) {
            let len = range(1, 16);
            Nat::from_be(&gen_bytes(len))
        } else {
            Nat::from_u128(pick(&[65537u128, 3, 17, 257, 5, 7, 11, 101]))
        };
        (p, q, e)
    };
    if p.cmp(&q).is_eq() {
        return;
    }
    let (p1, q1) = (p.sub(&one), q.sub(&one));
    let l = p1.mul(&q1).divrem(&p1.gcd(&q1)).0;
    let n = p.mul(&q);
    let (pl, ql, el) = (lib_num(&p), lib_num(&q), lib_num(&e));
    ev_bytes("p", &p.to_be());
    ev_bytes("q", &q.to_be());
    ev_bytes("e", &e.to_be());
    let r = attempt(|| create_keys(pl, ql, el));
    let Some(d) = e.rem(&l).inv(&l) else {
        fault("fault.bad_argument");
        check!(!matches!(r, Outcome::Done(_)), "keys", "keys were created from p {} q {} and an exponent {} that has no inverse", show(&p.to_be()), show(&q.to_be()), show(&e.to_be()));
        return;
    };
    let (pr, pu) = match r {
        Outcome::Done(x) => x,
        o => violation("refused", &format!("creating keys from p {} q {} e {}: {}", show(&p.to_be()), show(&q.to_be()), show(&e.to_be()), outcome_text(&o))),
    };
    let (s, r): (RsaEncryption, RsaEncryption) = (pu.into(), pr.into());
    for _ in 0..2 {
        let m = Nat::from_be(&gen_bytes(n.bits() / 8 + 1)).rem(&n);
        let ml = lib_num(&m);
        let c = must("RSA encryption", || s.encrypt(ml));
        same_num(&format!("{} encrypted with keys created from p {} q {} e {}", show(&m.to_be()), show(&p.to_be()), show(&q.to_be()), show(&e.to_be())), &c, &m.powmod(&e, &n));
        if d.bits() < 70 {
            let back = must("RSA decryption", || r.decrypt(c));
            same_num(&format!("{} decrypted again with keys created from p {} q {} e {}", show(&m.to_be()), show(&p.to_be()), show(&q.to_be()), show(&e.to_be())), &back, &m);
        }
    }
}

fn oaep_op() {
    let k = range(66, 140);
    let n = range(0, k - 66);
    let msg = gen_bytes(n);
    let label = gen_bytes(pick(&[0usize, 0, 3, 64, 200]));
    ev("oaep", &[k as u64, n as u64, label.len() as u64]);
    match attempt(|| RsaPadding.encode(&label, &msg, k)) {
        Outcome::Done(em) => {
            let held = mh::oaep_decode(&label, &em).map(|x| x.1);
            check!(em.len() == k && held.as_ref() == Some(&msg), "oaep", "encoding {} for {k} bytes gives {}, which holds {held:?}", show(&msg), show(&em));
        }
        o => violation("refused", &format!("encoding {n} bytes for {k}: {}", outcome_text(&o))),
    }
    let seed: [u8; 32] = prng_bytes(32, draw(1 << 20)).try_into().unwrap();
    let Some(em) = mh::oaep_encode(&label, &msg, k, &seed) else { return };
    match attempt(|| RsaPadding.decode(&label, &em, k)) {
        Outcome::Done(Ok(m)) => check!(m == msg, "oaep", "decoding {} gives {}, should be {}", show(&em), show(&m), show(&msg)),
        o => violation("oaep", &format!("decoding {} ({n} bytes in {k}) failed: {}", show(&em), o.name())),
    }
}

fn pem_ops(w: &Shared<Numbers>) {
    let n = w.get().pems.len() as u64;
    let p = w.get().pems[draw(n) as usize].clone();
    match draw(4) {
        0 | 1 => c07_op(&p.0, &p.1, true),
        _ => {
            ev_str("parse", &p.1);
            match attempt(|| PEM::from_str(&p.1)) {
                Outcome::Done(Ok(q)) => check!(q.label == p.0.label && q.data == p.0.data, "pem", "the text {:?} was read as label {:?} with {} bytes of data", p.1, q.label, q.data.len()),
                o => violation("pem", &format!("the text {:?} was not read ({})", p.1, o.name())),
            }
            if chance(1, 2) {
                crate::text::read_changed(&p.1);
            }
            // and a text with something wrong in it
            fault("fault.bad_argument");
            let mut t = p.1.clone().into_bytes();
            let i = range(0, t.len() - 1);
            t[i] = pick(b"-*\n A=");
            let t = String::from_utf8_lossy(&t).into_owned();
            if let Outcome::Refused(m) = attempt(|| PEM::from_str(&t)) {
                violation("pem", &format!("reading {t:?} panicked: {m}"));
            }
        }
    }
}

/// Keys that differ in one number are different keys.
fn unlike_keys(k: &Key, private: bool) {
    let (n, e) = (Nat::from_hex(k.n), Nat::from_hex(k.e));
    let bit = |a: &Nat| {
        let b = Nat::from_u128(1).shl(range(0, a.bits() - 1));
        a.add(&b)
    };
    let (der, other) = if private {
        let der = key_private_der(k).enc();
        let k2 = crate::text::pick_key();
        if k2.n == k.n || k2.d == k.d {
            return;
        }
        (der, key_private_der(k2).enc())
    } else {
        let (n2, e2) = if chance(1, 2) { (bit(&n), e.clone()) } else { (n.clone(), bit(&e)) };
        (public_der(&n, &e).enc(), public_der(&n2, &e2).enc())
    };
    let file = |data: &Vec<u8>| PEM { label: if private { "PRIVATE KEY".into() } else { "PUBLIC KEY".into() }, data: data.clone() };
    let (a, b) = (file(&der), file(&other));
    ev("unlike-keys", &[k.bits as u64, private as u64]);
    let same = attempt(|| if private { PrivateKey::try_from(a).ok().map(|x| (PrivateKey::try_from(b).ok() == Some(x.clone()), x == x.clone())) } else { PublicKey::try_from(a).ok().map(|x| (PublicKey::try_from(b).ok() == Some(x.clone()), x == x.clone())) });
    match same {
        Outcome::Done(Some((same, own))) => {
            check!(!same, "keys", "two different keys (the first of {} bits, private: {private}) are called equal", k.bits);
            check!(own, "keys", "a key of {} bits is not equal to its own copy", k.bits);
        }
        o => violation("keys", &format!("a well-formed {} bit key was not read ({})", k.bits, o.name())),
    }
}
fn load_op(k: &Keyring) {
    let private = chance(1, 2);
    if chance(1, 4) {
        // one of any size, not used for anything expensive
        let k = crate::text::pick_key();
        if chance(1, 3) {
            return unlike_keys(k, private);
        }
        let der = if private { key_private_der(k).enc() } else { key_public_der(k).enc() };
        ev("load-big-key", &[k.bits as u64, private as u64]);
        return crate::text::check_key(if private { "PRIVATE KEY" } else { "PUBLIC KEY" }, &der, private);
    }
    let der = if private { key_private_der(k.key).enc() } else { key_public_der(k.key).enc() };
    let file = || PEM { label: if private { "PRIVATE KEY".into() } else { "PUBLIC KEY".into() }, data: der.clone() };
    let (pem, pem2) = (file(), file());
    ev("load-key", &[k.key.bits as u64, private as u64]);
    let enc: Outcome<Result<(RsaEncryption, bool), String>> = attempt(|| {
        Ok(if private {
            let (a, b) = (PrivateKey::try_from(pem)?, PrivateKey::try_from(pem2)?);
            let same = a == b;
            (a.into(), same)
        } else {
            let (a, b) = (PublicKey::try_from(pem)?, PublicKey::try_from(pem2)?);
            let same = a == b;
            (a.into(), same)
        })
    });
    let enc = match enc {
        Outcome::Done(Ok((e, same))) => {
            check!(same, "keys", "two readings of the same {} bit key differ", k.key.bits);
            e
        }
        o => violation("keys", &format!("a well-formed {} bit key was not read ({})", k.key.bits, o.name())),
    };
    let x = if private { &k.d } else { &k.e };
    if x.bits() * k.n.bits() * k.n.bits() < 60 * 60 * 60 {
        let m = Nat::from_u128(2 + draw(1000) as u128).rem(&k.n);
        let ml = lib_num(&m);
        let c = must("RSA with a loaded key", || enc.encrypt(ml));
        same_num(&format!("{} to the power {} mod {} with a loaded key", show(&m.to_be()), show(&x.to_be()), k.key.n), &c, &m.powmod(x, &k.n));
    }
    // and damaged
    if chance(1, 3) {
        fault("fault.bad_argument");
        let mut d = der;
        let i = range(0, d.len() - 1);
        d[i] ^= 1 << draw(8);
        crate::text::check_key(if private { "PRIVATE KEY" } else { "PUBLIC KEY" }, &d, private);
    }
}

fn number_op(w: &Shared<Numbers>, _me: usize) {
    let n = w.get().keys.len() as u64;
    match w.get().focus.unwrap_or_else(|| draw(14)) {
        0..=5 => arith_op(w),
        6 => {
            let k = w.get().keys[draw(n) as usize].clone();
            if chance(1, 4) { power_op() } else { rsa_number_op(w, &k) }
        }
        7 => create_op(),
        8 => {
            let k = w.get().keys[draw(n) as usize].clone();
            load_op(&k)
        }
        9 => oaep_op(),
        10 | 11 => pem_ops(w),
        _ => {
            let mut b = if chance(1, 8) { nest(gen_tree(0), range(1, 70)) } else { gen_tree(2).enc() };
            if chance(1, 3) {
                fault("fault.bad_argument");
                let i = range(0, b.len() - 1);
                b[i] ^= 1 << draw(8);
            }
            ev_bytes("asn1", &b);
            check_asn1(&b);
            if chance(1, 4) {
                crate::text::asn1_changed(&mut b);
            }
        }
    }
}

pub fn c14() {
    threads!(; shared BigUint, shared RsaEncryption, shared PrivateKey, shared PublicKey, shared PEM, shared cryptography::pem::asn1::Asn1);
    let regs: Vec<Nat> = (0..range(2, 5)).map(|_| gen_nat()).collect();
    let shared = regs[..2].iter().map(lib_num).collect();
    let max = pick(&[32usize, 24, 48, 64, 127]);
    let small: Vec<&'static Key> = KEYS.iter().filter(|k| k.kind == "small" && k.bits <= max).collect();
    let keys = (0..range(1, 3))
        .map(|_| {
            let key = pick(&small);
            let (pr, pu) = match (
                attempt(|| PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: key_private_der(key).enc() })),
                attempt(|| PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: key_public_der(key).enc() })),
            ) {
                (Outcome::Done(Ok(a)), Outcome::Done(Ok(b))) => (a, b),
                _ => violation("keys", &format!("a well-formed {} bit key was not read", key.bits)),
            };
            Arc::new(Keyring { key, n: Nat::from_hex(key.n), e: Nat::from_hex(key.e), d: Nat::from_hex(key.d), send: pu.into(), recv: pr.into() })
        })
        .collect();
    let mut pems: Vec<Arc<(PEM, String)>> = vec![];
    for _ in 0..range(1, 3) {
        let (label, data) = match pems.last() {
            Some(p) if chance(2, 3) => match draw(3) {
                0 => (near_label(&p.0.label), p.0.data.clone()),
                1 => (p.0.label.clone(), if p.0.data.is_empty() { vec![0] } else { related_key(&p.0.data, 5000) }),
                _ => (near_label(&p.0.label), gen_bytes(p.0.data.len())),
            },
            _ => (gen_label(), gen_payload()),
        };
        let t = pem_text(&label, &data);
        pems.push(Arc::new((PEM { label, data }, t)));
    }
    let arith = if chance(1, 6) { Some(draw(11)) } else { None };
    let inputs = (0..range(1, 2)).map(|_| if chance(1, 2) { Nat::from_u128(draw(100) as u128) } else { gen_nat() }).collect();
    crowd(Numbers { focus: gen_focus(14), arith, inputs, regs, shared, keys, pems }, 5, number_op);
}
