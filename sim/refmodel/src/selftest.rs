//! Known answers for the reference models: published vectors, and values computed with OpenSSL and hashlib
//! (tools/cross_check.py recomputes them).
use crate::{cipher::*, hash::*, num::Nat, text::*};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect()
}
fn same(what: &str, got: &str, want: &str) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got}, want {want}")) }
}
fn over_lengths(f: impl Fn(&[u8]) -> Vec<u8>) -> String {
    let mut all = vec![];
    for n in 0..300usize {
        let m: Vec<u8> = (0..n).map(|i| (i * 7 + n) as u8).collect();
        all.extend(f(&m));
    }
    hex(&sha256(&all))
}

pub fn run() -> Result<(), String> {
    warm_up();
    for (m, d) in [
        ("", "8350e5a3e24c153df2275c9f80692773"),
        ("a", "32ec01ec4a6dac72c0ab96fb34c0b5d1"),
        ("abc", "da853b0d3f88d99b30283a69e6ded6bb"),
        ("abcdefghijklmnopqrstuvwxyz", "4e8ddff3650292ab5a4108c3aa47940b"),
        ("12345678901234567890123456789012345678901234567890123456789012345678901234567890", "d5976f79d83d3a0dc9806c3c66f3efd8"),
    ] {
        same("md2", &hex(&md2(m.as_bytes())), d)?;
    }
    same("md4", &over_lengths(|m| md4(m).to_vec()), "f07d6ab9f4d2d98af8a2ff4904244389aae21e8b1390e441eb5e3c67ad43c020")?;
    same("md5", &over_lengths(|m| md5(m).to_vec()), "3d1a2ff28da808b824c52629a56e7b90005c89ecfa1a6564b1c488709bec34fa")?;
    same("sha1", &over_lengths(|m| sha1(m).to_vec()), "6da716d621dcc3664b56b1c60822c88fbfade6167eaae42e9600cf11508b4874")?;
    same("sha224", &over_lengths(|m| sha224(m).to_vec()), "b202f5c73afaa068cb06d9e74770f392e3db6a86c2de06fc1ba3675211caf48c")?;
    same("sha256", &over_lengths(|m| sha256(m).to_vec()), "d5238871a46ac4a1a75ac3fb19d645b0b3b9e5f35f5f720e2b240d605c6b694e")?;
    same("sha384", &over_lengths(|m| sha384(m).to_vec()), "f0a0117dee5ec7e34c2108a53d654b393cf5451527a1b82169a9d3ef51d8fde4")?;
    same("sha512", &over_lengths(|m| sha512(m).to_vec()), "4a3723d8f417a92e3fec08529277d780bf3e2ebff6eb260514da2c6ded5ac4fc")?;
    // running MD against one-shot
    let m: Vec<u8> = (0..1000u32).map(|i| (i * i) as u8).collect();
    for cut in [0, 1, 63, 64, 65, 500] {
        let mut h = Md::new(true);
        h.add(&m[..cut]);
        h.add(&m[cut..]);
        if h.end() != md5(&m) {
            return Err("running md5".into());
        }
    }
    let msg: Vec<u8> = (0..1024).map(|i| (i * 7 + 3) as u8).collect();
    let key = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 11 + 5) as u8).collect() };
    for (n, d) in [
        (16, "8e0326e768242cfcbe1c7d81fbc66bc85d82ef8c488791b2aadb6e6457c192b6"),
        (24, "868a4deb7a034755d5b45194ec8c9fe42d841abc569c06a9cefa30e52bcdb5f6"),
        (32, "4b6f4aa7403260389ca6c35619c2e9d374f2021b47f09df55aeb1ebb64fdc850"),
    ] {
        let a = Aes::new(&key(n));
        let mut o = vec![];
        for b in msg.chunks(16) {
            let c = a.enc(b.try_into().unwrap());
            if a.dec(c) != *b {
                return Err("aes inverse".into());
            }
            o.extend(c);
        }
        same("aes", &hex(&sha256(&o)), d)?;
    }
    let r = Rc2::new(&key(16), 128);
    let mut o = vec![];
    for b in msg.chunks(8) {
        let c = r.enc(b.try_into().unwrap());
        if r.dec(c) != *b {
            return Err("rc2 inverse".into());
        }
        o.extend(c);
    }
    same("rc2", &hex(&sha256(&o)), "f60c8538019b94943b23d8a0943e600bd3105fa2301f62176106a9fafe0a865a")?;
    for (k, bits, p, c) in [
        ("0000000000000000", 63, "0000000000000000", "ebb773f993278eff"),
        ("ffffffffffffffff", 64, "ffffffffffffffff", "278b27e42e2f0d49"),
        ("3000000000000000", 64, "1000000000000001", "30649edf9be7d2c2"),
        ("88", 64, "0000000000000000", "61a8a244adacccf0"),
        ("88bca90e90875a", 64, "0000000000000000", "6ccf4308974c267f"),
        ("88bca90e90875a7f0f79c384627bafb2", 64, "0000000000000000", "1a807d272bbe5db1"),
        ("88bca90e90875a7f0f79c384627bafb216f80a6f85920584c42fceb0be255daf1e", 129, "0000000000000000", "5b78d3a43dfff1f1"),
    ] {
        same("rc2", &hex(&Rc2::new(&unhex(k), bits).enc(unhex(p).try_into().unwrap())), c)?;
    }
    for (k, p, c) in [
        ("00000000000000000000000000000000", "0000000000000000", "21a5dbee154b8f6d"),
        ("915f4619be41b2516355a50110a9ce91", "21a5dbee154b8f6d", "f7c013ac5b2b8952"),
        ("783348e75aeb0f2fd7b169bb8dc16787", "f7c013ac5b2b8952", "2f42b3b70369fc92"),
        ("dc49db1375a5584f6485b413b5f12baf", "2f42b3b70369fc92", "65c178b284d197cc"),
        ("5269f149d41ba0152497574d7f153125", "65c178b284d197cc", "eb44e415da319824"),
    ] {
        let r = Rc5::new(&unhex(k), 12);
        same("rc5", &hex(&r.enc(unhex(p).try_into().unwrap())), c)?;
        same("rc5 inverse", &hex(&r.dec(unhex(c).try_into().unwrap())), p)?;
    }
    // RFC 2040, section 9 (single CBC blocks)
    for (rounds, k, iv, p, c) in [
        (0, "00", "0000000000000000", "0000000000000000", "7a7bba4d79111d1e"),
        (0, "00", "0000000000000000", "ffffffffffffffff", "797bba4d78111d1e"),
        (1, "11", "0000000000000000", "0000000000000000", "2f759fe7ad86a378"),
        (2, "00", "0000000000000000", "0000000000000000", "dca2694bf40e0788"),
        (8, "00", "0000000000000000", "0000000000000000", "dcfe098577eca5ff"),
        (8, "00", "0102030405060708", "1020304050607080", "9646fb77638f9ca8"),
        (12, "00", "0102030405060708", "1020304050607080", "b2b3209db6594da4"),
        (16, "00", "0102030405060708", "1020304050607080", "545f7f32a5fc3836"),
        (8, "01020304", "0000000000000000", "ffffffffffffffff", "8285e7c1b5bc7402"),
        (12, "01020304", "0000000000000000", "ffffffffffffffff", "fc586f92f7080934"),
        (12, "0102030405060708", "0000000000000000", "ffffffffffffffff", "e493f1c1bb4d6e8c"),
        (8, "0102030405", "0000000000000000", "ffffffffffffffff", "7875dbf6738c6478"),
        (8, "0102030405", "0000000000000000", "0000000000000000", "7cb3f1df34f94811"),
        (12, "0102030405", "0000000000000000", "ffffffffffffffff", "97e0787837ed317f"),
    ] {
        let mut x = unhex(p);
        for (a, b) in x.iter_mut().zip(unhex(iv)) {
            *a ^= b;
        }
        same("rc5 rfc2040", &hex(&Rc5::new(&unhex(k), rounds).enc(x.try_into().unwrap())), c)?;
    }
    same("rc4", &hex(&sha256(&Rc4::stream(&key(16), 70000))), "7a38103437beb4fec6c858f59c745b335268dbc9d6c10d3e04089621d010e251")?;
    same("rc4", &hex(&Rc4::stream(b"Key", 10)), "eb9f7781b734ca72a719")?;
    // numbers
    let a = Nat::from_hex("f123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef");
    let b = Nat::from_hex("fedcba98765432100000000000000001");
    let (q, r) = a.divrem(&b);
    if q.mul(&b).add(&r) != a || r.cmp(&b) != std::cmp::Ordering::Less {
        return Err("division".into());
    }
    // divisions that need the add-back and trial corrections
    let mut s = 1u64;
    for i in 0..400usize {
        let mut limb = || {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            match (s >> 60) & 3 {
                0 => 0,
                1 => u32::MAX,
                2 => 0x8000_0000,
                _ => (s >> 32) as u32,
            }
        };
        let a = Nat::from_be(&(0..3 + i % 9).flat_map(|_| limb().to_be_bytes()).collect::<Vec<_>>());
        let mut b = Nat::from_be(&(0..1 + i % 5).flat_map(|_| limb().to_be_bytes()).collect::<Vec<_>>());
        if b.is_zero() {
            b = Nat::from_u128(3);
        }
        let (q, r) = a.divrem(&b);
        if q.mul(&b).add(&r) != a || r.cmp(&b) != std::cmp::Ordering::Less {
            return Err("division".into());
        }
    }
    if Nat::from_u128(4).powmod(&Nat::from_u128(13), &Nat::from_u128(497)) != Nat::from_u128(445) {
        return Err("powmod".into());
    }
    for k in crate::keys::KEYS {
        let (n, e, d) = (Nat::from_hex(k.n), Nat::from_hex(k.e), Nat::from_hex(k.d));
        let m = Nat::from_u128(0x1234_5678_9abc_def0_1122_3344).rem(&n);
        if n.bits() != k.bits || m.powmod(&e, &n).powmod(&d, &n) != m {
            return Err(format!("key of {} bits", k.bits));
        }
    }
    // OAEP: the MGF1 value of the repository's own documentation and a round trip
    same("mgf1", &hex(&mgf1(b"bar", 50)), "382576a7841021cc28fc4c0948753fb8312090cea942ea4c4e735d10dc724b155f9f6069f289d61daca0cb814502ef04eae1")?;
    let em = oaep_encode(b"l", b"hello", 80, &[7; 32]).unwrap();
    if oaep_decode(b"l", &em) != Some((vec![7; 32], b"hello".to_vec())) || oaep_decode(b"m", &em).is_some() || em.len() != 80 {
        return Err("oaep".into());
    }
    // text
    for (d, e) in [("", ""), ("f", "Zg=="), ("fo", "Zm8="), ("foo", "Zm9v"), ("foob", "Zm9vYg=="), ("fooba", "Zm9vYmE="), ("foobar", "Zm9vYmFy")] {
        same("base64", &b64(d.as_bytes()), e)?;
        if unb64(e).as_deref() != Some(d.as_bytes()) {
            return Err("unbase64".into());
        }
    }
    for bad in ["Zg=", "Zh==", "Z===", "Zg==Zg==", "Zm9v\n", "Zm9", "Zm9-", "===="] {
        if unb64(bad).is_some() {
            return Err(format!("unbase64 accepts {bad}"));
        }
    }
    if pem_read(&pem_text("A B", &msg)) != Some(("A B".into(), msg.clone())) {
        return Err("pem".into());
    }
    let d = Der::Seq(vec![Der::Int(vec![1]), Der::Bits(vec![1, 2], 0), Der::Oct(msg.clone()), Der::Null, Der::Oid(vec![42, 3])]);
    if der_read(&d.enc()) != DerRead::Value(d) {
        return Err("der".into());
    }
    Ok(())
}
