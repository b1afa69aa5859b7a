//! Reference base64, PEM reader and writer, DER writer and reader.

const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64(data: &[u8]) -> String {
    let mut o = String::new();
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(ALPHA[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
/// strict standard base64: padded, no trailing bits, nothing else
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut o = vec![];
    let n = b.len() / 4;
    for (q, c) in b.chunks(4).enumerate() {
        let pads = c.iter().rev().take_while(|&&x| x == b'=').count();
        if pads > 2 || (pads > 0 && q + 1 != n) {
            return None;
        }
        let mut v = 0u32;
        for &x in &c[..4 - pads] {
            v = v << 6 | ALPHA.iter().position(|&a| a == x)? as u32;
        }
        v <<= 6 * pads;
        let bytes = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        if bytes[3 - pads..].iter().any(|&x| x != 0) {
            return None;
        }
        o.extend_from_slice(&bytes[..3 - pads]);
    }
    Some(o)
}
pub fn pem_text(label: &str, data: &[u8]) -> String {
    let body = b64(data);
    let mut o = format!("-----BEGIN {label}-----\n");
    let mut rest = body.as_str();
    loop {
        let n = rest.len().min(64);
        o.push_str(&rest[..n]);
        o.push('\n');
        rest = &rest[n..];
        if rest.is_empty() {
            break;
        }
    }
    o.push_str(&format!("-----END {label}-----"));
    o
}

/// What a PEM text holds between one BEGIN line and its matching END line.
///
/// Lines end at LF (a CR before it belongs to the line end); surrounding white space of a line is not part of
/// it; lines before BEGIN and after END do not matter unless they are themselves BEGIN or END lines.
pub fn pem_read(s: &str) -> Option<(String, Vec<u8>)> {
    #[derive(PartialEq)]
    enum St {
        Before,
        In,
        After,
    }
    let mut st = St::Before;
    let mut label = String::new();
    let mut body = String::new();
    for line in s.split('\n') {
        let line = line.trim();
        let begin = line.strip_prefix("-----BEGIN ");
        let end = line.strip_prefix("-----END ");
        match (begin, end) {
            (Some(b), _) => {
                if st != St::Before {
                    return None;
                }
                label = b.strip_suffix("-----")?.to_string();
                st = St::In;
            }
            (_, Some(e)) => {
                if st != St::In || e.strip_suffix("-----")? != label {
                    return None;
                }
                st = St::After;
            }
            _ if st == St::In => body.push_str(line),
            _ => {}
        }
    }
    if st != St::After {
        return None;
    }
    Some((label, unb64(&body)?))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Der {
    Int(Vec<u8>),
    Oct(Vec<u8>),
    Bits(Vec<u8>, u8),
    Null,
    Oid(Vec<u8>),
    Seq(Vec<Der>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DerRead {
    Value(Der),
    Bad,
    /// Forms on which a reader may reasonably refuse or accept (the value if accepted is given).
    Either(Option<Der>),
}

fn put_len(n: usize, o: &mut Vec<u8>) {
    if n < 128 {
        o.push(n as u8);
    } else {
        let b = n.to_be_bytes();
        let k = b.iter().position(|&x| x != 0).unwrap();
        o.push(0x80 | (8 - k) as u8);
        o.extend_from_slice(&b[k..]);
    }
}
impl Der {
    pub fn enc(&self) -> Vec<u8> {
        let (tag, body) = match self {
            Der::Int(v) => (2, v.clone()),
            Der::Oct(v) => (4, v.clone()),
            Der::Bits(v, u) => {
                let mut b = vec![*u];
                b.extend_from_slice(v);
                (3, b)
            }
            Der::Null => (5, vec![]),
            Der::Oid(v) => (6, v.clone()),
            Der::Seq(v) => (0x30, v.iter().flat_map(|d| d.enc()).collect()),
        };
        let mut o = vec![tag];
        put_len(body.len(), &mut o);
        o.extend(body);
        o
    }
    pub fn int(n: &crate::num::Nat) -> Der {
        let mut b = n.to_be();
        if b.is_empty() || b[0] & 0x80 != 0 {
            b.insert(0, 0);
        }
        Der::Int(b)
    }
}

#[derive(Default)]
struct Odd {
    odd: bool,
    deep: bool,
}

/// Reads exactly one value that takes up all of `b`.
pub fn der_read(b: &[u8]) -> DerRead {
    let mut odd = Odd::default();
    let r = read_one(b, 0, &mut odd);
    if odd.deep {
        return DerRead::Either(None);
    }
    let odd = odd.odd;
    match r {
        Some((d, rest)) if rest.is_empty() => {
            if odd {
                DerRead::Either(Some(d))
            } else {
                DerRead::Value(d)
            }
        }
        _ => {
            // leniently readable forms that a strict reader refuses are never "must be refused"
            DerRead::Bad
        }
    }
}
/// `odd` is set when the encoding, though readable, is one a stricter reader may refuse: non-minimal lengths,
/// the indefinite-length octet, odd unused-bit counts, deep nesting.
fn read_one<'a>(b: &'a [u8], depth: usize, odd: &mut Odd) -> Option<(Der, &'a [u8])> {
    if depth > 32 {
        odd.odd = true;
    }
    if depth > 200 {
        odd.deep = true;
        return None;
    }
    let (&tag, b) = b.split_first()?;
    let (&l, b) = b.split_first()?;
    let (len, b) = if l & 0x80 == 0 {
        (l as usize, b)
    } else {
        let k = (l & 0x7f) as usize;
        if k > b.len() {
            return None;
        }
        let (lb, b) = b.split_at(k);
        let mut n = 0usize;
        for &x in lb {
            n = n.checked_mul(256)?.checked_add(x as usize)?;
        }
        if k == 0 || lb[0] == 0 || n < 128 {
            odd.odd = true;
        }
        (n, b)
    };
    if len > b.len() {
        return None;
    }
    let (c, rest) = b.split_at(len);
    let d = match tag {
        2 => {
            if c.is_empty() || (c.len() > 1 && (c[0] == 0 && c[1] & 0x80 == 0 || c[0] == 0xff && c[1] & 0x80 != 0)) {
                odd.odd = true;
            }
            Der::Int(c.to_vec())
        }
        4 => Der::Oct(c.to_vec()),
        3 => {
            let (&u, c) = c.split_first()?;
            if u > 7 || (u > 0 && c.is_empty()) || (u > 0 && u < 8 && c.last().is_some_and(|x| x & ((1 << u) - 1) != 0)) {
                odd.odd = true;
            }
            Der::Bits(c.to_vec(), u)
        }
        5 => {
            // NULL has no value to account for its content
            if !c.is_empty() {
                return None;
            }
            Der::Null
        }
        6 => {
            if c.is_empty() || c.last().unwrap() & 0x80 != 0 || c[0] == 0x80 || c.windows(2).any(|w| w[0] & 0x80 == 0 && w[1] == 0x80) {
                odd.odd = true;
            }
            Der::Oid(c.to_vec())
        }
        0x30 => {
            let mut v = vec![];
            let mut c = c;
            while !c.is_empty() {
                let (d, r) = read_one(c, depth + 1, odd)?;
                v.push(d);
                c = r;
            }
            Der::Seq(v)
        }
        _ => return None,
    };
    Some((d, rest))
}
