//! C06: digests pulled from sources that pause, fail, re-enter and lie low.
use crate::util::*;
use cryptography::{md2, md4, md5};
use refmodel::hash as m;
use simrt::sched::yield_seam;
use simrt::*;
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Event {
    Yield,
    Reenter,
    End,
    Panic,
}

struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    events: &'a [(usize, Event)],
    next_event: usize,
    hint: u8,
    /// position of the first end-of-data
    ended: &'a Cell<Option<usize>>,
    depth: u32,
}
impl<'a> Iterator for Source<'a> {
    type Item = &'a u8;
    fn next(&mut self) -> Option<&'a u8> {
        seam(|| {
            while let Some(&(at, e)) = self.events.get(self.next_event) {
                if at > self.pos {
                    break;
                }
                self.next_event += 1;
                match e {
                    Event::Yield => yield_seam(),
                    Event::Reenter => {
                        fault("fault.source_computes_digest");
                        small_digest(self.depth + 1);
                    }
                    Event::End => {
                        fault("fault.source_ends_then_goes_on");
                        if self.ended.get().is_none() {
                            self.ended.set(Some(self.pos));
                        }
                        return None;
                    }
                    Event::Panic => crash_now("fault.source_panic"),
                }
            }
            let r = self.data.get(self.pos);
            match r {
                Some(_) => self.pos += 1,
                None if self.ended.get().is_none() => self.ended.set(Some(self.pos)),
                None => {}
            }
            r
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.data.len() - self.pos;
        if self.next_event < self.events.len() {
            return (0, if self.hint == 1 { Some(left) } else { None });
        }
        match self.hint {
            0 => (0, None),
            1 => (0, Some(left)),
            2 => (left / 2, Some(left + 5)),
            3 => (0, Some(usize::MAX)),
            _ => (left, Some(left)),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Alg {
    Md2,
    Md4,
    Md5,
}
const ALGS: [Alg; 3] = [Alg::Md5, Alg::Md4, Alg::Md2];
fn lib<'a>(a: Alg, it: impl IntoIterator<Item = &'a u8>) -> [u8; 16] {
    match a {
        Alg::Md2 => md2(it),
        Alg::Md4 => md4(it),
        Alg::Md5 => md5(it),
    }
}
fn model(a: Alg, d: &[u8]) -> [u8; 16] {
    match a {
        Alg::Md2 => m::md2(d),
        Alg::Md4 => m::md4(d),
        Alg::Md5 => m::md5(d),
    }
}

pub fn gen_message(long: bool) -> Vec<u8> {
    let n = match draw(14) {
        0 => 0,
        1..=3 => {
            let unit = pick(&[64usize, 16, 48, 128]);
            let near = pick(&[0usize, 1, 55, 56, 57, 60, 63, 8, 9, 15]);
            range(0, 5) * unit + near
        }
        4 => pick(&[8191usize, 8192, 8193, 65535, 65536, 65537, 31, 32, 33, 255, 256, 257, 512, 4096]),
        5 if long && chance(1, 500) => (1 << 24) + range(0, 200) - 100,
        5 if chance(1, 10) => range(0, 300_000),
        _ => gen_len(2000),
    };
    gen_bytes(n)
}

pub fn one(depth: u32) {
    let alg = pick(&ALGS);
    let data = gen_message(true);
    let mut events = vec![];
    for _ in 0..draw(5) {
        let e = match draw(8) {
            0..=2 => Event::Yield,
            3 | 4 if depth < 2 => Event::Reenter,
            5 => Event::End,
            6 => Event::Panic,
            _ => Event::Yield,
        };
        let at = if chance(1, 3) { (range(0, data.len() / 16 + 1) * 16 + range(0, 2)).saturating_sub(1) } else { range(0, data.len()) };
        events.push((at.min(data.len()), e));
    }
    events.sort_by_key(|e| e.0);
    let hint = draw(5) as u8;
    ev("digest", &[alg as u64, data.len() as u64, hint as u64]);
    ev_str("events", &format!("{events:?}"));
    ev_bytes("data", &data);
    let ended = Cell::new(None);
    let style = if events.is_empty() { draw(6) } else { 0 };
    let r = match style {
        1 => attempt(|| lib(alg, &data)),
        2 => attempt(|| lib(alg, data.iter())),
        3 => {
            let at = range(0, data.len());
            attempt(|| lib(alg, data[..at].iter().chain(&data[at..])))
        }
        4 => {
            let parts: Vec<Vec<u8>> = data.chunks(13).map(|c| c.to_vec()).collect();
            attempt(|| lib(alg, parts.iter().flatten()))
        }
        5 => {
            let d: std::collections::VecDeque<u8> = data.iter().copied().collect();
            attempt(|| lib(alg, &d))
        }
        _ => attempt(|| lib(alg, Source { data: &data, pos: 0, events: &events, next_event: 0, hint, ended: &ended, depth })),
    };
    match r {
        Outcome::Done(d) => {
            let n = if style == 0 { ended.get() } else { Some(data.len()) };
            let Some(n) = n else {
                violation("not-drained", &format!("{alg:?} gave a digest before the source's end of data ({} bytes, {events:?})", data.len()))
            };
            let want = model(alg, &data[..n]);
            ev_bytes("result", &d);
            check!(
                d == want,
                "digest",
                "{alg:?} of the {n} bytes {} delivered by the source is {}, should be {} (events {events:?}, hint {hint}, style {style})",
                show(&data[..n]),
                show(&d),
                show(&want)
            );
        }
        Outcome::Refused(m) => violation("refused", &format!("{alg:?} of {} bytes panicked: {m} (events {events:?}, style {style})", data.len())),
        Outcome::Crashed => ev("crashed", &[]),
    }
}
fn small_digest(depth: u32) {
    if depth > 2 {
        return;
    }
    one(depth)
}

/// Lengths whose bit count, then whose byte count, does not fit 32 bits.
fn huge(alg: Alg, total: u64) {
    simrt::heavy();
    ev("huge", &[alg as u64, total]);
    count("probe.beyond_2_32_bits");
    static UNIT: [u8; 1 << 16] = {
        let mut u = [0u8; 1 << 16];
        let mut i = 0;
        while i < u.len() {
            u[i] = (i * 7 + (i >> 8)) as u8;
            i += 1;
        }
        u
    };
    let reps = (total >> 16) as usize;
    let tail = (total & 0xffff) as usize;
    let r = attempt(|| lib(alg, std::iter::repeat_n(&UNIT, reps).flatten().chain(&UNIT[..tail])));
    let mut h = m::Md::new(alg == Alg::Md5);
    for _ in 0..reps {
        h.add(&UNIT);
    }
    h.add(&UNIT[..tail]);
    let want = h.end();
    match r {
        Outcome::Done(d) => check!(d == want, "digest", "{alg:?} of {total} bytes is {}, should be {}", show(&d), show(&want)),
        o => violation("refused", &format!("{alg:?} of {total} bytes: {}", o.name())),
    }
}

pub fn c06() {
    let idx = run_index();
    // the longest first, so that they end with the rest
    let f = forced(1 << 40, if idx < 4 { HUGE_RUN + 3 - idx } else { 0 });
    if (HUGE_RUN..HUGE_RUN + 4).contains(&f) {
        let f = f - HUGE_RUN;
        let alg = if f % 2 == 0 { Alg::Md5 } else { Alg::Md4 };
        let base = if f < 2 { 1u64 << 29 } else { 1 << 32 };
        return huge(alg, base + draw(200));
    }
    let ntasks = pick(&[1usize, 2, 3]);
    sched::configure();
    let tasks = (0..ntasks)
        .map(|_| {
            let n = session(4);
            Box::new(move || {
                for _ in 0..n {
                    perhaps_in_cleanup(|| one(0));
                    yield_seam();
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sched::run_tasks(tasks);
    let _ = must("md5 of nothing", || md5(&[]));
}
