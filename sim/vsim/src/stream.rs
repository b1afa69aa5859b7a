//! C01 and C02: stream ciphers under arbitrary call histories, and over a faulty channel.
use crate::util::*;
use cryptography::{StreamCipher, rc4};
use refmodel::cipher::Rc4;
use simrt::sched::yield_seam;
use simrt::*;
use std::cell::Cell;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------------------------------------------------
// data sources

#[derive(Clone, Copy, PartialEq, Debug)]
enum Event {
    Pause, // answers "nothing now" once, then goes on
    Panic,
    Yield,
    Reenter, // the source is itself a user of the library
}

/// A data source that may pause, fail or lose the processor at chosen positions.
struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    events: &'a [(usize, Event)],
    next_event: usize,
    hint: u8,
    pulled: &'a Cell<u64>,
    live: bool,
}
impl Iterator for Source<'_> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        seam(|| {
            while let Some(&(at, e)) = self.events.get(self.next_event) {
                if at > self.pos {
                    break;
                }
                self.next_event += 1;
                match e {
                    Event::Pause => {
                        if self.live {
                            fault("fault.source_pause");
                        }
                        return None;
                    }
                    Event::Panic => {
                        if self.live {
                            crash_now("fault.source_panic");
                        }
                        std::panic::resume_unwind(Box::new(SimCrash));
                    }
                    Event::Yield => {
                        if self.live {
                            yield_seam();
                        }
                    }
                    Event::Reenter => {
                        if self.live {
                            fault("fault.source_reenters");
                            other_stream();
                        }
                    }
                }
            }
            let b = *self.data.get(self.pos)?;
            self.pos += 1;
            self.pulled.set(self.pulled.get() + 1);
            Some(b)
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.data.len() - self.pos;
        // legal hints only: a source that may pause promises nothing
        if self.next_event < self.events.len() {
            return (0, if self.hint == 1 { Some(left + 7) } else { None });
        }
        match self.hint {
            0 => (0, None),
            1 => (0, Some(left)),
            2 => (left / 2, Some(left + 3)),
            _ => (left, Some(left)),
        }
    }
}

/// A complete RC4 encryption while another one is being pulled.
fn other_stream() {
    let key = prng_bytes(range(1, 20), draw(1000));
    let n = range(0, 300);
    let mut m = Rc4::new(&key);
    let want: Vec<u8> = (0..n).map(|i| i as u8 ^ m.byte()).collect();
    // sometimes given up in the middle
    let left = if chance(1, 2) { range(0, 3) } else { 0 };
    match attempt(|| StreamCipher::new(rc4::new(&key)).encrypt((0..n + left).map(|i| i as u8)).take(n).collect::<Vec<u8>>()) {
        Outcome::Done(v) => check!(v == want, "nested", "a stream encryption inside another's data source gave {} instead of {}", show(&v), show(&want)),
        o => violation("nested", &format!("a stream encryption inside another's data source: {}", o.name())),
    }
}

// ---------------------------------------------------------------------------------------------------------
// consumption styles, run both on the library's iterator and on the model's

#[derive(Clone, Debug)]
enum Mini {
    Next(usize),
    Nth(usize),
    Take(usize),
    Skip(usize, usize),
    Step(usize, usize),
    TakeWhile(u8),
    Find(u8),
    Hint,
    Peek(usize),
    Chunk(usize),
    Any(u8),
    All(u8),
    Position(u8),
    TryFold(usize),
    MapWhile(u8),
}
#[derive(Clone, Debug)]
enum Plan {
    Collect,
    Fold,
    ForEach,
    Count,
    Last,
    Max,
    Min,
    Sum,
    Reduce,
    Partition,
    Compare,
    Zip(usize),
    Extend,
    Loop,
    Drop,
    Forget(usize),
    Mixed(Vec<Mini>, u8), // then: 0 drop, 1 drain, 2 drain and ask again after the end
}

fn gen_mini(n: usize) -> Mini {
    // mostly small steps, sometimes far ones, with round numbers a shortcut might treat apart
    let far = |m: usize| if chance(1, 6) { pick(&[64, 255, 256, 257, 511, 512, 1000, 1024, 4096, 65_536]) + range(0, 3) } else { m };
    let k = |m: usize| {
        let m = far(m).min(n + 2);
        if m > 50 && chance(1, 2) { m - range(0, 2) } else { range(0, m) }
    };
    match draw(15) {
        10 => Mini::Any(draw(256) as u8),
        11 => Mini::All(draw(256) as u8),
        12 => Mini::Position(draw(256) as u8),
        13 => Mini::TryFold(k(30)),
        14 => Mini::MapWhile(draw(256) as u8),
        0 => Mini::Next(k(6)),
        1 => Mini::Nth(k(20)),
        2 => Mini::Take(k(40)),
        3 => Mini::Skip(k(20), k(10)),
        4 => Mini::Step(range(1, 9), k(10)),
        5 => Mini::TakeWhile(draw(256) as u8),
        6 => Mini::Find(draw(256) as u8),
        7 => Mini::Hint,
        8 => Mini::Peek(k(5)),
        _ => Mini::Chunk(range(1, 64)),
    }
}
fn gen_plan(n: usize) -> Plan {
    match draw(20) {
        15 => Plan::Min,
        16 if chance(1, 2) => Plan::Sum,
        16 => Plan::Reduce,
        17 => Plan::Partition,
        18 => Plan::Compare,
        19 => Plan::Zip(range(0, n + 2)),
        0 => Plan::Collect,
        1 => Plan::Fold,
        2 => Plan::ForEach,
        3 => Plan::Count,
        4 => Plan::Last,
        5 => Plan::Max,
        6 => Plan::Extend,
        7 => Plan::Loop,
        8 => Plan::Drop,
        9 => Plan::Forget(range(0, 5)),
        _ => {
            let m = (0..range(1, 5)).map(|_| gen_mini(n)).collect();
            Plan::Mixed(m, draw(3) as u8)
        }
    }
}

/// Everything the consumer saw, in order.
fn consume(it: impl Iterator<Item = u8>, plan: &Plan, out: &mut Vec<u16>) {
    let mut it = it;
    match plan {
        Plan::Collect => {
            let v: Vec<u8> = it.collect();
            out.extend(v.iter().map(|&b| b as u16));
        }
        Plan::Fold => {
            let h = it.fold(1u32, |h, b| {
                out.push(b as u16);
                h.wrapping_mul(31).wrapping_add(b as u32)
            });
            out.push(h as u16);
        }
        Plan::ForEach => it.for_each(|b| out.push(b as u16)),
        Plan::Count => out.push(it.count() as u16),
        Plan::Last => out.push(it.last().map_or(0x100, |b| b as u16)),
        Plan::Max => out.push(it.max().map_or(0x100, |b| b as u16)),
        Plan::Min => out.push(it.min().map_or(0x100, |b| b as u16)),
        Plan::Sum => out.push(it.map(|b| b as u64).sum::<u64>() as u16),
        Plan::Reduce => out.push(it.reduce(|a, b| a.rotate_left(1) ^ b).map_or(0x100, |b| b as u16)),
        Plan::Partition => {
            let (a, b): (Vec<u8>, Vec<u8>) = it.partition(|&b| b & 1 == 1);
            out.extend(a.iter().chain(&b).map(|&b| b as u16));
        }
        Plan::Compare => out.push(it.cmp(std::iter::repeat_n(0x80u8, 50)) as u8 as u16),
        Plan::Zip(k) => out.extend(it.by_ref().zip(0..*k).map(|(b, i)| b as u16 ^ (i as u16 & 0xff))),
        Plan::Extend => {
            let mut v = vec![0u8; 3];
            v.extend(it);
            out.extend(v.iter().map(|&b| b as u16));
        }
        Plan::Loop => {
            for b in it {
                out.push(b as u16);
            }
        }
        Plan::Drop => {}
        Plan::Forget(k) => {
            for _ in 0..*k {
                out.push(it.next().map_or(0x100, |b| b as u16));
            }
            std::mem::forget(it);
        }
        Plan::Mixed(minis, end) => {
            for m in minis {
                out.push(0x200);
                match *m {
                    Mini::Next(k) => {
                        for _ in 0..k {
                            out.push(it.next().map_or(0x100, |b| b as u16));
                        }
                    }
                    Mini::Nth(k) => out.push(it.nth(k).map_or(0x100, |b| b as u16)),
                    Mini::Take(k) => out.extend(it.by_ref().take(k).map(|b| b as u16)),
                    Mini::Skip(k, j) => out.extend(it.by_ref().skip(k).take(j).map(|b| b as u16)),
                    Mini::Step(s, j) => out.extend(it.by_ref().step_by(s).take(j).map(|b| b as u16)),
                    Mini::TakeWhile(x) => out.extend(it.by_ref().take_while(|&b| b > x).map(|b| b as u16)),
                    Mini::Find(x) => out.push(it.find(|&b| b < x).map_or(0x100, |b| b as u16)),
                    Mini::Any(x) => out.push(it.any(|b| b == x) as u16),
                    Mini::All(x) => out.push(it.all(|b| b != x) as u16),
                    Mini::Position(x) => out.push(it.position(|b| b < x).map_or(0xffff, |i| i as u16)),
                    Mini::TryFold(k) => {
                        let r = it.try_fold(0usize, |n, b| {
                            out.push(b as u16);
                            if n + 1 >= k { Err(b) } else { Ok(n + 1) }
                        });
                        out.push(r.is_ok() as u16);
                    }
                    Mini::MapWhile(x) => out.extend(it.by_ref().map_while(|b| (b != x).then_some(b as u16))),
                    Mini::Hint => {
                        let (lo, hi) = it.size_hint();
                        if hi.is_some_and(|h| h < lo) {
                            out.push(0x7777);
                        }
                    }
                    Mini::Peek(k) => {
                        let mut p = it.by_ref().peekable();
                        for _ in 0..k {
                            let x = p.peek().copied();
                            out.push(x.map_or(0x100, |b| b as u16));
                            if x.is_some_and(|b| b & 1 == 1) {
                                p.next();
                            }
                        }
                    }
                    Mini::Chunk(k) => {
                        let c: Vec<u8> = it.by_ref().take(k).collect();
                        out.extend(c.iter().map(|&b| b as u16));
                    }
                }
            }
            if *end >= 1 {
                for b in it.by_ref() {
                    out.push(b as u16);
                }
            }
            if *end == 2 {
                for _ in 0..4 {
                    out.push(it.next().map_or(0x100, |b| b as u16));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------------
// key streams

/// A caller's own key stream: position-determined bytes, may be finite, may fail.
#[derive(Clone)]
struct KeyGen {
    seed: u64,
    pos: Arc<std::sync::atomic::AtomicU64>,
    len: u64,
    panic_at: u64,
    fired: bool,
}
fn keygen_byte(seed: u64, pos: u64) -> u8 {
    let mut s = seed ^ pos.wrapping_mul(0xd1342543de82ef95);
    splitmix(&mut s) as u8
}
impl Iterator for KeyGen {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        seam(|| {
            use std::sync::atomic::Ordering::Relaxed;
            let p = self.pos.load(Relaxed);
            if p == self.panic_at && !self.fired {
                self.fired = true;
                crash_now("fault.key_source_panic");
            }
            if p >= self.len {
                return None;
            }
            self.pos.store(p + 1, Relaxed);
            Some(keygen_byte(self.seed, p))
        })
    }
}

enum Real {
    Rc4(StreamCipher<rc4>),
    Own(StreamCipher<KeyGen>),
    Raw(Option<rc4>), // used directly as an iterator, finally by encrypt(self)/decrypt(self)
}
// SAFETY: the scheduler lets one thread run at a time, so a library type that is not `Send` is still judged
// here too
unsafe impl Send for Session {}
struct Session {
    id: u64,
    real: Real,
    /// the model: the key stream itself and how far it has been used
    pos: u64,
    model: ModelKeys,
    own_pos: Option<Arc<std::sync::atomic::AtomicU64>>,
    dead: bool,
}
#[derive(Clone)]
enum ModelKeys {
    Rc4(Box<Rc4>),
    Own { seed: u64, pos: u64, len: u64 },
}
impl ModelKeys {
    fn next(&mut self) -> Option<u8> {
        match self {
            ModelKeys::Rc4(r) => Some(r.byte()),
            ModelKeys::Own { seed, pos, len } => {
                if *pos >= *len {
                    return None;
                }
                *pos += 1;
                Some(keygen_byte(*seed, *pos - 1))
            }
        }
    }
}

fn new_session(id: u64, key: &[u8]) -> Session {
    match draw(4) {
        0 | 1 => Session {
            id,
            real: Real::Rc4(must("rc4::new", || StreamCipher::new(rc4::new(key)))),
            pos: 0,
            model: ModelKeys::Rc4(Box::new(Rc4::new(key))),
            own_pos: None,
            dead: false,
        },
        2 => {
            let seed = draw(1 << 32);
            let len = if chance(1, 4) { range(0, 400) as u64 } else { u64::MAX };
            let panic_at = if chance(1, 4) { range(0, 300) as u64 } else { u64::MAX };
            let pos = Arc::new(std::sync::atomic::AtomicU64::new(0));
            let g = KeyGen { seed, pos: pos.clone(), len, panic_at, fired: false };
            Session {
                id,
                real: Real::Own(StreamCipher::new(g)),
                pos: 0,
                model: ModelKeys::Own { seed, pos: 0, len },
                own_pos: Some(pos),
                dead: false,
            }
        }
        _ => Session {
            id,
            real: Real::Raw(Some(must("rc4::new", || rc4::new(key)))),
            pos: 0,
            model: ModelKeys::Rc4(Box::new(Rc4::new(key))),
            own_pos: None,
            dead: false,
        },
    }
}

struct Model<'a, S: Iterator<Item = u8>> {
    src: S,
    keys: &'a mut ModelKeys,
    used: &'a Cell<u64>,
}
impl<S: Iterator<Item = u8>> Iterator for Model<'_, S> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let d = self.src.next()?;
        let k = self.keys.next().expect("model key stream is infinite here");
        self.used.set(self.used.get() + 1);
        Some(d ^ k)
    }
}

fn op_on_session(s: &mut Session, faults: bool) {
    if s.dead {
        return;
    }
    if let Real::Raw(_) = s.real {
        return raw_op(s);
    }
    let mut n = if chance(1, 60) { range(0, 200_000) } else { gen_len(3000) };
    if let ModelKeys::Own { pos, len, .. } = &s.model {
        // keep finite key streams away from their end most of the time; sometimes run right into it
        if *len != u64::MAX && chance(3, 4) {
            n = n.min((*len - (*pos).min(*len)) as usize);
        }
    }
    let data = gen_bytes(n);
    let mut events = vec![];
    if faults {
        for _ in 0..draw(4) {
            let e = pick(&[Event::Yield, Event::Pause, Event::Pause, Event::Panic, Event::Reenter]);
            events.push((range(0, n), e));
        }
        events.sort_by_key(|e| e.0);
    }
    let hint = draw(4) as u8;
    let plan = gen_plan(n);
    ev("stream-call", &[s.id, n as u64, events.len() as u64, s.pos]);
    ev_str("plan", &format!("{plan:?} events {events:?}"));
    let pulled = Cell::new(0);
    let mut out: Vec<u16> = vec![];
    let src = Source { data: &data, pos: 0, events: &events, next_event: 0, hint, pulled: &pulled, live: true };
    let r = attempt(|| match &mut s.real {
        Real::Rc4(c) => consume(c.encrypt(src), &plan, &mut out),
        Real::Own(c) => consume(c.encrypt(src), &plan, &mut out),
        Real::Raw(_) => unreachable!(),
    });
    // a finite own key stream that ran out, or failed: the rest of this session is judged by position only
    let key_used = s.own_pos.as_ref().map(|p| p.load(std::sync::atomic::Ordering::Relaxed) - s.pos);
    let key_ran_out = match &s.model {
        ModelKeys::Own { len, .. } => *len != u64::MAX && s.pos + pulled.get() > *len,
        _ => false,
    };
    let mpulled = Cell::new(0);
    let used = Cell::new(0);
    let mut mout: Vec<u16> = vec![];
    let mut mk = s.model.clone();
    let key_failed = matches!(r, Outcome::Crashed) && key_used.is_some_and(|k| k + 1 == pulled.get());
    if key_ran_out || key_failed {
        count("probe.key_source_exhausted_or_failed");
        let k = key_used.unwrap_or(0);
        check!(
            pulled.get() <= k + 1,
            "stream-sync",
            "session {}: {} data bytes were taken but only {k} key bytes were used before the key stream failed",
            s.id,
            pulled.get()
        );
        if key_ran_out {
            check!(
                matches!(r, Outcome::Refused(_) | Outcome::Crashed) || k == pulled.get(),
                "stream-sync",
                "session {}: data went on after the key stream ended",
                s.id
            );
        }
        // outputs seen so far must be right (only for styles that show every byte)
        if matches!(plan, Plan::ForEach | Plan::Loop) {
            for (i, &b) in out.iter().enumerate() {
                let want = data[i] ^ mk.next().unwrap_or(0);
                check!(b == want as u16, "stream-bytes", "session {} byte {} is {b:02x}, should be {want:02x}", s.id, s.pos + i as u64);
            }
        }
        s.pos += k;
        if let ModelKeys::Own { pos, .. } = &mut s.model {
            *pos = s.pos;
        }
        return;
    }
    let msrc = Source { data: &data, pos: 0, events: &events, next_event: 0, hint, pulled: &mpulled, live: false };
    let mr = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| consume(Model { src: msrc, keys: &mut mk, used: &used }, &plan, &mut mout)));
    match (&r, &mr) {
        (Outcome::Done(()), Ok(())) | (Outcome::Crashed, Err(_)) => {}
        (Outcome::Refused(m), _) => {
            violation("stream-refused", &format!("session {} at {}: a legal call panicked: {m}\nplan {plan:?}", s.id, s.pos))
        }
        _ => violation(
            "stream-sync",
            &format!("session {} at {}: the call ended differently ({}) from the model; plan {plan:?} events {events:?}", s.id, s.pos, r.name()),
        ),
    }
    // a collector loses its partial result when the source fails
    let seen = !(matches!(r, Outcome::Crashed) && matches!(plan, Plan::Collect | Plan::Extend | Plan::Zip(_) | Plan::Mixed(..)));
    if seen && out != mout {
        let i = out.iter().zip(&mout).position(|(a, b)| a != b).unwrap_or(out.len().min(mout.len()));
        violation(
            "stream-bytes",
            &format!(
                "session {} from position {}: output item {i} is {:?}, should be {:?} ({} items, should be {})\nplan {plan:?} events {events:?}",
                s.id,
                s.pos,
                out.get(i),
                mout.get(i),
                out.len(),
                mout.len()
            ),
        )
    }
    check!(
        pulled.get() == mpulled.get(),
        "stream-source",
        "session {} from position {}: {} bytes were taken from the source, {} were processed\nplan {plan:?} events {events:?}",
        s.id,
        s.pos,
        pulled.get(),
        mpulled.get()
    );
    if let Some(k) = key_used {
        check!(
            k == used.get(),
            "stream-keys",
            "session {} from position {}: {k} key bytes were used for {} processed bytes\nplan {plan:?} events {events:?}",
            s.id,
            s.pos,
            used.get()
        );
    }
    s.pos += used.get();
    s.model = mk;
    if s.pos > 65_536 {
        count("probe.offset_above_64k");
    }
}

fn raw_op(s: &mut Session) {
    let n = gen_len(2000);
    let plan = gen_plan(n);
    let finish = chance(1, 6);
    let decrypt = chance(1, 2);
    let data = gen_bytes(n);
    ev("raw-call", &[s.id, n as u64, finish as u64, s.pos]);
    ev_str("plan", &format!("{plan:?}"));
    let Real::Raw(slot) = &mut s.real else { unreachable!() };
    if finish {
        let k = slot.take().unwrap();
        let r = attempt(|| if decrypt { k.decrypt(&data) } else { k.encrypt(&data) });
        s.dead = true;
        let want: Vec<u8> = data.iter().map(|d| d ^ s.model.next().unwrap()).collect();
        match r {
            Outcome::Done(v) => {
                check!(v == want, "stream-bytes", "rc4 encrypt from position {}: {} should be {}", s.pos, show(&v), show(&want))
            }
            o => violation("stream-refused", &format!("rc4 encrypt of {n} bytes did not finish: {}", o.name())),
        }
        return;
    }
    let it = slot.as_mut().unwrap();
    if chance(1, 4) {
        // a jump on the key stream itself
        let k = if chance(1, 3) { range(0, 70_000) } else { pick(&[0, 1, 15, 16, 255, 256, 257, 512, 1023, 1024, 4096]) + range(0, 2) };
        ev("raw-jump", &[s.id, k as u64, s.pos]);
        let style = draw(3);
        let r = attempt(|| match style {
            0 => it.nth(k),
            1 => it.by_ref().skip(k).next(),
            _ => it.by_ref().step_by(k + 1).take(2).last(), // jumps k+1 from the first byte
        });
        let steps = if style == 2 { k + 2 } else { k + 1 };
        let mut want = None;
        for _ in 0..steps {
            want = s.model.next();
        }
        s.pos += steps as u64;
        match r {
            Outcome::Done(b) => check!(b == want, "stream-bytes", "after a jump of {k} to position {} the key byte is {b:02x?}, should be {want:02x?}", s.pos),
            o => violation("stream-refused", &format!("the key stream panicked on a jump of {k}: {}", o.name())),
        }
        return;
    }
    let (mut out, mut mout) = (vec![], vec![]);
    let used = Cell::new(0);
    let r = attempt(|| consume(it.by_ref().take(n), &plan, &mut out));
    if !matches!(r, Outcome::Done(())) {
        violation("stream-refused", &format!("the key stream panicked at position {}", s.pos));
    }
    let mut mk = s.model.clone();
    struct Keys<'a>(&'a mut ModelKeys, &'a Cell<u64>);
    impl Iterator for Keys<'_> {
        type Item = u8;
        fn next(&mut self) -> Option<u8> {
            self.1.set(self.1.get() + 1);
            self.0.next()
        }
    }
    consume(Keys(&mut mk, &used).take(n), &plan, &mut mout);
    check!(out == mout, "stream-bytes", "key stream from position {}: got {:?}, should be {:?}\nplan {plan:?}", s.pos, &out[..out.len().min(40)], &mout[..mout.len().min(40)]);
    s.pos += used.get();
    s.model = mk;
}

/// One jump over more than 2^32 positions.
fn long_jump(raw: bool) {
    let key = gen_bytes(range(1, 32));
    let k = (1usize << 32) + range(0, 100_000);
    ev("long-jump", &[k as u64, raw as u64]);
    count("probe.long_jump");
    let mut m = Rc4::new(&key);
    let mut ks = must("rc4::new", || rc4::new(&key));
    let r = attempt(|| {
        if raw {
            let a = ks.nth(k);
            (a, ks.take(40).collect::<Vec<u8>>())
        } else {
            let mut c = StreamCipher::new(ks);
            let a = c.encrypt(std::iter::repeat(0u8)).nth(k);
            (a, c.encrypt([0u8; 40]).collect())
        }
    });
    for _ in 0..k {
        m.byte();
    }
    let want: (Option<u8>, Vec<u8>) = (Some(m.byte()), (0..40).map(|_| m.byte()).collect());
    match r {
        Outcome::Done(g) => check!(g == want, "stream-bytes", "after a jump of {k} (key stream itself: {raw}) the bytes are {g:02x?}, should be {want:02x?}"),
        o => violation("stream-refused", &format!("a jump of {k} panicked: {}", o.name())),
    }
}
/// A long way into the stream, then a comparison.
fn long_offset(total: u64) {
    let key = gen_bytes(range(1, 32));
    let mut c = must("rc4::new", || StreamCipher::new(rc4::new(&key)));
    let mut m = Rc4::new(&key);
    let mut pos = 0u64;
    ev("long-offset", &[total]);
    count("probe.long_offset");
    let step = pick(&[1usize << 16, 1 << 20, 99_991, 255]);
    let step = if total / step as u64 > 100_000 { 1 << 20 } else { step };
    while pos < total {
        let n = step.min((total - pos) as usize);
        let r = attempt(|| c.encrypt(std::iter::repeat_n(0u8, n)).fold(0u64, |h, b| h.rotate_left(5) ^ b as u64));
        let mut h = 0u64;
        for _ in 0..n {
            h = h.rotate_left(5) ^ m.byte() as u64;
        }
        match r {
            Outcome::Done(g) => check!(g == h, "stream-bytes", "rc4 differs from the published key stream somewhere in positions {pos}..{}", pos + n as u64),
            o => violation("stream-refused", &format!("rc4 panicked in positions {pos}..{}: {}", pos + n as u64, o.name())),
        }
        pos += n as u64;
    }
}

pub fn c01() {
    threads!(moved rc4, moved StreamCipher<rc4>;);
    let idx = run_index();
    let long = forced(1 << 40, if idx < 3 { HUGE_RUN + idx } else if idx < 6 { 1 } else if idx % 200 == 7 { 2 } else { 0 });
    if (HUGE_RUN..HUGE_RUN + 3).contains(&long) {
        simrt::heavy();
        return match long - HUGE_RUN {
            0 => long_offset((1 << 32) + range(0, 70_000) as u64),
            k => long_jump(k == 2),
        };
    }
    if long == 1 {
        return long_offset((1 << 24) + range(0, 70_000) as u64);
    }
    if long == 2 {
        return long_offset((1 << 18) + range(0, 2_000_000) as u64);
    }
    let nsess = range(1, 3);
    let ntasks = range(1, 3);
    let faults = chance(3, 4);
    let base_key = { let n = pick(&[5usize, 16, 1, 3, 8, 13, 24, 32, 100, 255, 256]); gen_bytes(n) };
    let sessions: Vec<_> = (0..nsess)
        .map(|i| {
            let key = related_key(&base_key, 256);
            Arc::new(Mutex::new(new_session(i as u64, &key)))
        })
        .collect();
    sched::configure();
    let tasks = (0..ntasks)
        .map(|_| {
            let sessions = sessions.clone();
            let ops = session(6);
            Box::new(move || {
                for _ in 0..ops {
                    let i = draw(sessions.len() as u64) as usize;
                    // another task may be in the middle of a call on this session
                    if let Ok(mut s) = sessions[i].try_lock() {
                        perhaps_in_cleanup(|| op_on_session(&mut s, faults));
                    } else {
                        count("probe.session_busy");
                    }
                    yield_seam();
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sched::run_tasks(tasks);
    // every session must still be in step at the end
    for s in &sessions {
        let mut s = s.lock().unwrap_or_else(|e| e.into_inner());
        op_on_session(&mut s, false);
    }
}

// ---------------------------------------------------------------------------------------------------------
// C02

#[derive(Clone)]
struct Packet {
    from: u64, // stream offset of the first byte
    body: Vec<u8>,
    flips: Vec<(usize, u8)>,
    at: u64, // arrival time
}

enum Rx {
    Cipher(StreamCipher<rc4>),
    Keys(rc4), // keeps the key stream itself and lends it to a cipher for each packet
}
struct Receiver {
    key: Vec<u8>,
    cipher: Rx,
    pos: u64,
}
fn new_rx(key: &[u8]) -> Rx {
    if chance(1, 2) {
        Rx::Cipher(must("rc4::new", || StreamCipher::new(rc4::new(key))))
    } else {
        Rx::Keys(must("rc4::new", || rc4::new(key)))
    }
}
impl Receiver {
    fn new(key: &[u8]) -> Self {
        Receiver { key: key.to_vec(), cipher: new_rx(key), pos: 0 }
    }
    /// advances past a gap in one of the ways a caller would
    fn advance(&mut self, n: u64) {
        if n == 0 {
            return;
        }
        let style = draw(5);
        ev("advance", &[self.pos, n, style]);
        let n = n as usize;
        let c = match &mut self.cipher {
            Rx::Cipher(c) => c,
            Rx::Keys(k) => {
                let r = attempt(|| match style {
                    0 => drop(k.nth(n - 1)),
                    1 => drop(k.by_ref().skip(n - 1).next()),
                    2 => k.by_ref().take(n).for_each(drop),
                    3 => drop(k.by_ref().take(n).last()),
                    _ => (0..n).for_each(|_| drop(k.next())),
                });
                expect_done("advance", r);
                self.pos += n as u64;
                return;
            }
        };
        let r = attempt(|| match style {
            0 => c.encrypt(std::iter::repeat_n(0u8, n)).for_each(drop),
            1 => {
                c.encrypt(std::iter::repeat(0u8)).nth(n - 1);
            }
            2 => {
                c.encrypt(vec![0u8; n]).count();
            }
            3 => {
                c.encrypt(std::iter::repeat(0u8)).take(n).for_each(drop);
            }
            _ => {
                for _ in 0..n {
                    c.encrypt([0u8]).next();
                }
            }
        });
        expect_done("advance", r);
        self.pos += n as u64;
    }
    fn decrypt(&mut self, body: &[u8]) -> Vec<u8> {
        let style = draw(3);
        let c = match &mut self.cipher {
            Rx::Cipher(c) => c,
            Rx::Keys(k) => {
                let r = attempt(|| match style {
                    0 => StreamCipher::new(k.by_ref()).encrypt(body.iter().copied()).collect::<Vec<u8>>(),
                    1 => body.chunks(9).flat_map(|ch| StreamCipher::new(k.by_ref()).encrypt(ch.to_vec()).collect::<Vec<u8>>()).collect(),
                    _ => body.iter().zip(k.by_ref()).map(|(a, b)| a ^ b).collect(),
                });
                self.pos += body.len() as u64;
                return expect_done("decrypt", r);
            }
        };
        let r = attempt(|| match style {
            0 => c.encrypt(body.iter().copied()).collect::<Vec<u8>>(),
            1 => {
                let mut v = vec![];
                for ch in body.chunks(7) {
                    v.extend(c.encrypt(ch.to_vec()));
                }
                v
            }
            _ => {
                let mut v = vec![];
                for b in c.encrypt(body.iter().copied()) {
                    v.push(b);
                }
                v
            }
        });
        self.pos += body.len() as u64;
        expect_done("decrypt", r)
    }
    fn restart(&mut self, durable: u64) {
        fault("fault.receiver_restart");
        self.cipher = new_rx(&self.key);
        self.pos = 0;
        self.advance(durable);
    }
}

pub fn c02() {
    // a receiver that was away for more than 2^32 bytes
    let idx = run_index();
    let long = forced(1 << 40, if idx < 2 { HUGE_RUN + idx } else { 0 });
    if (HUGE_RUN..HUGE_RUN + 2).contains(&long) {
        simrt::heavy();
        return long_jump(long > HUGE_RUN);
    }
    let base = { let n = pick(&[5usize, 16, 1, 8, 32, 256]); gen_bytes(n) };
    let nlinks = range(1, 3);
    let keys: Vec<Vec<u8>> = (0..nlinks).map(|_| related_key(&base, 256)).collect();
    let mut senders: Vec<StreamCipher<rc4>> = keys.iter().map(|k| must("rc4::new", || StreamCipher::new(rc4::new(k)))).collect();
    let mut plain: Vec<Vec<u8>> = vec![vec![]; nlinks];
    let mut wire: Vec<Vec<Packet>> = vec![vec![]; nlinks];
    let mut now = 0u64;
    // faults enabled in this run
    let (flip, drop_, dup, delay) = (chance(1, 2), chance(1, 2), chance(1, 3), chance(1, 2));
    let restart = chance(1, 3);
    let unframed = chance(1, 3);
    // traffic: the links interleave, messages are cut into packets anywhere
    for _ in 0..session(10) {
        let l = draw(nlinks as u64) as usize;
        let n = if chance(1, 40) { range(0, 70_000) } else { gen_len(1500) };
        let msg = gen_bytes(n);
        let from = plain[l].len() as u64;
        let r = attempt(|| senders[l].encrypt(msg.iter().copied()).collect::<Vec<u8>>());
        let ct = expect_done("encrypt", r);
        check!(ct.len() == msg.len(), "channel-length", "{} bytes were encrypted to {}", msg.len(), ct.len());
        ev("send", &[l as u64, from, n as u64]);
        plain[l].extend_from_slice(&msg);
        let mut i = 0;
        while i < ct.len() {
            let k = range(1, 400).min(ct.len() - i).max(1);
            now += 1 + draw(50);
            let mut p = Packet { from: from + i as u64, body: ct[i..i + k].to_vec(), flips: vec![], at: now + 100 };
            i += k;
            if flip && chance(1, 4) {
                for _ in 0..range(1, 3) {
                    let at = range(0, p.body.len() - 1);
                    let m = 1u8 << draw(8);
                    p.body[at] ^= m;
                    p.flips.push((at, m));
                    fault("fault.bit_flip");
                }
            }
            if delay && chance(1, 4) {
                p.at += draw(2000);
                fault("fault.delay_reorder");
            }
            if dup && chance(1, 5) {
                let mut q = p.clone();
                q.at += draw(1000);
                wire[l].push(q);
                fault("fault.duplicate");
            }
            if drop_ && chance(1, 6) {
                fault("fault.loss");
                continue;
            }
            wire[l].push(p);
        }
    }
    for l in 0..nlinks {
        wire[l].sort_by_key(|p| p.at);
        if let Some(p) = wire[l].last() {
            advance_us(p.at);
        }
        let mut rx = Receiver::new(&keys[l]);
        if unframed {
            // a receiver without framing: whatever arrives next is decrypted at its own next position;
            // the key byte used at position i must be the one the sender used at position i
            let mut reference = must("rc4::new", || StreamCipher::new(rc4::new(&keys[l])));
            let total: usize = wire[l].iter().map(|p| p.body.len()).sum();
            let ks = expect_done("key stream", attempt(|| reference.encrypt(vec![0u8; total]).collect::<Vec<u8>>()));
            for p in &wire[l] {
                let at = rx.pos as usize;
                let got = rx.decrypt(&p.body);
                for (i, g) in got.iter().enumerate() {
                    check!(
                        *g == p.body[i] ^ ks[at + i],
                        "channel-bytes",
                        "link {l}: the byte received {}th decrypts to {g:02x}, should be {:02x}",
                        at + i,
                        p.body[i] ^ ks[at + i]
                    );
                }
                op();
            }
            // and the stream itself matches the sender's position by position
            let n = plain[l].len().min(total);
            let again = expect_done("key stream", attempt(|| StreamCipher::new(rc4::new(&keys[l])).encrypt(plain[l][..n].to_vec()).collect::<Vec<u8>>()));
            for i in 0..n {
                check!(again[i] == plain[l][i] ^ ks[i], "channel-bytes", "link {l}: key byte {i} differs between two sessions of the same key");
            }
            continue;
        }
        // framed receiver: keeps a small reorder buffer, discards what it already has, skips gaps
        let window = range(0, 6);
        let mut pending: Vec<Packet> = vec![];
        let arrivals = wire[l].clone();
        let mut k = 0;
        while k < arrivals.len() || !pending.is_empty() {
            if k < arrivals.len() {
                let p = arrivals[k].clone();
                k += 1;
                if p.from >= rx.pos && !pending.iter().any(|q| q.from == p.from) {
                    pending.push(p);
                } else {
                    count("probe.late_or_duplicate_discarded");
                }
            }
            pending.sort_by_key(|p| p.from);
            while let Some(p) = pending.first() {
                let ready = p.from == rx.pos;
                if !ready && pending.len() <= window && k < arrivals.len() {
                    break;
                }
                let p = pending.remove(0);
                if p.from < rx.pos {
                    continue;
                }
                if restart && chance(1, 8) {
                    let durable = rx.pos;
                    rx.restart(durable);
                }
                let gap = p.from - rx.pos;
                if gap > 0 {
                    count("probe.gap_skipped");
                }
                rx.advance(gap);
                let got = rx.decrypt(&p.body);
                let from = p.from as usize;
                let mut want = plain[l][from..from + p.body.len()].to_vec();
                for &(i, m) in &p.flips {
                    want[i] ^= m;
                }
                if got != want {
                    let i = (0..want.len()).find(|&i| got.get(i) != Some(&want[i])).unwrap_or(want.len());
                    violation(
                        "channel-bytes",
                        &format!(
                            "link {l}: byte {} (packet of {} bytes, {} flips) decrypts to {:?}, should be {:?}",
                            from + i,
                            want.len(),
                            p.flips.len(),
                            got.get(i),
                            want.get(i)
                        ),
                    );
                }
                op();
            }
        }
    }
    // after everything: sender and receiver, still in step, exchange one last message each
    for l in 0..nlinks {
        let at = plain[l].len() as u64;
        let msg = gen_bytes(range(1, 40));
        let ct = expect_done("encrypt", attempt(|| senders[l].encrypt(msg.iter().copied()).collect::<Vec<u8>>()));
        let mut rx = Receiver::new(&keys[l]);
        rx.advance(at);
        let got = rx.decrypt(&ct);
        check!(got == msg, "channel-step", "link {l}: after {at} bytes the last message decrypts to {}, should be {}", show(&got), show(&msg));
    }
}
