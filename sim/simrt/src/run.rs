//! The supervisor: runs many seeds in worker processes (one fresh process per run), merges what they covered,
//! minimises a violation, writes the replay file and the evidence.
use crate::{
    COUNTERS, COV_MAX, ST_HARNESS, ST_NONE, ST_OK, ST_UNFINISHED, ST_VIOLATION, Shared, Source, alloc, begin_run, end_run, sched, splitmix,
    sys,
};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub struct Scenario {
    pub id: &'static str,
    pub run: fn(),
    /// run counts per tier
    pub quick: u64,
    pub thorough: u64,
    /// what a run is, for the evidence
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub instrumented: bool,
    /// CPU seconds after which one run counts as hanging
    pub cpu_limit: u64,
    /// classes listed as known findings print KNOWN-FINDING (see known_findings.txt)
    pub assumptions: &'static [&'static str],
}

#[derive(Clone)]
pub struct RunResult {
    pub status: u32,
    pub heavy: bool,
    pub class: String,
    pub detail: String,
    pub hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub faults: u64,
    pub ops: u64,
    pub sim_us: u64,
    pub tape: Vec<u64>,
    pub trace: String,
}

/// Runs the scenario once in a process of its own.
fn exec(sh: *mut Shared, f: fn(), src: Source, verbose: bool, cpu: u64) -> u32 {
    let s = unsafe { &mut *sh };
    s.status = ST_NONE;
    s.heavy = 0;
    s.oom = 0;
    s.class.len = 0;
    s.detail.len = 0;
    s.tape_len = 0;
    s.ncounters = 0;
    s.trace.len = 0;
    let pid = unsafe { sys::fork() };
    if pid < 0 {
        s.status = ST_HARNESS;
        s.class.set("harness");
        s.detail.set("fork failed");
        return s.status;
    }
    if pid == 0 {
        unsafe {
            sys::setrlimit(4, &[0, 0]); // no core files
            sys::silence_stderr();
            // CPU time of all threads, then a generous wall clock for a wait that nobody ends
            sys::setitimer(2, &[0, 0, cpu as i64, 0], core::ptr::null_mut());
            sys::setitimer(0, &[0, 0, 20 * cpu as i64 + 60, 0], core::ptr::null_mut());
        }
        alloc::enter();
        begin_run(sh, src, verbose);
        let r = std::panic::catch_unwind(f);
        match r {
            Ok(()) => end_run(ST_OK),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                let m = m.unwrap_or_else(|| "an injected failure escaped the scenario".into());
                crate::harness_error(&format!("scenario panicked: {m} at {}", crate::last_panic_site()))
            }
        }
    }
    let mut st = 0;
    while unsafe { sys::waitpid(pid, &mut st, 0) } != pid {}
    if s.status == ST_NONE {
        let sig = st & 0x7f;
        let (class, detail) = match sig {
            27 => ("hang", format!("the run used {cpu} s of CPU time without ending")),
            14 => ("hang-wall", "the run stopped making progress (wall clock)".to_string()),
            9 => ("killed", "killed by the system".to_string()),
            0 => ("harness", format!("run process exited with {}", st >> 8)),
            n => ("crash", format!("the process died of signal {n} (abort, stack overflow or memory fault)")),
        };
        s.class.set(class);
        s.detail.set(&detail);
        s.hash = 0;
        s.status = match class {
            "hang" | "hang-wall" | "killed" if s.heavy != 0 => ST_UNFINISHED,
            "harness" | "killed" => ST_HARNESS,
            _ => ST_VIOLATION,
        };
    }
    if s.heavy != 0 && s.oom != 0 && s.status != ST_OK {
        s.status = ST_UNFINISHED;
    }
    s.status
}

fn result(sh: *mut Shared) -> RunResult {
    let s = unsafe { &*sh };
    RunResult {
        status: s.status,
        heavy: s.heavy != 0,
        class: s.class.get(),
        detail: s.detail.get(),
        hash: s.hash,
        sched_hash: s.sched_hash,
        steps: s.steps,
        switches: s.switches,
        faults: s.faults,
        ops: s.ops,
        sim_us: s.sim_us,
        tape: s.tape[..s.tape_len as usize].to_vec(),
        trace: s.trace.get(),
    }
}

fn seed_of(base: u64, prop: &str, idx: u64) -> u64 {
    let mut x = base ^ 0xa076_1d64_78bd_642f;
    for b in prop.bytes() {
        x = splitmix(&mut x) ^ b as u64;
    }
    x = splitmix(&mut x) ^ idx.wrapping_mul(0x9e3779b97f4a7c15);
    splitmix(&mut x)
}

#[repr(C)]
struct Control {
    next: AtomicU64,
    min_bad: AtomicU64,
    stop: AtomicU32,
    harness: AtomicU32,
    done: AtomicU64,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Rec {
    hash: u64,
    sched: u64,
    flags: u32, // 1 ok, 2 had faults, 4 had switches, 8 had operations
    us: u32,
}

#[repr(C)]
struct Totals {
    runs: u64,
    steps: u64,
    switches: u64,
    faults: u64,
    ops: u64,
    sim_us: u64,
    unfinished: u64,
    bad_idx: u64, // violation kept by this worker, u64::MAX if none
    max_us: u64,
    ncounters: u32,
    counters: [crate::Counter; COUNTERS],
}

fn now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { sys::raw_syscall(228, 1, &mut ts as *mut _ as usize, 0, 0, 0, 0) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

fn merge_counters(t: &mut Totals, s: &Shared) {
    for c in &s.counters[..s.ncounters as usize] {
        let name = &c.name.buf[..c.name.len as usize];
        let n = t.ncounters as usize;
        let i = (0..n).find(|&i| t.counters[i].name.buf[..t.counters[i].name.len as usize] == *name);
        match i {
            Some(i) => t.counters[i].val += c.val,
            None if n < COUNTERS => {
                t.counters[n].name.set(core::str::from_utf8(name).unwrap_or("?"));
                t.counters[n].val = c.val;
                t.ncounters += 1;
            }
            None => {}
        }
    }
}

pub struct Batch {
    pub runs: u64,
    pub wall: f64,
    pub bad: Option<(u64, RunResult)>,
    pub harness: Option<String>,
    totals: Totals,
    recs: Vec<Rec>,
    cov: usize,
}

fn batch(sc: &Scenario, base: u64, total: u64, workers: usize, wall_cap: f64) -> Batch {
    let ctl = unsafe { &*(sys::map_shared(4096) as *const Control) };
    ctl.min_bad.store(u64::MAX, Relaxed);
    let recs = sys::map_shared((total as usize + 1) * core::mem::size_of::<Rec>()) as *mut Rec;
    let t0 = now();
    let mut shs = vec![];
    let mut tots = vec![];
    let mut pids = vec![];
    for _ in 0..workers {
        let sh = sys::map_shared(core::mem::size_of::<Shared>()) as *mut Shared;
        let keep = sys::map_shared(core::mem::size_of::<Shared>()) as *mut Shared;
        let tot = sys::map_shared(core::mem::size_of::<Totals>()) as *mut Totals;
        unsafe { (*tot).bad_idx = u64::MAX };
        shs.push((sh, keep));
        tots.push(tot);
        let pid = unsafe { sys::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let t = unsafe { &mut *tot };
            loop {
                let i = ctl.next.fetch_add(1, Relaxed);
                if i >= total || i > ctl.min_bad.load(Relaxed) || ctl.stop.load(Relaxed) != 0 || now() - t0 > wall_cap {
                    break;
                }
                let r0 = now();
                let src = || Source::Seed { seed: seed_of(base, sc.id, i), idx: i };
                let mut st = exec(sh, sc.run, src(), false, sc.cpu_limit);
                if st == ST_HARNESS {
                    // a system hiccup (killed by the kernel, fork refused): once more before giving up
                    st = exec(sh, sc.run, src(), false, sc.cpu_limit);
                }
                let us = ((now() - r0) * 1e6) as u64;
                let s = unsafe { &*sh };
                t.runs += 1;
                t.steps += s.steps;
                t.switches += s.switches;
                t.faults += s.faults;
                t.ops += s.ops;
                t.sim_us += s.sim_us;
                t.max_us = t.max_us.max(us);
                merge_counters(t, s);
                unsafe {
                    *recs.add(i as usize) = Rec {
                        hash: s.hash,
                        sched: s.sched_hash,
                        flags: (st != ST_UNFINISHED) as u32 | (s.faults > 0) as u32 * 2 | (s.switches > 0) as u32 * 4 | (s.ops > 0) as u32 * 8,
                        us: us.min(u32::MAX as u64) as u32,
                    };
                }
                ctl.done.fetch_add(1, Relaxed);
                if st == ST_VIOLATION && i < t.bad_idx {
                    t.bad_idx = i;
                    unsafe { core::ptr::copy_nonoverlapping(sh as *const u8, keep as *mut u8, core::mem::size_of::<Shared>()) };
                    ctl.min_bad.fetch_min(i, Relaxed);
                } else if st == ST_UNFINISHED {
                    t.unfinished += 1;
                } else if st == ST_HARNESS {
                    unsafe { core::ptr::copy_nonoverlapping(sh as *const u8, keep as *mut u8, core::mem::size_of::<Shared>()) };
                    ctl.harness.fetch_add(1, Relaxed);
                    ctl.stop.store(1, Relaxed);
                    break;
                }
            }
            unsafe { sys::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        while unsafe { sys::waitpid(p, &mut st, 0) } != p {}
    }
    let wall = now() - t0;
    let mut sum: Totals = unsafe { core::mem::zeroed() };
    sum.bad_idx = u64::MAX;
    let mut cov = vec![0u8; COV_MAX];
    let mut bad: Option<(u64, RunResult)> = None;
    let mut harness = None;
    for (w, &t) in tots.iter().enumerate() {
        let t = unsafe { &*t };
        sum.runs += t.runs;
        sum.unfinished += t.unfinished;
        sum.steps += t.steps;
        sum.switches += t.switches;
        sum.faults += t.faults;
        sum.ops += t.ops;
        sum.sim_us += t.sim_us;
        sum.max_us = sum.max_us.max(t.max_us);
        for c in &t.counters[..t.ncounters as usize] {
            let name = c.name.get();
            match (0..sum.ncounters as usize).find(|&i| sum.counters[i].name.get() == name) {
                Some(i) => sum.counters[i].val += c.val,
                None if (sum.ncounters as usize) < COUNTERS => {
                    let n = sum.ncounters as usize;
                    sum.counters[n].name.set(&name);
                    sum.counters[n].val = c.val;
                    sum.ncounters += 1;
                }
                None => {}
            }
        }
        let s = unsafe { &*shs[w].0 };
        for i in 0..COV_MAX {
            cov[i] |= s.cov[i];
        }
        if t.bad_idx != u64::MAX && bad.as_ref().is_none_or(|b| t.bad_idx < b.0) {
            bad = Some((t.bad_idx, result(shs[w].1)));
        }
        let k = unsafe { &*shs[w].1 };
        if k.status == ST_HARNESS {
            harness = Some(format!("{}: {}", k.class.get(), k.detail.get()));
        }
    }
    let n = (ctl.next.load(Relaxed)).min(total) as usize;
    let recs = unsafe { core::slice::from_raw_parts(recs, n) }.to_vec();
    Batch { runs: sum.runs, wall, bad, harness, totals: sum, recs, cov: cov.iter().filter(|&&c| c != 0).count() }
}

// ---------------------------------------------------------------------------------------------------------
// minimisation

struct Shrinker<'a> {
    sc: &'a Scenario,
    sh: *mut Shared,
    class: String,
    deadline: f64,
    left: u64,
    cpu: u64,
    tried: HashSet<u64>,
}
impl Shrinker<'_> {
    fn out_of_budget(&self) -> bool {
        self.left == 0 || now() > self.deadline
    }
    /// the tape as actually consumed if it still fails the same way
    fn fails(&mut self, tape: &[u64]) -> Option<RunResult> {
        if self.out_of_budget() {
            return None;
        }
        let mut h = tape.len() as u64;
        for &v in tape {
            h = crate::mix(h, v.wrapping_add(1));
        }
        if !self.tried.insert(h) {
            return None;
        }
        self.left -= 1;
        exec(self.sh, self.sc.run, Source::Tape(tape.to_vec()), false, self.cpu);
        let r = result(self.sh);
        (r.status == ST_VIOLATION && r.class == self.class).then_some(r)
    }
}
fn simpler(a: &[u64], b: &[u64]) -> bool {
    let sum = |x: &[u64]| x.iter().map(|&v| 64 - v.leading_zeros() as u64).sum::<u64>();
    (a.len(), sum(a)) < (b.len(), sum(b)) || (a.len() == b.len() && sum(a) == sum(b) && a < b)
}
fn strip(mut t: Vec<u64>) -> Vec<u64> {
    while t.last() == Some(&0) {
        t.pop();
    }
    t
}

fn shrink(sc: &Scenario, sh: *mut Shared, first: &RunResult, secs: f64, cpu: u64) -> (Vec<u64>, RunResult, u64) {
    let slow = first.class.starts_with("hang");
    let mut k = Shrinker {
        sc,
        sh,
        class: first.class.clone(),
        deadline: now() + secs,
        left: if slow { 4 } else { 4000 },
        cpu,
        tried: HashSet::new(),
    };
    let mut best = strip(first.tape.clone());
    let mut res = first.clone();
    macro_rules! attempt {
        ($cand:expr) => {{
            let c = strip($cand);
            let mut ok = false;
            if simpler(&c, &best) {
                if let Some(r) = k.fails(&c) {
                    let used = strip(r.tape[..r.tape.len().min(c.len())].to_vec());
                    best = if simpler(&used, &c) { used } else { c };
                    res = r;
                    ok = true;
                }
            }
            ok
        }};
    }
    loop {
        let before = best.clone();
        // cut the tail
        let (mut lo, mut hi) = (0, best.len());
        while lo < hi && !k.out_of_budget() {
            let mid = (lo + hi) / 2;
            if attempt!(best[..mid.min(best.len())].to_vec()) {
                hi = best.len().min(mid);
            } else {
                lo = mid + 1;
            }
        }
        // drop and zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !k.out_of_budget() {
                let j = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[j..]);
                if attempt!(c) {
                    continue;
                }
                let j = (i + size).min(best.len());
                if best[i..j].iter().any(|&v| v != 0) {
                    let mut c = best.clone();
                    c[i..j].fill(0);
                    attempt!(c);
                }
                i += size;
            }
            if size == 1 || k.out_of_budget() {
                break;
            }
            size /= 2;
        }
        // reduce values
        let mut i = 0;
        while i < best.len() && !k.out_of_budget() {
            let v = best[i];
            for n in [1, v / 2, v.saturating_sub(v / 8), v.saturating_sub(1)] {
                if n < v && i < best.len() && best[i] == v {
                    let mut c = best.clone();
                    c[i] = n;
                    attempt!(c);
                }
            }
            i += 1;
        }
        if best == before || k.out_of_budget() {
            break;
        }
    }
    (best, res, k.tried.len() as u64)
}

// ---------------------------------------------------------------------------------------------------------
// replay files

pub struct Replay {
    pub property: String,
    pub class: String,
    pub hash: String,
    pub tape: Vec<u64>,
}
fn write_replay(path: &str, sc: &Scenario, base: u64, idx: u64, tape: &[u64], r: &RunResult) {
    let mut o = String::new();
    let _ = writeln!(o, "vsim-replay 1");
    let _ = writeln!(o, "property {}", sc.id);
    let _ = writeln!(o, "class {}", r.class);
    let _ = writeln!(o, "hash {:016x}", r.hash);
    let _ = writeln!(o, "seed {base} run {idx}");
    for c in tape.chunks(24) {
        let v: Vec<String> = c.iter().map(|v| v.to_string()).collect();
        let _ = writeln!(o, "tape {}", v.join(" "));
    }
    let _ = writeln!(o, "# replay with: bash check.sh replay <this file>");
    for l in r.detail.lines() {
        let _ = writeln!(o, "# {l}");
    }
    let _ = writeln!(o, "# operations, faults and schedule of the minimised run:");
    for l in r.trace.lines().take(4000) {
        let _ = writeln!(o, "#   {l}");
    }
    std::fs::write(path, o).expect("write replay file");
}
fn read_replay(path: &str) -> Option<Replay> {
    let t = std::fs::read_to_string(path).ok()?;
    let mut r = Replay { property: String::new(), class: String::new(), hash: String::new(), tape: vec![] };
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            r.property = x.into();
        } else if let Some(x) = l.strip_prefix("class ") {
            r.class = x.into();
        } else if let Some(x) = l.strip_prefix("hash ") {
            r.hash = x.into();
        } else if let Some(x) = l.strip_prefix("tape ") {
            r.tape.extend(x.split_whitespace().filter_map(|v| v.parse::<u64>().ok()));
        }
    }
    Some(r)
}

// ---------------------------------------------------------------------------------------------------------
// command line

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn env_u64(n: &str) -> Option<u64> {
    std::env::var(n).ok()?.trim().parse().ok()
}

fn sample_json(sc: &Scenario, sh: *mut Shared, base: u64, i: u64) -> String {
    exec(sh, sc.run, Source::Seed { seed: seed_of(base, sc.id, i), idx: i }, true, sc.cpu_limit);
    let r = result(sh);
    let lines: Vec<String> = r.trace.lines().take(30).map(jstr).collect();
    let tape: Vec<String> = r.tape.iter().take(60).map(|v| v.to_string()).collect();
    format!(
        "{{\"run\": {i}, \"run_seed\": \"{:016x}\", \"operations\": {}, \"faults\": {}, \"context_switches\": {}, \"choices\": {}, \"first_choices\": [{}], \"first_events\": [{}]}}",
        seed_of(base, sc.id, i),
        r.ops,
        r.faults,
        r.switches,
        r.tape.len(),
        tape.join(", "),
        lines.join(", ")
    )
}

pub struct Env {
    pub out_dir: String,
    pub known: Vec<(String, String)>,
}

fn check(sc: &Scenario, tier: &str, base: u64, env: &Env) -> i32 {
    let t0 = now();
    let workers = env_u64("VSIM_WORKERS").unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize;
    let total = env_u64("VSIM_RUNS").unwrap_or(if tier == "thorough" { sc.thorough } else { sc.quick });
    let cap = env_u64("VSIM_WALL").unwrap_or(if tier == "thorough" { 3000 } else { 240 }) as f64;
    println!("vsim: property {} tier {tier} seed {base}: up to {total} runs on {workers} workers", sc.id);
    let b = batch(sc, base, total, workers, cap);
    if let Some(h) = &b.harness {
        eprintln!("vsim: harness error: {h}");
        return 2;
    }
    let sh = sys::map_shared(core::mem::size_of::<Shared>()) as *mut Shared;
    let mut bad = b.bad.as_ref().map(|(i, r)| (*i, r.clone()));
    // A time limit is a verdict about the machine as much as about the code: ask again with much more time.
    if let Some((i, r)) = &bad {
        if r.class.starts_with("hang") {
            exec(sh, sc.run, Source::Seed { seed: seed_of(base, sc.id, *i), idx: *i }, false, 3 * sc.cpu_limit);
            let again = result(sh);
            bad = (again.status == ST_VIOLATION).then_some((*i, again));
        }
    }
    let mut code = 0;
    let mut violations = 0;
    let mut shrunk = String::from("null");
    if let Some((i, r)) = &bad {
        violations = 1;
        code = 1;
        println!("vsim: run {i} violates {}: {}", sc.id, r.class);
        // a run that is long by design has next to no choices: nothing to minimise, and no time to try
        let (tape, res, tries) = if r.heavy {
            (r.tape.clone(), r.clone(), 0)
        } else {
            shrink(sc, sh, r, 60.0, sc.cpu_limit.min(if r.class.starts_with("hang") { 15 } else { sc.cpu_limit }))
        };
        // once more with the event log, from the minimised choices
        let mut full = if r.heavy {
            res.clone()
        } else {
            exec(sh, sc.run, Source::Tape(tape.clone()), true, sc.cpu_limit);
            result(sh)
        };
        if full.status != ST_VIOLATION || full.class != r.class {
            full = res;
        }
        let dir = format!("{}/replays", env.out_dir);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-seed{base}-run{i}.replay", sc.id);
        write_replay(&path, sc, base, *i, &tape, &full);
        let confirmed = std::env::current_exe()
            .ok()
            .and_then(|exe| std::process::Command::new(exe).args(["replay", &path, "--quiet"]).status().ok())
            .and_then(|s| s.code())
            == Some(1);
        println!(
            "vsim: minimised from {} to {} choices in {tries} runs; fresh-process replay {}",
            r.tape.len(),
            tape.len(),
            if confirmed { "reproduces it exactly" } else { "did NOT reproduce it" }
        );
        for l in full.detail.lines().take(30) {
            println!("  {l}");
        }
        for l in full.trace.lines().take(40) {
            println!("    {l}");
        }
        println!("VIOLATION property={} replay={path}", sc.id);
        shrunk = format!(
            "{{\"run\": {i}, \"class\": {}, \"choices_before\": {}, \"choices_after\": {}, \"replay\": {}, \"replay_confirmed\": {confirmed}}}",
            jstr(&r.class),
            r.tape.len(),
            tape.len(),
            jstr(&path)
        );
    }
    // determinism sample: repeat runs in this (different) process and compare event-log hashes
    let mut det_same = 0u64;
    let mut det_all = 0u64;
    let det_n = if tier == "thorough" { 400 } else { 40 };
    let dt0 = now();
    for j in 0..det_n {
        let n = b.recs.len() as u64;
        if n == 0 || now() - dt0 > 20.0 {
            break;
        }
        let i = j * n / det_n;
        let rec = b.recs[i as usize];
        if rec.flags & 1 == 0 || rec.us > 2_000_000 {
            continue;
        }
        exec(sh, sc.run, Source::Seed { seed: seed_of(base, sc.id, i), idx: i }, false, sc.cpu_limit);
        det_all += 1;
        det_same += (result(sh).hash == rec.hash) as u64;
    }
    // known findings are reported by the scenario through a counter
    for (p, what) in &env.known {
        if p == sc.id {
            let key = what.split_whitespace().next().unwrap_or("");
            let hit = (0..b.totals.ncounters as usize).any(|i| b.totals.counters[i].name.get() == format!("known.{key}"));
            if hit {
                println!("KNOWN-FINDING: property={} {}", sc.id, what);
            }
        }
    }
    let mut hashes: Vec<u64> = b.recs.iter().filter(|r| r.flags & 1 == 1 && r.flags & 8 != 0 && r.flags & 6 != 0).map(|r| r.hash).collect();
    hashes.sort_unstable();
    hashes.dedup();
    let mut all: Vec<u64> = b.recs.iter().filter(|r| r.flags & 1 == 1).map(|r| r.hash).collect();
    all.sort_unstable();
    all.dedup();
    let mut scheds: Vec<u64> = b.recs.iter().filter(|r| r.flags & 4 != 0).map(|r| r.sched).collect();
    scheds.sort_unstable();
    scheds.dedup();
    let with_faults = b.recs.iter().filter(|r| r.flags & 2 != 0).count();
    let t = &b.totals;
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    for c in &t.counters[..t.ncounters as usize] {
        let n = c.name.get();
        if let Some(f) = n.strip_prefix("fault.") {
            kinds.insert(f.to_string(), c.val);
        } else {
            probes.insert(n, c.val);
        }
    }
    let map = |m: &BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ")
    };
    let nrec = b.recs.len() as u64;
    let samples: Vec<String> =
        if nrec == 0 { vec![] } else { [nrec / 3, 2 * nrec / 3].iter().map(|&i| sample_json(sc, sh, base, i)).collect() };
    let wall = now() - t0;
    let guards = sched::guard_count();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {base},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        jstr(sc.id),
        jstr(tier)
    );
    let _ = write!(
        o,
        "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n",
        b.runs,
        hashes.len(),
        jstr(&format!("{} A run is non-trivial if it carried out at least one library operation and at least one injected fault fired or one context switch happened; runs are distinct if their event-log hashes differ.", sc.rule)),
        samples.join(", ")
    );
    let _ = write!(
        o,
        "  \"runs_requested\": {total},\n  \"stopped_by_wall_cap\": {},\n  \"long_runs_cut_off_without_verdict\": {},\n  \"distinct_runs\": {},\n  \"runs_per_hour_one_seed_each\": {:.0},\n  \"batch_wall_s\": {:.2},\n  \"slowest_run_ms\": {:.1},\n",
        b.runs < total && b.bad.is_none(),
        t.unfinished,
        all.len(),
        b.runs as f64 / b.wall * 3600.0,
        b.wall,
        t.max_us as f64 / 1000.0
    );
    let _ = write!(
        o,
        "  \"simulated_time_s\": {:.3},\n  \"simulated_time_note\": \"1 us per library step or event, plus the simulated channel and disk delays\",\n  \"operations\": {},\n  \"preemption_points_passed\": {},\n  \"context_switches\": {},\n  \"distinct_interleavings\": {},\n  \"distinct_interleavings_measure\": \"different sequences of (step count, task switched to)\",\n",
        t.sim_us as f64 / 1e6,
        t.ops,
        t.steps,
        t.switches,
        scheds.len()
    );
    let _ = write!(
        o,
        "  \"faults_injected\": {},\n  \"runs_with_faults\": {with_faults},\n  \"fault_kinds\": {{{}}},\n  \"probes\": {{{}}},\n",
        t.faults,
        map(&kinds),
        map(&probes)
    );
    if sc.instrumented {
        let _ = write!(o, "  \"instrumented_edges\": {guards},\n  \"instrumented_edges_reached\": {},\n", b.cov);
    }
    let _ = write!(
        o,
        "  \"determinism\": {{\"runs_repeated\": {det_all}, \"identical_event_logs\": {det_same}}},\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"violation\": {shrunk}\n }},\n",
        jstr(sc.real),
        jstr(sc.stub)
    );
    let ass: Vec<String> = sc.assumptions.iter().map(|a| jstr(a)).collect();
    let _ = write!(o, " \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n", ass.join(", "));
    let dir = format!("{}/evidence", env.out_dir);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", sc.id), o) {
        eprintln!("vsim: cannot write evidence: {e}");
        return 2;
    }
    println!(
        "vsim: {} {} runs in {:.1} s ({:.0}/h), {} distinct non-trivial, {} faults, {} switches, determinism {det_same}/{det_all}: {}",
        sc.id,
        b.runs,
        b.wall,
        b.runs as f64 / b.wall * 3600.0,
        hashes.len(),
        t.faults,
        t.switches,
        if code == 0 { "held" } else { "VIOLATED" }
    );
    if det_same != det_all {
        eprintln!("vsim: warning: {} of {det_all} repeated runs differed", det_all - det_same);
    }
    code
}

fn known_findings(dir: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{dir}/known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| l.split_once(' '))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect()
}

/// `personality(ADDR_NO_RANDOMIZE)` and a fresh exec, where the sandbox allows it.
fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    if std::env::var("VSIM_FIXED").is_ok() {
        return;
    }
    unsafe {
        let cur = sys::personality(0xffff_ffff);
        if cur >= 0 && sys::personality(cur as u64 | 0x0040000) >= 0 {
            if let Ok(exe) = std::env::current_exe() {
                let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("VSIM_FIXED", "1").exec();
            }
        }
    }
}

pub fn main(scenarios: &[Scenario], selftest: fn() -> Result<(), String>) -> i32 {
    fixed_addresses();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let out_dir = std::env::var("VSIM_OUT").unwrap_or_else(|_| "/verif".into());
    let env = Env { known: known_findings(&out_dir), out_dir };
    crate::install_hook();
    let usage = || {
        eprintln!("usage: vsim check ID [tier] [seed] | replay FILE [--quiet] | determinism ID N [seed] | trace ID RUN [seed] | selftest");
        2
    };
    let find = |id: &str| scenarios.iter().find(|s| s.id == id);
    match args.first().map(|s| s.as_str()) {
        Some("selftest") => match selftest() {
            Ok(()) => {
                println!("selftest ok");
                0
            }
            Err(e) => {
                eprintln!("selftest failed: {e}");
                2
            }
        },
        Some("check") => {
            let Some(sc) = args.get(1).and_then(|a| find(a)) else { return usage() };
            if let Err(e) = selftest() {
                eprintln!("vsim: the reference models fail their own known answers: {e}");
                return 2;
            }
            let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            let seed = args.get(3).and_then(|s| s.parse().ok()).or_else(|| env_u64("VERIF_SEED")).unwrap_or(1);
            // read by scenarios whose runs differ between the tiers
            unsafe { std::env::set_var("VSIM_TIER", tier) };
            check(sc, tier, seed, &env)
        }
        Some("replay") => {
            let Some(rp) = args.get(1).and_then(|p| read_replay(p)) else { return usage() };
            let Some(sc) = find(&rp.property) else { return usage() };
            let quiet = args.iter().any(|a| a == "--quiet");
            let sh = sys::map_shared(core::mem::size_of::<Shared>()) as *mut Shared;
            exec(sh, sc.run, Source::Tape(rp.tape.clone()), true, 3 * sc.cpu_limit);
            let r = result(sh);
            if !quiet {
                println!("status {} class {} hash {:016x} (recorded class {} hash {})", r.status, r.class, r.hash, rp.class, rp.hash);
                print!("{}", r.trace);
                println!("{}", r.detail);
            }
            let same = r.status == ST_VIOLATION && r.class == rp.class;
            if same && !quiet {
                println!("VIOLATION property={} replay={}", sc.id, args[1]);
            }
            if same { 1 } else { 0 }
        }
        Some("determinism") => {
            let Some(sc) = args.get(1).and_then(|a| find(a)) else { return usage() };
            let n = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(200);
            let seed = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
            let a = batch(sc, seed, n, 8, 1e9);
            let b = batch(sc, seed, n, 3, 1e9);
            let mut h = 0u64;
            let mut diff = 0;
            for (x, y) in a.recs.iter().zip(&b.recs) {
                h = crate::mix(h, x.hash);
                diff += (x.hash != y.hash || x.sched != y.sched) as u64;
            }
            println!("{} runs {} hash {h:016x} differing {diff} harness {:?} bad {:?}", sc.id, a.runs, a.harness, a.bad.map(|b| (b.0, b.1.class, b.1.detail)));
            (diff != 0) as i32
        }
        Some("trace") => {
            let Some(sc) = args.get(1).and_then(|a| find(a)) else { return usage() };
            let i = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
            let seed = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
            let sh = sys::map_shared(core::mem::size_of::<Shared>()) as *mut Shared;
            let t0 = now();
            exec(sh, sc.run, Source::Seed { seed: seed_of(seed, sc.id, i), idx: i }, true, sc.cpu_limit);
            let r = result(sh);
            print!("{}", r.trace);
            println!("status {} class {} detail {}", r.status, r.class, r.detail);
            println!("hash {:016x} steps {} switches {} ops {} faults {} choices {} ms {:.1}", r.hash, r.steps, r.switches, r.ops, r.faults, r.tape.len(), (now() - t0) * 1e3);
            let _ = std::io::stdout().flush();
            0
        }
        _ => usage(),
    }
}
