//! Runs the cases of a property, watches them, and writes verdict, replay and evidence.
use crate::rng::splitmix;
use crate::Rng;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A family of cases; a case is a pure function of its seed.
pub struct Kind {
    pub name: &'static str,
    pub run: fn(&mut Ctx) -> R,
    pub quick: usize,
    pub thorough: usize,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub kinds: &'static [Kind],
    /// Minimum counts without which the run observed too little to decide (quick tier).
    pub floors: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
    /// Every case of this property is deterministic and enumerates a finite space.
    pub exhaustive: bool,
}

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub index: usize,
    pub tier: Tier,
    pub trace: bool,
    pub kind: &'static str,
    prop: &'static str,
    counts: BTreeMap<&'static str, u64>,
    digest: u64,
    nontrivial: bool,
    sample: Option<String>,
    known: Vec<String>,
    known_hits: Vec<String>,
    ticks: Arc<AtomicU64>,
    log: Vec<String>,
}

impl Ctx {
    /// Marks progress: no single step between two ticks may consume the CPU limit.
    pub fn tick(&self) {
        self.ticks.fetch_add(1, Ordering::Relaxed);
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counts.entry(name).or_insert(0) += n;
        self.tick();
    }
    /// Keeps the maximum of a measured quantity (in parts per million for ratios).
    pub fn max(&mut self, name: &'static str, n: u64) {
        let e = self.counts.entry(name).or_insert(0);
        *e = (*e).max(n);
    }
    /// Adds to the digest that tells distinct cases apart.
    pub fn mix(&mut self, x: u64) {
        self.digest = splitmix(self.digest ^ x);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() && (self.index < 3 || self.trace) {
            self.sample = Some(f());
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let line = f();
            self.log.push(line);
        }
    }
    /// Reports a violation unless it is exactly a listed known finding.
    pub fn violation(&mut self, signature: &str, what: String) -> R {
        if self.known.iter().any(|k| k == signature) {
            if !self.known_hits.iter().any(|k| k == signature) {
                self.known_hits.push(signature.to_string());
            }
            Ok(())
        } else {
            Err(format!("[{signature}] {what}"))
        }
    }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    /// Runs one library call that may panic legitimately; returns the panic message if it did.
    pub fn catch<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.tick();
        let r = panic::catch_unwind(AssertUnwindSafe(f));
        self.tick();
        r.map_err(|e| {
            let msg = payload(&*e);
            let at = PANIC_AT.with(|p| p.borrow_mut().take()).unwrap_or_default();
            format!("{msg} at {at}")
        })
    }
    pub fn prop(&self) -> &'static str {
        self.prop
    }
}

thread_local!(static PANIC_AT: RefCell<Option<String>> = const { RefCell::new(None) });

fn payload(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

enum Outcome {
    Held,
    Violation(String),
    Harness(String),
}

struct CaseResult {
    outcome: Outcome,
    counts: BTreeMap<&'static str, u64>,
    digest: u64,
    nontrivial: bool,
    sample: Option<String>,
    known_hits: Vec<String>,
    log: Vec<String>,
}

struct Slot {
    ticks: Arc<AtomicU64>,
    clock: AtomicU64, // clock id + 1, 0 = idle
    case: AtomicU64,  // kind index << 40 | case index
}

fn case_seed(base: u64, kind: &str, index: usize) -> u64 {
    let mut h = splitmix(base ^ 0xA5A5_5A5A_1234_5678);
    for b in kind.bytes() {
        h = splitmix(h ^ u64::from(b));
    }
    splitmix(h ^ index as u64)
}

fn execute(
    prop: &'static Property,
    kind: &'static Kind,
    seed: u64,
    index: usize,
    tier: Tier,
    trace: bool,
    known: Vec<String>,
    slot: Arc<Slot>,
) -> CaseResult {
    let ticks = slot.ticks.clone();
    let slot2 = slot.clone();
    let body = move || {
        #[cfg(not(miri))]
        unsafe {
            let mut id: libc::clockid_t = 0;
            if libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) == 0 {
                slot2.clock.store((id as i64 as u64).wrapping_add(1), Ordering::SeqCst);
            }
        }
        let _ = &slot2;
        getrandom::verif_seed(splitmix(seed ^ 0x5EED));
        let mut ctx = Ctx {
            rng: Rng::new(seed),
            seed,
            index,
            tier,
            trace,
            kind: kind.name,
            prop: prop.id,
            counts: BTreeMap::new(),
            digest: 0,
            nontrivial: false,
            sample: None,
            known,
            known_hits: Vec::new(),
            ticks,
            log: Vec::new(),
        };
        let r = panic::catch_unwind(AssertUnwindSafe(|| (kind.run)(&mut ctx)));
        let outcome = match r {
            Ok(Ok(())) => Outcome::Held,
            Ok(Err(msg)) => Outcome::Violation(msg),
            Err(e) => {
                let msg = payload(&*e);
                let at = PANIC_AT.with(|p| p.borrow_mut().take()).unwrap_or_default();
                if at.contains("verif/harness") || at.starts_with("src/") {
                    Outcome::Harness(format!("harness panic: {msg} at {at}"))
                } else {
                    Outcome::Violation(format!("the library panicked in valid use: {msg} at {at}"))
                }
            }
        };
        slot2.clock.store(0, Ordering::SeqCst);
        CaseResult {
            outcome,
            counts: ctx.counts,
            digest: ctx.digest,
            nontrivial: ctx.nontrivial,
            sample: ctx.sample,
            known_hits: ctx.known_hits,
            log: ctx.log,
        }
    };
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(body)
        .expect("spawn")
        .join()
        .expect("case thread")
}

fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

struct Args {
    tier: Tier,
    seed: u64,
    evidence: Option<String>,
    replay_dir: String,
    inflight: Option<String>,
    one: Option<(String, u64, usize)>,
    known: Option<String>,
    threads: usize,
    only: Option<String>,
    /// At most this many cases of every kind, starting with this one (instrumented runs).
    limit: Option<usize>,
    offset: usize,
    budget: Option<u64>,
}

fn parse_args() -> Args {
    let mut a = Args {
        tier: Tier::Quick,
        seed: 1,
        evidence: None,
        replay_dir: "replays".into(),
        inflight: None,
        one: None,
        known: None,
        threads: 8,
        only: None,
        limit: None,
        offset: 0,
        budget: None,
    };
    let v: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < v.len() {
        let next = |k: usize| v.get(i + k).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--tier" => {
                a.tier = if next(1) == "thorough" { Tier::Thorough } else { Tier::Quick };
                i += 1;
            }
            "--seed" => {
                a.seed = next(1).parse().unwrap_or(1);
                i += 1;
            }
            "--evidence" => {
                a.evidence = Some(next(1));
                i += 1;
            }
            "--replay-dir" => {
                a.replay_dir = next(1);
                i += 1;
            }
            "--inflight" => {
                a.inflight = Some(next(1));
                i += 1;
            }
            "--known" => {
                a.known = Some(next(1));
                i += 1;
            }
            "--threads" => {
                a.threads = next(1).parse().unwrap_or(8);
                i += 1;
            }
            "--only" => {
                a.only = Some(next(1));
                i += 1;
            }
            "--limit" => {
                a.limit = next(1).parse().ok();
                i += 1;
            }
            "--budget" => {
                a.budget = next(1).parse().ok();
                i += 1;
            }
            "--offset" => {
                a.offset = next(1).parse().unwrap_or(0);
                i += 1;
            }
            "--one" => {
                a.one = Some((
                    next(1),
                    next(2).parse().expect("case seed"),
                    next(3).parse().unwrap_or(0),
                ));
                i += 3;
            }
            x => panic!("unknown argument {x}"),
        }
        i += 1;
    }
    a
}

#[cfg(not(miri))]
fn thread_cpu(clock: u64) -> Option<f64> {
    let id = clock.wrapping_sub(1) as i64 as libc::clockid_t;
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { libc::clock_gettime(id, &mut ts) };
    if r == 0 {
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9)
    } else {
        None
    }
}
#[cfg(miri)]
fn thread_cpu(_clock: u64) -> Option<f64> {
    None
}

/// CPU seconds a step between two ticks may use before it counts as not terminating. Ordinary steps
/// take well under a second.
const STEP_CPU_LIMIT: f64 = 40.0;

/// How long other cases may go on after a violation, and any case after the budget for starting them.
const GRACE: Duration = Duration::from_secs(10);
const ABANDON: Duration = Duration::from_secs(300);
/// How long the recording of a violation's history may take.
const TRACING: Duration = Duration::from_secs(60);

fn write_replay(dir: &str, prop: &Property, kind: &str, seed: u64, index: usize, tier: Tier, msg: &str, log: &[String]) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{}-{kind}-{seed}.json", prop.id);
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"property\":{},\"kind\":{},\"seed\":{seed},\"index\":{index},\"tier\":{},\"message\":{},\"log\":[",
        json_str(prop.id),
        json_str(kind),
        json_str(if tier == Tier::Quick { "quick" } else { "thorough" }),
        json_str(msg)
    );
    for (i, l) in log.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&json_str(l));
    }
    s.push_str("]}\n");
    let _ = std::fs::write(&path, s);
    path
}

fn known_for(prop: &str, file: &Option<String>) -> Vec<(String, String)> {
    let Some(f) = file else { return Vec::new() };
    let Ok(text) = std::fs::read_to_string(f) else { return Vec::new() };
    let mut out = Vec::new();
    for line in text.lines() {
        // known: property=C23 <signature> :: <what fails>
        if let Some(rest) = line.strip_prefix("known: property=") {
            if let Some((p, rest)) = rest.split_once(' ') {
                if p == prop {
                    let (sig, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
                    out.push((sig.trim().to_string(), what.trim().to_string()));
                }
            }
        }
    }
    out
}

pub fn run(prop: &'static Property) -> ! {
    let args = parse_args();
    let start = Instant::now();
    panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = Some(at));
    }));
    let known = known_for(prop.id, &args.known);
    let known_sigs: Vec<String> = known.iter().map(|k| k.0.clone()).collect();

    let new_slot = || {
        Arc::new(Slot {
            ticks: Arc::new(AtomicU64::new(0)),
            clock: AtomicU64::new(0),
            case: AtomicU64::new(0),
        })
    };

    // Work list: the kinds interleaved, so that an early stop still touched all of them.
    let mut work: Vec<(usize, usize, u64)> = Vec::new();
    if let Some((name, seed, index)) = &args.one {
        let k = prop.kinds.iter().position(|k| k.name == name).expect("kind");
        work.push((k, *index, *seed));
    } else {
        let mut keyed = Vec::new();
        for (ki, k) in prop.kinds.iter().enumerate() {
            if let Some(only) = &args.only {
                if only != k.name {
                    continue;
                }
            }
            let n = if args.tier == Tier::Quick { k.quick } else { k.thorough };
            let last = args.limit.map_or(n, |l| n.min(args.offset + l));
            for i in args.offset.min(last)..last {
                keyed.push(((i as f64 + 0.5) / n as f64, ki, i));
            }
        }
        keyed.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        for (_, ki, i) in keyed {
            work.push((ki, i, case_seed(args.seed, prop.kinds[ki].name, i)));
        }
    }
    let trace = args.one.is_some();
    let budget = args.budget.map(Duration::from_secs).unwrap_or(match args.tier {
        Tier::Quick => Duration::from_secs(420),
        Tier::Thorough => Duration::from_secs(5400),
    });

    let threads = args.threads.clamp(1, 64).min(work.len().max(1));
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| new_slot()).collect();
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicBool::new(false));
    struct Total {
        counts: BTreeMap<&'static str, u64>,
        digests: HashSet<u64>,
        evaluations: u64,
        per_kind: BTreeMap<&'static str, u64>,
        samples: Vec<String>,
        violations: Vec<(usize, usize, u64, String, Vec<String>)>,
        harness: Vec<String>,
        known_hits: Vec<String>,
    }
    let total = Arc::new(Mutex::new(Total {
        counts: BTreeMap::new(),
        digests: HashSet::new(),
        evaluations: 0,
        per_kind: BTreeMap::new(),
        samples: Vec::new(),
        violations: Vec::new(),
        harness: Vec::new(),
        known_hits: Vec::new(),
    }));
    let inflight: Option<Arc<std::fs::File>> = args.inflight.as_ref().map(|p| {
        Arc::new(
            std::fs::OpenOptions::new()
                .create(true)
                .write(true)
                .truncate(true)
                .open(p)
                .expect("inflight file"),
        )
    });

    // Watchdog: a step that burns CPU without any progress is non-termination (logical progress and
    // CPU time, not the wall clock, so machine load does not matter).
    {
        let slots = slots.clone();
        let done = done.clone();
        let replay_dir = args.replay_dir.clone();
        let tier = args.tier;
        let base_seed = args.seed;
        let one = args.one.clone();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, u64, u64, f64)> = vec![(0, 0, 0, 0.0); slots.len()];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(250));
                for (i, s) in slots.iter().enumerate() {
                    let clock = s.clock.load(Ordering::SeqCst);
                    let case = s.case.load(Ordering::SeqCst);
                    if clock == 0 {
                        continue;
                    }
                    let Some(cpu) = thread_cpu(clock) else { continue };
                    let ticks = s.ticks.load(Ordering::SeqCst);
                    let l = &mut last[i];
                    if l.0 != clock || l.1 != case || l.2 != ticks {
                        *l = (clock, case, ticks, cpu);
                    } else if cpu - l.3 > STEP_CPU_LIMIT {
                        let ki = (case >> 40) as usize;
                        let idx = (case & ((1 << 40) - 1)) as usize;
                        let kind = &prop.kinds[ki];
                        let seed = match &one {
                            Some((_, s, _)) => *s,
                            None => case_seed(base_seed, kind.name, idx),
                        };
                        let msg = format!(
                            "a single step of the library used more than {STEP_CPU_LIMIT} CPU seconds without finishing (case {}/{idx})",
                            kind.name
                        );
                        let path = write_replay(&replay_dir, prop, kind.name, seed, idx, tier, &msg, &[]);
                        println!("{msg}");
                        println!("VIOLATION property={} replay={path}", prop.id);
                        use std::io::Write;
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            }
        });
    }

    let work = Arc::new(work);
    let mut handles = Vec::new();
    for (t, slot) in slots.iter().enumerate() {
        let (work, next, stop, total, slot, inflight, known_sigs) = (
            work.clone(),
            next.clone(),
            stop.clone(),
            total.clone(),
            slot.clone(),
            inflight.clone(),
            known_sigs.clone(),
        );
        let tier = args.tier;
        handles.push(std::thread::spawn(move || loop {
            if stop.load(Ordering::Relaxed) || start.elapsed() > budget {
                break;
            }
            let w = next.fetch_add(1, Ordering::Relaxed);
            if w >= work.len() {
                break;
            }
            let (ki, index, seed) = work[w];
            let kind = &prop.kinds[ki];
            slot.case.store(((ki as u64) << 40) | index as u64, Ordering::SeqCst);
            if let Some(f) = &inflight {
                use std::os::unix::fs::FileExt;
                let mut line = format!("{} {} {}", kind.name, seed, index);
                while line.len() < 127 {
                    line.push(' ');
                }
                line.push('\n');
                let _ = f.write_at(line.as_bytes(), t as u64 * 128);
            }
            let r = execute(prop, kind, seed, index, tier, trace, known_sigs.clone(), slot.clone());
            let mut t = total.lock().unwrap();
            t.evaluations += 1;
            *t.per_kind.entry(kind.name).or_insert(0) += 1;
            for (k, v) in r.counts {
                if k.starts_with("max_") {
                    let e = t.counts.entry(k).or_insert(0);
                    *e = (*e).max(v);
                } else {
                    *t.counts.entry(k).or_insert(0) += v;
                }
            }
            if r.nontrivial {
                t.digests.insert(splitmix(r.digest ^ ki as u64));
            }
            if let Some(s) = r.sample {
                if t.samples.len() < 40 && (t.samples.len() < 6 || index == 0) {
                    t.samples.push(format!("{} #{index} (seed {seed}): {s}", kind.name));
                }
            }
            for k in r.known_hits {
                if !t.known_hits.contains(&k) {
                    t.known_hits.push(k);
                }
            }
            match r.outcome {
                Outcome::Held => {}
                Outcome::Violation(msg) => {
                    t.violations.push((ki, index, seed, msg, r.log));
                    stop.store(true, Ordering::Relaxed);
                }
                Outcome::Harness(msg) => {
                    t.harness.push(format!("{}/{index} (seed {seed}): {msg}", kind.name));
                    stop.store(true, Ordering::Relaxed);
                }
            }
        }));
    }
    // Cases still running when a violation has been found, or long after the budget, are abandoned.
    let mut grace: Option<Instant> = None;
    let mut abandoned = 0;
    loop {
        let running = handles.iter().filter(|h| !h.is_finished()).count();
        if running == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
        if stop.load(Ordering::Relaxed) && grace.is_none() {
            grace = Some(Instant::now() + GRACE);
        }
        if grace.is_some_and(|g| Instant::now() > g) || start.elapsed() > budget + ABANDON {
            abandoned = running;
            break;
        }
    }
    for h in handles {
        if h.is_finished() {
            h.join().expect("worker");
        }
    }
    done.store(true, Ordering::Relaxed);
    let t = total.lock().unwrap();
    let truncated = (abandoned > 0 || next.load(Ordering::Relaxed) < work.len()) && t.violations.is_empty();

    for (sig, what) in &known {
        if t.known_hits.contains(sig) {
            println!("KNOWN-FINDING: property={} {} {}", prop.id, sig, what);
        }
    }

    if let Some(path) = &args.evidence {
        let mut s = String::new();
        let tier = if args.tier == Tier::Quick { "quick" } else { "thorough" };
        let _ = write!(
            s,
            "{{\"property\":{},\"tier\":\"{tier}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"truncated\":{truncated},\"exhaustive\":{},\"observed\":{{",
            json_str(prop.id),
            args.seed,
            t.evaluations,
            t.digests.len(),
            json_str(prop.rule),
            prop.exhaustive,
        );
        for (i, (k, v)) in t.counts.iter().enumerate() {
            let _ = write!(s, "{}{}:{v}", if i > 0 { "," } else { "" }, json_str(k));
        }
        s.push_str("},\"cases_per_kind\":{");
        for (i, (k, v)) in t.per_kind.iter().enumerate() {
            let _ = write!(s, "{}{}:{v}", if i > 0 { "," } else { "" }, json_str(k));
        }
        s.push_str("},\"samples\":[");
        for (i, x) in t.samples.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, json_str(x));
        }
        s.push_str("]},\"assumptions\":[");
        for (i, x) in prop.assumptions.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, json_str(x));
        }
        let _ = write!(
            s,
            "],\"wall_s\":{:.2},\"violations\":{}}}\n",
            start.elapsed().as_secs_f64(),
            t.violations.len()
        );
        if let Some(dir) = std::path::Path::new(path).parent() {
            let _ = std::fs::create_dir_all(dir);
        }
        std::fs::write(path, s).expect("evidence file");
    }

    if !t.violations.is_empty() {
        let mut v: Vec<_> = t.violations.iter().collect();
        v.sort_by_key(|v| (v.0, v.1));
        for (ki, index, seed, msg, log) in v {
            let kind = &prop.kinds[*ki];
            // Replay once with tracing to record the history.
            let log = if trace {
                log.clone()
            } else {
                let (tx, rx) = std::sync::mpsc::channel();
                let (seed, index, tier, sigs, slot) = (*seed, *index, args.tier, known_sigs.clone(), new_slot());
                std::thread::spawn(move || {
                    let _ = tx.send(execute(prop, kind, seed, index, tier, true, sigs, slot).log);
                });
                rx.recv_timeout(TRACING).unwrap_or_default()
            };
            let keep = log.len().saturating_sub(4000);
            let path = write_replay(&args.replay_dir, prop, kind.name, *seed, *index, args.tier, msg, &log[keep..]);
            println!("{}/{index}: {msg}", kind.name);
            println!("VIOLATION property={} replay={path}", prop.id);
        }
        std::process::exit(1);
    }
    if !t.harness.is_empty() {
        for h in &t.harness {
            println!("HARNESS-ERROR {h}");
        }
        std::process::exit(3);
    }
    if args.one.is_none() && args.only.is_none() && args.limit.is_none() {
        for (name, floor) in prop.floors {
            let got = t.counts.get(name).copied().unwrap_or(0);
            if got < *floor {
                println!("INCONCLUSIVE property={} observed {name}={got} < {floor}", prop.id);
                std::process::exit(2);
            }
        }
    }
    println!(
        "HELD property={} cases={} distinct={} wall={:.1}s{} {:?}",
        prop.id,
        t.evaluations,
        t.digests.len(),
        start.elapsed().as_secs_f64(),
        if truncated { " (truncated by the time budget)" } else { "" },
        t.counts
    );
    std::process::exit(0);
}
