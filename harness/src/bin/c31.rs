//! C31: memory stays as sized, whatever the history.
use pcverif::subject::{large, Op, Spec, Subject, Ty, ALL};
use pcverif::*;

/// Watches the bytes one structure holds.
struct Watch {
    f: Option<Box<dyn Subject>>,
    start: isize,
    built: f64,
    peak_extra: usize,
    peak_levels: usize,
}

impl Watch {
    fn new(make: impl FnOnce() -> Box<dyn Subject>) -> Watch {
        let start = alloc::current();
        let f = make();
        let built = (alloc::current() - start) as f64;
        Watch { f: Some(f), start, built, peak_extra: 0, peak_levels: 1 }
    }
    fn f(&mut self) -> &mut Box<dyn Subject> {
        self.f.as_mut().unwrap()
    }
    fn held(&self) -> f64 {
        (alloc::current() - self.start) as f64
    }
    /// Bytes it may hold now: what the constructor took, the levels added since, and the overflow list.
    fn allowed(&mut self, s: &Spec) -> f64 {
        let now = self.f().facts();
        self.peak_extra = self.peak_extra.max(now.extra);
        self.peak_levels = self.peak_levels.max(now.levels);
        let slack = 1024.0 + 400.0 * self.peak_levels as f64 + 64.0 * self.peak_extra as f64;
        let levels = if now.levels <= 1 {
            0.0
        } else if s.ty == Ty::ScalableBloom {
            now.len as f64 / 8.0 * 1.3
        } else {
            let p = s.fpp * s.tight.powi(now.levels as i32 - 1);
            let e = now.entries as f64;
            let width = (-2.0 / ((-p).ln_1p() / (2.0 * e)).exp_m1()).log2().ceil().min(64.0) + 1.0;
            now.capacity as f64 * width / 8.0 * 1.3
        };
        self.built * 1.1 + levels + slack
    }
    fn check(&mut self, s: &Spec, what: &dyn Fn() -> String) -> R {
        let (held, allowed) = (self.held(), self.allowed(s));
        ensure!(
            held <= allowed,
            "{s:?}: {held} bytes are held {}, {} were needed at first and {allowed:.0} are explained by its size ({:?})",
            what(),
            self.built,
            self.f.as_ref().unwrap().facts()
        );
        Ok(())
    }
}

fn run_ops(c: &mut Ctx, w: &mut Watch, s: &Spec, ops: &[Op], every: usize) -> R {
    for (i, op) in ops.iter().enumerate() {
        if w.f().accepts(op) {
            let (_, _, peak) = alloc::measure(|| w.f.as_mut().unwrap().apply(op));
            // an operation may rebuild the whole structure or add a level, but not take more than that
            if i % every == 0 || peak > 4096 {
                let allowed = w.allowed(s) * 2.0 + 4096.0;
                ensure!(peak as f64 <= allowed, "{s:?}: {op:?} (operation {i}) takes {peak} bytes on the way, {allowed:.0} are explained");
            }
        }
        if i % every == 0 || matches!(op, Op::Clear) {
            w.check(s, &|| format!("after operation {i}, {op:?}"))?;
        }
        c.tick();
    }
    Ok(())
}

fn random_ops(r: &mut Rng, n: usize, universe: u64) -> Vec<Op> {
    let base = r.u64() >> 2;
    let (mut p, mut until) = (0.9, 0);
    (0..n)
        .map(|i| {
            if i >= until {
                p = r.pick(&[1.0, 0.9, 0.5, 0.1, 0.0]);
                until = i + r.urange(5, 300);
            }
            let x = base + r.below(universe);
            if r.chance(0.004) {
                Op::Clear
            } else if r.chance(p) {
                Op::Insert(x, r.range(1, 9) as i64)
            } else {
                Op::Remove(x, r.range(1, 9) as i64)
            }
        })
        .collect()
}

fn spec(c: &mut Ctx) -> Spec {
    let ty = ALL[c.index % ALL.len()];
    let hb = if c.rng.chance(0.7) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let mut s = Spec::random(&mut c.rng, ty, hb);
    if ty == Ty::ScalableCuckoo && !hb.iter().all(|h| matches!(h.kind, hashers::SIP | hashers::LIB | hashers::FNV)) {
        s.growth = c.rng.pick(&[1.0, 1.2]);
    }
    if c.rng.chance(0.3) && !matches!(ty, Ty::Quotient | Ty::Cuckoo | Ty::ScalableCuckoo | Ty::MinHash | Ty::CmsMin | Ty::CmsMean | Ty::CmsMedian) {
        s.m *= 20;
    }
    s
}

/// Any history on any structure, then copies, queries and the end.
fn histories(c: &mut Ctx) -> R {
    let s = spec(c);
    // the random source of the crate allocates once per thread
    drop(s.build());
    let n = c.rng.log_range(20, 2500);
    let universe = c.rng.log_range(3, 3000) as u64;
    let ops = random_ops(&mut c.rng, n, universe);
    let mut warm = s.build();
    for op in ops.iter().take(200) {
        if warm.accepts(op) {
            warm.apply(op);
        }
    }
    drop(warm);
    let probes: Vec<u64> = (0..20).map(|_| c.rng.u64() >> 2).collect();
    c.sample(|| format!("{s:?} operations={n} universe={universe}"));
    c.mix(s.hb[0].k0 ^ n as u64 ^ c.seed);
    c.count("operations_watched", 0);
    let mut w = Watch::new(|| s.build());
    run_ops(c, &mut w, &s, &ops, 1)?;

    // queries keep nothing
    let before = alloc::current();
    for _ in 0..30 {
        drop(w.f().read(&probes));
        drop(w.f().obs(&probes));
        w.f().has(probes[0]);
        drop(w.f().bytes());
    }
    let grown = alloc::current() - before;
    ensure!(grown <= 256, "{s:?}: 30 rounds of queries leave {grown} more bytes held");

    // copies are no larger than the original may be
    let allowed = w.allowed(&s);
    let before = alloc::current();
    let twin = w.f().dup();
    let held = (alloc::current() - before) as f64;
    ensure!(held <= allowed, "{s:?}: a clone holds {held} bytes, the original may hold {allowed:.0}");
    drop(twin);
    ensure!(alloc::current() == before, "{s:?}: {} bytes are left of a dropped clone", alloc::current() - before);
    let (bytes, json) = (w.f().bytes(), w.f().json());
    for how in ["bincode", "JSON"] {
        let before = alloc::current();
        let back = if how == "JSON" { w.f().from_json(&json)? } else { w.f().from_bytes(&bytes)? };
        let held = (alloc::current() - before) as f64;
        ensure!(
            held <= allowed * 2.1 + 2048.0,
            "{s:?}: read back from {how} it holds {held} bytes, the original may hold {allowed:.0}"
        );
        drop(back);
        ensure!(alloc::current() == before, "{s:?}: {} bytes are left of a dropped copy", alloc::current() - before);
    }
    drop((bytes, json));

    // nothing stays behind, over several lives
    w.f = None;
    ensure!(w.held() <= 256.0, "{s:?}: {} bytes are left after the structure was dropped", w.held());
    c.count("operations_watched", n as u64);
    c.count("structures_watched", 1);
    c.nontrivial();
    Ok(())
}

/// The same fill and empty cycle again and again: memory after each round as after the first ones.
fn cycles(c: &mut Ctx) -> R {
    let mut s = spec(c);
    s.tight = s.tight.max(0.5);
    let facts = s.build().facts();
    let n = match s.ty {
        Ty::Cuckoo => facts.capacity * c.rng.pick(&[1, 2]) + 5,
        Ty::ScalableCuckoo => facts.capacity * 3 + 5,
        Ty::Quotient => facts.capacity,
        _ => c.rng.urange(5, 300),
    }
    .min(1500) as u64;
    let rounds = c.scale(12, 60);
    c.sample(|| format!("{s:?} items={n} rounds={rounds}"));
    c.mix(s.hb[0].k0 ^ n ^ c.seed);
    let mut w = Watch::new(|| s.build());
    let mut first = 0.0f64;
    for round in 0..rounds {
        let base = c.rng.u64() >> 2;
        for i in 0..n {
            let op = Op::Insert(base + i, 3);
            if w.f().accepts(&op) {
                w.f().apply(&op);
            }
        }
        w.check(&s, &|| format!("in round {round}, filled"))?;
        if s.ty.removes() && (round % 3 != 0 || s.ty == Ty::ScalableCuckoo && round < 3) {
            for i in 0..n {
                w.f().apply(&Op::Remove(base + i, 3));
            }
            w.check(&s, &|| format!("in round {round}, emptied"))?;
        } else if s.ty.clears() {
            w.f().apply(&Op::Clear);
            w.check(&s, &|| format!("in round {round}, cleared"))?;
        }
        if round == 3 {
            first = w.allowed(&s).max(w.held());
        }
        c.tick();
    }
    let levels = w.f().facts().levels;
    if levels <= 1 {
        ensure!(w.held() <= first.max(w.allowed(&s)), "{s:?}: {} bytes are held after {rounds} rounds", w.held());
    }
    w.f = None;
    ensure!(w.held() <= 256.0, "{s:?}: {} bytes are left after the structure was dropped", w.held());
    c.count("operations_watched", 2 * n * rounds as u64);
    c.count("structures_watched", 1);
    c.nontrivial();
    Ok(())
}

/// Long streams into large structures.
fn big(c: &mut Ctx) -> R {
    let ty = ALL[c.index % 13];
    let (s, ops) = large(&mut c.rng, ty);
    drop(s.build());
    c.sample(|| format!("{s:?} operations={}", ops.len()));
    c.mix(s.hb[0].k0 ^ ops.len() as u64);
    let mut w = Watch::new(|| s.build());
    run_ops(c, &mut w, &s, &ops, 500)?;
    w.check(&s, &|| "at the end".into())?;
    w.f().apply(&Op::Clear);
    w.check(&s, &|| "after clear()".into())?;
    w.f = None;
    ensure!(w.held() <= 1024.0, "{s:?}: {} bytes are left after the structure was dropped", w.held());
    c.count("operations_watched", ops.len() as u64);
    c.count("structures_watched", 1);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C31",
    rule: "a counting allocator observes every structure. histories: all 15 types, random constructor, sizing, key type, builder (hostile included); after every operation the bytes held must be explained by what the constructor took, the reported levels and the overflow list, and every operation by twice that; queries leave nothing; clones and deserialized copies hold what the original may (deserialized: twice); dropping returns everything. cycles: fill and empty (by removals or clear) a dozen times. big: streams beyond 2^16 items. Non-trivial: every case.",
    kinds: &[
        Kind { name: "histories", run: histories, quick: 15 * 1500, thorough: 15 * 10_000 },
        Kind { name: "cycles", run: cycles, quick: 15 * 400, thorough: 15 * 2000 },
        Kind { name: "big", run: big, quick: 26, thorough: 13 * 40 },
    ],
    floors: &[("operations_watched", 1_000_000), ("structures_watched", 3000)],
    assumptions: &["all memory is requested through the global allocator on the calling thread"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
