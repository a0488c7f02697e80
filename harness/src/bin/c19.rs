//! C19: clear() is indistinguishable from a fresh structure.
use pcverif::subject::*;
use pcverif::*;

const TYPES: [Ty; 13] = [
    Ty::Bloom, Ty::Partitioned, Ty::ScalableBloom, Ty::Bs, Ty::Bssd, Ty::Rlbs, Ty::Cuckoo, Ty::ScalableCuckoo,
    Ty::Quotient, Ty::CmsMin, Ty::CmsMean, Ty::CmsMedian, Ty::Hll,
];

fn compare(c: &mut Ctx, s: &Spec, a: &mut Box<dyn Subject>, b: &mut Box<dyn Subject>, probes: &[u64], what: &str) -> R {
    c.count("observations_compared", 1);
    match s.ty {
        Ty::Cuckoo => {
            let (fa, fb) = (a.facts(), b.facts());
            ensure!(fa.len + fa.extra == fb.len + fb.extra, "{what}: {} + {} items held, a fresh one holds {} + {}", fa.len, fa.extra, fb.len, fb.extra);
            for p in probes {
                let (x, y) = (a.has(*p), b.has(*p));
                ensure!(x == y, "{what}: contains({p}) is {x}, {y} on a fresh one");
            }
        }
        Ty::Bs | Ty::Bssd | Ty::Rlbs | Ty::ScalableCuckoo => {
            let (fa, fb) = (a.facts(), b.facts());
            ensure!(fa.hashers == fb.hashers && fa.bits == fb.bits && fa.entries == fb.entries, "{what}: sizing differs");
        }
        _ => {
            let (x, y) = (a.obs(probes), b.obs(probes));
            ensure!(x == y, "{what}: answers {x:?}, a fresh one {y:?}");
        }
    }
    Ok(())
}

fn cleared(c: &mut Ctx) -> R {
    let ty = TYPES[c.index % TYPES.len()];
    let hb = if c.rng.chance(0.6) || ty == Ty::ScalableCuckoo { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let s = Spec::random(&mut c.rng, ty, hb);
    let mut a = s.build();
    let mut fresh = s.build();
    let universe = c.rng.log_range(4, 600) as u64;
    let len = c.rng.log_range(1, 700);
    let ops = history(&mut c.rng, ty, len, universe, false);
    let mut done = 0;
    for op in &ops {
        if a.accepts(op) {
            a.apply(op);
            done += 1;
        }
        c.tick();
    }
    let probes = probes(&mut c.rng, &ops, 60);
    let before = a.obs(&probes);
    a.apply(&Op::Clear);
    if c.rng.chance(0.2) {
        a.apply(&Op::Clear);
    }
    c.mix(c.seed);
    c.sample(|| format!("{s:?} operations={done}"));
    let (x, y) = (a.obs(&probes), fresh.obs(&probes));
    ensure!(x == y, "{s:?}: cleared after {done} operations it answers {x:?}, a fresh one {y:?}");
    if before != y {
        c.nontrivial();
    }
    // the future
    let more_len = c.rng.log_range(20, c.scale(600, 2000));
    let more = history(&mut c.rng, ty, more_len, universe, true);
    for (i, op) in more.iter().enumerate() {
        let (x, y) = (a.accepts(op), fresh.accepts(op));
        ensure!(x == y, "{s:?}: cleared after {done} operations, only one of it and a fresh one is full");
        if !x {
            continue;
        }
        a.apply(op);
        fresh.apply(op);
        if i < 12 || i % 16 == 0 || i + 1 == more.len() {
            let what = format!("{s:?}, cleared after {done} operations, {} later", i + 1);
            compare(c, &s, &mut a, &mut fresh, &probes, &what)?;
        }
        if let (Op::Insert(x, _), true) = (op, ty.randomized()) {
            ensure!(a.has(*x), "{s:?}: cleared after {done} operations, a newly inserted item is not reported");
        }
    }
    Ok(())
}

/// Structures with random choices: how full they get after clear() against a fresh one.
fn stream(c: &mut Ctx) -> R {
    let ty = [Ty::Bs, Ty::Bssd, Ty::Rlbs, Ty::ScalableCuckoo, Ty::Cuckoo][c.index % 5];
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.key = 0;
    s.m = if matches!(ty, Ty::ScalableCuckoo | Ty::Cuckoo) { 4 } else { c.rng.urange(300, 1500) };
    s.n = c.rng.urange(20, 60);
    s.fpp = c.rng.pick(&[0.1, 0.03, 0.01, 0.001]);
    s.growth = 2.0;
    s.ctor = 3;
    let mut a = s.build();
    let mut fresh = s.build();
    let base = c.rng.u64() >> 2;
    let first = c.rng.urange(1, 4000) as u64;
    for i in 0..first {
        a.apply(&Op::Insert(base + (1 << 40) + i, 1));
        c.tick();
    }
    a.apply(&Op::Clear);
    let n = if ty == Ty::Cuckoo { c.rng.urange(10, 50) } else { c.rng.urange(10, 3000) } as u64;
    let mut t = 1;
    for i in 0..n {
        a.apply(&Op::Insert(base + i, 1));
        fresh.apply(&Op::Insert(base + i, 1));
        c.tick();
        if i + 1 == t || i + 1 == n {
            t *= 2;
            let (fa, fb) = (a.facts(), fresh.facts());
            c.count("observations_compared", 1);
            match ty {
                Ty::ScalableCuckoo => ensure!(
                    fa.levels.abs_diff(fb.levels) <= 1 && fa.len.abs_diff(fb.len) <= 3 + i as usize / 100,
                    "{s:?}: cleared after {first} items, {} more make {} levels with {} items, in a fresh one {} with {}",
                    i + 1, fa.levels, fa.len, fb.levels, fb.len
                ),
                Ty::Cuckoo => ensure!(
                    fa.len + fa.extra == fb.len + fb.extra,
                    "{s:?}: cleared after {first} items, {} more make {} + {}, in a fresh one {} + {}",
                    i + 1, fa.len, fa.extra, fb.len, fb.extra
                ),
                _ => {
                    let tol = 8.0 * ((fa.ones.max(fb.ones)) as f64).sqrt() * 0.7 + 4.0;
                    ensure!(
                        (fa.ones as f64 - fb.ones as f64).abs() <= tol && fa.ones + fa.zeros == fb.ones + fb.zeros,
                        "{s:?}: cleared after {first} items, {} more set {} bits, in a fresh one {}",
                        i + 1, fa.ones, fb.ones
                    );
                }
            }
        }
    }
    for i in 0..first {
        if a.has(base + (1 << 40) + i) != fresh.has(base + (1 << 40) + i) && ty == Ty::Cuckoo {
            return Err(format!("{s:?}: an item of before clear() is answered differently than by a fresh one"));
        }
    }
    let strangers = first.min(3000);
    let (mut x, mut y) = (0u64, 0u64);
    for i in 0..strangers {
        x += u64::from(a.has(base + (1 << 40) + i));
        y += u64::from(fresh.has(base + (1 << 40) + i));
    }
    ensure!(
        (x as f64 - y as f64).abs() <= 8.0 * ((x + y) as f64).sqrt() + 6.0 + strangers as f64 * 0.05,
        "{s:?}: {x} of {strangers} items from before clear() are reported after {n} new ones, a fresh one reports {y} of them"
    );
    c.mix(base);
    c.nontrivial();
    Ok(())
}

/// More than 2^16 items, bits, slots or counters.
fn big(c: &mut Ctx) -> R {
    let ty = TYPES[c.index % TYPES.len()];
    let (s, ops) = large(&mut c.rng, ty);
    at_size(c, ty, s, ops)
}

/// A handful of items in thousands of slots.
fn nearly_empty(c: &mut Ctx) -> R {
    let ty = TYPES[c.index % TYPES.len()];
    let (s, ops) = sparse(&mut c.rng, ty);
    at_size(c, ty, s, ops)
}

fn at_size(c: &mut Ctx, ty: Ty, s: Spec, ops: Vec<Op>) -> R {
    let (mut a, mut fresh) = (s.build(), s.build());
    let empty = fresh.bytes();
    run_all(c, &mut a, &ops);
    a.apply(&Op::Clear);
    let probes = probes(&mut c.rng, &ops, 300);
    ensure!(a.obs(&probes) == fresh.obs(&probes), "{s:?}: cleared after {} operations it answers otherwise than a fresh one", ops.len());
    if !matches!(ty, Ty::Quotient) {
        ensure!(a.bytes() == empty, "{s:?}: cleared after {} operations it serializes otherwise than a fresh one", ops.len());
    }
    run_all(c, &mut a, &ops[ops.len() / 2..]);
    run_all(c, &mut fresh, &ops[ops.len() / 2..]);
    if !ty.randomized() {
        ensure!(a.obs(&probes) == fresh.obs(&probes), "{s:?}: refilled after a clear it answers otherwise than a fresh one");
    }
    c.count("observations_compared", 2);
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C19",
    rule: "cleared: all 13 types with clear(), random constructor, sizing, key type, builder and history; observation right after clear() equals that of a fresh twin in full, then both run the same random history (with removals and further clears, long enough to grow and overflow) with full comparison (randomized structures: what random choices cannot change). stream: randomized structures filled after clear() against fresh ones, occupancy and levels within the noise of random choices. big: the same on structures and histories beyond 2^16 items, bits or slots. sparse: the same on structures of thousands of slots that hold a few items. Non-trivial: clear() had something to clear.",
    kinds: &[
        Kind { name: "big", run: big, quick: 13 * 12, thorough: 13 * 200 },
        Kind { name: "sparse", run: nearly_empty, quick: 13 * 60, thorough: 13 * 1000 },
        Kind { name: "cleared", run: cleared, quick: 13 * 6000, thorough: 13 * 60_000 },
        Kind { name: "stream", run: stream, quick: 2_400, thorough: 30_000 },
    ],
    floors: &[("observations_compared", 120_000)],
    assumptions: &["none beyond the public API"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
