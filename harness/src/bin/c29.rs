//! C29: an operation that fails by panicking changes nothing, and the structure stays usable.
use pcverif::subject::*;
use pcverif::*;
use probabilistic_collections::hyperloglog::HyperLogLog;

fn same(a: &mut Box<dyn Subject>, b: &mut Box<dyn Subject>, probes: &[u64]) -> Result<(), String> {
    let (x, y) = (a.obs(probes), b.obs(probes));
    ensure!(x == y, "it answers {x:?}, one that never saw it {y:?}");
    ensure!(a.bytes() == b.bytes(), "its serialized state differs from that of one that never saw it");
    Ok(())
}

/// Items whose hashing panics in the middle of an operation.
fn hashing(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let hb = if c.rng.chance(0.6) || ty == Ty::ScalableCuckoo { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.key = 5;
    let mut a = s.build();
    let mut b = a.dup();
    let universe = c.rng.log_range(4, 400) as u64;
    let len = c.rng.log_range(1, 300);
    let ops = history(&mut c.rng, ty, len, universe, true);
    let probes = probes(&mut c.rng, &ops, 30);
    let every = c.rng.urange(1, 12) as u64;
    c.mix(c.seed);
    c.sample(|| format!("{s:?} operations={len} universe={universe}"));
    let (mut failed, mut levels) = (0, a.facts().levels);
    for (i, op) in ops.iter().enumerate() {
        c.tick();
        // Levels that a scalable cuckoo filter adds are seeded afresh; the twin restarts as a copy.
        if ty == Ty::ScalableCuckoo && a.facts().levels != levels {
            levels = a.facts().levels;
            b = a.dup();
        }
        if c.rng.below(every) == 0 {
            let x = c.rng.below(universe);
            let w = c.rng.range(1, 50) as i64;
            let what = c.rng.below(3);
            let bad = if what == 1 { Op::Remove(x, w) } else { Op::Insert(x, w) };
            // Two hashings come before any change; a later one may find the operation begun.
            let k = if ty == Ty::ScalableCuckoo { c.rng.range(1, 3) as u32 } else { c.rng.pick(&[1, 1, 2, 2, 3, 4, 5]) };
            let before = a.bytes();
            if !a.accepts(&bad) {
                continue;
            }
            arm(k);
            let r = if what == 2 { c.catch(|| { a.obs(&[x]); }) } else { c.catch(|| a.apply(&bad)) };
            let panicked = r.is_err() && !arm(0);
            arm(0);
            if let (Err(e), false) = (&r, panicked) {
                return Err(format!("{s:?}: {bad:?} panics: {e}"));
            }
            if !panicked && what != 2 {
                b.apply(&bad);
                if ty == Ty::ScalableCuckoo && a.facts().levels != levels {
                    levels = a.facts().levels;
                    b = a.dup();
                }
            }
            if panicked {
                failed += 1;
                c.count("operations_failed", 1);
                if a.bytes() != before && k > 2 && what != 2 {
                    b.apply(&bad);
                }
            }
            let did = if what == 2 { "a query" } else if what == 1 { "a removal" } else { "an insertion" };
            same(&mut a, &mut b, &probes).map_err(|e| {
                format!("{s:?}: after {did} of item {x} whose hashing number {k} panicked (operation {i}), {e}")
            })?;
        }
        if !a.accepts(op) {
            continue;
        }
        a.apply(op);
        b.apply(op);
        if ty == Ty::ScalableCuckoo && (a.facts().levels != levels || *op == Op::Clear) {
            levels = usize::MAX;
            continue;
        }
        if i % 8 == 0 || i + 1 == len {
            same(&mut a, &mut b, &probes).map_err(|e| format!("{s:?}: after {failed} failed operations and operation {i}, {e}"))?;
            c.count("observations_compared", 1);
        }
    }
    if failed > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Operations that the documentation rejects.
fn rejected(c: &mut Ctx) -> R {
    c.mix(c.seed);
    if c.rng.chance(0.5) {
        // a completely full quotient filter
        let hb = HB::good_pair(&mut c.rng);
        let mut s = Spec::random(&mut c.rng, Ty::Quotient, hb);
        s.ctor = 1;
        s.n = c.rng.urange(1, 7);
        s.m = c.rng.urange(3, 40);
        s.key = c.rng.pick(&[0, 1, 2, 3]);
        let mut a = s.build();
        c.sample(|| format!("full: {s:?}"));
        let mut held = Vec::new();
        for x in 0..100_000u64 {
            if a.facts().len == a.facts().capacity {
                break;
            }
            a.apply(&Op::Insert(x, 1));
            held.push(x);
        }
        ensure!(a.facts().len == a.facts().capacity, "{s:?}: {} of {} slots after {} items", a.facts().len, a.facts().capacity, held.len());
        let probes: Vec<u64> = (0..200).collect();
        let mut b = a.dup();
        for _ in 0..20 {
            let x = c.rng.u64();
            if a.has(x) {
                continue;
            }
            let r = c.catch(|| a.apply(&Op::Insert(x, 1)));
            ensure!(r.is_err(), "{s:?}: a new item goes into a full filter");
            same(&mut a, &mut b, &probes).map_err(|e| format!("{s:?}: after a rejected insertion into the full filter, {e}"))?;
            c.count("operations_failed", 1);
            // it still works
            let y = c.rng.pick(&held);
            for f in [&mut a, &mut b] {
                f.apply(&Op::Remove(y, 1));
                if f.accepts(&Op::Insert(x, 1)) {
                    f.apply(&Op::Insert(x, 1));
                }
            }
            same(&mut a, &mut b, &probes).map_err(|e| format!("{s:?}: replacing an item after a rejected insertion, {e}"))?;
            held.push(x);
            c.count("observations_compared", 2);
            if a.facts().len < a.facts().capacity {
                break;
            }
        }
    } else {
        // sketches that cannot be merged
        let (h, g) = (HB::good(&mut c.rng), HB::good(&mut c.rng));
        let (e1, e2) = (c.rng.log_f64(0.02, 0.25), c.rng.log_f64(0.02, 0.25));
        let mut a = HyperLogLog::<u64, HB>::with_hasher(e1, h);
        let mut b = HyperLogLog::<u64, HB>::with_hasher(e2, if c.rng.chance(0.5) { h } else { g });
        c.sample(|| format!("merge: {e1} {e2}"));
        let (n, m) = (c.rng.log_range(1, 5000), c.rng.log_range(1, 5000));
        for i in 0..n as u64 {
            a.insert(&i);
        }
        for i in 0..m as u64 {
            b.insert(&(i ^ (1 << 40)));
        }
        let bytes = |x: &HyperLogLog<u64, HB>| bincode::serialize(x).expect("serialization");
        let (x, y) = (bytes(&a), bytes(&b));
        let (est, old) = (a.len(), a.clone());
        let r = c.catch(|| a.merge(&b));
        ensure!(bytes(&b) == y, "merge changes its argument");
        if r.is_err() {
            ensure!(bytes(&a) == x && a.len() == est, "a rejected merge ({e1}, {e2}) changes the estimate from {est} to {}", a.len());
            c.count("operations_failed", 1);
            let mut t = old;
            for i in 0..200u64 {
                a.insert(&(i ^ (1 << 41)));
                t.insert(&(i ^ (1 << 41)));
            }
            ensure!(bytes(&a) == bytes(&t) && a.len() == t.len(), "after a rejected merge insertions give {} instead of {}", a.len(), t.len());
            c.count("observations_compared", 1);
        }
    }
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C29",
    rule: "hashing: all 15 types run a random history in lock-step with a twin; now and then an insertion, removal or query of an item whose k-th hashing panics is run on one of them only; answers, counters, serialized state and the further history must equal the twin's. (From the third hashing of one operation on, which only an item that hashes differently each time could fail, the operation may also have happened entirely.) rejected: insertions into a completely full quotient filter and merges of different sketches. Non-trivial: at least one operation failed.",
    kinds: &[
        Kind { name: "hashing", run: hashing, quick: 15 * 3000, thorough: 15 * 40_000 },
        Kind { name: "rejected", run: rejected, quick: 6000, thorough: 60_000 },
    ],
    floors: &[("operations_failed", 50_000), ("observations_compared", 50_000)],
    assumptions: &["two structures with equal serialized state and equal observations are equal"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
