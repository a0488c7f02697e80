//! C06: scalable filters grow as documented and keep the compound error bound.
use pcverif::stats::too_many;
use pcverif::subject::{Facts, Key, Op, Spec, Ty};
use pcverif::*;
use probabilistic_collections::bloom::BloomFilter;
use probabilistic_collections::cuckoo::CuckooFilter;

fn spec(c: &mut Ctx, ty: Ty) -> Spec {
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.growth = c.rng.pick(&[1.0, 1.1, 1.25, 1.5, 1.7, 2.0, 2.0, 3.0, 4.0]);
    s.tight = c.rng.pick(&[0.25, 0.5, 0.5, 0.7, 0.8, 0.9, 0.95]);
    s.fpp = c.rng.log_f64(1e-4, 0.4);
    if c.kind.starts_with("many") {
        s.growth = c.rng.pick(&[1.0, 1.0, 1.002, 1.01]);
        s.tight = c.rng.pick(&[0.96, 0.97, 0.98, 0.99]);
        s.fpp = c.rng.log_f64(1e-4, 1e-2) * (1.0 - s.tight) * 3.0;
    }
    s
}

fn most_levels(c: &Ctx) -> usize {
    if c.kind.starts_with("many") {
        320
    } else {
        60
    }
}

/// Watches every insertion into a scalable Bloom filter through its public counters.
fn bloom_trace(c: &mut Ctx) -> R {
    let mut s = spec(c, Ty::ScalableBloom);
    s.n = match if c.kind.starts_with("many") { 3 } else { c.rng.below(4) } {
        0 => c.rng.log_range(1, 40),
        1 => c.rng.pick(&[32, 63, 64, 65, 100, 128, 1000]),
        _ if c.kind == "many_bloom" => c.rng.urange(60, 150),
        _ if c.kind == "big_bloom" => c.rng.log_range(40_000, 300_000),
        _ => c.rng.log_range(20, 3000),
    };
    let mut f = s.build();
    let first = f.facts();
    ensure!(first.levels == 1 && first.len == s.n && first.ones == 0, "{s:?}: initial state {first:?}");
    // (length, ones when frozen, expected number of hash functions) of the older levels
    let hashers = |len: usize, level: usize, s: &Spec| {
        BloomFilter::<u64, HB>::from_fpp_with_hashers(len, s.fpp * s.tight.powi(level as i32), s.hb).hasher_count()
    };
    let mut older: Vec<(usize, usize, usize)> = Vec::new();
    let (mut total_len, mut total_ones) = (first.len, 0usize);
    let mut newest = first.len;
    let mut k = hashers(newest, 0, &s);
    let base = c.rng.u64() >> 2;
    let mut next = base;
    let limit = if c.kind == "many_bloom" { 20_000 } else if c.kind == "big_bloom" { c.rng.urange(70_000, 120_000) } else { c.rng.log_range(50, 5000) };
    c.sample(|| format!("{s:?} insertions={limit}"));
    c.mix(base ^ s.n as u64);
    let mut prev = first;
    for step in 0..limit {
        let x = if c.rng.chance(0.2) && next > base { base + 1 + c.rng.below(next - base) } else {
            next += 1;
            next
        };
        let present = f.has(x);
        f.apply(&Op::Insert(x, 1));
        let now = f.facts();
        let frozen: usize = older.iter().map(|l| l.1).sum();
        let ones = now.ones - frozen;
        let must_grow = ones * 2 >= newest;
        let grew = now.levels > prev.levels;
        c.log(|| format!("insert {x} present={present} {now:?}"));
        if present {
            ensure!(
                now.ones == prev.ones && now.len == prev.len && now.levels == prev.levels,
                "{s:?}: inserting an item already reported present changed {prev:?} to {now:?} (step {step})"
            );
        } else {
            ensure!(
                now.ones > total_ones && now.ones - total_ones <= k,
                "{s:?}: a new item set {} bits in a level with {k} hash functions (step {step})",
                now.ones as i64 - total_ones as i64
            );
        }
        ensure!(
            grew == must_grow,
            "{s:?}: level {} has {ones} of {newest} bits set after insertion #{step} and the filter {} grow",
            older.len(),
            if grew { "did" } else { "did not" }
        );
        if grew {
            ensure!(now.levels == prev.levels + 1, "{s:?}: grew from {} to {} levels at once", prev.levels, now.levels);
            let want = (newest as f64 * s.growth).ceil() as usize;
            let got = now.len - total_len;
            ensure!(
                got == want,
                "{s:?}: level {} has {got} bits, growth_ratio asks for {want} after {newest}",
                older.len() + 1
            );
            older.push((newest, ones, k));
            newest = got;
            k = hashers(newest, older.len(), &s);
            c.count("growth_steps", 1);
        }
        total_len = now.len;
        total_ones = now.ones;
        // The error probability of the levels shows in the estimate.
        let mut none = 1.0;
        for (len, ones, k) in older.iter().copied().chain([(newest, now.ones - older.iter().map(|l| l.1).sum::<usize>(), k)]) {
            none *= 1.0 - (ones as f64 / len as f64).powi(k as i32);
        }
        ensure!(
            (now.efpp - (1.0 - none)).abs() <= 1e-9,
            "{s:?}: estimated_fpp()={} but the documented level sizes and probabilities give {} (step {step}, {} levels)",
            now.efpp,
            1.0 - none,
            now.levels
        );
        c.count("insertions_watched", 1);
        prev = now;
        if now.levels > most_levels(c) {
            break;
        }
    }
    c.max("max_levels", prev.levels as u64);
    // Requeries never grow it.
    for _ in 0..50 {
        f.has(c.rng.u64() >> 1);
    }
    ensure!(f.facts() == prev, "{s:?}: queries changed {prev:?} to {:?}", f.facts());
    if prev.levels > 1 {
        c.nontrivial();
    }
    Ok(())
}

fn cuckoo_trace(c: &mut Ctx) -> R {
    let mut s = spec(c, Ty::ScalableCuckoo);
    s.n = match if c.kind.starts_with("many") { 3 } else { c.rng.below(4) } {
        0 => c.rng.log_range(1, 20),
        1 => c.rng.pick(&[3, 4, 5, 16, 17, 64, 100]),
        _ if c.kind == "many_cuckoo" => c.rng.urange(4, 16),
        _ if c.kind == "big_cuckoo" => c.rng.log_range(20_000, 70_000),
        _ => c.rng.log_range(4, 1000),
    };
    s.m = c.rng.pick(&[1, 2, 3, 4, 4, 5, 8]);
    let mut f = s.build();
    let entries = f.facts().entries;
    let size = |items: usize| ((items + entries - 1) / entries).next_power_of_two() * entries;
    let first = f.facts();
    let fresh = |items: usize, level: usize| {
        CuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(items, s.fpp * s.tight.powi(level as i32), entries, s.hb)
    };
    ensure!(
        first.levels == 1 && first.len == 0 && first.capacity == size(s.n) && entries == if s.ctor < 2 { 4 } else { s.m },
        "{s:?}: initial state {first:?}, expected capacity {}",
        size(s.n)
    );
    // (capacity, items, fingerprint bits)
    let mut levels: Vec<(usize, usize, usize)> = vec![(first.capacity, 0, fresh(s.n, 0).fingerprint_bit_count())];
    let base = c.rng.u64() >> 2;
    let mut next = base;
    let limit = if c.kind == "many_cuckoo" { 20_000 } else if c.kind == "big_cuckoo" { c.rng.urange(70_000, 120_000) } else { c.rng.log_range(30, 4000) };
    c.sample(|| format!("{s:?} insertions={limit}"));
    c.mix(base ^ s.n as u64);
    let mut prev = first;
    for step in 0..limit {
        let x = if c.rng.chance(0.2) && next > base { base + 1 + c.rng.below(next - base) } else {
            next += 1;
            next
        };
        let present = f.has(x);
        f.apply(&Op::Insert(x, 1));
        let now = f.facts();
        let grew = now.levels > prev.levels;
        c.log(|| format!("insert {x} present={present} {now:?}"));
        let at = levels.len() - 1;
        if present {
            ensure!(
                now.len == prev.len && now.levels == prev.levels && now.capacity == prev.capacity,
                "{s:?}: inserting an item already reported present changed {prev:?} to {now:?} (step {step})"
            );
        } else {
            ensure!(now.len == prev.len + 1, "{s:?}: len() went from {} to {} for one new item", prev.len, now.len);
            levels[at].1 += 1;
        }
        let (cap, items, _) = levels[at];
        if !grew {
            ensure!(
                items < cap,
                "{s:?}: level {at} holds {items} items with {cap} slots and the filter did not grow (step {step})"
            );
        } else {
            ensure!(now.levels == prev.levels + 1 && !present, "{s:?}: {prev:?} became {now:?}");
            // It overflowed or is full: an overflow needs both candidate buckets of some item full.
            ensure!(
                items > entries || items >= cap,
                "{s:?}: level {at} grew with only {items} of {cap} slots used and {entries} entries per index"
            );
            if entries >= 4 && cap >= 512 {
                ensure!(
                    items as f64 >= 0.75 * cap as f64,
                    "{s:?}: level {at} grew at {items} of {cap} slots, far below what {entries} entries per index hold"
                );
                c.count("growth_loads_checked", 1);
            }
            let want = size((cap as f64 * s.growth).ceil() as usize);
            let got = now.capacity - prev.capacity;
            ensure!(got == want, "{s:?}: level {} has {got} slots, growth_ratio asks for {want} after {cap}", at + 1);
            levels.push((got, 0, fresh(got, at + 1).fingerprint_bit_count()));
            c.count("growth_steps", 1);
        }
        let mut none = 1.0;
        for (cap, items, bits) in &levels {
            let n = 2.0f64.powi(*bits as i32);
            none *= ((n - 2.0) / (n - 1.0)).powf(2.0 * entries as f64 * *items as f64 / *cap as f64);
        }
        ensure!(
            (now.efpp - (1.0 - none)).abs() <= 1e-9,
            "{s:?}: estimated_fpp()={} but the documented level sizes and probabilities give {} (step {step}, {} levels)",
            now.efpp,
            1.0 - none,
            now.levels
        );
        c.count("insertions_watched", 1);
        prev = now;
        if now.levels > most_levels(c) {
            break;
        }
    }
    c.max("max_levels", prev.levels as u64);
    if prev.levels > 1 {
        c.nontrivial();
    }
    Ok(())
}

/// The compound rate after many growth steps.
fn compound(c: &mut Ctx) -> R {
    let ty = if c.index % 2 == 0 { Ty::ScalableBloom } else { Ty::ScalableCuckoo };
    let mut s = spec(c, ty);
    s.key = 0;
    s.fpp = c.rng.log_f64(0.0005, 0.15);
    s.tight = c.rng.pick(&[0.25, 0.5, 0.5, 0.7, 0.8]);
    s.growth = c.rng.pick(&[1.2, 1.5, 2.0, 2.0, 3.0]);
    s.n = if ty == Ty::ScalableBloom { c.rng.log_range(600, 6000) } else { c.rng.log_range(100, 1000) };
    let mut f = s.build();
    let base = c.rng.u64() >> 2;
    let want_levels = c.rng.urange(3, 8);
    let mut n = 0u64;
    let cap = c.scale(60_000, 400_000) as u64;
    while f.facts().levels < want_levels && n < cap {
        f.apply(&Op::Insert(base + n, 1));
        n += 1;
        c.tick();
    }
    // Also in the middle of filling a level.
    for _ in 0..c.rng.below(n / 3 + 1) {
        f.apply(&Op::Insert(base + n, 1));
        n += 1;
    }
    let levels = f.facts().levels;
    let q = c.scale(30_000, 200_000) as u64;
    let mut hits = 0;
    for i in 0..q {
        hits += u64::from(f.has(base + n + 10 + i));
        if i % 256 == 0 {
            c.tick();
        }
    }
    c.count("unseen_items_queried", q);
    c.count("false_positives_seen", hits);
    c.max("max_compound_levels", levels as u64);
    let bound = s.fpp / (1.0 - s.tight);
    // Model accuracy: a level is sized by rounding, may overshoot half full by one insertion, and
    // double hashing confuses items at a rate of items / bits^2.
    let slack = match ty {
        Ty::ScalableBloom => 1.2 + 40.0 / s.n as f64,
        _ => 1.05,
    };
    let floor = if ty == Ty::ScalableBloom { levels as f64 * 0.5 / s.n as f64 / s.fpp.log2().abs().max(1.0) } else { 0.0 };
    let p = (bound * slack + floor).min(1.0);
    ensure!(
        !too_many(hits, q, p),
        "{s:?}: after {n} items and {levels} levels {hits} of {q} unseen items are reported ({:.5}), the compound bound is {bound:.5}",
        hits as f64 / q as f64
    );
    if hits > 100 {
        c.max("max_measured_over_bound_ppm", (hits as f64 / q as f64 / bound * 1e6) as u64);
    }
    c.sample(|| format!("{s:?} items={n} levels={levels} rate={:.5} bound={bound:.5}", hits as f64 / q as f64));
    c.mix(base);
    c.nontrivial();
    let _: (Facts, u64) = (f.facts(), u64::key(0));
    Ok(())
}

static P: Property = Property {
    id: "C06",
    rule: "bloom_trace/cuckoo_trace: every insertion (a fifth of them repeated items) into a scalable filter is watched through its public counters: growth exactly at the documented condition, size of each new level, probability of each level as it shows in estimated_fpp, no space for items already reported (big_: levels and item counts beyond 2^16; many_: up to 320 levels). compound: 3 to 8 levels, unseen items asked, Chernoff bound against fpp/(1-tightening_ratio). Non-trivial: the filter grew.",
    kinds: &[
        Kind { name: "bloom_trace", run: bloom_trace, quick: 10_000, thorough: 150_000 },
        Kind { name: "cuckoo_trace", run: cuckoo_trace, quick: 10_000, thorough: 150_000 },
        Kind { name: "big_bloom", run: bloom_trace, quick: 40, thorough: 800 },
        Kind { name: "big_cuckoo", run: cuckoo_trace, quick: 40, thorough: 800 },
        Kind { name: "many_bloom", run: bloom_trace, quick: 48, thorough: 800 },
        Kind { name: "many_cuckoo", run: cuckoo_trace, quick: 48, thorough: 800 },
        Kind { name: "compound", run: compound, quick: 1500, thorough: 12_000 },
    ],
    floors: &[("insertions_watched", 1_000_000), ("growth_steps", 5000), ("unseen_items_queried", 1_000_000)],
    assumptions: &["well distributed hash builders"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
