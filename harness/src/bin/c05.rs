//! C05: membership filters meet their configured false positive rate at design load.
use pcverif::stats::too_many;
use pcverif::subject::{Op, Spec, Subject, Ty};
use pcverif::*;

fn spec(c: &mut Ctx, ty: Ty, n: usize, fpp: f64) -> Spec {
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.n = n;
    s.fpp = fpp;
    s.key = if c.rng.chance(0.2) { c.rng.pick(&[1, 2, 3]) } else { 0 };
    s
}

/// Builds one filter designed for `n` items and `fpp`.
fn build(c: &mut Ctx, ty: Ty, n: usize, fpp: f64) -> (Spec, Box<dyn Subject>) {
    let mut s = spec(c, ty, n, fpp);
    match ty {
        Ty::Bloom => {
            // Sized by items, or by the bits that the formula gives for these items.
            let bits = (-fpp.log2() * n as f64 / std::f64::consts::LN_2).ceil() as usize;
            s.ctor = c.rng.pick(&[2, 2, 1, 0]);
            s.m = bits;
        }
        Ty::Partitioned => s.ctor = 2,
        Ty::Cuckoo => {
            s.ctor = if fpp >= 0.05 { c.rng.pick(&[2, 3]) } else { 3 };
            s.m = c.rng.pick(&[1, 2, 4, 4, 8]);
        }
        _ => {}
    }
    let f = s.build_sized();
    (s, f)
}

/// The rate that the models themselves allow. Bloom: rounding the number of hash functions up costs
/// up to 12.5 percent; an item whose two hashes both agree with a held item's modulo the m positions
/// is always confused with it (double hashing), which adds about n/m^2.
fn allowed(ty: Ty, n: usize, fpp: f64) -> f64 {
    let bits = -fpp.log2() * n as f64 / std::f64::consts::LN_2;
    let (n, floor) = match ty {
        Ty::Bloom => (n as f64, n as f64 / (bits.ceil() * bits.ceil())),
        Ty::Partitioned => {
            let m = (bits / (1.0 / fpp).log2().ceil()).ceil();
            (n as f64, n as f64 / (m * m))
        }
        _ => return fpp * 1.05,
    };
    fpp * (1.25 + 3.0 / n) + 2.0 * floor
}

fn measure(c: &mut Ctx, ty: Ty) -> R {
    // Large: one filter is representative of its expectation.
    let n = c.rng.log_range(1500, 20_000);
    let fpp = match ty {
        Ty::Quotient => c.rng.log_f64(0.0005, 0.6),
        _ => c.rng.log_f64(0.0005, 0.6),
    };
    let (s, mut f) = build(c, ty, n, fpp);
    let base = c.rng.u64() >> 2;
    c.sample(|| format!("{s:?}"));
    c.mix(base ^ n as u64 ^ fpp.to_bits());
    for _ in 0..200 {
        let x = c.rng.u64() >> 1;
        ensure!(!f.has(x), "{s:?}: an empty filter reports item {x}");
    }
    for i in 0..n as u64 {
        f.apply(&Op::Insert(base + i, 1));
    }
    let queries = c.scale(30_000, 200_000) as u64;
    let mut hits = 0;
    for i in 0..queries {
        hits += u64::from(f.has(base + n as u64 + 1 + i));
        if i % 256 == 0 {
            c.tick();
        }
    }
    c.count("unseen_items_queried", queries);
    c.count("false_positives_seen", hits);
    let p = (allowed(ty, n, fpp) * (1.0 + instance_slack(ty, &f.facts()))).min(1.0);
    ensure!(
        !too_many(hits, queries, p),
        "{s:?}: {hits} of {queries} unseen items are reported ({:.5}), configured for {fpp:.5} at {n} items",
        hits as f64 / queries as f64
    );
    let ratio = hits as f64 / queries as f64 / fpp;
    if hits > 200 {
        match ty {
            Ty::Bloom => c.max("max_measured_over_configured_bloom_ppm", (ratio * 1e6) as u64),
            Ty::Partitioned => c.max("max_measured_over_configured_partitioned_ppm", (ratio * 1e6) as u64),
            Ty::Cuckoo => c.max("max_measured_over_configured_cuckoo_ppm", (ratio * 1e6) as u64),
            _ => c.max("max_measured_over_configured_quotient_ppm", (ratio * 1e6) as u64),
        }
    }
    // The filter works: emptied again, it reports nothing.
    f.apply(&Op::Clear);
    for i in 0..200 {
        ensure!(!f.has(base + i), "{s:?}: the cleared filter reports item {}", base + i);
    }
    c.nontrivial();
    Ok(())
}

/// Six standard deviations of one filter's own rate around the expectation, relative to it.
fn instance_slack(ty: Ty, f: &pcverif::subject::Facts) -> f64 {
    match ty {
        Ty::Bloom | Ty::Partitioned => 6.0 * f.hashers as f64 * 0.7 / (f.len as f64).sqrt(),
        // Rate = stored / possible; only the number of distinct fingerprints varies.
        _ => 0.02,
    }
}

/// Small designs: the rate is averaged over many filters with fresh hash builders, which are
/// independent draws in [0, 1].
fn small(c: &mut Ctx, ty: Ty) -> R {
    let n = c.rng.log_range(1, 200);
    let fpp = c.rng.log_f64(0.01, 0.6);
    let trials = c.scale(1500, 8000);
    let per = 8u64;
    let mut hits = 0u64;
    let mut last = None;
    for t in 0..trials {
        let (s, mut f) = build(c, ty, n, fpp);
        let base = c.rng.u64() >> 2;
        ensure!(!f.has(base), "{s:?}: an empty filter reports item {base}");
        for i in 0..n as u64 {
            f.apply(&Op::Insert(base + i, 1));
        }
        for i in 0..per {
            hits += u64::from(f.has(base + 1_000_000 + i));
        }
        if t == 0 {
            c.sample(|| format!("{s:?} x {trials}"));
        }
        last = Some(s);
        c.tick();
    }
    c.mix(n as u64 ^ fpp.to_bits());
    c.count("unseen_items_queried", per * trials as u64);
    c.count("false_positives_seen", hits);
    c.count("small_designs", 1);
    let p = allowed(ty, n, fpp).min(1.0);
    let mean_hits = hits / per;
    ensure!(
        !too_many(mean_hits, trials as u64, p),
        "{:?}: {} of {} unseen items are reported ({:.5}), configured for {fpp:.5} at {n} items",
        last,
        hits,
        per * trials as u64,
        hits as f64 / (per * trials as u64) as f64
    );
    c.nontrivial();
    Ok(())
}

/// Very small rates, far more unseen items than the configured rate could ever confuse.
fn strict(c: &mut Ctx) -> R {
    let ty = [Ty::Bloom, Ty::Partitioned, Ty::Cuckoo, Ty::Quotient][c.index % 4];
    let fpp = c.rng.log_f64(1e-11, 2e-4);
    let n = c.rng.log_range(300, 3000);
    let (s, mut f) = build(c, ty, n, fpp);
    let base = c.rng.u64() >> 2;
    c.sample(|| format!("{s:?}"));
    c.mix(base ^ n as u64 ^ fpp.to_bits());
    for i in 0..n as u64 {
        f.apply(&Op::Insert(base + i, 1));
    }
    let queries = c.scale(400_000, 3_000_000) as u64;
    let mut hits = 0;
    for i in 0..queries {
        hits += u64::from(f.has(base + n as u64 + 1 + i));
        if i % 4096 == 0 {
            c.tick();
        }
    }
    c.count("unseen_items_queried", queries);
    c.count("strict_designs", 1);
    c.count("false_positives_seen", hits);
    let p = (allowed(ty, n, fpp) * (1.0 + instance_slack(ty, &f.facts()))).min(1.0);
    ensure!(
        !too_many(hits, queries, p),
        "{s:?}: {hits} of {queries} unseen items are reported ({:.2e}), configured for {fpp:.2e} at {n} items",
        hits as f64 / queries as f64
    );
    c.nontrivial();
    Ok(())
}

fn bloom(c: &mut Ctx) -> R {
    measure(c, Ty::Bloom)
}
fn partitioned(c: &mut Ctx) -> R {
    measure(c, Ty::Partitioned)
}
fn cuckoo(c: &mut Ctx) -> R {
    measure(c, Ty::Cuckoo)
}
fn quotient(c: &mut Ctx) -> R {
    measure(c, Ty::Quotient)
}
fn small_any(c: &mut Ctx) -> R {
    let ty = [Ty::Bloom, Ty::Partitioned, Ty::Cuckoo, Ty::Quotient][c.index % 4];
    small(c, ty)
}

static P: Property = Property {
    id: "C05",
    rule: "A case designs a filter for n items and a false positive probability, checks that empty and cleared filters report nothing, inserts n distinct items and asks for unseen ones; the number of positives must not exceed the configured rate (times the model tolerance) by more than a Chernoff bound of e^-34 allows. strict: the same for rates down to 1e-11 with 400 000 unseen items. Small designs average over 1500 filters with fresh hash builders. Non-trivial: filled to design load.",
    kinds: &[
        Kind { name: "bloom", run: bloom, quick: 1600, thorough: 12_000 },
        Kind { name: "partitioned", run: partitioned, quick: 1600, thorough: 12_000 },
        Kind { name: "cuckoo", run: cuckoo, quick: 1600, thorough: 12_000 },
        Kind { name: "quotient", run: quotient, quick: 1600, thorough: 12_000 },
        Kind { name: "strict", run: strict, quick: 320, thorough: 2400 },
        Kind { name: "small", run: small_any, quick: 800, thorough: 6000 },
    ],
    floors: &[("unseen_items_queried", 5_000_000), ("false_positives_seen", 10_000), ("strict_designs", 100)],
    assumptions: &["hash builders: std SipHash, the library's SipHash and a finalized FNV with independent random keys"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
