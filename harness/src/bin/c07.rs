//! C07: estimated_fpp is a probability that tracks the real false positive rate.
use pcverif::stats::{too_few, too_many};
use pcverif::subject::{Op, Spec, Ty};
use pcverif::*;

const TYPES: [Ty; 6] = [Ty::Bloom, Ty::Partitioned, Ty::ScalableBloom, Ty::Cuckoo, Ty::ScalableCuckoo, Ty::Quotient];

/// Range, zero when empty, monotone under insertion, and a function of contents and sizing.
fn shape(c: &mut Ctx) -> R {
    let ty = TYPES[c.index % TYPES.len()];
    let hb = if c.rng.chance(0.7) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let mut s = Spec::random(&mut c.rng, ty, hb);
    if matches!(ty, Ty::ScalableBloom | Ty::ScalableCuckoo) {
        s.growth = c.rng.pick(&[1.0, 1.2, 2.0]);
        if !hb.iter().all(|h| matches!(h.kind, hashers::SIP | hashers::LIB | hashers::FNV)) {
            s.growth = 1.0;
        }
        s.n = s.n.clamp(4, 60);
    }
    if ty == Ty::Bloom || ty == Ty::Partitioned {
        s.m = s.m.max(2);
    }
    let mut f = s.build();
    let mut twin = s.build();
    let e0 = f.facts().efpp;
    ensure!(e0 == 0.0, "{s:?}: estimated_fpp()={e0} of an empty filter");
    let n = c.rng.urange(5, 300);
    let base = if c.rng.chance(0.5) { c.rng.u64() >> 2 } else { 0 };
    let mut last = 0.0;
    let mut items = Vec::new();
    c.sample(|| format!("{s:?} items={n}"));
    c.mix(base ^ n as u64);
    for i in 0..n as u64 {
        let x = base + if c.rng.chance(0.2) { c.rng.below(i + 1) } else { i };
        let op = Op::Insert(x, 1);
        if !f.accepts(&op) {
            continue;
        }
        f.apply(&op);
        items.push(x);
        let e = f.facts().efpp;
        ensure!((0.0..=1.0).contains(&e), "{s:?}: estimated_fpp()={e} after {} insertions", items.len());
        ensure!(
            e >= last - 1e-12,
            "{s:?}: estimated_fpp() fell from {last} to {e} at insertion #{} of item {x}",
            items.len()
        );
        last = e;
        c.count("estimates_checked", 1);
        if f.facts().levels > 80 {
            break;
        }
    }
    let now = f.facts();
    let fill = now.ones as f64 / (now.ones + now.zeros).max(1) as f64;
    // rounds to zero
    let wide = now.fp_bits >= 45
        || now.hashers as f64 * fill.ln() < -600.0
        || (ty == Ty::ScalableBloom && now.levels == 1 && fill < 0.1);
    ensure!(wide || last > 0.0, "{s:?}: estimated_fpp()={last} with {} items", items.len());
    // Other order, repeated items and queries in between: same contents, same estimate.
    if matches!(ty, Ty::Bloom | Ty::Partitioned | Ty::Quotient) {
        c.rng.shuffle(&mut items);
        for x in &items {
            twin.apply(&Op::Insert(*x, 1));
            twin.has(*x ^ 1);
        }
        let e = twin.facts().efpp;
        ensure!(e == last, "{s:?}: estimated_fpp() is {last} or {e} for the same contents in another order");
        c.count("orders_compared", 1);
    }
    if ty.removes() {
        // Removing everything brings it back to zero, and on the way it stays a probability.
        for x in &items {
            f.apply(&Op::Remove(*x, 1));
            let e = f.facts().efpp;
            ensure!((0.0..=1.0).contains(&e), "{s:?}: estimated_fpp()={e} while removing");
        }
        let e = f.facts().efpp;
        ensure!(e.abs() < 1e-12, "{s:?}: estimated_fpp()={e} after every item was removed");
    }
    f.apply(&Op::Clear);
    let e = f.facts().efpp;
    ensure!(e == 0.0, "{s:?}: estimated_fpp()={e} after clear()");
    c.nontrivial();
    Ok(())
}

/// Agreement with the measured rate at several loads up to far beyond the design.
fn measured(c: &mut Ctx) -> R {
    let ty = TYPES[c.index % TYPES.len()];
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.key = c.rng.pick(&[0, 0, 0, 1, 2]);
    s.growth = 2.0;
    s.tight = c.rng.pick(&[0.5, 0.8]);
    s.fpp = c.rng.log_f64(0.002, 0.4);
    let design;
    match ty {
        Ty::Bloom | Ty::Partitioned => {
            s.ctor = 2;
            s.n = c.rng.log_range(2000, 12_000);
            design = s.n;
        }
        Ty::ScalableBloom => {
            s.n = c.rng.log_range(4000, 20_000);
            design = s.n * 2;
        }
        Ty::Cuckoo => {
            s.ctor = c.rng.pick(&[1, 3, 3]);
            s.n = c.rng.log_range(500, 6000);
            s.m = c.rng.pick(&[1, 2, 4, 4, 8]);
            design = s.n;
        }
        Ty::ScalableCuckoo => {
            s.n = c.rng.log_range(500, 3000);
            design = s.n * 4;
        }
        _ => {
            s.ctor = 1;
            s.n = c.rng.urange(10, 13);
            s.m = c.rng.urange(2, 10);
            design = 1 << s.n;
        }
    }
    let (mut s, mut design) = (s, design);
    if c.index / TYPES.len() % 24 == 23 {
        // more items than 16 bits count
        let f = 70_000 / design + 1;
        match ty {
            Ty::Quotient => {
                s.n = 17;
                design = 1 << 17;
            }
            _ => {
                s.n *= f;
                design *= f;
            }
        }
    }
    let mut f = s.build();
    if ty == Ty::Cuckoo && f.facts().fp_bits < 4 {
        s.ctor = 3;
        s.fpp = s.fpp.min(0.1);
        f = s.build();
    }
    let base = c.rng.u64() >> 2;
    let mut n = 0u64;
    c.sample(|| format!("{s:?} design={design}"));
    c.mix(base);
    let loads: &[f64] = match ty {
        Ty::Quotient => &[0.1, 0.5, 0.9, 0.98],
        Ty::Cuckoo => &[0.2, 0.6, 1.0, 1.5, 2.5],
        _ => &[0.1, 0.5, 1.0, 2.0],
    };
    for load in loads {
        while (n as f64) < load * design as f64 {
            f.apply(&Op::Insert(base + n, 1));
            n += 1;
            c.tick();
        }
        let facts = f.facts();
        if facts.extra > 4000 {
            break;
        }
        let q = c.scale(12_000, 100_000) as u64;
        let mut hits = 0u64;
        for i in 0..q {
            hits += u64::from(f.has(base + (1 << 40) + n * 1000 + i));
            if i % 256 == 0 {
                c.tick();
            }
        }
        let e = facts.efpp;
        // Model accuracy: Bloom filters estimate from their bits (position independence, averaged
        // slices); the exponential models of the others are within a third at any load.
        let (lo, hi, abs) = match ty {
            Ty::Bloom | Ty::Partitioned | Ty::ScalableBloom => {
                // double hashing: items that agree with a held one modulo the bits
                let m = if ty == Ty::Partitioned { facts.bits } else if ty == Ty::Bloom { facts.len } else { s.n };
                (0.88, 1.12, 3.0 * n as f64 / (m as f64 * m as f64))
            }
            Ty::Quotient => (0.97, 1.3, 0.0),
            _ => (0.75, 1.35, 1e-5),
        };
        let rate = hits as f64 / q as f64;
        ensure!(
            !too_many(hits, q, (e * hi + abs).min(1.0)),
            "{s:?}: estimated_fpp()={e:.5} but {hits} of {q} unseen items ({rate:.5}) are reported at {n} items"
        );
        ensure!(
            !too_few(hits, q, e * lo),
            "{s:?}: estimated_fpp()={e:.5} but only {hits} of {q} unseen items ({rate:.5}) are reported at {n} items"
        );
        c.count("loads_measured", 1);
        c.count("unseen_items_queried", q);
        c.count("false_positives_seen", hits);
        if hits > 500 {
            let r = (rate / e * 1e6) as u64;
            match ty {
                Ty::Bloom | Ty::Partitioned | Ty::ScalableBloom => c.max("max_bloom_measured_over_estimate_ppm", r),
                Ty::Quotient => c.max("max_quotient_measured_over_estimate_ppm", r),
                _ => c.max("max_cuckoo_measured_over_estimate_ppm", r),
            }
        }
    }
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C07",
    rule: "shape: estimated_fpp watched after every insertion (0 when empty or cleared, in [0, 1], never falling, equal for the same contents in another order, 0 after all removals) on all six filters with good and hostile hash builders. measured: at loads from a tenth to several times the design, unseen items are asked and the rate must agree with the estimate within the model's accuracy by Chernoff bounds. Non-trivial: items were inserted.",
    kinds: &[
        Kind { name: "shape", run: shape, quick: 12_000, thorough: 200_000 },
        Kind { name: "measured", run: measured, quick: 2400, thorough: 20_000 },
    ],
    floors: &[("estimates_checked", 300_000), ("loads_measured", 1000), ("false_positives_seen", 50_000)],
    assumptions: &["measured: well distributed hash builders, fingerprints of at least 4 bits"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
