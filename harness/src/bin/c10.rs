//! C10: stream filters stay stable and accurate on unbounded streams.
use pcverif::positions::{builders, Filter, Item};
use pcverif::stats::{too_few, too_many};
use pcverif::subject::{Op, Spec, Ty};
use pcverif::*;
use probabilistic_collections::bloom::*;
use std::collections::HashSet;

const STREAM: [Ty; 3] = [Ty::Bs, Ty::Bssd, Ty::Rlbs];

/// Expected change of a slice's fill per stream item, times the bits per slice.
fn drift(ty: Ty, x: f64, k: f64) -> f64 {
    let active = 1.0 - x.powf(k); // the item is not reported and gets inserted
    let cleared = match ty {
        Ty::Bs => x,
        Ty::Bssd => x / k,
        _ => x * x,
    };
    (1.0 - x) - cleared * active
}

/// Fill after `t` distinct items.
fn expected(ty: Ty, k: usize, m: usize, t: u64, mut x: f64, from: u64) -> f64 {
    let steps = (t - from) as f64 / m as f64;
    let n = ((steps * 50.0).ceil() as usize).clamp(1, 200_000);
    let dt = steps / n as f64;
    for _ in 0..n {
        let k1 = drift(ty, x, k as f64);
        let k2 = drift(ty, (x + 0.5 * dt * k1).clamp(0.0, 1.0), k as f64);
        x = (x + dt * k2).clamp(0.0, 1.0);
    }
    x
}

/// Fill over time against the documented rule, the false positive rate against fill^k, and recent
/// against old items.
fn fill(c: &mut Ctx) -> R {
    let ty = STREAM[c.index % 3];
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.key = 0;
    s.fpp = c.rng.pick(&[0.7, 0.5, 0.3, 0.2, 0.1, 0.05, 0.02, 0.01, 0.001]);
    s.m = if c.rng.chance(0.02) { c.rng.log_range(66_000, 150_000) } else if c.rng.chance(0.2) { c.rng.log_range(3000, 20_000) } else { c.rng.log_range(400, 3000) };
    let mut f = s.build();
    let k = f.facts().hashers;
    ensure!(k >= 2, "{s:?}: {k} hash functions");
    let total = (k * s.m) as f64;
    let base = c.rng.u64() >> 2;
    let mut n = 0u64;
    let mut model = 0.0;
    c.sample(|| format!("{s:?} slices={k}"));
    c.mix(base);
    let horizon = c.scale(30, 200) as f64;
    let horizon = if s.m > 3000 { horizon.min(6.0) } else { horizon };
    let mut t = 0.05;
    while t < horizon {
        let until = (t * s.m as f64) as u64;
        let from = n;
        while n < until {
            f.apply(&Op::Insert(base + n, 1));
            n += 1;
            if n % 64 == 0 {
                c.tick();
            }
        }
        model = expected(ty, k, s.m, n, model, from);
        let got = f.facts().ones as f64 / total;
        let tol = 0.012 + 4.0 * (0.25 / total).sqrt();
        ensure!(
            (got - model).abs() <= tol,
            "{s:?}: {got:.4} of the bits are set after {n} distinct items, the replacement rule gives {model:.4} (tolerance {tol:.4})"
        );
        c.max("max_fill_error_ppm", ((got - model).abs() * 1e6) as u64);
        c.count("fills_compared", 1);
        t = if t < 1.0 { t * 2.0 } else { t + horizon / 12.0 };
    }
    let x = f.facts().ones as f64 / total;
    let fpr = x.powi(k as i32);
    let q = c.scale(20_000, 100_000) as u64;
    let mut hits = 0;
    for i in 0..q {
        hits += u64::from(f.has(base + (1 << 40) + i));
    }
    let rel = 0.05 + 5.0 * k as f64 * 0.5 / (total.sqrt() * x);
    let abs = 2.0 / s.m as f64;
    ensure!(
        !too_many(hits, q, (fpr * (1.0 + rel) + abs).min(1.0)) && !too_few(hits, q, fpr * (1.0 - rel) - abs),
        "{s:?}: {hits} of {q} unseen items are reported, a fill of {x:.4} in all {k} slices gives {fpr:.4}"
    );
    c.count("unseen_items_queried", q);
    // The last items are still there, those of long ago are no more likely than strangers.
    let recent = (s.m / (20 * k)).max(1) as u64;
    let mut kept = 0;
    for i in n - recent..n {
        kept += u64::from(f.has(base + i));
    }
    ensure!(
        !too_few(kept, recent, 0.88),
        "{s:?}: only {kept} of the last {recent} items are remembered"
    );
    c.count("recent_items_queried", recent);
    if ty != Ty::Bssd && horizon > 20.0 {
        let old = (s.m as u64) * 5;
        let mut kept = 0;
        for i in 0..old {
            kept += u64::from(f.has(base + i));
        }
        ensure!(
            !too_many(kept, old, (fpr * (1.1 + rel) + 0.02 + abs).min(1.0)),
            "{s:?}: {kept} of {old} items inserted {horizon} generations ago are reported, strangers at {fpr:.4}"
        );
        c.count("old_items_queried", old);
    }
    c.nontrivial();
    Ok(())
}

/// Two slices: every bit read directly; each position must be set about as often as the others.
fn positions(c: &mut Ctx) -> R {
    let m = c.rng.urange(3, 20);
    let kind = c.index % 2;
    let mut f = match kind {
        0 => Filter::Bs(BSBloomFilter::with_hashers(m, 0.6, builders())),
        _ => Filter::Rlbs(RLBSBloomFilter::with_hashers(m, 0.6, builders())),
    };
    if f.hashers() != 2 || !f.calibrated(&mut c.rng) {
        c.count("uncalibrated_filters", 1);
        return Ok(());
    }
    f.clear();
    let (name, mm) = (f.name(), m as u64);
    let samples = c.scale(1200, 6000);
    let mut set = vec![0u32; 2 * m];
    for _ in 0..samples {
        for _ in 0..3 * m {
            f.insert(&(c.rng.u64(), c.rng.u64()));
        }
        let mut bits = vec![false; 2 * m];
        for p in 0..m {
            for q in 0..m {
                if f.contains(&(p as u64, (q as u64 + mm - p as u64) % mm)) {
                    bits[p] = true;
                    bits[m + q] = true;
                }
            }
        }
        for (n, b) in set.iter_mut().zip(&bits) {
            *n += u32::from(*b);
        }
        c.tick();
    }
    let mean = set.iter().map(|x| f64::from(*x)).sum::<f64>() / (2 * m) as f64 / samples as f64;
    for (i, n) in set.iter().enumerate() {
        let p = f64::from(*n) / samples as f64;
        ensure!(
            (p - mean).abs() < 0.13,
            "{name} slice={m}: bit {} of slice {} is set in {p:.3} of the samples, bits on average in {mean:.3}",
            i % m,
            i / m
        );
        c.max("max_position_deviation_ppm", ((p - mean).abs() * 1e6) as u64);
    }
    c.count("bit_reads", (samples * m * m) as u64);
    c.sample(|| format!("{name} slice={m} samples={samples} mean={mean:.3}"));
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

/// Slices of up to 2^21 bits: the fill of every 64th of a slice against the others and against the rule.
fn vast(c: &mut Ctx) -> R {
    let m = c.rng.log_range(1 << 18, 1 << 21);
    let ty = STREAM[c.index % 3];
    let mut f = match ty {
        Ty::Bs => Filter::Bs(BSBloomFilter::with_hashers(m, 0.6, builders())),
        Ty::Bssd => Filter::Bssd(BSSDBloomFilter::with_hashers(m, 0.6, builders())),
        _ => Filter::Rlbs(RLBSBloomFilter::with_hashers(m, 0.6, builders())),
    };
    if f.hashers() != 2 || !f.calibrated(&mut c.rng) {
        c.count("uncalibrated_filters", 1);
        return Ok(());
    }
    f.clear();
    let (name, mm) = (f.name(), m as u64);
    let n = (c.rng.range(15, 40) * mm) / 10;
    for i in 0..n {
        f.insert(&(c.rng.u64() >> 1, c.rng.u64() >> 1));
        if i % 1024 == 0 {
            c.tick();
        }
    }
    let x = f.ones() as f64 / (2 * m) as f64;
    let want = expected(ty, 2, m, n, 0.0, 0);
    ensure!((x - want).abs() < 0.012, "{name} slice={m}: {x:.4} of the bits are set after {n} items, the rule gives {want:.4}");
    // an item shows one bit of each slice; sampled over the bits of the other slice
    let regions = 64u64;
    let samples = c.scale(8000, 40_000) as u64;
    for slice in 0..2 {
        let mut hits = vec![0u64; regions as usize];
        for r in 0..regions {
            let (lo, hi) = (r * mm / regions, (r + 1) * mm / regions);
            for _ in 0..samples {
                let (here, there) = (lo + c.rng.below(hi - lo), c.rng.below(mm));
                let (p, q) = if slice == 0 { (here, there) } else { (there, here) };
                hits[r as usize] += u64::from(f.contains(&(p, (q + mm - p) % mm)));
            }
        }
        c.count("bit_reads", regions * samples);
        c.count("regions_compared", regions);
        let mean = hits.iter().sum::<u64>() as f64 / regions as f64 / samples as f64;
        let noise = (0.25 / samples as f64 + 0.25 * x * x / (mm / regions) as f64).sqrt();
        for (r, h) in hits.iter().enumerate() {
            let rate = *h as f64 / samples as f64;
            ensure!(
                (rate - mean).abs() < 7.0 * noise,
                "{name} slice={m}, {n} items: items with bit {slice} in the {r}th of {regions} parts of the slice are reported at {rate:.4}, all at {mean:.4}"
            );
        }
    }
    c.sample(|| format!("{name} slice={m} items={n} fill={x:.4}"));
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

/// Three to fourteen slices: cleared bits identified from the items that disappear, counted per position.
fn deletions(c: &mut Ctx) -> R {
    let fpp = c.rng.pick(&[0.3, 0.2, 0.12, 0.05, 0.01, 1e-3, 1e-5]);
    // With at least as many bits as slices the positions of an item tell all its bits apart.
    let m = if fpp <= 0.01 { c.rng.pick(&[11, 13, 17, 19]) } else { c.rng.urange(4, 9) };
    let kind = c.index % 3;
    let mut f = match kind {
        0 => Filter::Bs(BSBloomFilter::with_hashers(m, fpp, builders())),
        1 => Filter::Bssd(BSSDBloomFilter::with_hashers(m, fpp, builders())),
        _ => Filter::Rlbs(RLBSBloomFilter::with_hashers(m, fpp, builders())),
    };
    if !f.calibrated(&mut c.rng) {
        c.count("uncalibrated_filters", 1);
        return Ok(());
    }
    f.clear();
    let (name, k, mm) = (f.name(), f.hashers(), m as u64);
    let grid: Vec<Item> = (0..mm).flat_map(|a| (0..mm).map(move |b| (a, b))).collect();
    let pos: Vec<Vec<usize>> = grid.iter().map(|x| f.positions(x)).collect();
    let mut hist = vec![0u64; m * k];
    let rounds = c.scale(40_000, 200_000);
    let mut before: Vec<bool> = grid.iter().map(|x| f.contains(x)).collect();
    for round in 0..rounds {
        if kind == 1 && round % (2 * m) == 0 {
            f.clear(); // BSSD fills up by design; observe it while it is filling
            before = vec![false; grid.len()];
        }
        let x = (c.rng.below(mm), c.rng.below(mm));
        if f.contains(&x) {
            continue;
        }
        let set: HashSet<usize> = f.positions(&x).into_iter().collect();
        f.insert(&x);
        let after: Vec<bool> = grid.iter().map(|y| f.contains(y)).collect();
        let mut alive = vec![false; m * k];
        for i in (0..grid.len()).filter(|i| after[*i]) {
            for p in &pos[i] {
                alive[*p] = true;
            }
        }
        let mut certain = HashSet::new();
        let mut common: Option<HashSet<usize>> = None;
        for i in (0..grid.len()).filter(|i| before[*i] && !after[*i]) {
            let mut candidates = pos[i].iter().filter(|p| !alive[**p] && !set.contains(*p));
            if let (Some(p), None) = (candidates.next(), candidates.next()) {
                certain.insert(*p);
            }
            if kind == 1 {
                // One deletion in all: the bit is one that all lost items share.
                let mine: HashSet<usize> = pos[i].iter().copied().collect();
                common = Some(match common.take() {
                    None => mine,
                    Some(c) => c.intersection(&mine).copied().collect(),
                });
            }
        }
        if let Some(c) = common {
            let rest: Vec<usize> = c.into_iter().filter(|p| !alive[*p] && !set.contains(p)).collect();
            if rest.len() == 1 {
                certain.insert(rest[0]);
            }
        }
        for p in certain {
            hist[p] += 1;
        }
        before = after;
        if round % 16 == 0 {
            c.tick();
        }
    }
    let seen: u64 = hist.iter().sum();
    c.count("deletions_located", seen);
    c.sample(|| format!("{name} slice={m} slices={k}: {hist:?}"));
    c.mix(c.seed);
    let overall = seen as f64 / k as f64;
    for s in 0..k {
        let slice = &hist[s * m..(s + 1) * m];
        let mean = slice.iter().sum::<u64>() as f64 / m as f64;
        if mean * (m as f64) < 0.2 * overall && overall > 400.0 && m >= k {
            return Err(format!("{name} slice={m} slices={k}: slice {s} saw {:.0} of the located deletions, slices on average {overall:.0}: {hist:?}", mean * m as f64));
        }
        if mean < 150.0 {
            continue;
        }
        for (p, n) in slice.iter().enumerate() {
            ensure!(
                (*n as f64) > 0.4 * mean && (*n as f64) < 2.2 * mean,
                "{name} slice={m} slices={k}: bit {p} of slice {s} was deleted {n} times, its neighbours {mean:.0} times: {hist:?}"
            );
            c.count("positions_compared", 1);
        }
    }
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C10",
    rule: "fill: streams of distinct items of up to 30 times the bits per slice; the fraction of set bits is compared with the integrated replacement rule at doubling lengths, the rate on unseen items with fill^k, recent and old items with their expected survival. positions: every bit of two-slice filters read 1200 times, all positions set equally often. vast: slices of up to 2^21 bits, the fill of each 64th of them equal. deletions: cleared bits of filters with 3 to 14 slices located through the items that disappear, equally often at every position of a slice. Non-trivial: the stream ran.",
    kinds: &[
        Kind { name: "fill", run: fill, quick: 900, thorough: 6000 },
        Kind { name: "positions", run: positions, quick: 60, thorough: 400 },
        Kind { name: "vast", run: vast, quick: 24, thorough: 240 },
        Kind { name: "deletions", run: deletions, quick: 48, thorough: 300 },
    ],
    floors: &[("fills_compared", 2000), ("regions_compared", 1000), ("unseen_items_queried", 1_000_000)],
    assumptions: &["well distributed hash builders; mean-field model of the replacement rule for slices of at least 400 bits; positions and deletions rely on the hash sequence of the crate after checking it on fresh filters"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
