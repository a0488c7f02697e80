//! C13: HyperLogLog estimates are accurate at every cardinality.
use pcverif::hashers::IDENT;
use pcverif::*;
use probabilistic_collections::hyperloglog::HyperLogLog;

type H = HyperLogLog<u64, HB>;

/// The known bias of the raw estimator just above the hand-over at 2.5 registers per item.
fn bias_allowed(ratio: f64) -> f64 {
    if (1.7..4.5).contains(&ratio) {
        0.03
    } else {
        0.004
    }
}

fn judge(c: &mut Ctx, e: f64, m: f64, n: f64, errors: &[f64], how: &str) -> R {
    let t = errors.len() as f64;
    let got = stats::rms(errors);
    let bias = stats::mean(errors);
    let rel = e * (1.2 + 5.0 / (2.0 * t).sqrt());
    let b = bias_allowed(n / m);
    let bound = (rel * rel + b * b).sqrt();
    ensure!(
        got <= bound,
        "{how}: a sketch for error {e:.4} estimates {n:.3e} distinct items with a standard error of {got:.4} over {t} runs (mean error {bias:+.4}, bound {bound:.4})"
    );
    if n / m >= 6.0 {
        let lim = e * (0.06 + 6.0 / t.sqrt()) + 0.002;
        ensure!(
            bias.abs() <= lim,
            "{how}: a sketch for error {e:.4} estimates {n:.3e} distinct items {bias:+.4} off on average over {t} runs (bound {lim:.4})"
        );
    }
    c.max("max_rms_over_error_ppm", if b < 0.01 { (got / e * 1e6) as u64 } else { 0 });
    c.count("estimates_checked", errors.len() as u64);
    c.nontrivial();
    Ok(())
}

fn error_for(c: &mut Ctx, p: u32) -> f64 {
    let edge = 1.04 / f64::from(1u32 << p).sqrt();
    if c.rng.chance(0.7) {
        edge * (1.0 + 1e-9)
    } else {
        edge * (1.0 + 0.41 * c.rng.f64())
    }
}

/// Real items, every range of cardinality per register, every size of sketch.
fn direct(c: &mut Ctx) -> R {
    const RATIOS: [f64; 18] = [
        0.0005, 0.01, 0.05, 0.2, 0.5, 0.8, 1.2, 1.6, 2.0, 2.3, 2.6, 3.2, 3.8, 4.6, 5.5, 7.0, 12.0, 40.0,
    ];
    let p = 4 + (c.index / RATIOS.len()) as u32 % 11;
    let ratio = RATIOS[c.index % RATIOS.len()] * (0.9 + 0.2 * c.rng.f64());
    let m = f64::from(1u32 << p);
    let n = ((m * ratio).round() as u64).max(1);
    let e = error_for(c, p);
    // the work of one run is n insertions and a pass over the registers
    let runs = (c.scale(3_000_000, 20_000_000) as u64 / (n + m as u64 / 8 + 20)).clamp(100, 20_000);
    let mut errors = Vec::with_capacity(runs as usize);
    let own = c.rng.chance(0.2);
    for _ in 0..runs {
        let base = c.rng.u64();
        let len = if own {
            let mut h = HyperLogLog::<u64>::new(e);
            (0..n).for_each(|i| h.insert(&base.wrapping_add(i)));
            h.len()
        } else {
            let hb = HB::sip(&mut c.rng);
            let mut h = H::with_hasher(e, hb);
            (0..n).for_each(|i| h.insert(&base.wrapping_add(i)));
            h.len()
        };
        ensure!(len.is_finite() && len >= 0.0, "error {e:.4}: len()={len} after {n} distinct items");
        errors.push(len / n as f64 - 1.0);
        c.tick();
    }
    c.count("items_inserted", runs * n);
    c.sample(|| format!("error={e:.4} items={n} runs={runs} rms={:.4} bias={:+.4}", stats::rms(&errors), stats::mean(&errors)));
    c.mix(c.seed);
    judge(c, e, m, n as f64, &errors, "real items")
}

/// Sketches of 2^15 to 2^20 registers; so many registers are accurate in every single run.
fn many_registers(c: &mut Ctx) -> R {
    let p = 15 + c.index as u32 % 6;
    let e = error_for(c, p);
    let m = f64::from(1u32 << p);
    let ratio = c.rng.pick(&[0.01, 0.1, 0.4, 1.0, 1.5, 5.0, 7.0]) * (0.9 + 0.2 * c.rng.f64());
    let n = (m * ratio) as u64;
    let hb = HB::sip(&mut c.rng);
    let mut h = H::with_hasher(e, hb);
    let base = c.rng.u64();
    for i in 0..n {
        h.insert(&base.wrapping_add(i));
        if i % 4096 == 0 {
            c.tick();
        }
    }
    let len = h.len();
    let off = len / n as f64 - 1.0;
    c.count("items_inserted", n);
    c.sample(|| format!("error={e:.6} items={n} off by {off:+.6}"));
    c.mix(c.seed);
    ensure!(
        off.abs() <= 8.5 * e + bias_allowed(ratio),
        "a sketch for error {e:.5} estimates {n} distinct items as {len}, {off:+.5} off"
    );
    c.count("estimates_checked", 1);
    c.nontrivial();
    Ok(())
}

/// The word whose low p bits select the register and whose remaining bits start with `rank`-1 ones.
fn word(c: &mut Ctx, p: u32, index: u64, rank: u32) -> u64 {
    let junk = c.rng.u64() >> 1;
    let rest = if rank >= 64 { u64::MAX } else { (junk << rank) | ((1u64 << (rank - 1)) - 1) };
    (rest << p) | index
}

fn calibrated(c: &mut Ctx, e: f64, p: u32) -> bool {
    let hb = HB::new(IDENT, 0, 0);
    let bytes = |h: &H| bincode::serialize(h).unwrap();
    for _ in 0..8 {
        let (i, r) = (c.rng.below(1 << p), c.rng.range(1, 8) as u32);
        let (mut a, mut b) = (H::with_hasher(e, hb), H::with_hasher(e, hb));
        a.insert(&word(c, p, i, r));
        for lower in 1..=r {
            b.insert(&word(c, p, i, lower));
        }
        if bytes(&a) != bytes(&b) {
            return false;
        }
        let before = bytes(&a);
        a.insert(&word(c, p, i, r + 1));
        if bytes(&a) == before {
            return false;
        }
        let before = bytes(&a);
        a.insert(&word(c, p, (i + 1) % (1 << p), r));
        if bytes(&a) == before {
            return false;
        }
    }
    true
}

/// Cardinalities far beyond what can be inserted: for each register the highest rank of its share is
/// drawn from its distribution and one item with that hash is inserted.
fn huge(c: &mut Ctx) -> R {
    let p = 4 + c.index as u32 % 14;
    let e = error_for(c, p);
    if !calibrated(c, e, p) {
        c.count("crafted_runs_skipped", 1);
        return Ok(());
    }
    let m = 1u64 << p;
    let exp = 10.0 + p as f64 + c.rng.f64() * (52.0 - 10.0 - p as f64);
    let n = exp.exp2();
    let lambda = n / m as f64;
    let runs = (c.scale(400_000, 4_000_000) as u64 / m).clamp(if p > 12 { 30 } else { 150 }, 4000);
    let hb = HB::new(IDENT, 0, 0);
    let mut errors = Vec::new();
    for _ in 0..runs {
        let mut h = H::with_hasher(e, hb);
        for i in 0..m {
            let u = c.rng.f64().max(1e-12).min(1.0 - 1e-12);
            let rank = (lambda / -u.ln()).log2().ceil();
            if rank >= 1.0 {
                h.insert(&word(c, p, i, (rank as u32).min(64 - p)));
            }
        }
        let len = h.len();
        ensure!(len.is_finite() && len >= 0.0, "error {e:.4}: len()={len} for about {n:.3e} items");
        errors.push(len / n - 1.0);
        c.tick();
    }
    c.count("items_inserted", runs * m);
    c.count("crafted_runs", 1);
    c.sample(|| format!("error={e:.4} items=2^{exp:.1} runs={runs} rms={:.4} bias={:+.4}", stats::rms(&errors), stats::mean(&errors)));
    c.mix(c.seed);
    judge(c, e, m as f64, n, &errors, "ranks drawn for a huge cardinality")
}

/// Growing sets, the estimate after every insertion; duplicates; any hash builder.
fn growth(c: &mut Ctx) -> R {
    let good = c.rng.chance(0.5);
    let hb = if good { HB::good(&mut c.rng) } else { HB::any(&mut c.rng) };
    let e = c.rng.log_f64(0.01, 0.999);
    let mut h = H::with_hasher(e, hb);
    ensure!(h.len() == 0.0 && h.is_empty(), "an empty sketch has len()={} is_empty()={}", h.len(), h.is_empty());
    let steps = c.rng.urange(5, c.scale(300, 1500));
    let base = c.rng.u64();
    let mut last = Vec::new();
    for i in 0..steps as u64 {
        h.insert(&base.wrapping_add(i));
        let len = h.len();
        ensure!(len.is_finite() && len > 0.0, "{hb:?} error {e}: len()={len} after {} items", i + 1);
        ensure!(!h.is_empty(), "{hb:?} error {e}: is_empty() after {} items", i + 1);
        if good && e <= 0.26 && i < 4 {
            // so few items collide in a register with a small probability only; the estimate is then
            // the linear count
            let slack = 0.5 + (i as f64 + 1.0) * 3.0 * e;
            ensure!((len - (i + 1) as f64).abs() <= (i + 1) as f64 * 0.5 + slack, "error {e}: len()={len} for {} items", i + 1);
        }
        last.push(len);
    }
    for _ in 0..60 {
        let i = c.rng.below(steps as u64);
        h.insert(&base.wrapping_add(i));
        ensure!(
            h.len().to_bits() == last[steps - 1].to_bits(),
            "{hb:?} error {e}: inserting item {i} again moved len() from {} to {}",
            last[steps - 1],
            h.len()
        );
    }
    h.clear();
    ensure!(h.len() == 0.0 && h.is_empty(), "after clear() len()={}", h.len());
    c.count("estimates_checked", steps as u64 + 60);
    c.count("duplicates_inserted", 60);
    c.mix(base);
    c.nontrivial();
    Ok(())
}

/// Words at the extremes of the rank computation.
fn extremes(c: &mut Ctx) -> R {
    let e = c.rng.log_f64(0.02, 0.999);
    let mut h = H::with_hasher(e, HB::new(IDENT, 0, 0));
    for _ in 0..c.rng.urange(1, 400) {
        let w = match c.rng.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => u64::MAX << c.rng.below(64),
            3 => u64::MAX >> c.rng.below(64),
            4 => !(1u64 << c.rng.below(64)),
            _ => 1u64 << c.rng.below(64),
        };
        h.insert(&w);
        let len = h.len();
        ensure!(len.is_finite() && len > 0.0, "error {e}: len()={len} after inserting an item hashed to {w:#x}");
        h.insert(&w);
        ensure!(h.len().to_bits() == len.to_bits(), "a duplicate hashed to {w:#x} moved len() from {len} to {}", h.len());
    }
    c.count("estimates_checked", 2);
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C13",
    rule: "direct: independent sketches of 2^4..2^14 registers with real items at 18 cardinalities per register from 0.0005 to 40, RMS and mean relative error against the configured error probability (known bias at the hand-over allowed). many_registers: single sketches of 2^15..2^20 registers. huge: cardinalities up to 2^52 by drawing each register's highest rank from its distribution and inserting an item with that hash (the layout is confirmed by observation first, otherwise skipped and counted). growth: estimate after every insertion, any hasher, duplicates. extremes: hash words of all ones, all zeros and single bits. Every case is non-trivial except skipped ones.",
    kinds: &[
        Kind { name: "direct", run: direct, quick: 594, thorough: 2_376 },
        Kind { name: "many_registers", run: many_registers, quick: 72, thorough: 1_200 },
        Kind { name: "huge", run: huge, quick: 540, thorough: 3_600 },
        Kind { name: "growth", run: growth, quick: 4_500, thorough: 40_000 },
        Kind { name: "extremes", run: extremes, quick: 2_400, thorough: 30_000 },
    ],
    floors: &[("estimates_checked", 200_000), ("items_inserted", 50_000_000), ("duplicates_inserted", 50_000)],
    assumptions: &["SipHash with random keys behaves like a random function", "accuracy is judged for e up to 0.26 (16 registers), below which the algorithm gives no accuracy"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
