//! C01: the three Bloom filters never forget an inserted item.
use pcverif::subject::{Op, Spec, Ty};
use pcverif::*;

/// Sizings from degenerate to large, including fpp far outside the comfortable range.
fn spec(r: &mut Rng, ty: Ty) -> Spec {
    let hb = if r.chance(0.5) { HB::good_pair(r) } else { HB::any_pair(r) };
    let mut s = Spec::random(r, ty, hb);
    s.fpp = match r.below(6) {
        0 => r.log_f64(1e-12, 1e-3),
        1 => r.log_f64(0.3, 0.99),
        2 => r.pick(&[0.5, 0.25, 0.125, 0.1, 0.01, 0.001]),
        _ => r.log_f64(1e-4, 0.5),
    };
    match r.below(8) {
        0 => s.m = r.pick(&[1, 2, 7, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        1 => s.m = r.log_range(1000, 100_000),
        _ => s.m = r.log_range(1, 4000),
    }
    s.n = if r.chance(0.1) { r.log_range(500, 20_000) } else { r.log_range(1, 800) };
    if ty == Ty::ScalableBloom {
        s.n = if r.chance(0.2) { r.log_range(1000, 50_000) } else { r.log_range(1, 1000) };
        s.fpp = s.fpp.max(1e-9);
        s.growth = r.pick(&[1.0, 1.0, 1.1, 1.5, 2.0, 2.0, 3.0, 10.0]);
        s.tight = r.pick(&[0.1, 0.5, 0.5, 0.9, 0.99, 1.0]);
    }
    s
}

fn run_filter(c: &mut Ctx, ty: Ty, budget: usize) -> R {
    let s = spec(&mut c.rng, ty);
    let mut f = s.build();
    let base = if c.rng.chance(0.3) { c.rng.u64() >> 2 } else { 0 };
    let stride = c.rng.pick(&[1u64, 1, 2, 64, 1 << 20, 0x9E37_79B9]);
    let n = c.rng.log_range(1, budget);
    c.sample(|| format!("{s:?} items={n}"));
    c.mix(s.m as u64 ^ (s.n as u64) << 20 ^ s.fpp.to_bits() ^ base);
    let mut items: Vec<u64> = Vec::new();
    let mut levels = f.facts().levels;
    let mut work = 0u64;
    for i in 0..n {
        if c.rng.chance(0.0005) {
            f.apply(&Op::Clear);
            c.log(|| "clear".into());
            items.clear();
            levels = f.facts().levels;
            c.count("clears", 1);
        }
        let x = base.wrapping_add((i as u64).wrapping_mul(stride)) >> 1;
        f.apply(&Op::Insert(x, 1));
        c.log(|| format!("insert {x}"));
        items.push(x);
        ensure!(f.has(x), "{s:?}: item {x} is not reported right after its insertion (#{i})");
        for _ in 0..4 {
            let y = items[c.rng.idx(items.len())];
            ensure!(f.has(y), "{s:?}: earlier item {y} was forgotten after inserting {x} (#{i})");
        }
        work += 5;
        let now = f.facts();
        let grew = now.levels > levels;
        levels = now.levels;
        if grew {
            c.count("growth_steps", 1);
        }
        if (grew && items.len() < 3000) || (i + 1).is_power_of_two() {
            for y in &items {
                ensure!(f.has(*y), "{s:?}: item {y} was forgotten (after {} insertions, {levels} levels)", i + 1);
            }
            work += items.len() as u64;
        }
        c.tick();
        // Growth with ratio 1 makes every query cost as much as there are levels.
        if work * (levels.max(1) as u64) * (now.hashers.max(8) as u64) > 40_000_000 {
            break;
        }
    }
    for y in &items {
        ensure!(f.has(*y), "{s:?}: item {y} was forgotten at the end");
    }
    // Queries for strangers and repeated insertions must not make it forget either.
    for _ in 0..20 {
        let y = c.rng.u64() >> 1;
        f.has(y);
    }
    for _ in 0..10.min(items.len()) {
        let y = items[c.rng.idx(items.len())];
        f.apply(&Op::Insert(y, 1));
    }
    for y in &items {
        ensure!(f.has(*y), "{s:?}: item {y} was forgotten after repeated insertions");
    }
    c.count("membership_answers_checked", work + 2 * items.len() as u64);
    c.count("items_inserted", items.len() as u64);
    c.max("max_levels", levels as u64);
    let f = f.facts();
    c.max("max_fill_ppm", (f.ones as f64 / f.len as f64 * 1e6) as u64);
    if f.ones as f64 > 0.9 * f.len as f64 {
        c.count("overloaded_filters", 1);
    }
    if items.len() > 1 {
        c.nontrivial();
    }
    Ok(())
}

fn bloom(c: &mut Ctx) -> R {
    run_filter(c, Ty::Bloom, 4000)
}
fn partitioned(c: &mut Ctx) -> R {
    run_filter(c, Ty::Partitioned, 4000)
}
fn scalable(c: &mut Ctx) -> R {
    run_filter(c, Ty::ScalableBloom, 12_000)
}

/// Filters of millions of bits, where offsets need more than 16 or 20 bits.
fn large(c: &mut Ctx) -> R {
    let ty = c.rng.pick(&[Ty::Bloom, Ty::Partitioned, Ty::ScalableBloom]);
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.key = 0;
    s.fpp = c.rng.log_f64(0.001, 0.1);
    s.m = c.rng.log_range(1 << 18, 1 << 23);
    s.n = c.rng.log_range(1 << 16, 1 << 19);
    s.growth = 2.0;
    s.tight = 0.5;
    let mut f = s.build();
    c.sample(|| format!("{s:?}"));
    c.mix(s.m as u64 ^ s.n as u64);
    let n = c.rng.range(100_000, 300_000);
    let base = c.rng.u64() >> 2;
    for i in 0..n {
        f.apply(&Op::Insert(base + i, 1));
        if i % 64 == 0 {
            c.tick();
        }
    }
    for i in 0..n {
        ensure!(f.has(base + i), "{s:?}: item #{i} of {n} was forgotten");
    }
    c.count("membership_answers_checked", n);
    c.count("items_inserted", n);
    c.max("max_bits", f.facts().len as u64);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C01",
    rule: "A case builds one Bloom-type filter with random sizing, hash builders (half of them hostile) and key type, inserts a random stream (with occasional clear) and asks for the new item, sampled older items and, at powers of two, growth steps and the end, all items. Non-trivial: at least two items were held.",
    kinds: &[
        Kind { name: "bloom", run: bloom, quick: 8000, thorough: 120_000 },
        Kind { name: "partitioned", run: partitioned, quick: 8000, thorough: 120_000 },
        Kind { name: "scalable", run: scalable, quick: 6000, thorough: 80_000 },
        Kind { name: "large", run: large, quick: 40, thorough: 400 },
    ],
    floors: &[("membership_answers_checked", 1_000_000), ("growth_steps", 500), ("overloaded_filters", 50)],
    assumptions: &["items of types u64, String, (u64, u64) and byte vectors; hash builders of the harness (including the library's own)"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
