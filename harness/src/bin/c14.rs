//! C14: HyperLogLog is an idempotent, order-free union sketch.
use pcverif::*;
use probabilistic_collections::hyperloglog::HyperLogLog;

type H = HyperLogLog<u64, HB>;

fn bytes(h: &H) -> Vec<u8> {
    bincode::serialize(h).unwrap()
}

fn build(e: f64, hb: HB, items: &[u64]) -> H {
    let mut h = H::with_hasher(e, hb);
    items.iter().for_each(|x| h.insert(x));
    h
}

fn merged(a: &H, b: &H) -> H {
    let mut r = a.clone();
    r.merge(b);
    r
}

fn item_set(c: &mut Ctx, base: u64, universe: u64) -> Vec<u64> {
    let n = match c.rng.below(8) {
        0 => 0,
        1 => 1,
        2..=5 => c.rng.log_range(1, 200),
        _ if c.rng.chance(0.01) => c.rng.log_range(66_000, 150_000),
        _ => c.rng.log_range(50, 6000),
    };
    (0..n).map(|_| base.wrapping_add(c.rng.below(universe))).collect()
}

/// Equal sketches: same estimate, same serialized state, and the same estimates from then on.
fn same(c: &mut Ctx, a: &H, b: &H, what: &str) -> R {
    c.count("sketches_compared", 1);
    ensure!(a.len().to_bits() == b.len().to_bits(), "{what}: len() {} and {}", a.len(), b.len());
    ensure!(bytes(a) == bytes(b), "{what}: same estimate but different registers");
    Ok(())
}

fn algebra(c: &mut Ctx) -> R {
    let good = c.rng.chance(0.6);
    let hb = if good { HB::good(&mut c.rng) } else { HB::any(&mut c.rng) };
    let e = if c.rng.chance(0.2) { c.rng.log_f64(0.008, 0.02) } else { c.rng.log_f64(0.02, 0.999) };
    let universe = c.rng.pick(&[1u64, 10, 300, 10_000, 1 << 60]);
    let base = c.rng.u64();
    let sets: Vec<Vec<u64>> = (0..3).map(|_| item_set(c, base, universe)).collect();
    let [a, b, d] = [0, 1, 2].map(|i| build(e, hb, &sets[i]));
    c.sample(|| format!("{hb:?} e={e:.3} sizes={:?}", sets.iter().map(Vec::len).collect::<Vec<_>>()));
    c.mix(base);
    let union = |x: &[u64], y: &[u64]| -> Vec<u64> { x.iter().chain(y).copied().collect() };

    // order and repetition do not matter
    let mut again = sets[0].clone();
    for _ in 0..again.len().min(50) {
        let x = again[c.rng.idx(again.len())];
        again.push(x);
    }
    c.rng.shuffle(&mut again);
    same(c, &a, &build(e, hb, &again), &format!("{hb:?} e={e}: the same items in another order with repetitions"))?;

    let ab = merged(&a, &b);
    let before = bytes(&b);
    let mut r = a.clone();
    r.merge(&b);
    ensure!(bytes(&b) == before, "{hb:?} e={e}: merge changed its argument");
    same(c, &ab, &build(e, hb, &union(&sets[0], &sets[1])), &format!("{hb:?} e={e}: merge against inserting both sets"))?;
    same(c, &ab, &merged(&b, &a), &format!("{hb:?} e={e}: merge is not commutative"))?;
    same(c, &merged(&ab, &d), &merged(&a, &merged(&b, &d)), &format!("{hb:?} e={e}: merge is not associative"))?;
    same(c, &merged(&a, &a), &a, &format!("{hb:?} e={e}: merge with itself"))?;
    same(c, &merged(&ab, &b), &ab, &format!("{hb:?} e={e}: merging the same sketch twice"))?;
    let empty = H::with_hasher(e, hb);
    same(c, &merged(&a, &empty), &a, &format!("{hb:?} e={e}: merging an empty sketch"))?;
    same(c, &merged(&empty, &a), &a, &format!("{hb:?} e={e}: merging into an empty sketch"))?;
    // inserting after merging and merging after inserting
    let mut x = ab.clone();
    sets[2].iter().for_each(|i| x.insert(i));
    same(c, &x, &merged(&ab, &d), &format!("{hb:?} e={e}: inserting after a merge"))?;
    // clear forgets a merge
    x.clear();
    same(c, &x, &empty, &format!("{hb:?} e={e}: clear() after a merge"))?;

    // never lower, up to the step where linear counting hands over
    if good && e < 0.26 {
        let (la, lb, lu) = (a.len(), b.len(), ab.len());
        let m = (1.04 / e).powi(2).log2().ceil().exp2();
        let most = la.max(lb);
        let near = most > 1.2 * m && most < 8.0 * m;
        let slack = if near { 0.05 + 6.0 * 1.04 / m.sqrt() } else { 1e-9 };
        ensure!(
            lu >= most * (1.0 - slack),
            "{hb:?} e={e}: sketches estimating {la} and {lb} merge into one estimating {lu}"
        );
        c.count("estimates_ordered", 1);
    }
    if sets.iter().all(|s| s.len() > 1) {
        c.nontrivial();
    }
    Ok(())
}

/// Sharded counting: a partition of a stream over shards, merged in a random tree, equals one sketch.
fn shards(c: &mut Ctx) -> R {
    let hb = HB::good(&mut c.rng);
    // sometimes more registers than 16 bits count
    let e = if c.rng.chance(0.01) { c.rng.log_f64(0.0012, 0.004) } else { c.rng.log_f64(0.01, 0.3) };
    let n = if c.rng.chance(0.01) { c.rng.log_range(66_000, 300_000) } else { c.rng.log_range(100, 40_000) };
    let k = c.rng.urange(2, 12);
    let mut all = H::with_hasher(e, hb);
    let mut parts: Vec<H> = (0..k).map(|_| H::with_hasher(e, hb)).collect();
    let base = c.rng.u64() >> 1;
    for _ in 0..n {
        let x = base + c.rng.below(n as u64);
        all.insert(&x);
        let i = c.rng.idx(k);
        parts[i].insert(&x);
        if c.rng.chance(0.02) {
            let (i, j) = (c.rng.idx(k), c.rng.idx(k));
            if i != j {
                let other = parts[j].clone();
                parts[i].merge(&other);
            }
        }
    }
    while parts.len() > 1 {
        let i = c.rng.idx(parts.len());
        let x = parts.swap_remove(i);
        let j = c.rng.idx(parts.len());
        parts[j].merge(&x);
    }
    c.mix(base);
    c.nontrivial();
    same(c, &parts[0], &all, &format!("{hb:?} e={e}: {n} items over {k} shards"))
}

/// Sketches that cannot be merged: a panic, and the receiver as it was.
fn mismatch(c: &mut Ctx) -> R {
    let hb = HB::good(&mut c.rng);
    let e = c.rng.log_f64(0.02, 0.9);
    let p_of = |e: f64| (1.04f64 / e).powi(2).log2().ceil();
    let (e2, hb2, what) = match c.index % 3 {
        0 => {
            let e2 = if c.rng.chance(0.5) { e * 0.45 } else { (e * 2.3).min(0.99) };
            if p_of(e2) == p_of(e) {
                return Ok(());
            }
            (e2, hb, "another precision")
        }
        1 => {
            let mut h = hb;
            if c.rng.chance(0.5) {
                h.k0 ^= 1 << c.rng.below(64);
            } else {
                h.k1 ^= 1 << c.rng.below(64);
            }
            (e, h, "another hash builder")
        }
        _ => {
            let e2 = e * 0.3;
            (e2, HB::good(&mut c.rng), "another precision and hash builder")
        }
    };
    let base = c.rng.u64();
    let ia = item_set(c, base, 1 << 40);
    let ib = item_set(c, base, 1 << 40);
    let (mut a, b) = (build(e, hb, &ia), build(e2, hb2, &ib));
    let (was_a, was_b) = (bytes(&a), bytes(&b));
    let r = c.catch(|| a.merge(&b));
    ensure!(r.is_err(), "merging a sketch with {what} (e {e} and {e2}, {hb:?} and {hb2:?}) did not panic");
    ensure!(bytes(&a) == was_a, "a refused merge ({what}) changed the receiver");
    ensure!(bytes(&b) == was_b, "a refused merge ({what}) changed the argument");
    c.count("refused_merges", 1);
    c.mix(base);
    c.nontrivial();
    Ok(())
}

/// The default builder: equality of seeds decides.
fn default_builder(c: &mut Ctx) -> R {
    use probabilistic_collections::SipHasherBuilder;
    let (k0, k1) = (c.rng.u64(), c.rng.u64());
    let e = c.rng.log_f64(0.02, 0.5);
    let mk = |k0, k1| HyperLogLog::<String>::with_hasher(e, SipHasherBuilder::from_seed(k0, k1));
    let (mut a, mut b) = (mk(k0, k1), mk(k0, k1));
    for i in 0..c.rng.urange(1, 200) {
        a.insert(format!("a{i}").as_str());
        b.insert(format!("b{}", i / 2).as_str());
    }
    let mut all = a.clone();
    all.merge(&b);
    ensure!(all.len() >= a.len() * 0.5, "merge lost items");
    let bit = 1u64 << c.rng.below(64);
    let mut other = if c.rng.chance(0.5) { mk(k0 ^ bit, k1) } else { mk(k0, k1 ^ bit) };
    other.insert("x");
    let was = bincode::serialize(&a).unwrap();
    ensure!(c.catch(|| a.merge(&other)).is_err(), "merging sketches with different SipHasherBuilder seeds did not panic");
    ensure!(bincode::serialize(&a).unwrap() == was, "a refused merge changed the receiver");
    let mut fresh = HyperLogLog::<String>::new(e);
    let fresh2 = HyperLogLog::<String>::new(e);
    ensure!(c.catch(|| fresh.merge(&fresh2)).is_err(), "two sketches with random builders merged");
    let twin = HyperLogLog::<String>::with_hasher(e, *fresh.hasher());
    ensure!(c.catch(|| fresh.merge(&twin)).is_ok(), "a sketch built from hasher() cannot be merged");
    c.count("refused_merges", 2);
    c.mix(k0);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C14",
    rule: "algebra: three random item sets (empty to 150 000 items, overlapping) under any hash builder; order-freeness, merge = union, commutativity, associativity, idempotence, identity, untouched argument, later insertions, each by estimate bits and serialized registers; estimate never lowered with good builders. shards: a stream spread over up to 12 sketches, merged in a random tree with merges on the way, against one sketch. mismatch/default_builder: other precision, other builder (one key bit), both: panic and unchanged receiver. Non-trivial: all three sets have several items, or a merge was refused.",
    kinds: &[
        Kind { name: "algebra", run: algebra, quick: 60_000, thorough: 900_000 },
        Kind { name: "shards", run: shards, quick: 4_000, thorough: 60_000 },
        Kind { name: "mismatch", run: mismatch, quick: 40_000, thorough: 400_000 },
        Kind { name: "default_builder", run: default_builder, quick: 4_000, thorough: 40_000 },
    ],
    floors: &[("sketches_compared", 30_000), ("refused_merges", 2500), ("estimates_ordered", 1000)],
    assumptions: &["two sketches with equal serialized state are equal"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
