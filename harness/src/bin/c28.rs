//! C28: cuckoo filters keep their displacement promise: they fill far before they overflow, and stay
//! usable at that load.
use pcverif::stats::too_many;
use pcverif::*;
use probabilistic_collections::cuckoo::CuckooFilter;

type F = CuckooFilter<u64, HB>;

/// Share of slots that a filter of this bucket size fills before it overflows, with a margin.
fn threshold(entries: usize) -> f64 {
    match entries {
        1 => 0.36,
        2 => 0.78,
        3 => 0.88,
        4 => 0.93,
        5 | 6 => 0.945,
        _ => 0.96,
    }
}

fn make(c: &mut Ctx, entries: usize, bits: usize, buckets: usize) -> F {
    let items = buckets * entries - c.rng.idx(entries);
    F::from_parameters_with_hashers(items, bits, entries, HB::good_pair(&mut c.rng))
}

fn design(c: &mut Ctx) -> (usize, usize, usize) {
    let entries = c.rng.pick(&[1, 2, 2, 3, 4, 4, 4, 5, 6, 8, 16]);
    let buckets = 1usize << c.rng.range(8, 11);
    let bits = c.rng.urange(13, 65);
    (entries, bits.min(64), buckets)
}

/// Fills fresh filters until the first overflow.
fn fill(c: &mut Ctx) -> R {
    let (entries, bits, buckets) = design(c);
    let trials = c.scale(48, 300);
    let slots = buckets * entries;
    let limit = threshold(entries);
    c.sample(|| format!("{buckets} buckets of {entries} entries of {bits} bits, {trials} filters"));
    c.mix((slots * 64 + bits) as u64);
    let (mut early, mut sum, mut least) = (0, 0.0, f64::MAX);
    for _ in 0..trials {
        let mut f = make(c, entries, bits, buckets);
        ensure!(f.capacity() == slots, "{} slots instead of {slots}", f.capacity());
        let base = c.rng.u64() >> 2;
        let mut i = 0;
        while f.extra_items_len() == 0 {
            ensure!(f.len() <= slots && i <= 4 * slots as u64, "no overflow after {i} items in {slots} slots");
            f.insert(&(base + i));
            i += 1;
            if i % 1024 == 0 {
                c.tick();
            }
        }
        ensure!(f.is_nearly_full(), "{i} items, an extra item, but not nearly full");
        let load = f.len() as f64 / slots as f64;
        sum += load;
        least = least.min(load);
        early += u64::from(load < limit);
        c.count("items_inserted", i);
        c.count("filters_filled", 1);
    }
    let mean = sum / trials as f64;
    c.max(
        match entries {
            1 => "max_mean_load_1_ppm",
            2 => "max_mean_load_2_ppm",
            4 => "max_mean_load_4_ppm",
            _ => "max_mean_load_other_ppm",
        },
        (mean * 1e6) as u64,
    );
    c.log(|| format!("entries {entries} bits {bits} buckets {buckets}: mean {mean:.3} least {least:.3} early {early}"));
    ensure!(
        !too_many(early, trials as u64, 0.05),
        "{buckets} buckets of {entries} entries of {bits} bits: {early} of {trials} filters overflow below a load of {limit} (on average at {mean:.3})"
    );
    c.nontrivial();
    Ok(())
}

/// Holds a load a little below that, replacing items many times over.
fn churn(c: &mut Ctx) -> R {
    let (entries, bits, buckets) = design(c);
    let trials = c.scale(12, 48);
    let slots = buckets * entries;
    let load = if entries == 1 { 0.2 } else { threshold(entries) * 0.95 };
    let keep = (slots as f64 * load) as usize;
    c.sample(|| format!("{buckets} buckets of {entries} entries of {bits} bits, {keep} of {slots} kept, {trials} filters"));
    c.mix((slots * 64 + bits) as u64);
    let mut over = 0;
    for _ in 0..trials {
        let mut f = make(c, entries, bits, buckets);
        let base = c.rng.u64() >> 2;
        let mut held: Vec<u64> = Vec::with_capacity(keep);
        let mut next = base;
        while held.len() < keep {
            if !f.contains(&next) {
                f.insert(&next);
                held.push(next);
            }
            next += 1;
        }
        let mut extras = usize::from(f.extra_items_len() > 0);
        for step in 0..slots * 3 {
            let at = c.rng.idx(keep);
            let gone = std::mem::replace(&mut held[at], next);
            f.remove(&gone);
            // An item that cannot be told from a held one would not be stored a second time.
            while f.contains(&next) {
                next += 1;
                held[at] = next;
            }
            f.insert(&next);
            next += 1;
            if f.extra_items_len() > 0 {
                extras = 1;
            }
            if step % 1024 == 0 {
                c.tick();
            }
        }
        for x in &held {
            ensure!(f.contains(x), "item {x} is lost");
        }
        ensure!(f.len() + f.extra_items_len() == keep, "{keep} items held, {} + {} stored", f.len(), f.extra_items_len());
        over += extras as u64;
        c.count("items_replaced", 3 * slots as u64);
        c.count("filters_churned", 1);
    }
    c.log(|| format!("entries {entries} bits {bits} buckets {buckets}: {over} of {trials}"));
    ensure!(
        !too_many(over, trials as u64, 0.05),
        "{buckets} buckets of {entries} entries of {bits} bits: {over} of {trials} filters overflow while holding {keep} items in {slots} slots"
    );
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C28",
    rule: "fill: fresh filters are filled until their first extra item; too many of them (Chernoff bound of e^-34 at 5 percent) below the load that cuckoo hashing with this bucket size reaches is a violation (0.36, 0.78, 0.88, 0.93, 0.945, 0.96 of the slots for 1, 2, 3, 4, 5-6, 8+ entries; measured means are 0.53, 0.89, .., 0.97, 0.98, 0.99). churn: filters held just below that load while every item is replaced several times; they must not overflow and must keep every held item. Non-trivial: filled to the load",
    kinds: &[
        Kind { name: "fill", run: fill, quick: 500, thorough: 6000 },
        Kind { name: "churn", run: churn, quick: 400, thorough: 6000 },
    ],
    floors: &[("filters_filled", 500), ("filters_churned", 200), ("items_replaced", 1_000_000)],
    assumptions: &["hash builders: std SipHash, the library's SipHash and a finalized FNV with independent random keys"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
