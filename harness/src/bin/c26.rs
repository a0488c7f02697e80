//! C26: equality compares sizing, hash builders and contents; debug output works in every state.
use pcverif::subject::Key;
use pcverif::*;
use probabilistic_collections::bloom::BloomFilter;
use probabilistic_collections::cuckoo::CuckooFilter;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::SipHasherBuilder;

type B = BloomFilter<u64, HB>;
type C = CuckooFilter<u64>;

/// All ways to ask.
macro_rules! equal {
    ($c:expr, $a:expr, $b:expr, $want:expr, $($what:tt)+) => {{
        $c.count(if $want { "equal_pairs" } else { "unequal_pairs" }, 1);
        let v = [$a == $b, $b == $a, !($a != $b), !($b != $a)];
        ensure!(v == [$want; 4], "{}: a==b {}, b==a {}, !(a!=b) {}, !(b!=a) {}, expected {}", format!($($what)+), v[0], v[1], v[2], v[3], $want);
    }};
}

/// b's set bits are all set in a: inserting b's items into a copy of a sets no bit.
fn covers(a: &B, items: &[u64]) -> bool {
    let mut x = a.clone();
    for i in items {
        x.insert(i);
    }
    x.count_ones() == a.count_ones()
}

fn bloom(c: &mut Ctx) -> R {
    let hb = if c.rng.chance(0.6) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let m = c.rng.log_range(1, 400);
    let n = c.rng.log_range(1, 60);
    let make = |m: usize, n: usize, hb: [HB; 2]| B::from_item_count_with_hashers(m, n, hb);
    let (mut a, mut b) = (make(m, n, hb), make(m, n, hb));
    equal!(c, a, b, true, "{m} bits for {n} items, {hb:?}: two empty filters");
    let universe = c.rng.log_range(2, 60) as u64;
    let base = c.rng.u64() >> 1;
    let (mut ia, mut ib) = (Vec::new(), Vec::new());
    c.mix(base);
    c.sample(|| format!("{m} bits for {n} items, {hb:?}"));
    for step in 0..c.scale(40, 120) {
        let x = base + c.rng.below(universe);
        match c.rng.below(12) {
            0 => {
                a.clear();
                ia.clear();
                equal!(c, a, make(m, n, hb), true, "{m} bits for {n} items, {hb:?}: a cleared filter and a new one");
            }
            1..=4 => {
                a.insert(&x);
                ia.push(x);
            }
            5..=8 => {
                b.insert(&x);
                ib.push(x);
            }
            9 => {
                a = b.clone();
                ia = ib.clone();
            }
            _ => {
                a.insert(&x);
                b.insert(&x);
                ia.push(x);
                ib.push(x);
            }
        }
        let want = covers(&a, &ib) && covers(&b, &ia);
        equal!(c, a, b, want, "{m} bits for {n} items, {hb:?}, step {step}: filters holding {ia:?} and {ib:?}");
        if want {
            for i in 0..universe {
                ensure!(a.contains(&(base + i)) == b.contains(&(base + i)), "{hb:?}: equal filters answer item {} differently", base + i);
            }
            ensure!(a.count_ones() == b.count_ones() && a.estimated_fpp() == b.estimated_fpp(), "{hb:?}: equal filters count differently");
        }
        ensure!(a == a, "{hb:?}: a filter does not equal itself");
    }
    // copies
    let wire: B = bincode::deserialize(&bincode::serialize(&a).unwrap()).map_err(|e| e.to_string())?;
    let text: B = serde_json::from_str(&serde_json::to_string(&a).unwrap()).map_err(|e| e.to_string())?;
    equal!(c, wire, a, true, "{m} bits for {n} items, {hb:?}: a filter read back from bincode");
    equal!(c, text, a, true, "{m} bits for {n} items, {hb:?}: a filter read back from JSON");
    equal!(c, a.clone(), a, true, "{m} bits for {n} items, {hb:?}: a clone");
    // the order of insertions does not matter
    let mut other = make(m, n, hb);
    let mut shuffled = ia.clone();
    c.rng.shuffle(&mut shuffled);
    for x in &shuffled {
        other.insert(x);
    }
    equal!(c, other, a, true, "{m} bits for {n} items, {hb:?}: the same items in another order");
    // other parameters, same (empty or full) contents
    let (e, k) = (make(m, n, hb), make(m, n, hb).hasher_count());
    equal!(c, e, make(m + 1, n, hb), false, "empty filters of {m} and {} bits for {n} items", m + 1);
    let fewer = make(m, n + 1 + c.rng.idx(3 * n), hb);
    equal!(c, e, fewer, fewer.hasher_count() == k, "empty filters of {m} bits with {k} and {} hash functions", fewer.hasher_count());
    let again = B::with_hashers(1 + c.rng.idx(20), 0.3, hb);
    equal!(c, e, again, again.len() == m && again.hasher_count() == k, "empty filters of {m} and {} bits with {k} and {} hash functions", again.len(), again.hasher_count());
    let third = HB::new(hb[1].kind, hb[1].k0 ^ 1, hb[1].k1);
    for h in [[hb[1], hb[0]], [third, hb[1]], [hb[0], third], [hb[0], hb[0]], [hb[1], hb[1]]] {
        equal!(c, e, make(m, n, h), h == hb, "empty filters of {m} bits with builders {hb:?} and {h:?}");
    }
    // debug output: available, repeatable, alike for equal filters
    let shown = format!("{a:?}");
    ensure!(!shown.is_empty() && format!("{a:?}") == shown && format!("{:?}", a.clone()) == shown, "{hb:?}: debug output of equal filters differs");
    ensure!(!format!("{a:#?}").is_empty(), "{hb:?}: no alternate debug output");
    if !ia.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

fn cuckoo(c: &mut Ctx) -> R {
    let hb = [SipHasherBuilder::from_seed(c.rng.u64(), c.rng.u64()), SipHasherBuilder::from_seed(c.rng.u64(), c.rng.u64())];
    let slots = c.rng.log_range(1, 120);
    let bits = c.rng.urange(2, 64);
    let entries = c.rng.pick(&[1usize, 2, 3, 4, 8]);
    let make = |n: usize, bits: usize, e: usize, hb: [SipHasherBuilder; 2]| C::from_parameters_with_hashers(n, bits, e, hb);
    let mut a = make(slots, bits, entries, hb);
    let what = format!("{slots} slots of {bits} bits, {entries} per bucket, {hb:?}");
    equal!(c, a, make(slots, bits, entries, hb), true, "{what}: two empty filters");
    let base = c.rng.u64() >> 1;
    let universe = 1 + c.rng.below(2 * a.capacity() as u64 + 4);
    c.mix(base);
    c.sample(|| what.clone());
    let mut twin = a.clone();
    let observe = |f: &C| -> Vec<u64> {
        let mut v: Vec<u64> = (0..universe).map(|i| u64::from(f.contains(&(base + i)))).collect();
        v.extend([f.len() as u64, f.extra_items_len() as u64, f.capacity() as u64, f.estimated_fpp().to_bits()]);
        v
    };
    for step in 0..c.scale(50, 150) {
        let x = base + c.rng.below(universe);
        match c.rng.below(16) {
            0 => {
                a.clear();
                twin.clear();
                equal!(c, a, make(slots, bits, entries, hb), true, "{what}: a cleared filter and a new one");
            }
            1..=3 => {
                a.remove(&x);
                twin.remove(&x);
            }
            _ => {
                a.insert(&x);
                twin.insert(&x);
            }
        }
        equal!(c, a, twin, true, "{what}, step {step}: a filter and its clone after the same operations");
        if c.rng.chance(0.2) {
            // one more item or one less
            let mut more = a.clone();
            let y = base + c.rng.below(universe);
            if a.contains(&y) {
                more.remove(&y);
            } else {
                more.insert(&y);
            }
            equal!(c, a, more, false, "{what}, step {step}: filters that differ in item {y} alone ({} and {} items, {} and {} overflowed)", a.len(), more.len(), a.extra_items_len(), more.extra_items_len());
            // two different items added to clones (which may displace or overflow)
            let z = base + c.rng.below(universe);
            if !a.contains(&y) && !a.contains(&z) {
                let mut second = a.clone();
                second.insert(&z);
                let alike = observe(&more) == observe(&second);
                c.count("equal_or_alike", u64::from(alike));
                ensure!(alike || (more != second && second != more), "{what}, step {step}: filters that differ in items {y} and {z} compare equal ({} and {} overflowed)", more.extra_items_len(), second.extra_items_len());
            }
            // other histories: equality has to mean equal answers
            let mut other = make(slots, bits, entries, hb);
            let mut held: Vec<u64> = (0..universe).map(|i| base + i).filter(|x| a.contains(x)).collect();
            c.rng.shuffle(&mut held);
            for x in &held {
                other.insert(x);
            }
            if other == a {
                ensure!(a == other && observe(&a) == observe(&other), "{what}, step {step}: equal filters answer differently");
                c.count("equal_by_other_history", 1);
            }
        }
    }
    if c.rng.chance(0.5) {
        let wire: C = bincode::deserialize(&bincode::serialize(&a).unwrap()).map_err(|e| e.to_string())?;
        equal!(c, wire, a, true, "{what}: a filter read back from bincode");
        let text: C = serde_json::from_str(&serde_json::to_string(&a).unwrap()).map_err(|e| e.to_string())?;
        equal!(c, text, wire, true, "{what}: a filter read back from JSON");
    }
    let mut target = make(3, 5, 2, [hb[1], hb[0]]);
    target.clone_from(&a);
    equal!(c, target, a, true, "{what}: a filter overwritten by clone_from");
    // other parameters
    let e = make(slots, bits, entries, hb);
    let other_bits = 2 + (bits + c.rng.idx(62) - 1) % 63;
    equal!(c, e, make(slots, other_bits, entries, hb), other_bits == bits, "{what}: an empty filter with {other_bits} bits per fingerprint");
    let twice = make(2 * e.capacity(), bits, entries, hb);
    equal!(c, e, twice, false, "{what}: empty filters of {} and {} slots", e.capacity(), twice.capacity());
    let regrouped = make(e.capacity(), bits, 2 * entries, hb);
    equal!(c, e, regrouped, false, "{what}: an empty filter with {} entries per bucket", 2 * entries);
    let third = SipHasherBuilder::from_seed(c.rng.u64(), 1);
    for h in [[hb[1], hb[0]], [third, hb[1]], [hb[0], third]] {
        equal!(c, e, make(slots, bits, entries, h), false, "{what}: an empty filter with builders {h:?}");
    }
    let shown = format!("{a:?}");
    ensure!(!shown.is_empty() && format!("{a:?}") == shown && format!("{:?}", a.clone()) == shown, "{what}: debug output of clones differs");
    if !a.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

/// Filters with more bits, slots and items than 16 bits count that differ in a single item.
fn big(c: &mut Ctx) -> R {
    let hb = HB::good_pair(&mut c.rng);
    let base = c.rng.u64() >> 1;
    let n = c.rng.urange(66_000, 120_000) as u64;
    let (mut a, mut b) = (B::from_item_count_with_hashers(n as usize * 12, n as usize, hb), B::from_item_count_with_hashers(n as usize * 12, n as usize, hb));
    for i in 0..n {
        a.insert(&(base + i));
        b.insert(&(base + n - 1 - i));
    }
    equal!(c, a, b, true, "{hb:?}: {n} items inserted in opposite orders");
    for _ in 0..20 {
        let x = c.rng.u64();
        let mut more = a.clone();
        more.insert(&x);
        equal!(c, more, b, b.contains(&x), "{hb:?}: {n} items with and without item {x}");
    }
    let sip = [SipHasherBuilder::from_seed(c.rng.u64(), c.rng.u64()), SipHasherBuilder::from_seed(c.rng.u64(), c.rng.u64())];
    let bits = c.rng.urange(24, 64);
    let mut f = C::from_parameters_with_hashers(n as usize, bits, 4, sip);
    for i in 0..f.capacity() as u64 / 10 * 9 {
        f.insert(&(base + i));
    }
    equal!(c, f, f.clone(), true, "a cuckoo filter with {} slots of {bits} bits and its clone", f.capacity());
    for _ in 0..20 {
        let mut other = f.clone();
        let x = base + c.rng.below(f.capacity() as u64);
        let had = f.contains(&x);
        if had {
            other.remove(&x);
        } else {
            other.insert(&x);
        }
        equal!(c, other, f, false, "cuckoo filters with {} slots of {bits} bits that differ in item {x}", f.capacity());
    }
    c.mix(base);
    c.nontrivial();
    Ok(())
}

fn builders(c: &mut Ctx) -> R {
    let keys = [0, 1, u64::MAX, c.rng.u64(), c.rng.u64()];
    let pairs: Vec<(u64, u64)> = keys.iter().flat_map(|a| keys.iter().map(move |b| (*a, *b))).collect();
    for p in &pairs {
        for q in &pairs {
            let (a, b) = (SipHasherBuilder::from_seed(p.0, p.1), SipHasherBuilder::from_seed(q.0, q.1));
            equal!(c, a, b, p == q, "builders from {p:?} and {q:?}");
            ensure!((format!("{a:?}") == format!("{b:?}")) == (p == q), "builders from {p:?} and {q:?} show as {a:?} and {b:?}");
        }
        let a = SipHasherBuilder::from_seed(p.0, p.1);
        let b: SipHasherBuilder = bincode::deserialize(&bincode::serialize(&a).unwrap()).map_err(|e| e.to_string())?;
        equal!(c, a, b, true, "the builder from {p:?} read back");
    }
    c.mix(keys[3]);
    c.nontrivial();
    Ok(())
}

/// The quotient filter's debug output names every slot, at every load.
fn debug(c: &mut Ctx) -> R {
    let (q, r) = (c.rng.urange(1, 6) as u8, c.rng.urange(1, 20) as u8);
    let mut f = QuotientFilter::<String>::with_hasher(q, r, SipHasherBuilder::from_seed(c.rng.u64(), 0));
    let mut held = Vec::new();
    for i in 0..c.rng.urange(0, 3 * f.capacity()) {
        let x = String::key(c.rng.u64() >> 1);
        if i % 5 == 4 && !held.is_empty() {
            f.remove(&held.swap_remove(c.rng.idx(held.len())));
        } else if f.len() < f.capacity() {
            f.insert(&x);
            held.push(x);
        }
        let before = bincode::serialize(&f).unwrap();
        let shown = c.catch(|| format!("{f:?}")).map_err(|e| format!("q={q} r={r}, {} items: debug output panics: {e}", f.len()))?;
        ensure!(shown == format!("{f:?}") && format!("{:?}", f.clone()) == shown, "q={q} r={r}: debug output of clones differs");
        ensure!(bincode::serialize(&f).unwrap() == before, "q={q} r={r}: debug output changes the filter");
        c.count("debug_outputs", 1);
    }
    let mut b = BloomFilter::<String>::with_hashers(20, 0.1, [SipHasherBuilder::from_seed(0, 1), SipHasherBuilder::from_seed(2, 3)]);
    b.insert("x");
    let d = format!("{b:?}");
    ensure!(!d.is_empty() && b.contains("x"), "debug output of a BloomFilter");
    c.count("debug_outputs", 1);
    // filters of hardly any bits, or none
    let bits = c.rng.urange(0, 10);
    let hb = [SipHasherBuilder::from_seed(0, 1), SipHasherBuilder::from_seed(2, 3)];
    if let Ok(mut b) = c.catch(|| BloomFilter::<String>::from_fpp_with_hashers(bits, 0.3, hb)) {
        for fill in 0..3 {
            let shown = c.catch(|| (format!("{b:?}"), format!("{b:#?}")));
            let shown = shown.map_err(|e| format!("{bits} bits, {fill} items: debug output panics: {e}"))?;
            ensure!(!shown.0.is_empty() && shown.0 == format!("{:?}", b.clone()), "{bits} bits: debug output of clones differs");
            ensure!(b == b.clone(), "{bits} bits: a clone is unequal");
            c.count("debug_outputs", 1);
            if b.len() > 0 {
                b.insert(&fill.to_string());
            }
        }
    }
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C26",
    rule: "bloom: two filters under random interleaved insertions, clears and cloning; == must hold exactly when inserting the items of each into a copy of the other sets no bit, and then every answer agrees; copies (clone, bincode, JSON, other order) equal; other sizes, hash counts and builders unequal. cuckoo: a filter and its clone under the same history up to overflow equal throughout, one item more or less unequal (also when it differs only in the overflow list), equality from another history implies equal answers, cleared equals new, other parameters unequal. builders: 25x25 seed pairs. debug: output at every load of quotient filters. All of ==, reversed, != asked each time. big: the same on structures and histories beyond 2^16 items, bits or slots. Non-trivial: something is held.",
    kinds: &[
        Kind { name: "bloom", run: bloom, quick: 12_000, thorough: 200_000 },
        Kind { name: "cuckoo", run: cuckoo, quick: 12_000, thorough: 200_000 },
        Kind { name: "big", run: big, quick: 30, thorough: 400 },
        Kind { name: "builders", run: builders, quick: 60, thorough: 600 },
        Kind { name: "debug", run: debug, quick: 1_500, thorough: 20_000 },
    ],
    floors: &[("equal_pairs", 200_000), ("unequal_pairs", 100_000), ("debug_outputs", 10_000)],
    assumptions: &["none beyond the public API"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
