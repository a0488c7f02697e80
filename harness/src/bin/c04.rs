//! C04: a quotient filter is exactly the set of stored fingerprints.
use pcverif::subject::Key;
use pcverif::*;
use probabilistic_collections::quotient::QuotientFilter;
use std::collections::{BTreeSet, HashMap, HashSet};

type F = QuotientFilter<u64, HB>;

fn ident() -> HB {
    HB::new(pcverif::hashers::IDENT, 0, 0)
}

/// Every state reachable by inserts and removes of a tiny table, with every operation from each.
fn exhaust(c: &mut Ctx, q: u8, r: u8, limit: usize) -> R {
    let fps = 1u64 << (q + r);
    let cap = 1usize << q;
    let empty = F::with_hasher(q, r, ident());
    // Keyed by serialized state, so different layouts of one set count as different states.
    let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
    let mut queue: Vec<(F, u64)> = Vec::new();
    seen.insert(bincode::serialize(&empty).unwrap(), ());
    queue.push((empty, 0));
    let mut i = 0;
    while i < queue.len() {
        let (f, set) = queue[i].clone();
        i += 1;
        for x in 0..fps {
            for insert in [true, false] {
                let has = set >> x & 1 == 1;
                if insert && !has && set.count_ones() as usize == cap {
                    continue;
                }
                let mut g = f.clone();
                // High bits beyond the fingerprint must not matter.
                let item = x | if (x ^ i as u64) & 1 == 1 { 0xABCD << 48 } else { 0 };
                let want = if insert {
                    g.insert(&item);
                    set | 1 << x
                } else {
                    g.remove(&item);
                    set & !(1 << x)
                };
                let op = if insert { "insert" } else { "remove" };
                ensure!(
                    g.len() == want.count_ones() as usize,
                    "q={q} r={r}: len()={} after {op} {x} on set {set:#b}, expected {}",
                    g.len(),
                    want.count_ones()
                );
                for y in 0..fps {
                    let got = g.contains(&y);
                    ensure!(
                        got == (want >> y & 1 == 1),
                        "q={q} r={r}: contains({y})={got} after {op} {x} on set {set:#b}"
                    );
                }
                c.count("transitions", 1);
                let key = bincode::serialize(&g).unwrap();
                if seen.len() < limit && seen.insert(key, ()).is_none() {
                    queue.push((g, want));
                }
            }
        }
    }
    c.count("membership_answers_checked", 0);
    c.count("states", seen.len() as u64);
    if seen.len() < limit {
        c.count("tables_enumerated_completely", 1);
    }
    c.mix((u64::from(q) << 8) | u64::from(r));
    c.sample(|| format!("q={q} r={r}: {} states", seen.len()));
    c.nontrivial();
    Ok(())
}

fn tiny(c: &mut Ctx) -> R {
    let tables: [(u8, u8); 9] = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (3, 1), (2, 3), (1, 5)];
    let (q, r) = tables[c.index % tables.len()];
    exhaust(c, q, r, 60_000)
}

struct Model {
    q: u8,
    r: u8,
    mask: u64,
    set: HashSet<u64>,
}

fn check(f: &QuotientFilter<u64, HB>, m: &Model, items: &[u64], hb: &HB, what: &dyn Fn() -> String) -> R {
    for x in items {
        let fp = hb.hash_one_u64(*x) & m.mask;
        let (got, want) = (f.contains(x), m.set.contains(&fp));
        ensure!(
            got == want,
            "q={} r={} {hb:?}: contains({x})={got} but fingerprint {fp:#x} is{} stored; {}",
            m.q,
            m.r,
            if want { "" } else { " not" },
            what()
        );
    }
    Ok(())
}

/// Random histories on tables of any width, through every load up to completely full.
fn random(c: &mut Ctx) -> R {
    let q = c.rng.range(1, 10) as u8;
    let max_r = (64 - q).min(61);
    let r = match c.rng.below(4) {
        0 => c.rng.range(1, 3) as u8,
        1 => max_r,
        2 => c.rng.range(1, u64::from(max_r)) as u8,
        _ => c.rng.range(1, u64::from(max_r.min(16))) as u8,
    };
    let hb = match c.rng.below(5) {
        0 | 1 => ident(),
        2 => HB::good(&mut c.rng),
        3 => HB::new(pcverif::hashers::WEAK, c.rng.u64(), c.rng.range(1, u64::from(q) + 4)),
        _ => HB::any(&mut c.rng),
    };
    let mut f = F::with_hasher(q, r, hb);
    let cap = 1usize << q;
    ensure!(f.capacity() == cap, "q={q}: capacity()={}", f.capacity());
    let bits = u32::from(q) + u32::from(r);
    let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    // Items are drawn around one region of the table so that runs and clusters form and wrap.
    let hot = c.rng.below(cap as u64);
    let spread = c.rng.pick(&[1u64, 2, 4, 16, cap as u64]).min(cap as u64);
    let rems = c.rng.pick(&[1u64, 2, 3, 8, u64::MAX]);
    let raw = c.rng.u64();
    let draw = |g: &mut Rng| -> u64 {
        let quot = (hot + g.below(spread)) % cap as u64;
        let lim = if r >= 63 { u64::MAX } else { 1u64 << r };
        let rem = match g.below(3) {
            0 => g.below(rems.min(lim)),
            1 => lim - 1 - g.below(rems.min(lim)),
            _ => g.below(lim),
        };
        let high = if bits >= 64 { 0 } else { (raw & g.u64()) << bits };
        (quot << r) | rem | high
    };
    let mut m = Model { q, r, mask, set: HashSet::new() };
    let mut known: Vec<u64> = Vec::new();
    let steps = if q <= 5 { 400 } else { c.rng.urange(500, 5 * cap + 500) };
    let (mut p, mut until) = (0.95, 0);
    let mut full = 0;
    c.sample(|| format!("q={q} r={r} {hb:?} steps={steps} spread={spread}"));
    c.mix(u64::from(q) ^ u64::from(r) << 8 ^ raw);
    for step in 0..steps {
        if step >= until {
            p = c.rng.pick(&[1.0, 0.97, 0.8, 0.5, 0.2, 0.0]);
            until = step + c.rng.urange(3, 2 * cap + 10);
        }
        let x = if !known.is_empty() && c.rng.chance(0.4) { known[c.rng.idx(known.len())] } else { draw(&mut c.rng) };
        let fp = hb.hash_one_u64(x) & mask;
        if c.rng.chance(p) {
            if m.set.len() == cap && !m.set.contains(&fp) {
                full += 1;
                continue; // documented panic
            }
            f.insert(&x);
            m.set.insert(fp);
            if known.len() < 4 * cap {
                known.push(x);
            }
            c.log(|| format!("insert {x:#x}"));
        } else if c.rng.chance(0.002) {
            f.clear();
            m.set.clear();
            c.log(|| "clear".into());
        } else {
            f.remove(&x);
            m.set.remove(&fp);
            c.log(|| format!("remove {x:#x}"));
        }
        ensure!(
            f.len() == m.set.len(),
            "q={q} r={r} {hb:?}: len()={} but {} fingerprints are stored (step {step}, item {x:#x})",
            f.len(),
            m.set.len()
        );
        let some: Vec<u64> = (0..6)
            .map(|_| if known.is_empty() || c.rng.chance(0.3) { draw(&mut c.rng) } else { known[c.rng.idx(known.len())] })
            .chain([x])
            .collect();
        check(&f, &m, &some, &hb, &|| format!("step {step}, last item {x:#x}, {} stored", m.set.len()))?;
        c.count("membership_answers_checked", 7);
        if q <= 5 || step % (cap / 4) == 0 {
            check(&f, &m, &known, &hb, &|| format!("step {step}, last item {x:#x}, {} stored", m.set.len()))?;
            c.count("membership_answers_checked", known.len() as u64);
        }
        ensure!(f.is_empty() == m.set.is_empty(), "q={q} r={r} {hb:?}: is_empty()={} with len()={}", f.is_empty(), f.len());
        if m.set.len() == cap {
            c.count("states_completely_full", 1);
        }
    }
    c.count("insertions_refused_when_full", full);
    check(&f, &m, &known, &hb, &|| "at the end".into())?;
    // Drain: everything must come out again.
    c.rng.shuffle(&mut known);
    for (i, x) in known.iter().enumerate() {
        f.remove(x);
        m.set.remove(&(hb.hash_one_u64(*x) & mask));
        if i % 7 == 0 {
            check(&f, &m, &[*x, known[c.rng.idx(known.len())]], &hb, &|| format!("draining, {} left", m.set.len()))?;
        }
    }
    ensure!(f.len() == m.set.len(), "q={q} r={r} {hb:?}: len()={} after draining, {} expected", f.len(), m.set.len());
    c.nontrivial();
    Ok(())
}

/// Larger tables and the sized constructor, other item types.
fn large(c: &mut Ctx) -> R {
    let hb = HB::good(&mut c.rng);
    let capacity = if c.index % 4 == 0 { c.rng.log_range(60_000, 280_000) } else { c.rng.log_range(2000, 60_000) };
    let fpp = c.rng.log_f64(1e-7, 0.2);
    let mut f = QuotientFilter::<String, HB>::from_fpp_with_hasher(capacity, fpp, hb);
    let bits = u32::from(f.quotient_bits()) + u32::from(f.remainder_bits());
    let mask = (1u64 << bits) - 1;
    let fill = c.rng.pick(&[0.3, 0.7, 0.9, 0.97]);
    let n = (f.capacity() as f64 * fill) as u64;
    let hash = |s: &String| {
        use std::hash::{BuildHasher, Hash, Hasher};
        let mut h = hb.build_hasher();
        s.hash(&mut h);
        h.finish() & mask
    };
    let mut set = HashSet::new();
    let base = c.rng.u64() >> 2;
    c.sample(|| format!("capacity={capacity} fpp={fpp} n={n} {hb:?}"));
    c.mix(base);
    for i in 0..n {
        let k = String::key(base + i);
        f.insert(&k);
        set.insert(hash(&k));
        c.tick();
    }
    ensure!(f.len() == set.len(), "{hb:?} capacity {capacity} fpp {fpp}: len()={} but {} fingerprints", f.len(), set.len());
    for i in 0..n {
        if c.rng.chance(0.5) {
            let k = String::key(base + i);
            f.remove(&k);
            set.remove(&hash(&k));
        }
        if i % 64 == 0 {
            c.tick();
        }
    }
    ensure!(f.len() == set.len(), "{hb:?} capacity {capacity} fpp {fpp}: len()={} after removals but {} fingerprints", f.len(), set.len());
    for i in 0..2 * n {
        let k = String::key(base + i);
        let (got, want) = (f.contains(&k), set.contains(&hash(&k)));
        ensure!(got == want, "{hb:?} capacity {capacity} fpp {fpp}: contains({k:?})={got}, expected {want}");
    }
    c.count("membership_answers_checked", 2 * n);
    c.nontrivial();
    Ok(())
}

/// Clusters of more than 2^16 runs, built from the far end so that every slot but the last shift is cheap.
fn chain(c: &mut Ctx) -> R {
    let hb = HB::new(hashers::IDENT, c.rng.u64(), c.rng.u64());
    let q = c.rng.range(16, 18) as u8;
    let r = c.rng.range(2, 40) as u8;
    let slots = 1u64 << q;
    let n = if c.rng.chance(0.3) { slots - c.rng.range(1, 4) } else { c.rng.range(slots / 2, slots - 10).max(65_500) };
    let start = c.rng.below(slots);
    let spread = 1u64 << r.min(6);
    let mut f = QuotientFilter::<u64, HB>::with_hasher(q, r, hb);
    let mut set = BTreeSet::new();
    let item = |i: u64, rem: u64| ((start + i) % slots) << r | rem;
    for i in (0..n).rev() {
        let x = item(i, c.rng.below(spread));
        f.insert(&x);
        set.insert(x);
        if i % 1024 == 0 {
            c.tick();
        }
    }
    let what = format!("q={q} r={r}: a cluster of {n} runs from slot {start}");
    for step in 0..c.scale(60, 200) as u64 {
        // the first step shifts the whole cluster
        let i = match c.rng.below(4) {
            _ if step < 2 => 0,
            0 => c.rng.below(10),
            1 => n - 1 - c.rng.below(10),
            _ => c.rng.below(n),
        };
        let x = item(i, c.rng.below(spread));
        if set.contains(&x) && step > 8 && c.rng.chance(0.6) {
            f.remove(&x);
            set.remove(&x);
        } else if f.len() < f.capacity() {
            f.insert(&x);
            set.insert(x);
        }
        ensure!(f.len() == set.len(), "{what}: len()={} after {step} more steps, {} fingerprints are held", f.len(), set.len());
        let asked = [x, item(c.rng.below(n), c.rng.below(spread)), item(i + 1, c.rng.below(spread)), item(n - 1 - c.rng.below(n / 8), c.rng.below(spread))];
        for y in asked {
            ensure!(f.contains(&y) == set.contains(&y), "{what}: contains({y:#x})={} after {step} more steps", f.contains(&y));
        }
        c.count("membership_answers_checked", 4);
        c.tick();
    }
    if n > 65_536 {
        c.count("clusters_beyond_16_bits", 1);
    }
    c.mix(start);
    c.sample(|| what.clone());
    c.nontrivial();
    Ok(())
}

/// Tables of up to 2^23 slots with few items: fingerprints that differ in one bit are different items.
fn wide(c: &mut Ctx) -> R {
    let hb = HB::new(hashers::IDENT, c.rng.u64(), c.rng.u64());
    let q = c.rng.range(8, 23) as u8;
    let r = c.rng.range(1, 61.min(64 - u64::from(q))) as u8;
    let bits = u32::from(q) + u32::from(r);
    let mask = if bits == 64 { !0 } else { (1u64 << bits) - 1 };
    let mut f = QuotientFilter::<u64, HB>::with_hasher(q, r, hb);
    let n = c.rng.urange(20, 300).min(f.capacity() / 4);
    c.sample(|| format!("q={q} r={r} n={n}"));
    let (mut set, mut last) = (BTreeSet::new(), 0);
    for _ in 0..n {
        let x = match c.rng.below(4) {
            0 => c.rng.u64() >> c.rng.below(64) << c.rng.below(64),
            1 => last ^ (1 << c.rng.below(u64::from(bits))),
            _ => c.rng.u64(),
        };
        last = x;
        c.mix(x);
        f.insert(&x);
        set.insert(x & mask);
    }
    for round in 0..2 {
        ensure!(f.len() == set.len(), "q={q} r={r}: len()={} but {} fingerprints", f.len(), set.len());
        for x in &set {
            ensure!(f.contains(x), "q={q} r={r}: {x:#x} is not reported");
            for bit in 0..bits {
                let y = x ^ (1 << bit);
                let want = set.contains(&y);
                ensure!(f.contains(&y) == want, "q={q} r={r}: contains({y:#x})={}, expected {want}; {x:#x} is held", !want);
            }
            c.count("membership_answers_checked", 1 + u64::from(bits));
        }
        if round == 0 {
            let gone: Vec<u64> = set.iter().copied().filter(|_| c.rng.chance(0.5)).collect();
            for x in gone {
                f.remove(&x);
                set.remove(&x);
            }
        }
    }
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C04",
    rule: "tiny: all states reachable on tables of up to 4 quotient and remainder bits, every insert and remove from each, every fingerprint asked (up to 60000 states per table). random: histories with drifting insert/remove balance on tables of 1..10 quotient bits and remainders up to 61 bits, items drawn so that runs and wrapping clusters form, good, identity, weak and constant hashes, compared with a set of hash suffixes after every step. wide: few items in tables of up to 2^23 slots, every fingerprint one bit away asked. chain: one cluster of up to 2^18 runs, wrapping and up to completely full, changed at both ends and in between. large: up to 280 000 strings. Non-trivial: the history ran.",
    kinds: &[
        Kind { name: "tiny", run: tiny, quick: 9, thorough: 9 },
        Kind { name: "random", run: random, quick: 20000, thorough: 300_000 },
        Kind { name: "wide", run: wide, quick: 400, thorough: 8000 },
        Kind { name: "chain", run: chain, quick: 24, thorough: 400 },
        Kind { name: "large", run: large, quick: 40, thorough: 600 },
    ],
    floors: &[("transitions", 100_000), ("membership_answers_checked", 1_000_000), ("states_completely_full", 1000), ("clusters_beyond_16_bits", 8)],
    assumptions: &["remainder_bits up to 61 (wider ones are the known finding of C23)"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
