//! C02: a cuckoo filter is an exact set up to indistinguishable items, also when it overflows.
use pcverif::subject::{Op, Spec, Subject, Ty};
use pcverif::*;
use std::collections::HashSet;

/// The class of every item of the universe: two items are in the same class if a fresh identical
/// filter holding only the one reports the other. Also checks that this is an equivalence.
fn classes(c: &mut Ctx, s: &Spec, universe: &[u64]) -> Result<Vec<usize>, String> {
    let mut reps: Vec<(usize, Box<dyn Subject>)> = Vec::new();
    let mut class = Vec::with_capacity(universe.len());
    for (i, x) in universe.iter().enumerate() {
        let mut f = s.build();
        ensure!(!f.has(*x), "{s:?}: an empty filter reports item {x}");
        f.apply(&Op::Insert(*x, 1));
        ensure!(f.has(*x), "{s:?}: item {x} is not reported after its insertion into an empty filter");
        let mut found = None;
        for (id, rep) in reps.iter_mut() {
            let forth = rep.has(*x);
            let back = f.has(universe[*id]);
            ensure!(
                forth == back,
                "{s:?}: items {x} and {} are confused in one direction only",
                universe[*id]
            );
            if forth {
                ensure!(found.is_none(), "{s:?}: item {x} is confused with two items that are told apart");
                found = Some(*id);
            }
        }
        c.tick();
        match found {
            Some(id) => class.push(id),
            None => {
                class.push(i);
                reps.push((i, f));
            }
        }
    }
    c.count("alias_pairs_probed", (universe.len() * reps.len()) as u64);
    Ok(class)
}

fn small(c: &mut Ctx) -> R {
    let hb = if c.rng.chance(0.55) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let mut s = Spec::random(&mut c.rng, Ty::Cuckoo, hb);
    s.n = c.rng.log_range(1, 60);
    if c.rng.chance(0.6) {
        s.ctor = 1;
        // Widths from 2 bits (half the items confused) to 64 come from n and m; vary them.
        s.n = c.rng.log_range(1, 80);
        s.m = c.rng.pick(&[1, 1, 2, 3, 4, 4, 5, 8, 16]);
    }
    let probe = s.build().facts();
    let size = ((probe.capacity as f64 * c.rng.log_f64(0.3, 4.0)) as usize).clamp(3, 120);
    let base = if c.rng.chance(0.5) { c.rng.u64() >> 2 } else { 0 };
    let stride = c.rng.pick(&[1u64, 1, 1 << 8, 1 << 32]);
    let universe: Vec<u64> = (0..size as u64).map(|i| base.wrapping_add(i * stride) >> 1).collect();
    let universe: Vec<u64> = {
        let mut seen = HashSet::new();
        universe.into_iter().filter(|x| seen.insert(*x)).collect()
    };
    let class = classes(c, &s, &universe)?;
    c.sample(|| format!("{s:?} universe={} capacity={}", universe.len(), probe.capacity));
    c.mix(base ^ s.n as u64 ^ (s.m as u64) << 16 ^ (universe.len() as u64) << 32);
    let mut f = s.build();
    let mut held: HashSet<usize> = HashSet::new();
    let len = c.rng.urange(20, 300);
    let (mut p_insert, mut until) = (0.9, 0);
    let mut overflowed = false;
    for step in 0..len {
        if step >= until {
            p_insert = c.rng.pick(&[0.95, 0.9, 0.5, 0.3, 0.05]);
            until = step + c.rng.urange(5, 80);
        }
        let i = c.rng.idx(universe.len());
        let x = universe[i];
        if c.rng.chance(p_insert) {
            f.apply(&Op::Insert(x, 1));
            held.insert(class[i]);
            c.log(|| format!("insert {x} (class {})", class[i]));
        } else if c.rng.chance(0.01) {
            f.apply(&Op::Clear);
            held.clear();
            c.log(|| "clear".to_string());
        } else {
            f.apply(&Op::Remove(x, 1));
            if !held.remove(&class[i]) {
                c.count("absent_removals", 1);
            }
            c.log(|| format!("remove {x} (class {})", class[i]));
        }
        let facts = f.facts();
        ensure!(
            facts.len + facts.extra == held.len(),
            "{s:?}: len()={} + extra_items_len()={} but {} distinguishable items are held (step {step})",
            facts.len,
            facts.extra,
            held.len()
        );
        ensure!(facts.empty == (facts.len == 0), "{s:?}: is_empty()={} with len()={}", facts.empty, facts.len);
        ensure!(
            facts.nearly_full == (facts.extra > 0),
            "{s:?}: is_nearly_full()={} with {} extra items",
            facts.nearly_full,
            facts.extra
        );
        ensure!(facts.len <= facts.capacity, "{s:?}: len()={} exceeds capacity()={}", facts.len, facts.capacity);
        if facts.extra > 0 {
            overflowed = true;
            c.count("overflowed_states", 1);
        }
        for (j, y) in universe.iter().enumerate() {
            let (got, want) = (f.has(*y), held.contains(&class[j]));
            ensure!(
                got == want,
                "{s:?}: contains({y})={got} but an indistinguishable item is{} held, after step {step} on item {x} ({} held, {} extra)",
                if want { "" } else { " not" },
                held.len(),
                facts.extra
            );
        }
        c.count("membership_answers_checked", universe.len() as u64);
    }
    if class.iter().enumerate().any(|(i, k)| i != *k) {
        c.count("cases_with_confused_items", 1);
    }
    if overflowed {
        c.count("cases_overflowing", 1);
    }
    c.nontrivial();
    Ok(())
}

/// Wide fingerprints: no confusion at all, so the filter must be an exact set at any size.
fn wide(c: &mut Ctx) -> R {
    let n = c.rng.log_range(10, 12_000);
    exact(c, n)
}

/// The same with more items and buckets than 16 bits count.
fn big(c: &mut Ctx) -> R {
    let n = c.rng.log_range(66_000, 150_000);
    exact(c, n)
}

fn exact(c: &mut Ctx, n: usize) -> R {
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, Ty::Cuckoo, hb);
    s.key = c.rng.pick(&[0, 0, 1, 3]);
    s.ctor = 3;
    s.fpp = c.rng.log_f64(1e-15, 1e-13);
    s.m = c.rng.pick(&[1, 2, 4, 4, 8]);
    s.n = n;
    let mut f = s.build();
    let cap = f.facts().capacity;
    let fp_bits = f.facts().fp_bits;
    ensure!(fp_bits >= 40, "{s:?}: only {fp_bits} fingerprint bits for fpp {}", s.fpp);
    let base = c.rng.u64() >> 2;
    let mut held: Vec<u64> = Vec::new();
    let mut removed: Vec<u64> = Vec::new();
    let mut next = base;
    let load = if n < 60_000 {
        c.rng.pick(&[0.5, 0.9, 0.97, 1.0, 1.05, 1.2])
    } else {
        // extra items are searched linearly: keep them few
        match s.m {
            1 => 0.5,
            2 => c.rng.pick(&[0.8, 0.9]),
            _ => c.rng.pick(&[0.9, 0.97, 1.0]),
        }
    };
    let target = (cap as f64 * load) as usize;
    c.sample(|| format!("{s:?} capacity={cap} target={target}"));
    c.mix(base ^ cap as u64);
    for round in 0..4 {
        while held.len() < target {
            let x = if !removed.is_empty() && c.rng.chance(0.3) {
                let i = c.rng.idx(removed.len());
                removed.swap_remove(i)
            } else {
                next += 1;
                next
            };
            f.apply(&Op::Insert(x, 1));
            held.push(x);
            c.tick();
        }
        for (list, want) in [(&held, true), (&removed, false)] {
            for x in list {
                ensure!(f.has(*x) == want, "{s:?}: contains({x})={} in round {round}, {} of {cap} held", !want, held.len());
            }
            c.count("membership_answers_checked", list.len() as u64);
        }
        let facts = f.facts();
        ensure!(
            facts.len + facts.extra == held.len(),
            "{s:?}: len {} + extra {} but {} items held",
            facts.len,
            facts.extra,
            held.len()
        );
        if facts.extra > 0 {
            c.count("overflowed_states", 1);
        }
        c.max("max_extra_items", facts.extra as u64);
        let keep = c.rng.pick(&[0.0, 0.3, 0.8]);
        c.rng.shuffle(&mut held);
        let k = (held.len() as f64 * keep) as usize;
        for x in held.drain(k..) {
            f.apply(&Op::Remove(x, 1));
            removed.push(x);
        }
        let absent = c.rng.u64() >> 1;
        f.apply(&Op::Remove(absent, 1));
        let facts = f.facts();
        ensure!(
            facts.len + facts.extra == held.len(),
            "{s:?}: after removals len {} + extra {} but {} items held",
            facts.len,
            facts.extra,
            held.len()
        );
        for x in &held {
            ensure!(f.has(*x), "{s:?}: item {x} disappeared while others were removed");
        }
        for x in &removed {
            ensure!(!f.has(*x), "{s:?}: removed item {x} is still reported");
        }
        c.count("membership_answers_checked", (held.len() + removed.len()) as u64);
        c.tick();
    }
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C02",
    rule: "A case compares a cuckoo filter with the set of classes held. small: classes of a universe of up to 120 items found by probing fresh single-item filters, random insert/remove/clear history with load up to 4x, every item asked and len()+extra_items_len() compared after every step, half of the hash builders hostile. wide: fingerprints of 40+ bits, tables up to 12000 items (big: up to 150 000), exact set model over fill/drain rounds. Non-trivial: the history ran.",
    kinds: &[
        Kind { name: "small", run: small, quick: 20000, thorough: 300_000 },
        Kind { name: "big", run: big, quick: 14, thorough: 400 },
        Kind { name: "wide", run: wide, quick: 800, thorough: 10_000 },
    ],
    floors: &[("membership_answers_checked", 1_000_000), ("overflowed_states", 1000), ("cases_with_confused_items", 100), ("absent_removals", 1000)],
    assumptions: &["wide: no two items share a 40+ bit fingerprint and bucket pair (chance below 1e-5 per case); a coincidence would need to hit the fixed seed"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
