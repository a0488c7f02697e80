//! C03: the scalable cuckoo filter keeps membership and removals across growth.
use pcverif::subject::{Key, Op, Spec, Ty, GROWN_ENOUGH};
use pcverif::*;
use probabilistic_collections::cuckoo::CuckooFilter;
use std::collections::{HashMap, HashSet};

/// One level: classes of items that it cannot tell apart, found by probing single-item filters of
/// the same sizing, and the classes it holds.
struct Level<K> {
    make: Box<dyn Fn() -> CuckooFilter<K, HB>>,
    reps: Vec<CuckooFilter<K, HB>>,
    class: HashMap<u64, usize>,
    held: HashSet<usize>,
    capacity: usize,
}

impl<K: Key> Level<K> {
    fn new(capacity: usize, fpp: f64, entries: usize, hb: [HB; 2]) -> Self {
        Level {
            make: Box::new(move || {
                CuckooFilter::from_entries_per_index_with_hashers(capacity, fpp, entries, hb)
            }),
            reps: Vec::new(),
            class: HashMap::new(),
            held: HashSet::new(),
            capacity,
        }
    }
    fn class(&mut self, x: u64) -> usize {
        if let Some(k) = self.class.get(&x) {
            return *k;
        }
        let k = match self.reps.iter().position(|f| f.contains(&K::key(x))) {
            Some(k) => k,
            None => {
                let mut f = (self.make)();
                f.insert(&K::key(x));
                self.reps.push(f);
                self.reps.len() - 1
            }
        };
        self.class.insert(x, k);
        k
    }
    fn has(&mut self, x: u64) -> bool {
        let k = self.class(x);
        self.held.contains(&k)
    }
}

fn narrow(c: &mut Ctx) -> R {
    narrow_as::<u64>(c)
}
fn narrow_strings(c: &mut Ctx) -> R {
    narrow_as::<String>(c)
}

fn narrow_as<K: Key>(c: &mut Ctx) -> R {
    let hb = if c.rng.chance(0.6) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let mut s = Spec::random(&mut c.rng, Ty::ScalableCuckoo, hb);
    s.key = if std::any::TypeId::of::<K>() == std::any::TypeId::of::<u64>() { 0 } else { 1 };
    s.n = c.rng.log_range(1, 24);
    s.ctor = c.rng.pick(&[0, 2, 2]);
    s.fpp = c.rng.log_f64(0.001, 0.6);
    s.growth = c.rng.pick(&[1.0, 1.0, 1.5, 2.0, 2.0, 3.0]);
    s.tight = c.rng.pick(&[0.5, 0.8, 0.9, 1.0]);
    if !hb.iter().all(|h| matches!(h.kind, hashers::SIP | hashers::LIB | hashers::FNV)) {
        // Items that share their buckets overflow every level; do not let the sizes explode.
        s.growth = c.rng.pick(&[1.0, 1.0, 1.2]);
    }
    let mut f = s.build();
    let entries = f.facts().entries;
    let size = c.rng.urange(4, 90) as u64;
    let base = if c.rng.chance(0.5) { c.rng.u64() >> 2 } else { 0 };
    let mut levels: Vec<Level<K>> = vec![Level::new(f.facts().capacity, s.fpp, entries, s.hb)];
    let steps = c.rng.urange(20, 250);
    let (mut p, mut until) = (0.95, 0);
    c.sample(|| format!("{s:?} universe={size} steps={steps}"));
    c.mix(base ^ size ^ s.fpp.to_bits());
    let mut total_cap = f.facts().capacity;
    for step in 0..steps {
        if total_cap > 50_000 || levels.len() > 60 {
            break;
        }
        if step >= until {
            p = c.rng.pick(&[1.0, 0.9, 0.5, 0.2]);
            until = step + c.rng.urange(5, 60);
        }
        let x = base + c.rng.below(size);
        if c.rng.chance(p) {
            f.apply(&Op::Insert(x, 1));
            if !levels.iter_mut().any(|l| l.has(x)) {
                let l = levels.last_mut().unwrap();
                let k = l.class(x);
                l.held.insert(k);
            }
            c.log(|| format!("insert {x}"));
        } else if c.rng.chance(0.01) {
            f.apply(&Op::Clear);
            levels.truncate(1);
            levels[0].held.clear();
            total_cap = levels[0].capacity;
            c.log(|| "clear".into());
        } else {
            f.apply(&Op::Remove(x, 1));
            for l in &mut levels {
                let k = l.class(x);
                l.held.remove(&k);
            }
            c.log(|| format!("remove {x}"));
        }
        let facts = f.facts();
        ensure!(
            facts.levels == levels.len() || facts.levels == levels.len() + 1,
            "{s:?}: {} levels after one operation on {} (step {step})",
            facts.levels,
            levels.len()
        );
        if facts.levels > levels.len() {
            ensure!(facts.capacity > total_cap, "{s:?}: a new level has no capacity");
            let fpp = s.fpp * s.tight.powi(levels.len() as i32);
            levels.push(Level::new(facts.capacity - total_cap, fpp, entries, s.hb));
            total_cap = facts.capacity;
            c.count("growth_steps", 1);
        }
        let held: usize = levels.iter().map(|l| l.held.len()).sum();
        ensure!(facts.empty == (held == 0), "{s:?}: is_empty()={} with {held} items held", facts.empty);
        ensure!(facts.len == held, "{s:?}: len()={} but {held} items are held over {} levels (step {step}, item {x})", facts.len, levels.len());
        for y in base..base + size {
            let want = levels.iter_mut().any(|l| l.has(y));
            let got = f.has(y);
            ensure!(
                got == want,
                "{s:?}: contains({y})={got} but a level {} an item it cannot tell from it (step {step}, last item {x}, {} levels)",
                if want { "holds" } else { "holding no" },
                levels.len()
            );
        }
        c.count("membership_answers_checked", size);
    }
    c.max("max_levels", levels.len() as u64);
    if levels.len() > 1 {
        c.nontrivial();
    }
    Ok(())
}

/// Fingerprints so wide that nothing is confused: an exact set through many growth steps.
fn wide(c: &mut Ctx) -> R {
    let n = c.rng.log_range(1, 300);
    let budget = c.rng.log_range(50, 6000);
    exact(c, n, budget, &[1.0, 0.9, 0.6, 0.3])
}

/// The same with more items than 16 bits count, in one level and over several.
fn big(c: &mut Ctx) -> R {
    let n = c.rng.log_range(1000, 100_000);
    let budget = c.rng.urange(100_000, 160_000);
    exact(c, n, budget, &[1.0, 0.97, 0.9, 0.6])
}

fn exact(c: &mut Ctx, n: usize, budget: usize, pushes: &[f64]) -> R {
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, Ty::ScalableCuckoo, hb);
    s.n = n;
    s.fpp = c.rng.log_f64(1e-15, 1e-13);
    s.growth = c.rng.pick(&[1.0, 1.2, 1.5, 2.0, 4.0]);
    s.tight = c.rng.pick(&[0.8, 0.9, 1.0, 0.5]);
    let mut f = s.build();
    let base = c.rng.u64() >> 2;
    let mut next = base;
    let mut held: Vec<u64> = Vec::new();
    let mut gone: Vec<u64> = Vec::new();
    c.sample(|| format!("{s:?} operations={budget}"));
    c.mix(base);
    let mut p = 0.9;
    for step in 0..budget {
        if step % (budget / 20 + 180) == 0 {
            p = c.rng.pick(pushes);
        }
        if c.rng.chance(p) {
            let x = match c.rng.below(10) {
                0 if !held.is_empty() => held[c.rng.idx(held.len())], // repeated insertion
                1 if !gone.is_empty() => {
                    let i = c.rng.idx(gone.len());
                    gone.swap_remove(i)
                }
                _ => {
                    next += 1;
                    next
                }
            };
            if f.facts().capacity > GROWN_ENOUGH {
                break;
            }
            let fresh = !f.has(x);
            f.apply(&Op::Insert(x, 1));
            if fresh {
                held.push(x);
            }
            ensure!(f.has(x), "{s:?}: item {x} is not reported after its insertion");
        } else if !held.is_empty() {
            let i = c.rng.idx(held.len());
            let x = held.swap_remove(i);
            f.apply(&Op::Remove(x, 1));
            gone.push(x);
            ensure!(!f.has(x), "{s:?}: item {x} is still reported after its removal");
        } else {
            let x = c.rng.u64() >> 1;
            f.apply(&Op::Remove(x, 1));
        }
        let facts = f.facts();
        ensure!(facts.len == held.len(), "{s:?}: len()={} but {} items are held (step {step})", facts.len, held.len());
        for _ in 0..3 {
            if !held.is_empty() {
                let y = held[c.rng.idx(held.len())];
                ensure!(f.has(y), "{s:?}: item {y} disappeared (step {step}, {} levels)", facts.levels);
            }
            if !gone.is_empty() {
                let y = gone[c.rng.idx(gone.len())];
                ensure!(!f.has(y), "{s:?}: removed item {y} came back (step {step}, {} levels)", facts.levels);
            }
        }
        c.count("membership_answers_checked", 6);
        if facts.levels > 400 {
            break;
        }
    }
    for (list, want) in [(&held, true), (&gone, false)] {
        for y in list {
            ensure!(f.has(*y) == want, "{s:?}: contains({y})={} at the end", !want);
        }
    }
    let levels = f.facts().levels;
    c.count("growth_steps", levels as u64 - 1);
    c.max("max_levels", levels as u64);
    c.count("membership_answers_checked", (held.len() + gone.len()) as u64);
    if levels > 1 {
        c.nontrivial();
    }
    Ok(())
}

static P: Property = Property {
    id: "C03",
    rule: "narrow: universes of up to 90 items on tiny scalable cuckoo filters with short fingerprints; per level the classes of confused items are found by probing single-item filters of that level's sizing, and every item and len() is compared with that model after every insert, remove and clear. wide: fingerprints of 40+ bits, thousands of operations (big: more than 2^16 items), exact set model. Non-trivial: the filter grew at least once.",
    kinds: &[
        Kind { name: "narrow", run: narrow, quick: 10_000, thorough: 200_000 },
        Kind { name: "narrow_strings", run: narrow_strings, quick: 4000, thorough: 60_000 },
        Kind { name: "big", run: big, quick: 24, thorough: 400 },
        Kind { name: "wide", run: wide, quick: 1500, thorough: 40_000 },
    ],
    floors: &[("membership_answers_checked", 1_000_000), ("growth_steps", 2000)],
    assumptions: &["wide: no two items share a 40+ bit fingerprint and bucket pair; narrow: a level is sized as the documentation says (its capacity is read off the filter, its fpp is fpp * tightening_ratio^level)"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
