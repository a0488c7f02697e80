//! C30: filters and sketches are functions of what they hold, not of the way it got there.
use pcverif::subject::*;
use pcverif::*;
use std::collections::{BTreeMap, BTreeSet};

const TYPES: [Ty; 8] = [
    Ty::Bloom, Ty::Partitioned, Ty::Quotient, Ty::Quotient, Ty::CmsMin, Ty::CmsMean, Ty::CmsMedian, Ty::Hll,
];

/// A random way to the given contents: items with their net counts.
fn way(r: &mut Rng, ty: Ty, s: &Spec, goal: &BTreeMap<u64, i64>, universe: u64) -> Vec<Op> {
    let mut ops = Vec::new();
    let mut items: Vec<(u64, i64)> = goal.iter().map(|(x, w)| (*x, *w)).collect();
    r.shuffle(&mut items);
    if r.chance(0.15) {
        // another life first
        for _ in 0..r.urange(1, 40) {
            ops.push(Op::Insert(r.below(universe), 1));
        }
        ops.push(Op::Clear);
    }
    match ty {
        Ty::CmsMin | Ty::CmsMean | Ty::CmsMedian => {
            let mut parts = Vec::new();
            for (x, w) in items {
                let mut rest = w;
                while rest != 0 && r.chance(0.6) {
                    let w = r.range(0, 200) as i64 - 100;
                    parts.push((x, w));
                    rest -= w;
                }
                parts.push((x, rest));
                if r.chance(0.1) {
                    let (y, w) = (r.below(universe), r.range(1, 1000) as i64);
                    parts.push((y, w));
                    parts.push((y, -w));
                }
            }
            r.shuffle(&mut parts);
            for (x, w) in parts {
                ops.push(if r.chance(0.5) { Op::Insert(x, w) } else { Op::Remove(x, -w) });
            }
        }
        Ty::Quotient => {
            // Visitors of other fingerprints come and go; residents leave and come back.
            let mask = fingerprint_mask(s);
            let print = |x: u64| hash_of(s, x) & mask;
            let held: BTreeSet<u64> = goal.keys().map(|x| print(*x)).collect();
            let mut now: BTreeMap<u64, u64> = BTreeMap::new();
            let mut queue: Vec<Op> = Vec::new();
            for (x, _) in items {
                let p = print(x);
                if !now.contains_key(&p) && now.len() == 1 << s.n {
                    // a visitor makes room
                    let (v, y) = now.iter().find(|(v, _)| !held.contains(v)).map(|(v, y)| (*v, *y)).unwrap_or((p, x));
                    now.remove(&v);
                    queue.push(Op::Remove(y, 1));
                }
                queue.push(Op::Insert(x, 1));
                now.insert(p, x);
                if r.chance(0.3) {
                    queue.push(Op::Remove(x, 1));
                    queue.push(Op::Insert(x, 1));
                }
                if r.chance(0.2) {
                    queue.push(Op::Insert(x, 1));
                }
                if r.chance(0.5) {
                    let y = r.below(universe * 4);
                    let v = print(y);
                    if !held.contains(&v) && (now.contains_key(&v) || now.len() < 1 << s.n) {
                        queue.push(Op::Insert(y, 1));
                        now.insert(v, y);
                        // or stays for a while
                        if r.chance(0.4) {
                            queue.push(Op::Remove(y, 1));
                            now.remove(&v);
                        }
                    }
                }
            }
            let mut rest: Vec<u64> = now.into_iter().filter(|(p, _)| !held.contains(p)).map(|(_, x)| x).collect();
            r.shuffle(&mut rest);
            queue.extend(rest.into_iter().map(|x| Op::Remove(x, 1)));
            ops.extend(queue);
        }
        _ => {
            for (x, _) in items {
                ops.push(Op::Insert(x, 1));
                if r.chance(0.2) {
                    ops.push(Op::Insert(x, 1));
                }
            }
            for _ in 0..r.urange(0, 20) {
                if let Some(i) = (!ops.is_empty()).then(|| r.idx(ops.len())) {
                    if !ops[i..].contains(&Op::Clear) {
                        ops.push(ops[i]);
                    }
                }
            }
        }
    }
    ops
}

fn fingerprint_mask(s: &Spec) -> u64 {
    let bits = s.n + s.m;
    if bits >= 64 {
        u64::MAX
    } else {
        (1 << bits) - 1
    }
}

fn hash_of(s: &Spec, x: u64) -> u64 {
    use std::hash::{BuildHasher, Hasher};
    fn go<K: Key>(s: &Spec, x: u64) -> u64 {
        let mut h = s.hb[0].build_hasher();
        K::key(x).hash(&mut h);
        h.finish()
    }
    match s.key {
        0 => go::<u64>(s, x),
        1 => go::<String>(s, x),
        2 => go::<(u64, u64)>(s, x),
        _ => go::<Vec<u8>>(s, x),
    }
}

fn ways(c: &mut Ctx) -> R {
    let ty = TYPES[c.index % TYPES.len()];
    let hb = if c.rng.chance(0.6) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let mut s = Spec::random(&mut c.rng, ty, hb);
    if ty == Ty::Quotient {
        s.ctor = 1;
        s.n = c.rng.urange(1, 8);
    }
    let mut most = c.rng.log_range(1, 300);
    let universe = c.rng.log_range(2, 2000) as u64;
    let mut goal: BTreeMap<u64, i64> = BTreeMap::new();
    let mut prints = BTreeSet::new();
    if ty == Ty::Quotient {
        most = most.min(c.rng.urange(0, (1 << s.n) + 1));
    }
    for _ in 0..most {
        let x = c.rng.below(universe);
        if ty == Ty::Quotient {
            prints.insert(hash_of(&s, x) & fingerprint_mask(&s));
            if prints.len() >= 1 << s.n {
                break;
            }
        }
        goal.insert(x, c.rng.range(0, 400) as i64 - 100);
    }
    c.sample(|| format!("{s:?} items={}", goal.len()));
    c.mix(c.seed);
    let probes: Vec<u64> = (0..60).map(|_| c.rng.below(universe * 2)).collect();
    let mut first: Option<(Vec<u64>, Vec<u8>)> = None;
    for turn in 0..4 {
        let ops = way(&mut c.rng, ty, &s, &goal, universe);
        let mut x = s.build();
        for (i, op) in ops.iter().enumerate() {
            if !x.accepts(op) && ops[i..].contains(&Op::Clear) {
                continue;
            }
            ensure!(x.accepts(op), "{s:?}: full before {op:?}");
            x.apply(op);
            if turn == 1 && c.rng.chance(0.2) {
                x.obs(&probes[..5]);
            }
        }
        let got = (x.obs(&probes), x.bytes());
        match &first {
            None => first = Some(got),
            Some(want) => {
                ensure!(
                    got.0 == want.0,
                    "{s:?}: {} items by two ways: one answers {:?}, the other {:?}", goal.len(), want.0, got.0
                );
                // unused slots of a quotient filter may hold anything
                ensure!(ty == Ty::Quotient || got.1 == want.1, "{s:?}: {} items by two ways serialize differently", goal.len());
                c.count("pairs_compared", 1);
            }
        }
        c.count("operations", ops.len() as u64);
    }
    if goal.len() > 1 {
        c.nontrivial();
    }
    Ok(())
}

/// Supersets answer true wherever subsets do; a union has at most the bits of its parts.
fn unions(c: &mut Ctx) -> R {
    let ty = [Ty::Bloom, Ty::Partitioned, Ty::Quotient][c.index % 3];
    let hb = if c.rng.chance(0.6) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let mut s = Spec::random(&mut c.rng, ty, hb);
    if ty == Ty::Quotient {
        s.ctor = 1;
        s.n = c.rng.urange(5, 9);
    }
    let max = if ty == Ty::Quotient { 1usize << (s.n - 1) } else { 200 };
    let (na, nb) = (c.rng.log_range(1, max), c.rng.log_range(1, max));
    let (ba, bb) = (c.rng.below(1000), c.rng.below(1000));
    let (mut a, mut b, mut u) = (s.build(), s.build(), s.build());
    for i in 0..na as u64 {
        a.apply(&Op::Insert(ba + i, 1));
        u.apply(&Op::Insert(ba + i, 1));
    }
    for i in 0..nb as u64 {
        b.apply(&Op::Insert(bb + i, 1));
        u.apply(&Op::Insert(bb + i, 1));
    }
    let (fa, fb, fu) = (a.facts(), b.facts(), u.facts());
    let size = |f: &Facts| if ty == Ty::Quotient { f.len } else { f.ones };
    ensure!(
        size(&fu) <= size(&fa) + size(&fb) && size(&fu) >= size(&fa).max(size(&fb)),
        "{s:?}: parts of sizes {} and {}, a union of size {}", size(&fa), size(&fb), size(&fu)
    );
    for _ in 0..300 {
        let x = c.rng.below(4000);
        let (x_a, x_b, x_u) = (a.has(x), b.has(x), u.has(x));
        ensure!(x_u || !(x_a || x_b), "{s:?}: item {x} is in a part but not in the union");
        if ty == Ty::Quotient {
            ensure!(x_u == (x_a || x_b), "{s:?}: item {x} is in the union but in no part");
        }
        c.count("union_answers", 1);
    }
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

/// More than 2^16 items, bits, slots or counters.
fn big(c: &mut Ctx) -> R {
    let ty = TYPES[c.index % TYPES.len()];
    let (s, ops) = large(&mut c.rng, ty);
    at_size(c, ty, s, ops)
}

/// A handful of items in thousands of slots.
fn nearly_empty(c: &mut Ctx) -> R {
    let ty = TYPES[c.index % TYPES.len()];
    let (s, ops) = sparse(&mut c.rng, ty);
    at_size(c, ty, s, ops)
}

fn at_size(c: &mut Ctx, ty: Ty, s: Spec, ops: Vec<Op>) -> R {
    let (mut a, mut b) = (s.build(), s.build());
    run_all(c, &mut a, &ops);
    // only the net effect, in another order
    let mut net: BTreeMap<u64, i64> = BTreeMap::new();
    let mut held: BTreeMap<u64, u64> = BTreeMap::new();
    for op in &ops {
        match op {
            Op::Insert(x, w) => {
                *net.entry(*x).or_insert(0) += w;
                held.insert(hash_of(&s, *x) & fingerprint_mask(&s), *x);
            }
            Op::Remove(x, w) => {
                *net.entry(*x).or_insert(0) -= w;
                held.remove(&(hash_of(&s, *x) & fingerprint_mask(&s)));
            }
            Op::Clear => {}
        }
    }
    let mut other: Vec<Op> = if ty == Ty::Quotient {
        held.values().map(|x| Op::Insert(*x, 1)).collect()
    } else {
        net.iter().map(|(x, w)| Op::Insert(*x, *w)).collect()
    };
    c.rng.shuffle(&mut other);
    run_all(c, &mut b, &other);
    let probes = probes(&mut c.rng, &ops, 1000);
    ensure!(a.obs(&probes) == b.obs(&probes), "{s:?}: {} items by two ways answer differently", other.len());
    ensure!(ty == Ty::Quotient || a.bytes() == b.bytes(), "{s:?}: {} items by two ways serialize differently", other.len());
    c.count("pairs_compared", 1);
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C30",
    rule: "ways: random contents (a set, for count sketches net counts) are reached in four different ways: shuffled, with repetitions, split, cancelled and merged updates, items that come and go, another life before a clear, queries in between; all four must answer alike and (quotient filters aside) serialize to the same bytes. unions: the filter of a union answers true wherever one of the parts does (a quotient filter exactly there) and is no larger than both together. big: the same on structures and histories beyond 2^16 items, bits or slots. sparse: the same on structures of thousands of slots that hold a few items. Non-trivial: at least two items.",
    kinds: &[
        Kind { name: "big", run: big, quick: 8 * 12, thorough: 8 * 200 },
        Kind { name: "sparse", run: nearly_empty, quick: 8 * 60, thorough: 8 * 1000 },
        Kind { name: "ways", run: ways, quick: 24_000, thorough: 400_000 },
        Kind { name: "unions", run: unions, quick: 9_000, thorough: 150_000 },
    ],
    floors: &[("pairs_compared", 50_000), ("union_answers", 1_000_000)],
    assumptions: &[],
    exhaustive: false,
};

fn main() {
    run(&P)
}
