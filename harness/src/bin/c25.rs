//! C25: valid use never panics, overflows, hangs or triggers undefined behaviour.
use pcverif::subject::*;
use pcverif::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{get_jaccard_similarity, MinHash, ShingleIterator, SimHash};
use std::hash::Hash;

fn small() -> bool {
    cfg!(miri)
}

/// Random histories with any builder, far past the design load; every call has to come back.
fn hostile(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let hb = if c.rng.chance(0.25) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let hostile = !hb.iter().all(|h| matches!(h.kind, hashers::SIP | hashers::LIB | hashers::FNV));
    let mut s = Spec::random(&mut c.rng, ty, hb);
    if small() {
        s.n = s.n.min(60);
        s.m = s.m.min(200);
        if ty == Ty::Hll {
            s.fpp = s.fpp.max(0.1);
        }
    } else if c.rng.chance(0.1) {
        // one bit, one slot, one row, one item
        s.n = 1;
        s.m = if ty == Ty::CmsMedian { 2 } else { 1 };
    }
    let mut top = if small() { 40 } else { c.scale(1500, 8000) };
    if ty == Ty::ScalableCuckoo && hostile {
        // items a builder cannot tell apart overflow every level; keep the chain of levels short
        s.growth = c.rng.pick(&[1.0, 1.1]);
        top = top.min(300);
    }
    let universe = c.rng.log_range(2, 5000) as u64;
    let len = c.rng.log_range(1, top);
    let mut ops = history(&mut c.rng, ty, len, universe, true);
    if matches!(ty, Ty::CmsMin | Ty::CmsMean | Ty::CmsMedian) && c.rng.chance(0.3) {
        // weights whose sum stays far below the range of the counters
        for op in &mut ops {
            if let Op::Insert(_, w) | Op::Remove(_, w) = op {
                *w = w.wrapping_mul(1 << c.rng.range(0, 30)).clamp(-(1 << 46), 1 << 46);
            }
        }
    }
    if c.rng.chance(0.2) {
        // keys at the ends of the range
        for op in &mut ops {
            if let Op::Insert(x, _) | Op::Remove(x, _) = op {
                if *x % 7 == 0 {
                    *x = u64::MAX - *x % 5;
                } else if *x % 7 == 1 {
                    *x = 1 << (*x % 64);
                }
            }
        }
    }
    let probes = probes(&mut c.rng, &ops, if small() { 6 } else { 30 });
    c.mix(c.seed);
    c.sample(|| format!("{s:?} operations={len}"));
    let mut a = s.build();
    c.tick();
    let _ = a.obs(&probes);
    let stop = if small() { 20 } else { 200 };
    for (i, op) in ops.iter().enumerate() {
        if a.accepts(op) {
            a.apply(op);
            c.count("operations", 1);
        } else {
            // the one documented failure of an operation leaves the structure as it was
            let before = a.bytes();
            let r = c.catch(|| a.apply(op));
            ensure!(r.is_err(), "{s:?}: {op:?} on a full filter is accepted");
            ensure!(a.bytes() == before, "{s:?}: a refused operation changed the filter");
            c.count("documented_refusals", 1);
        }
        if i % stop == stop - 1 {
            let _ = a.obs(&probes);
            let _ = a.facts();
            c.count("observations", 1);
        }
    }
    let last = a.obs(&probes);
    let mut copy = a.from_bytes(&a.bytes()).map_err(|e| format!("{s:?}: does not come back from bincode: {e}"))?;
    ensure!(copy.obs(&probes) == last, "{s:?}: differs after a round trip");
    let mut d = a.dup();
    drop(a);
    for op in ops.iter().take(20) {
        if d.accepts(op) {
            d.apply(op);
        }
    }
    let _ = d.obs(&probes);
    c.nontrivial();
    Ok(())
}

/// Workload over every structure for one item type.
fn drive<T: Hash + Clone + Ord>(c: &mut Ctx, what: &str, xs: &[T]) -> R {
    let h = if c.rng.chance(0.5) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let good = h.iter().all(|h| matches!(h.kind, hashers::SIP | hashers::LIB | hashers::FNV));
    macro_rules! filter {
        ($f:expr, remove = $remove:tt) => {{
            let mut f = $f;
            for x in xs {
                f.insert(x);
                ensure!(f.contains(x), "{what}: {} forgets an item at once", stringify!($f));
                c.count("typed_operations", 1);
            }
            filter!(@remove f, $remove);
            f.clear();
            for x in xs {
                ensure!(!f.contains(x), "{what}: {} not empty after clear", stringify!($f));
            }
        }};
        (@remove $f:ident, true) => {
            for x in xs {
                $f.remove(x);
            }
        };
        (@remove $f:ident, false) => {};
    }
    filter!(BloomFilter::<T, HB>::with_hashers(10, 0.01, h), remove = false);
    filter!(BloomFilter::<T, HB>::from_fpp_with_hashers(1, 0.5, h), remove = false);
    filter!(PartitionedBloomFilter::<T, HB>::from_item_count_with_hashers(10, 0.01, h), remove = false);
    filter!(ScalableBloomFilter::<T, HB>::with_hashers(20, 0.01, 2.0, 0.5, h), remove = false);
    filter!(BSBloomFilter::<T, HB>::with_hashers(10, 0.01, h), remove = false);
    filter!(BSSDBloomFilter::<T, HB>::with_hashers(10, 0.01, h), remove = false);
    filter!(RLBSBloomFilter::<T, HB>::with_hashers(10, 0.01, h), remove = false);
    filter!(CuckooFilter::<T, HB>::with_hashers(10, h), remove = true);
    filter!(CuckooFilter::<T, HB>::from_parameters_with_hashers(3, 1, 1, h), remove = true);
    if good || xs.len() < 100 {
        filter!(ScalableCuckooFilter::<T, HB>::with_hashers(4, 0.01, 1.1, 0.9, h), remove = true);
    }
    filter!(QuotientFilter::<T, HB>::with_hasher(9, 7, h[0]), remove = true);
    macro_rules! sketch {
        ($st:ty, $cols:expr) => {{
            let mut f = CountMinSketch::<$st, T, HB>::with_hashers(3, $cols, h);
            for x in xs {
                f.insert(x, 3);
                f.remove(x, 1);
                let _ = f.count(x);
                c.count("typed_operations", 1);
            }
            f.clear();
        }};
    }
    sketch!(CountMinStrategy, 5);
    sketch!(CountMeanStrategy, 5);
    sketch!(CountMedianBiasStrategy, 5);
    let mut f = HyperLogLog::<T, HB>::with_hasher(0.2, h[0]);
    let mut g = HyperLogLog::<T, HB>::with_hasher(0.2, h[0]);
    for x in xs {
        f.insert(x);
        let e = f.len();
        ensure!(e.is_finite() && e > 0.0, "{what}: HyperLogLog estimates {e}");
    }
    g.merge(&f);
    ensure!(g.len() == f.len(), "{what}: merging into an empty HyperLogLog changes the estimate");
    let m = MinHash::<std::vec::IntoIter<T>, T, HB>::with_hashers(7, h);
    let s = SimHash::<std::vec::IntoIter<T>, T, HB>::with_hasher(h[0]);
    let cut = c.rng.idx(xs.len() + 1);
    let (l, r) = (xs[..cut].to_vec(), xs[cut..].to_vec());
    if !l.is_empty() && !r.is_empty() {
        let v = m.get_similarity(l.clone().into_iter(), r.clone().into_iter());
        ensure!((0.0..=1.0).contains(&v), "{what}: MinHash similarity {v}");
    }
    let _ = s.get_sim_hash(l.clone().into_iter());
    let _ = s.report_similarities(c.rng.urange(2, 5), vec![l.clone().into_iter(), r.clone().into_iter(), l.clone().into_iter()]);
    let v = get_jaccard_similarity(l.clone().into_iter(), r.clone().into_iter());
    ensure!(v.is_nan() || (0.0..=1.0).contains(&v), "{what}: Jaccard similarity {v}");
    let refs: Vec<&T> = xs.iter().collect();
    let k = c.rng.urange(1, 4);
    let n = ShingleIterator::new(k, refs).count();
    ensure!(n == (xs.len() + 1).saturating_sub(k), "{what}: {n} shingles of {k} tokens from {}", xs.len());
    Ok(())
}

fn types(c: &mut Ctx) -> R {
    let n = if small() { c.rng.urange(0, 4) } else { c.rng.log_range(1, 300) - 1 };
    let mut r = Rng::new(c.seed ^ 0x7E57);
    let text = |r: &mut Rng| -> String {
        let k = match r.below(20) {
            0 if !small() => 20_000,
            1 => 0,
            2..=4 => 300,
            _ => r.idx(20),
        };
        (0..if small() { k.min(5) } else { k }).map(|_| char::from_u32(r.range(1, 0xD7FF) as u32).unwrap_or('x')).collect()
    };
    c.mix(c.seed);
    c.nontrivial();
    match c.index % 16 {
        0 => drive(c, "()", &vec![(); n]),
        1 => drive(c, "bool", &(0..n).map(|_| r.chance(0.5)).collect::<Vec<_>>()),
        2 => drive(c, "char", &(0..n).map(|_| char::from_u32(r.range(1, 0xD7FF) as u32).unwrap()).collect::<Vec<_>>()),
        3 => drive(c, "i128", &(0..n).map(|_| i128::from(r.u64()) << r.range(0, 63)).collect::<Vec<_>>()),
        4 => drive(c, "[u8; 0]", &vec![[0u8; 0]; n]),
        5 => drive(c, "String", &(0..n).map(|_| text(&mut r)).collect::<Vec<_>>()),
        6 => drive(c, "Option<String>", &(0..n).map(|_| if r.chance(0.3) { None } else { Some(text(&mut r)) }).collect::<Vec<_>>()),
        7 => drive(c, "Vec<Vec<u16>>", &(0..n).map(|_| (0..r.idx(4)).map(|_| (0..r.idx(4)).map(|_| r.u64() as u16).collect()).collect()).collect::<Vec<Vec<Vec<u16>>>>()),
        8 => drive(c, "Rc<str>", &(0..n).map(|_| std::rc::Rc::from(text(&mut r).as_str())).collect::<Vec<std::rc::Rc<str>>>()),
        9 => drive(c, "Box<[u8]>", &(0..n).map(|_| (0..r.idx(50)).map(|_| r.u64() as u8).collect()).collect::<Vec<Box<[u8]>>>()),
        10 => drive(c, "&str", &["", "a", "b", "ab", "abc", "\0", "ÿ", "日本"][..n.min(8)]),
        11 => drive(c, "u8", &(0..n).map(|_| r.u64() as u8).collect::<Vec<_>>()),
        12 => drive(c, "i64 ends", &(0..n).map(|_| r.pick(&[i64::MIN, i64::MAX, 0, -1, 1])).collect::<Vec<_>>()),
        13 => drive(c, "tuple", &(0..n).map(|i| (i as u8, text(&mut r), r.u64())).collect::<Vec<_>>()),
        14 => drive(c, "Result", &(0..n).map(|_| if r.chance(0.5) { Ok(r.u64()) } else { Err(text(&mut r)) }).collect::<Vec<_>>()),
        _ => drive(c, "BTreeSet", &(0..n).map(|_| (0..r.idx(5)).map(|_| r.u64()).collect()).collect::<Vec<std::collections::BTreeSet<u64>>>()),
    }
}

/// Exact hash values at the borders of the arithmetic, through builders that pass words on unchanged.
fn raw_hashes(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let hb = match c.rng.below(3) {
        0 => [HB::new(hashers::FIRST, 0, 0), HB::new(hashers::SECOND, 0, 0)],
        1 => [HB::new(hashers::IDENT, 0, 0), HB::new(hashers::IDENT, 0, 0)],
        _ => [HB::new(hashers::FIRST, 0, 0), HB::new(hashers::CONST, c.rng.pick(&[0, 1, u64::MAX, 1 << 63]), 0)],
    };
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.key = c.rng.pick(&[0, 2]);
    if ty == Ty::ScalableCuckoo {
        s.growth = c.rng.pick(&[1.0, 1.1]);
    }
    if ty == Ty::Hll || small() {
        s.fpp = s.fpp.max(0.1);
    }
    let n = if small() { 12 } else { c.scale(120, 400) };
    let keys: Vec<u64> = (0..n)
        .map(|_| match c.rng.below(7) {
            0 => u64::MAX - c.rng.below(4),
            1 => c.rng.below(4),
            2 => 1 << c.rng.below(64),
            3 => (1u64 << c.rng.below(64)).wrapping_sub(1),
            4 => u64::MAX << c.rng.below(64),
            5 => (1 << 63) ^ c.rng.below(3),
            _ => c.rng.u64(),
        })
        .collect();
    let mut a = s.build();
    c.mix(c.seed);
    c.nontrivial();
    for (i, k) in keys.iter().enumerate() {
        let op = if ty.removes() && i % 5 == 4 { Op::Remove(*k, 1) } else { Op::Insert(*k, 1) };
        if a.accepts(&op) {
            a.apply(&op);
            c.count("operations", 1);
        }
        if i % 40 == 39 {
            let _ = a.obs(&keys[..10]);
        }
    }
    let _ = a.obs(&keys);
    let _ = a.facts();
    if ty.clears() {
        a.apply(&Op::Clear);
    }
    let _ = a.obs(&keys);
    Ok(())
}

static P: Property = Property {
    id: "C25",
    rule: "all under overflow checks, debug assertions, an allocation cap and a CPU watchdog per step. hostile: all 15 types, any builder (constant, weak, raw words, all-ones prefixes), degenerate sizes, histories far past the design load, huge weights, keys at the ends of the range; a refused insertion into a full quotient filter must change nothing. types: 16 item types (zero-sized, huge, nested, borrowed) through every structure. raw_hashes: hash words at the borders of the arithmetic. The Miri leg runs the same cases under its undefined-behaviour interpreter. Non-trivial: every case.",
    kinds: &[
        Kind { name: "hostile", run: hostile, quick: 15 * 4000, thorough: 15 * 40_000 },
        Kind { name: "types", run: types, quick: 16 * 400, thorough: 16 * 5000 },
        Kind { name: "raw_hashes", run: raw_hashes, quick: 15 * 2000, thorough: 15 * 20_000 },
    ],
    floors: &[("operations", 1_000_000), ("documented_refusals", 1_000), ("typed_operations", 100_000)],
    assumptions: &["the weights of a sketch sum to less than 2^60"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
