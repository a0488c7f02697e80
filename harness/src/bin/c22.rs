//! C22: behaviour is a function of hash builders, parameters and history only.
use pcverif::defaults::{name, Default_};
use pcverif::subject::*;
use pcverif::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, ShingleIterator, SimHash};
use probabilistic_collections::SipHasherBuilder;
use std::hash::{BuildHasher, Hash, Hasher};

/// Twins with the same history.
fn twins(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let hb = if c.rng.chance(0.6) || ty == Ty::ScalableCuckoo { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let s = Spec::random(&mut c.rng, ty, hb);
    let (mut a, mut b) = (s.build(), s.build());
    let universe = c.rng.log_range(4, 400) as u64;
    let len = c.scale(250, 1000);
    let ops = history(&mut c.rng, ty, len, universe, true);
    let probes = probes(&mut c.rng, &ops, 50);
    c.mix(c.seed);
    c.sample(|| format!("{s:?} operations={len}"));
    // other activity in the process must not matter
    let noise = s.build();
    drop(noise);
    for (i, op) in ops.iter().enumerate() {
        let (x, y) = (a.accepts(op), b.accepts(op));
        ensure!(x == y, "{s:?}: only one of two twins is full");
        if !x {
            continue;
        }
        a.apply(op);
        b.apply(op);
        if i % 16 != 0 && i + 1 != ops.len() {
            continue;
        }
        let what = format!("{s:?}, twins after {} operations", i + 1);
        c.count("observations_compared", 1);
        match ty {
            Ty::Cuckoo => {
                let (fa, fb) = (a.facts(), b.facts());
                ensure!(fa.len + fa.extra == fb.len + fb.extra, "{what}: {}+{} and {}+{} items", fa.len, fa.extra, fb.len, fb.extra);
                for p in &probes {
                    ensure!(a.has(*p) == b.has(*p), "{what}: they disagree on item {p}");
                }
            }
            Ty::Bs | Ty::Bssd | Ty::Rlbs | Ty::ScalableCuckoo => {
                let (fa, fb) = (a.facts(), b.facts());
                ensure!(fa.hashers == fb.hashers && fa.bits == fb.bits && fa.entries == fb.entries, "{what}: sizing differs");
                if let Op::Insert(x, _) = op {
                    ensure!(a.has(*x) && b.has(*x), "{what}: an inserted item is not reported");
                }
            }
            _ => {
                let (x, y) = (a.obs(&probes), b.obs(&probes));
                ensure!(x == y, "{what}: one answers {x:?}, the other {y:?}");
            }
        }
    }
    c.nontrivial();
    Ok(())
}

/// A history without evictions: the structures with random choices answer alike too.
fn calm_twins(c: &mut Ctx) -> R {
    let ty = [Ty::Bs, Ty::Bssd, Ty::Rlbs, Ty::Cuckoo, Ty::ScalableCuckoo][c.index % 5];
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.m = match ty {
        Ty::Cuckoo | Ty::ScalableCuckoo => 4,
        _ => c.rng.urange(50, 500),
    };
    s.ctor = 3;
    s.n = 200;
    let (mut a, mut b) = (s.build(), s.build());
    let base = c.rng.u64() >> 2;
    let n = if matches!(ty, Ty::Cuckoo | Ty::ScalableCuckoo) { c.rng.urange(1, 30) } else { 1 } as u64;
    for i in 0..n {
        a.apply(&Op::Insert(base + i, 1));
        b.apply(&Op::Insert(base + i, 1));
    }
    let probes: Vec<u64> = (0..400).map(|i| base + i).collect();
    // a relocation may already have happened only if some pair of buckets was full: 30 items in 200+ slots of 4
    for p in &probes {
        ensure!(a.has(*p) == b.has(*p), "{s:?}: twins with {n} items disagree on item {p}");
    }
    c.count("observations_compared", 1);
    c.mix(base);
    c.nontrivial();
    Ok(())
}

fn hash_of(b: &SipHasherBuilder, x: &impl Hash) -> u64 {
    let mut h = b.build_hasher();
    x.hash(&mut h);
    h.finish()
}

/// What a builder made from this seed hashes some values to.
fn fingerprint(k0: u64, k1: u64) -> u64 {
    let b = SipHasherBuilder::from_seed(k0, k1);
    let mut acc = 0u64;
    for x in [
        hash_of(&b, &0u8),
        hash_of(&b, &u64::MAX),
        hash_of(&b, &"text"),
        hash_of(&b, &String::from("a rather long text, longer than a block")),
        hash_of(&b, &(1u32, -5i64)),
        hash_of(&b, &vec![1u8, 2, 3]),
    ] {
        acc = acc.rotate_left(9) ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    // and what whole structures make of it
    let hb = [b, SipHasherBuilder::from_seed(k1, k0)];
    let mut bloom = BloomFilter::<String>::with_hashers(20, 0.05, hb);
    let mut cms = CountMinSketch::<CountMinStrategy, String>::with_hashers(3, 40, hb);
    let mut hll = HyperLogLog::<String>::with_hasher(0.2, b);
    let mut q = QuotientFilter::<String>::with_hasher(7, 9, b);
    for i in 0..20 {
        let x = format!("item {i}");
        bloom.insert(&x);
        cms.insert(&x, i);
        hll.insert(&x);
        q.insert(&x);
    }
    for part in [
        bincode::serialize(&bloom).unwrap(),
        bincode::serialize(&cms).unwrap(),
        bincode::serialize(&hll).unwrap(),
        bincode::serialize(&q).unwrap(),
    ] {
        for y in part {
            acc = acc.rotate_left(5).wrapping_mul(31) ^ u64::from(y);
        }
    }
    acc
}

fn builders(c: &mut Ctx) -> R {
    // seeds of a plain kind are different builders as well
    let words = [0, 1, 2, 3, 255, 256, 1 << 32, u64::MAX, u64::MAX - 1, c.rng.u64(), c.rng.below(1 << 20)];
    let plain: std::collections::HashSet<u64> =
        words.iter().flat_map(|a| words.iter().map(move |b| hash_of(&SipHasherBuilder::from_seed(*a, *b), &7u64))).collect();
    let kinds = words.iter().collect::<std::collections::HashSet<_>>().len();
    ensure!(plain.len() == kinds * kinds, "builders of {} different seeds from {words:?} hash 7 to {} values", kinds * kinds, plain.len());
    let (k0, k1) = match c.rng.below(6) {
        0 => (c.rng.below(100), c.rng.below(100)),
        1 => {
            let k = c.rng.u64();
            (k, k)
        }
        _ => (c.rng.u64(), c.rng.u64()),
    };
    let b = SipHasherBuilder::from_seed(k0, k1);
    let again = SipHasherBuilder::from_seed(k0, k1);
    ensure!(b == again && fingerprint(k0, k1) == fingerprint(k0, k1), "two builders from one seed differ");
    let copy = b;
    ensure!(copy == b, "a copied builder differs");
    let mut values = std::collections::HashSet::new();
    let n = 200;
    for i in 0..n {
        let x = c.rng.u64() ^ i;
        ensure!(hash_of(&b, &x) == hash_of(&again, &x) && hash_of(&copy, &x) == hash_of(&b, &x), "two builders from one seed hash {x} differently");
        let mut h = b.build_hasher();
        let _ = h.finish();
        h.write_u64(x);
        values.insert(hash_of(&b, &x));
    }
    ensure!(values.len() as u64 == n, "one builder hashes {n} integers to {} values", values.len());
    // a bit of the seed matters
    let bit = 1u64 << (c.index % 64);
    for other in [SipHasherBuilder::from_seed(k0 ^ bit, k1), SipHasherBuilder::from_seed(k0, k1 ^ bit)] {
        ensure!(other != b, "builders from different seeds compare equal");
        let same = (0..20u64).filter(|x| hash_of(&other, x) == hash_of(&b, x)).count();
        ensure!(same == 0, "builders from different seeds agree on {same} of 20 items");
    }
    if k0 != k1 {
        let swapped = SipHasherBuilder::from_seed(k1, k0);
        ensure!(swapped != b && hash_of(&swapped, &1u8) != hash_of(&b, &1u8), "swapping the two seed words makes no difference");
    }
    let e: Vec<SipHasherBuilder> = (0..30).map(|_| SipHasherBuilder::from_entropy()).collect();
    for i in 0..e.len() {
        for j in 0..i {
            ensure!(e[i] != e[j] && hash_of(&e[i], &7u64) != hash_of(&e[j], &7u64), "from_entropy returned the same builder twice");
        }
    }
    c.count("builders_checked", 34);
    c.mix(k0 ^ k1.rotate_left(17) ^ words[9]);
    c.nontrivial();
    Ok(())
}

/// The same seeds in another process.
fn processes(c: &mut Ctx) -> R {
    let (k0, k1) = (c.rng.u64(), c.rng.u64());
    let out = std::process::Command::new(std::env::current_exe().expect("own path"))
        .env("C22_CHILD", format!("{k0} {k1}"))
        .output()
        .expect("child process");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let want = fingerprint(k0, k1).to_string();
    ensure!(out.status.success(), "the child process failed: {}", String::from_utf8_lossy(&out.stderr));
    ensure!(text.trim() == want, "seed ({k0}, {k1}) hashes differently in another process: {want} here, {} there", text.trim());
    c.count("processes_compared", 1);
    c.mix(k0);
    c.nontrivial();
    Ok(())
}

/// Default-built structures: own builders, borrowed forms, and rebuilding from hashers().
fn default_one<D: Default_>(c: &mut Ctx) -> R {
    let ctor = c.rng.below(u64::from(D::CTORS)) as u8;
    let mut a = D::make(ctor);
    let other = D::make(ctor);
    let (h, h2) = (a.builders(), other.builders());
    let all: Vec<_> = h.iter().chain(&h2).collect();
    for i in 0..all.len() {
        for j in 0..i {
            ensure!(all[i] != all[j], "{} (constructor {ctor}): two default builders are the same", D::NAME);
        }
    }
    let mut b = D::rebuild(ctor, &h);
    ensure!(b.builders() == h, "{}: hashers() of a structure built from builders returns others", D::NAME);
    let tag = c.rng.u64() >> 20;
    let n = c.rng.urange(0, 60);
    let items: Vec<String> = (0..n).map(|i| name(&mut c.rng, tag + i as u64)).collect();
    if D::RANDOM {
        if let Some(x) = items.first() {
            a.insert(x);
            b.insert_owned(x);
        }
    } else {
        for x in &items {
            a.insert(x.as_str());
            b.insert_owned(x);
        }
    }
    let mut probes = items;
    probes.extend((0..80).map(|i| format!("stranger {i} {tag}")));
    for p in &probes {
        let v = [a.answer(p), a.answer_owned(p), b.answer(p), b.answer_owned(p)];
        ensure!(
            v.iter().all(|x| *x == v[0]),
            "{} (constructor {ctor}): {p:?} is answered {v:?} (borrowed, owned; then by a structure rebuilt from hashers() and filled through the owned form)",
            D::NAME
        );
    }
    c.count("default_structures", 1);
    c.mix(tag);
    c.nontrivial();
    Ok(())
}

fn defaults(c: &mut Ctx) -> R {
    with_default!(c.index, default_one(c))
}

/// Borrowed forms of several item types against every structure.
fn borrowed(c: &mut Ctx) -> R {
    let hb = if c.rng.chance(0.7) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let n = c.rng.urange(1, 12);
    macro_rules! member {
        ($t:ty, $mk:expr, $br:expr) => {{
            let mk: fn(u64) -> $t = $mk;
            macro_rules! go {
                ($f:expr, $what:expr) => {{
                    let mut f = $f;
                    for i in 0..n as u64 {
                        let x = mk(c.seed ^ i);
                        f.insert(&x);
                        ensure!(f.contains($br(&x)), "{}<{}>: inserted as an owned item, not found as a borrowed one", $what, stringify!($t));
                    }
                    let y = mk(c.seed ^ 1000);
                    f.insert($br(&y));
                    ensure!(f.contains(&y), "{}<{}>: inserted as a borrowed item, not found as an owned one", $what, stringify!($t));
                    let z = mk(c.seed ^ 2000);
                    ensure!(f.contains(&z) == f.contains($br(&z)), "{}<{}>: owned and borrowed forms of an absent item answered differently", $what, stringify!($t));
                    c.count("borrowed_answers", n as u64 + 3);
                    f
                }};
            }
            go!(BloomFilter::<$t, HB>::with_hashers(60, 0.05, hb), "BloomFilter");
            go!(PartitionedBloomFilter::<$t, HB>::from_item_count_with_hashers(60, 0.05, hb), "PartitionedBloomFilter");
            go!(ScalableBloomFilter::<$t, HB>::with_hashers(20, 0.05, 2.0, 0.5, hb), "ScalableBloomFilter");
            go!(BSBloomFilter::<$t, HB>::with_hashers(60, 0.05, hb), "BSBloomFilter");
            go!(BSSDBloomFilter::<$t, HB>::with_hashers(60, 0.05, hb), "BSSDBloomFilter");
            go!(RLBSBloomFilter::<$t, HB>::with_hashers(60, 0.05, hb), "RLBSBloomFilter");
            let mut f = go!(CuckooFilter::<$t, HB>::with_hashers(60, hb), "CuckooFilter");
            let y = mk(c.seed ^ 1000);
            f.remove($br(&y));
            f.insert(&y);
            f.remove($br(&y));
            ensure!(!f.contains(&y), "CuckooFilter<{}>: inserted as an owned item, not removed as a borrowed one", stringify!($t));
            let mut f = go!(QuotientFilter::<$t, HB>::with_hasher(6, 20, hb[0]), "QuotientFilter");
            f.remove($br(&y));
            ensure!(!f.contains(&y), "QuotientFilter<{}>: not removed as a borrowed item", stringify!($t));
            let mut f = go!(ScalableCuckooFilter::<$t, HB>::with_hashers(20, 0.01, 2.0, 0.5, hb), "ScalableCuckooFilter");
            f.remove($br(&y));
            ensure!(!f.contains(&y), "ScalableCuckooFilter<{}>: not removed as a borrowed item", stringify!($t));
            let mut s = CountMinSketch::<CountMinStrategy, $t, HB>::with_hashers(3, 30, hb);
            s.insert(&y, 5);
            s.insert($br(&y), 2);
            ensure!(s.count(&y) == 7 && s.count($br(&y)) == 7, "CountMinSketch<{}>: 5 as owned and 2 as borrowed item count {} and {}", stringify!($t), s.count(&y), s.count($br(&y)));
            s.remove($br(&y), 7);
            ensure!(s.count(&y) == 0, "CountMinSketch<{}>: not removed as a borrowed item", stringify!($t));
            let mut h = HyperLogLog::<$t, HB>::with_hasher(0.1, hb[0]);
            h.insert(&y);
            let l = h.len();
            h.insert($br(&y));
            ensure!(h.len().to_bits() == l.to_bits(), "HyperLogLog<{}>: the borrowed form of an item counts as another one", stringify!($t));
        }};
    }
    match c.index % 5 {
        0 => member!(String, |i| format!("s{i}"), |x: &String| -> &str { unsafe { &*(x.as_str() as *const str) } }),
        1 => member!(Vec<u8>, |i| i.to_le_bytes()[..(i % 9) as usize].to_vec().into_iter().chain([i as u8, (i >> 8) as u8]).collect(), |x: &Vec<u8>| -> &[u8] { unsafe { &*(x.as_slice() as *const [u8]) } }),
        2 => member!(Box<str>, |i| format!("b{i}").into_boxed_str(), |x: &Box<str>| -> &str { unsafe { &*(&**x as *const str) } }),
        3 => member!(Box<u64>, |i| Box::new(i), |x: &Box<u64>| -> &u64 { unsafe { &*(&**x as *const u64) } }),
        _ => member!(std::sync::Arc<[u32]>, |i| vec![i as u32, (i >> 32) as u32, 3].into(), |x: &std::sync::Arc<[u32]>| -> &[u32] { unsafe { &*(&**x as *const [u32]) } }),
    }
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

/// hashers() of any structure rebuilds an equivalent one, in the same order.
fn rebuilt(c: &mut Ctx) -> R {
    let hb = [HB::any(&mut c.rng), HB::good(&mut c.rng)];
    let items: Vec<u64> = (0..c.rng.urange(1, 60)).map(|_| c.rng.u64() >> 1).collect();
    let probes: Vec<u64> = items.iter().copied().chain((0..200).map(|_| c.rng.u64() >> 1)).collect();
    macro_rules! two {
        ($what:expr, $make:expr) => {{
            let make = $make;
            let mut a = make(hb);
            ensure!(*a.hashers() == hb, "{}: hashers() returns {:?}, built with {hb:?}", $what, a.hashers());
            let mut b = make(*a.hashers());
            for x in &items {
                a.insert(x);
                b.insert(x);
            }
            for p in &probes {
                ensure!(a.contains(p) == b.contains(p), "{}: rebuilt from hashers() it answers item {p} differently", $what);
            }
            ensure!(*a.hashers() == hb, "{}: hashers() changed to {:?}", $what, a.hashers());
            c.count("rebuilt_structures", 1);
        }};
    }
    two!("BloomFilter", |h| BloomFilter::<u64, HB>::with_hashers(50, 0.05, h));
    two!("BloomFilter", |h| BloomFilter::<u64, HB>::from_item_count_with_hashers(300, 30, h));
    two!("BloomFilter", |h| BloomFilter::<u64, HB>::from_fpp_with_hashers(300, 0.1, h));
    two!("PartitionedBloomFilter", |h| PartitionedBloomFilter::<u64, HB>::from_item_count_with_hashers(50, 0.05, h));
    two!("PartitionedBloomFilter", |h| PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(80, 0.05, h));
    two!("ScalableBloomFilter", |h| ScalableBloomFilter::<u64, HB>::with_hashers(8, 0.05, 2.0, 0.5, h));
    two!("CuckooFilter", |h| CuckooFilter::<u64, HB>::with_hashers(80, h));
    two!("CuckooFilter", |h| CuckooFilter::<u64, HB>::from_parameters_with_hashers(64, 9, 2, h));
    two!("CuckooFilter", |h| CuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(90, 0.1, 4, h));
    two!("CuckooFilter", |h| CuckooFilter::<u64, HB>::from_fingerprint_bit_count_with_hashers(90, 0.1, 8, h));
    macro_rules! names {
        ($what:expr, $e:expr) => {{
            let h = *$e.hashers();
            ensure!(h == hb, "{}: hashers() returns {h:?}, built with {hb:?}", $what);
            c.count("rebuilt_structures", 1);
        }};
    }
    names!("BSBloomFilter", BSBloomFilter::<u64, HB>::with_hashers(50, 0.05, hb));
    names!("BSSDBloomFilter", BSSDBloomFilter::<u64, HB>::with_hashers(50, 0.05, hb));
    names!("RLBSBloomFilter", RLBSBloomFilter::<u64, HB>::with_hashers(50, 0.05, hb));
    let mut sc = ScalableCuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(4, 0.05, 2, 2.0, 0.5, [hb[1], hb[1]]);
    for x in &items {
        sc.insert(x);
    }
    ensure!(*sc.hashers() == [hb[1], hb[1]], "ScalableCuckooFilter: hashers()");
    names!("ScalableCuckooFilter", ScalableCuckooFilter::<u64, HB>::with_hashers(50, 0.05, 2.0, 0.5, hb));
    names!("CountMinSketch", CountMinSketch::<CountMinStrategy, u64, HB>::with_hashers(3, 9, hb));
    names!("CountMinSketch", CountMinSketch::<CountMinStrategy, u64, HB>::from_error_with_hashers(0.1, 0.1, hb));
    names!("MinHash", MinHash::<std::vec::IntoIter<u64>, u64, HB>::with_hashers(4, hb));
    ensure!(*QuotientFilter::<u64, HB>::with_hasher(4, 4, hb[0]).hasher() == hb[0], "QuotientFilter: hasher()");
    ensure!(*QuotientFilter::<u64, HB>::from_fpp_with_hasher(4, 0.1, hb[0]).hasher() == hb[0], "QuotientFilter: hasher()");
    ensure!(*HyperLogLog::<u64, HB>::with_hasher(0.2, hb[0]).hasher() == hb[0], "HyperLogLog: hasher()");
    ensure!(*SimHash::<std::vec::IntoIter<u64>, u64, HB>::with_hasher(hb[0]).hasher() == hb[0], "SimHash: hasher()");
    let m = MinHash::<ShingleIterator<'_, str>, Vec<&str>, HB>::with_hashers(6, hb);
    let m2 = MinHash::<ShingleIterator<'_, str>, Vec<&str>, HB>::with_hashers(6, *m.hashers());
    let text = || ShingleIterator::new(2, "a text of some words".split(' ').collect());
    ensure!(m.get_min_hashes(text()) == m2.get_min_hashes(text()), "MinHash: rebuilt from hashers() it hashes a text differently");
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

/// More than 2^16 items, bits, slots or counters.
fn big(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let (s, ops) = large(&mut c.rng, ty);
    at_size(c, ty, s, ops)
}

/// A handful of items in thousands of slots.
fn nearly_empty(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let (s, ops) = sparse(&mut c.rng, ty);
    at_size(c, ty, s, ops)
}

fn at_size(c: &mut Ctx, ty: Ty, s: Spec, ops: Vec<Op>) -> R {
    let (mut a, mut b) = (s.build(), s.build());
    run_all(c, &mut a, &ops);
    run_all(c, &mut b, &ops);
    let probes = probes(&mut c.rng, &ops, 300);
    if ty.randomized() {
        let (fa, fb) = (a.facts(), b.facts());
        ensure!(fa.hashers == fb.hashers && fa.bits == fb.bits && fa.entries == fb.entries, "{s:?}: sizing of twins differs");
        if let Some(Op::Insert(x, _)) = ops.last() {
            ensure!(a.has(*x) && b.has(*x), "{s:?}: an inserted item is not reported");
        }
    } else {
        ensure!(a.obs(&probes) == b.obs(&probes), "{s:?}: twins disagree after {} operations", ops.len());
        ensure!(a.bytes() == b.bytes(), "{s:?}: twins serialize differently after {} operations", ops.len());
    }
    c.count("observations_compared", 1);
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

/// Builders drawn from entropy never coincide, however many are drawn and on whatever thread.
fn entropy(c: &mut Ctx) -> R {
    let mut seen = std::collections::HashMap::new();
    let mut check = |b: SipHasherBuilder| -> R {
        let (x, y) = (hash_of(&b, &0u64), hash_of(&b, &1u64));
        if let Some(o) = seen.insert(x, y) {
            ensure!(o != y, "from_entropy returned the same builder twice within {} draws", seen.len() + 1);
        }
        Ok(())
    };
    c.mix(c.seed);
    let batch = 50_000;
    let handles: Vec<_> = (0..4u64)
        .map(|i| {
            let seed = c.seed ^ (i + 1).rotate_right(9);
            std::thread::spawn(move || {
                // every thread has entropy of its own
                getrandom::verif_seed(seed);
                (0..batch).map(|_| SipHasherBuilder::from_entropy()).collect::<Vec<_>>()
            })
        })
        .collect();
    for h in handles {
        for b in h.join().map_err(|_| "drawing builders panicked".to_string())? {
            check(b)?;
        }
    }
    for _ in 0..150_000 {
        check(SipHasherBuilder::from_entropy())?;
    }
    for _ in 0..20_000 {
        c.tick();
        let f = BloomFilter::<u64>::new(8, 0.5);
        for b in f.hashers() {
            check(*b)?;
        }
        let f = CuckooFilter::<u64>::new(1);
        for b in f.hashers() {
            check(*b)?;
        }
        check(*QuotientFilter::<u64>::new(1, 1).hasher())?;
    }
    c.count("builders_drawn", seen.len() as u64);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C22",
    rule: "twins: all 15 types, random constructor, sizing, key type, builder and history, two instances compared throughout (randomized ones: what random choices cannot change); calm_twins: randomized ones before any random choice, in full. builders: seeds, equality, single key bits, from_entropy pairs. entropy: several 100000 builders drawn on several threads and by default constructors, no two alike. processes: hashes and serialized structures for a seed recomputed in a child process. defaults: every default constructor has fresh distinct builders; rebuilt from hashers() and filled through the owned form it answers alike. borrowed: String/str, Vec/slice, Box, Arc forms on every structure. rebuilt: hashers() order and equivalence. Every case is non-trivial. big: the same on structures and histories beyond 2^16 items, bits or slots. sparse: the same on structures of thousands of slots that hold a few items.",
    kinds: &[
        Kind { name: "big", run: big, quick: 15 * 8, thorough: 15 * 100 },
        Kind { name: "sparse", run: nearly_empty, quick: 15 * 60, thorough: 15 * 1000 },
        Kind { name: "twins", run: twins, quick: 15 * 4000, thorough: 15 * 50_000 },
        Kind { name: "calm_twins", run: calm_twins, quick: 4_000, thorough: 60_000 },
        Kind { name: "builders", run: builders, quick: 1_024, thorough: 8_000 },
        Kind { name: "entropy", run: entropy, quick: 2, thorough: 40 },
        Kind { name: "processes", run: processes, quick: 16, thorough: 80 },
        Kind { name: "defaults", run: defaults, quick: 15 * 300, thorough: 15 * 3000 },
        Kind { name: "borrowed", run: borrowed, quick: 4_000, thorough: 60_000 },
        Kind { name: "rebuilt", run: rebuilt, quick: 4_000, thorough: 60_000 },
    ],
    floors: &[("observations_compared", 60_000), ("builders_checked", 5000), ("builders_drawn", 800_000), ("processes_compared", 12), ("borrowed_answers", 20_000), ("default_structures", 800)],
    assumptions: &["none beyond the public API"],
    exhaustive: false,
};

fn main() {
    if let Ok(v) = std::env::var("C22_CHILD") {
        let mut it = v.split(' ').map(|x| x.parse::<u64>().expect("seed"));
        let (k0, k1) = (it.next().unwrap(), it.next().unwrap());
        println!("{}", fingerprint(k0, k1));
        return;
    }
    run(&P)
}
