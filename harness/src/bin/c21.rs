//! C21: queries modify nothing; structures are Send and Sync; concurrent readers agree with a single one.
use pcverif::subject::*;
use pcverif::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, ShingleIterator, SimHash};
use probabilistic_collections::SipHasherBuilder;
use std::marker::PhantomData;

/// Decides at run time whether a concrete type has an auto trait, so that the monitor still builds
/// (and reports) when a type loses it.
struct Probe<T>(PhantomData<T>);
trait Lacks {
    fn sync(&self) -> bool {
        false
    }
    fn send(&self) -> bool {
        false
    }
}
impl<T> Lacks for Probe<T> {}
struct SyncProbe<T>(Probe<T>);
struct SendProbe<T>(Probe<T>);
impl<T> std::ops::Deref for SyncProbe<T> {
    type Target = Probe<T>;
    fn deref(&self) -> &Probe<T> {
        &self.0
    }
}
impl<T> std::ops::Deref for SendProbe<T> {
    type Target = Probe<T>;
    fn deref(&self) -> &Probe<T> {
        &self.0
    }
}
impl<T: Sync> SyncProbe<T> {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Send> SendProbe<T> {
    fn send(&self) -> bool {
        true
    }
}

macro_rules! table {
    ($($t:ty),+ $(,)?) => {
        vec![$((
            stringify!($t),
            SendProbe::<$t>(Probe(PhantomData)).send(),
            SyncProbe::<$t>(Probe(PhantomData)).sync(),
        )),+]
    };
}

type S = SipHasherBuilder;
type I<K> = std::vec::IntoIter<K>;

fn autotraits(c: &mut Ctx) -> R {
    // the probe itself must be able to say no
    let sanity = table!(std::rc::Rc<u8>, std::cell::Cell<u8>, u8);
    if (sanity[0].1, sanity[0].2, sanity[1].1, sanity[1].2, sanity[2].1, sanity[2].2)
        != (false, false, true, false, true, true)
    {
        panic!("the auto trait probe does not work");
    }
    let rows = table!(
        BloomFilter<u64, S>, BloomFilter<String, HB>,
        PartitionedBloomFilter<u64, S>, PartitionedBloomFilter<String, HB>,
        ScalableBloomFilter<u64, S>, ScalableBloomFilter<String, HB>,
        BSBloomFilter<u64, S>, BSBloomFilter<String, HB>,
        BSSDBloomFilter<u64, S>, BSSDBloomFilter<String, HB>,
        RLBSBloomFilter<u64, S>, RLBSBloomFilter<String, HB>,
        CuckooFilter<u64, S>, CuckooFilter<String, HB>,
        ScalableCuckooFilter<u64, S>, ScalableCuckooFilter<String, HB>,
        QuotientFilter<u64, S>, QuotientFilter<String, HB>,
        CountMinSketch<CountMinStrategy, u64, S>, CountMinSketch<CountMinStrategy, String, HB>,
        CountMinSketch<CountMeanStrategy, u64, S>, CountMinSketch<CountMeanStrategy, String, HB>,
        CountMinSketch<CountMedianBiasStrategy, u64, S>, CountMinSketch<CountMedianBiasStrategy, String, HB>,
        HyperLogLog<u64, S>, HyperLogLog<String, HB>,
        MinHash<I<u64>, u64, S>, MinHash<I<String>, String, HB>,
        SimHash<I<u64>, u64, S>, SimHash<I<String>, String, HB>,
        ShingleIterator<'static, str>, SipHasherBuilder,
    );
    for (name, send, sync) in rows {
        ensure!(send, "{name} is not Send");
        ensure!(sync, "{name} is not Sync");
        c.count("auto_traits_checked", 2);
    }
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

fn grow(c: &mut Ctx, x: &mut Box<dyn Subject>, ops: &[Op]) {
    for op in ops {
        if x.accepts(op) {
            x.apply(op);
        }
        c.tick();
    }
}

fn setup(c: &mut Ctx, max_len: usize) -> (Spec, Box<dyn Subject>, Vec<Op>, u64) {
    let ty = ALL[c.index % ALL.len()];
    let hb = if c.rng.chance(0.6) || ty == Ty::ScalableCuckoo { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let mut s = Spec::random(&mut c.rng, ty, hb);
    if cfg!(miri) {
        s.n = s.n.min(30);
        s.m = s.m.min(50);
        s.fpp = s.fpp.max(0.1);
    }
    let universe = c.rng.log_range(4, 400) as u64;
    let len = if c.rng.chance(0.1) { 0 } else { c.rng.log_range(1, max_len) };
    let ops = history(&mut c.rng, ty, len, universe, true);
    let mut a = s.build();
    grow(c, &mut a, &ops);
    (s, a, ops, universe)
}

fn max_len() -> usize {
    if cfg!(miri) {
        40
    } else {
        500
    }
}

/// Queries leave the state (serialized, and as far as any future can tell) alone, and answer the same
/// in every order.
fn purity(c: &mut Ctx) -> R {
    let (s, mut a, ops, universe) = setup(c, max_len());
    let mut twin = a.dup();
    let probes = probes(&mut c.rng, &ops, if cfg!(miri) { 10 } else { 40 });
    c.mix(c.seed);
    c.sample(|| format!("{s:?} history={}", ops.len()));
    let later_len = c.scale(40, 200).min(max_len());
    let later = history(&mut c.rng, s.ty, later_len, universe, true);
    let levels = a.facts().levels;
    let first = a.obs(&probes);
    for (i, op) in later.iter().enumerate() {
        let (bytes, json) = (a.bytes(), a.json());
        let n = c.rng.urange(1, 4);
        for _ in 0..n {
            match c.rng.below(5) {
                0 => {
                    let _ = a.obs(&probes);
                }
                1 => {
                    let k = c.rng.idx(probes.len() + 1);
                    let _ = a.read(&probes[..k]);
                }
                2 => {
                    let _ = a.facts();
                }
                3 => {
                    let k = c.rng.idx(probes.len());
                    let _ = a.has(probes[k]);
                    let _ = a.accepts(&Op::Insert(probes[k], 1));
                }
                _ => {
                    // single probes in another order answer as the batch does
                    if matches!(s.ty, Ty::MinHash | Ty::SimHash) {
                        continue;
                    }
                    let batch = a.obs(&probes);
                    for _ in 0..6 {
                        let k = c.rng.idx(probes.len());
                        let one = a.obs(&probes[k..=k]);
                        if s.ty == Ty::Hll {
                            ensure!(one == batch, "{s:?}: asking again gives another answer");
                        } else {
                            ensure!(one[0] == batch[k], "{s:?}: the answer for key {} depends on the queries before it", probes[k]);
                        }
                    }
                }
            }
            c.count("query_batches", 1);
        }
        ensure!(a.bytes() == bytes, "{s:?} after {} operations: a query changed the serialized state", ops.len() + i);
        ensure!(a.json() == json, "{s:?} after {} operations: a query changed the JSON state", ops.len() + i);
        c.count("states_compared", 1);
        if i == 0 {
            ensure!(a.obs(&probes) == first, "{s:?}: the same queries on the same state answer differently later");
        }
        if s.ty == Ty::ScalableCuckoo && (a.facts().levels != levels || *op == Op::Clear) {
            break; // levels made from now on draw their own random choices
        }
        // the structure that was queried and the one that was not have the same future
        if a.accepts(op) {
            a.apply(op);
            twin.apply(op);
        }
        ensure!(a.bytes() == twin.bytes(), "{s:?}: after queries operation {i} ({op:?}) leads to another state than without them");
        c.count("futures_compared", 1);
    }
    if !ops.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

/// Readers on several threads get what a single reader gets, and change nothing.
fn readers(c: &mut Ctx) -> R {
    let (s, a, ops, _) = setup(c, if cfg!(miri) { 12 } else { 300 });
    let probes = probes(&mut c.rng, &ops, if cfg!(miri) { 6 } else { 300 });
    let threads = c.rng.urange(2, if cfg!(miri) { 3 } else { 8 });
    let bytes = a.bytes();
    let fresh = a.dup();
    // concurrent readers come first, so that anything computed lazily is computed under them
    let got = a.concurrent(&probes, threads);
    let single = fresh.read(&probes);
    for (i, g) in got.iter().enumerate() {
        ensure!(*g == single, "{s:?}: reader {i} of {threads} concurrent ones got {g:?}, a single reader {single:?}");
    }
    ensure!(a.bytes() == bytes, "{s:?}: concurrent readers changed the state");
    ensure!(a.read(&probes) == single, "{s:?}: concurrent readers changed the answers");
    c.count("concurrent_readers", threads as u64);
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

/// More than 2^16 items, bits, slots or counters.
fn big(c: &mut Ctx) -> R {
    if cfg!(miri) {
        return Ok(());
    }
    let ty = ALL[c.index % ALL.len()];
    let (s, ops) = large(&mut c.rng, ty);
    at_size(c, s, ops)
}

/// A handful of items in thousands of slots.
fn nearly_empty(c: &mut Ctx) -> R {
    if cfg!(miri) {
        return Ok(());
    }
    let ty = ALL[c.index % ALL.len()];
    let (s, ops) = sparse(&mut c.rng, ty);
    at_size(c, s, ops)
}

fn at_size(c: &mut Ctx, s: Spec, ops: Vec<Op>) -> R {
    let mut a = s.build();
    run_all(c, &mut a, &ops);
    let probes = probes(&mut c.rng, &ops, 200);
    let bytes = a.bytes();
    let want = a.obs(&probes);
    for _ in 0..5 {
        let _ = a.facts();
        ensure!(a.obs(&probes) == want, "{s:?} after {} operations: the same queries are answered differently", ops.len());
    }
    ensure!(a.bytes() == bytes, "{s:?} after {} operations: a query changed the serialized state", ops.len());
    c.count("states_compared", 1);
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C21",
    rule: "purity: all 15 types, random constructor, sizing, key type, builder and history; batches of random queries (contains, count, len, estimates, sizing, hashers, similarity, serialization; in random order and repetition) between operations leave the bincode and JSON state as it was, answer alike in every order, and a twin that is never queried reaches the same state by the same operations, random choices included. readers: 2..8 threads released together read one structure through shared references and must get exactly the answers of a single reader. autotraits: Send and Sync of every public structure, decided on the concrete types. The Miri leg runs the same cases under its data-race and aliasing detector. big: the same on structures and histories beyond 2^16 items, bits or slots. sparse: the same on structures of thousands of slots that hold a few items. Non-trivial: a history of at least one operation.",
    kinds: &[
        Kind { name: "big", run: big, quick: 15 * 8, thorough: 15 * 100 },
        Kind { name: "sparse", run: nearly_empty, quick: 15 * 60, thorough: 15 * 1000 },
        Kind { name: "purity", run: purity, quick: 15 * 3000, thorough: 15 * 30_000 },
        Kind { name: "readers", run: readers, quick: 15 * 300, thorough: 15 * 3000 },
        Kind { name: "autotraits", run: autotraits, quick: 1, thorough: 1 },
    ],
    floors: &[("query_batches", 200_000), ("futures_compared", 50_000), ("concurrent_readers", 5_000), ("auto_traits_checked", 60)],
    assumptions: &["a query effect that neither the serialized state, nor the answers, nor any later operation shows is not an effect"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
