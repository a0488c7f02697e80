//! One interface over every structure of the crate, for the monitors that run two or more instances
//! in lock-step (serialization, clear, clone, purity, determinism, totality).
use crate::rng::splitmix;
use crate::{Rng, HB};
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, SimHash};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::any::Any;
use std::hash::Hash;

pub trait Key:
    Hash + Eq + Clone + Send + Sync + Serialize + DeserializeOwned + std::fmt::Debug + 'static
{
    fn key(x: u64) -> Self;
}
impl Key for u64 {
    fn key(x: u64) -> u64 {
        x
    }
}
impl Key for String {
    fn key(x: u64) -> String {
        match x % 3 {
            0 => format!("{x}"),
            1 => format!("key-{x:08x}-with-a-longer-tail"),
            _ => format!("ключ/{x}"),
        }
    }
}
impl Key for Vec<u8> {
    fn key(x: u64) -> Vec<u8> {
        let n = (x % 19) as usize;
        let mut v = x.to_le_bytes().to_vec();
        v.resize(8 + n, x as u8);
        v
    }
}
/// Bytes that hash as nothing but themselves, as the documentation recommends for portable keys.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, serde::Deserialize)]
pub struct Raw(pub Vec<u8>);
impl Hash for Raw {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write(&self.0)
    }
}
impl Key for Raw {
    fn key(x: u64) -> Raw {
        Raw(Vec::<u8>::key(x))
    }
}
thread_local! {
    /// Calls of Bomb's Hash until it panics; 0 is disarmed.
    static FUSE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// Makes the k-th hashing of a Bomb on this thread panic; returns whether the last one is still armed.
pub fn arm(k: u32) -> bool {
    FUSE.with(|f| f.replace(k)) > 0
}
/// An item whose Hash panics on demand.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, serde::Deserialize)]
pub struct Bomb(pub u64);
impl Hash for Bomb {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u64(self.0);
        FUSE.with(|f| match f.get() {
            0 => {}
            1 => {
                f.set(0);
                panic!("item cannot be hashed");
            }
            n => f.set(n - 1),
        });
    }
}
impl Key for Bomb {
    fn key(x: u64) -> Bomb {
        Bomb(x)
    }
}
impl Key for (u64, u64) {
    fn key(x: u64) -> (u64, u64) {
        (x, splitmix(x))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Insert(u64, i64),
    Remove(u64, i64),
    Clear,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ty {
    Bloom,
    Partitioned,
    ScalableBloom,
    Bs,
    Bssd,
    Rlbs,
    Cuckoo,
    ScalableCuckoo,
    Quotient,
    CmsMin,
    CmsMean,
    CmsMedian,
    Hll,
    MinHash,
    SimHash,
}

pub const ALL: [Ty; 15] = [
    Ty::Bloom,
    Ty::Partitioned,
    Ty::ScalableBloom,
    Ty::Bs,
    Ty::Bssd,
    Ty::Rlbs,
    Ty::Cuckoo,
    Ty::ScalableCuckoo,
    Ty::Quotient,
    Ty::CmsMin,
    Ty::CmsMean,
    Ty::CmsMedian,
    Ty::Hll,
    Ty::MinHash,
    Ty::SimHash,
];

impl Ty {
    /// Structures that make internal random choices.
    pub fn randomized(self) -> bool {
        matches!(
            self,
            Ty::Bs | Ty::Bssd | Ty::Rlbs | Ty::Cuckoo | Ty::ScalableCuckoo
        )
    }
    pub fn removes(self) -> bool {
        matches!(
            self,
            Ty::Cuckoo | Ty::ScalableCuckoo | Ty::Quotient | Ty::CmsMin | Ty::CmsMean | Ty::CmsMedian
        )
    }
    pub fn clears(self) -> bool {
        !matches!(self, Ty::MinHash | Ty::SimHash)
    }
}

/// Parameters of one structure.
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub ty: Ty,
    pub ctor: u8,
    pub hb: [HB; 2],
    pub n: usize,
    pub m: usize,
    pub fpp: f64,
    pub growth: f64,
    pub tight: f64,
    /// Key type: 0 u64, 1 String, 2 (u64, u64), 3 bytes, 4 raw bytes (Hash without a length), 5 panicking on demand.
    pub key: u8,
}

impl Spec {
    /// A random configuration of moderate size.
    pub fn random(r: &mut Rng, ty: Ty, hb: [HB; 2]) -> Spec {
        let ctor = r.below(4) as u8;
        let (n, m) = match ty {
            Ty::Bloom | Ty::Partitioned => (r.log_range(1, 400), r.log_range(1, 3000)),
            Ty::ScalableBloom => (r.log_range(1, 300), r.log_range(1, 200)),
            Ty::Bs | Ty::Bssd | Ty::Rlbs => (0, r.log_range(1, 500)),
            Ty::Cuckoo => (r.log_range(1, 200), r.pick(&[1, 2, 3, 4, 8])),
            Ty::ScalableCuckoo => (r.log_range(1, 60), r.pick(&[1, 2, 4, 5])),
            Ty::Quotient => (r.urange(1, 8), r.pick(&[1, 2, 3, 5, 8, 13, 29, 40])),
            Ty::CmsMin | Ty::CmsMean => (r.urange(1, 7), r.log_range(1, 200)),
            Ty::CmsMedian => (r.urange(1, 7), r.log_range(2, 200)),
            Ty::Hll => (0, 0),
            Ty::MinHash => (r.log_range(1, 80), 0),
            Ty::SimHash => (0, 0),
        };
        let fpp = match ty {
            Ty::Hll => r.log_f64(0.02, 0.9),
            Ty::ScalableBloom | Ty::ScalableCuckoo => r.log_f64(0.0005, 0.3),
            _ => r.log_f64(0.0005, 0.7),
        };
        Spec {
            ty,
            ctor,
            hb,
            n,
            m,
            fpp,
            growth: if r.chance(0.2) { r.log_f64(1.0, 4.0) } else { r.pick(&[1.0, 1.1, 1.3, 1.5, 2.0, 2.0, 4.0]) },
            tight: if r.chance(0.2) { r.log_f64(0.3, 1.0) } else { r.pick(&[0.3, 0.5, 0.5, 0.7, 0.8, 0.9, 1.0]) },
            key: r.pick(&[0, 0, 0, 1, 1, 2, 3]),
        }
    }
    pub fn build(&self) -> Box<dyn Subject> {
        match self.key {
            0 => self.build_as::<u64>(),
            1 => self.build_as::<String>(),
            2 => self.build_as::<(u64, u64)>(),
            4 => self.build_as::<Raw>(),
            5 => self.build_as::<Bomb>(),
            _ => self.build_as::<Vec<u8>>(),
        }
    }
    /// Like build, with the quotient filter sized for n items.
    pub fn build_sized(&self) -> Box<dyn Subject> {
        if self.ty == Ty::Quotient {
            let (n, fpp, h) = (self.n, self.fpp, self.hb[0]);
            return match self.key {
                0 => wrap(QuotientFilter::<u64, HB>::from_fpp_with_hasher(n, fpp, h)),
                1 => wrap(QuotientFilter::<String, HB>::from_fpp_with_hasher(n, fpp, h)),
                2 => wrap(QuotientFilter::<(u64, u64), HB>::from_fpp_with_hasher(n, fpp, h)),
                _ => wrap(QuotientFilter::<Vec<u8>, HB>::from_fpp_with_hasher(n, fpp, h)),
            };
        }
        self.build()
    }
    fn build_as<K: Key>(&self) -> Box<dyn Subject> {
        let h = self.hb;
        let (n, m) = (self.n, self.m);
        match self.ty {
            Ty::Bloom => wrap(match self.ctor {
                0 => BloomFilter::<K, HB>::from_item_count_with_hashers(m, n, h),
                1 => BloomFilter::<K, HB>::from_fpp_with_hashers(m, self.fpp, h),
                _ => BloomFilter::<K, HB>::with_hashers(n, self.fpp, h),
            }),
            Ty::Partitioned => wrap(match self.ctor {
                0 | 1 => PartitionedBloomFilter::<K, HB>::from_bit_count_with_hashers(m, self.fpp, h),
                _ => PartitionedBloomFilter::<K, HB>::from_item_count_with_hashers(n, self.fpp, h),
            }),
            Ty::ScalableBloom => wrap(ScalableBloomFilter::<K, HB>::with_hashers(
                n, self.fpp, self.growth, self.tight, h,
            )),
            Ty::Bs => wrap(BSBloomFilter::<K, HB>::with_hashers(m, self.fpp, h)),
            Ty::Bssd => wrap(BSSDBloomFilter::<K, HB>::with_hashers(m, self.fpp, h)),
            Ty::Rlbs => wrap(RLBSBloomFilter::<K, HB>::with_hashers(m, self.fpp, h)),
            Ty::Cuckoo => wrap(match self.ctor {
                0 => CuckooFilter::<K, HB>::with_hashers(n, h),
                1 => CuckooFilter::<K, HB>::from_parameters_with_hashers(
                    n,
                    2 + (n * 7 + m * 13) % 63,
                    m,
                    h,
                ),
                2 => CuckooFilter::<K, HB>::from_fingerprint_bit_count_with_hashers(
                    n,
                    self.fpp.max(0.05),
                    7 + n % 9,
                    h,
                ),
                _ => CuckooFilter::<K, HB>::from_entries_per_index_with_hashers(n, self.fpp, m, h),
            }),
            Ty::ScalableCuckoo => wrap(if self.ctor < 2 {
                ScalableCuckooFilter::<K, HB>::with_hashers(n, self.fpp, self.growth, self.tight, h)
            } else {
                ScalableCuckooFilter::<K, HB>::from_entries_per_index_with_hashers(
                    n, self.fpp, m, self.growth, self.tight, h,
                )
            }),
            Ty::Quotient => wrap(if self.ctor == 0 {
                QuotientFilter::<K, HB>::from_fpp_with_hasher(1 + n * n, self.fpp, h[0])
            } else {
                QuotientFilter::<K, HB>::with_hasher(n as u8, m as u8, h[0])
            }),
            Ty::CmsMin => wrap(CountMinSketch::<Min, K, HB>::with_hashers(n, m, h)),
            Ty::CmsMean => wrap(CountMinSketch::<Mean, K, HB>::with_hashers(n, m, h)),
            Ty::CmsMedian => wrap(CountMinSketch::<Median, K, HB>::with_hashers(n, m, h)),
            Ty::Hll => wrap(HyperLogLog::<K, HB>::with_hasher(self.fpp, h[0])),
            Ty::MinHash => wrap(MinHash::<Vec_<K>, K, HB>::with_hashers(n, h)),
            Ty::SimHash => wrap(SimHash::<Vec_<K>, K, HB>::with_hasher(h[0])),
        }
    }
}

/// Scalable cuckoo filters larger than this take no further insertions.
pub const GROWN_ENOUGH: usize = 1 << 19;

/// Strategies of the crate made cloneable (the sketch is Clone only if its strategy is).
macro_rules! strategy {
    ($name:ident, $inner:ty) => {
        #[derive(Clone, Copy, Debug)]
        pub struct $name;
        impl CountStrategy for $name {
            fn get_estimate(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> i64 {
                <$inner as CountStrategy>::get_estimate(items, rows, cols, iter)
            }
        }
    };
}
strategy!(Min, CountMinStrategy);
strategy!(Mean, CountMeanStrategy);
strategy!(Median, CountMedianBiasStrategy);

/// A cloneable owned iterator for the similarity structures.
#[allow(non_camel_case_types)]
pub type Vec_<K> = std::vec::IntoIter<K>;

/// What each structure offers to the lock-step monitors.
pub trait Ds: Clone + Serialize + DeserializeOwned + 'static {
    fn apply(&mut self, op: &Op);
    /// Appends every observable value; `probes` are keys to query.
    fn obs(&mut self, probes: &[u64], out: &mut Vec<u64>);
    /// False if the operation is a documented panic in this state.
    fn accepts(&self, _op: &Op) -> bool {
        true
    }
    /// A read-only view through a shared reference, for concurrent readers.
    fn read(&self, probes: &[u64], out: &mut Vec<u64>);
    /// Membership answer (filters only).
    fn has(&mut self, _x: u64) -> bool {
        false
    }
    fn facts(&self) -> Facts {
        Facts::default()
    }
}

/// The numbers a structure reports about itself (those that apply).
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Facts {
    pub len: usize,
    pub ones: usize,
    pub zeros: usize,
    pub hashers: usize,
    pub bits: usize,
    pub levels: usize,
    pub capacity: usize,
    pub extra: usize,
    pub entries: usize,
    pub fp_bits: usize,
    pub efpp: f64,
    pub empty: bool,
    pub nearly_full: bool,
}

pub fn f(x: f64) -> u64 {
    x.to_bits()
}
fn hb(h: &HB) -> u64 {
    splitmix(u64::from(h.kind) ^ splitmix(h.k0 ^ splitmix(h.k1)))
}

macro_rules! bloom_like {
    ($ty:ident, $fpp:expr, |$s:ident| $extra:expr, |$t:ident, $fa:ident| $facts:expr) => {
        impl<K: Key> Ds for $ty<K, HB> {
            fn has(&mut self, x: u64) -> bool {
                self.contains(&K::key(x))
            }
            fn facts(&self) -> Facts {
                let g: fn(&$ty<K, HB>) -> u64 = $fpp;
                let mut $fa = Facts {
                    len: self.len(),
                    ones: self.count_ones(),
                    zeros: self.count_zeros(),
                    efpp: f64::from_bits(g(self)),
                    empty: self.is_empty(),
                    ..Facts::default()
                };
                let $t = self;
                $facts;
                $fa
            }
            fn apply(&mut self, op: &Op) {
                match op {
                    Op::Insert(x, _) => self.insert(&K::key(*x)),
                    Op::Remove(..) => {}
                    Op::Clear => self.clear(),
                }
            }
            fn obs(&mut self, probes: &[u64], out: &mut Vec<u64>) {
                self.read(probes, out)
            }
            fn read(&self, probes: &[u64], out: &mut Vec<u64>) {
                for p in probes {
                    out.push(u64::from(self.contains(&K::key(*p))));
                }
                out.push(self.len() as u64);
                out.push(u64::from(self.is_empty()));
                out.push(self.count_ones() as u64);
                out.push(self.count_zeros() as u64);
                out.push(hb(&self.hashers()[0]));
                out.push(hb(&self.hashers()[1]));
                let $s = self;
                let extra: Vec<u64> = $extra;
                out.extend(extra);
                let g: fn(&$ty<K, HB>) -> u64 = $fpp;
                out.push(g(self));
            }
        }
    };
}
bloom_like!(BloomFilter, |s| f(s.estimated_fpp()), |s| vec![s.hasher_count() as u64], |s, x| x.hashers = s.hasher_count());
bloom_like!(PartitionedBloomFilter, |s| f(s.estimated_fpp()), |s| vec![
    s.hasher_count() as u64,
    s.bit_count() as u64
], |s, x| {
    x.hashers = s.hasher_count();
    x.bits = s.bit_count();
});
bloom_like!(ScalableBloomFilter, |s| f(s.estimated_fpp()), |s| vec![s.filter_count() as u64], |s, x| x.levels = s.filter_count());
bloom_like!(BSBloomFilter, |_| 0, |s| vec![s.hasher_count() as u64, s.bit_count() as u64], |s, x| {
    x.hashers = s.hasher_count();
    x.bits = s.bit_count();
});
bloom_like!(BSSDBloomFilter, |_| 0, |s| vec![s.hasher_count() as u64, s.bit_count() as u64], |s, x| {
    x.hashers = s.hasher_count();
    x.bits = s.bit_count();
});
bloom_like!(RLBSBloomFilter, |_| 0, |s| vec![s.hasher_count() as u64, s.bit_count() as u64], |s, x| {
    x.hashers = s.hasher_count();
    x.bits = s.bit_count();
});

impl<K: Key> Ds for CuckooFilter<K, HB> {
    fn has(&mut self, x: u64) -> bool {
        self.contains(&K::key(x))
    }
    fn facts(&self) -> Facts {
        Facts {
            len: self.len(),
            capacity: self.capacity(),
            extra: self.extra_items_len(),
            entries: self.entries_per_index(),
            fp_bits: self.fingerprint_bit_count(),
            efpp: self.estimated_fpp(),
            empty: self.is_empty(),
            nearly_full: self.is_nearly_full(),
            ..Facts::default()
        }
    }
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Insert(x, _) => self.insert(&K::key(*x)),
            Op::Remove(x, _) => self.remove(&K::key(*x)),
            Op::Clear => self.clear(),
        }
    }
    fn obs(&mut self, probes: &[u64], out: &mut Vec<u64>) {
        self.read(probes, out)
    }
    fn read(&self, probes: &[u64], out: &mut Vec<u64>) {
        for p in probes {
            out.push(u64::from(self.contains(&K::key(*p))));
        }
        out.extend([
            self.len() as u64,
            u64::from(self.is_empty()),
            self.capacity() as u64,
            self.bucket_len() as u64,
            self.entries_per_index() as u64,
            self.extra_items_len() as u64,
            u64::from(self.is_nearly_full()),
            self.fingerprint_bit_count() as u64,
            f(self.estimated_fpp()),
            hb(&self.hashers()[0]),
            hb(&self.hashers()[1]),
        ]);
    }
}

impl<K: Key> Ds for ScalableCuckooFilter<K, HB> {
    fn has(&mut self, x: u64) -> bool {
        self.contains(&K::key(x))
    }
    fn facts(&self) -> Facts {
        Facts {
            len: self.len(),
            capacity: self.capacity(),
            levels: self.filter_count(),
            entries: self.entries_per_index(),
            efpp: self.estimated_fpp(),
            empty: self.is_empty(),
            ..Facts::default()
        }
    }
    fn apply(&mut self, op: &Op) {
        match op {
            // Items a hash builder cannot tell apart overflow every level, and every level is at
            // least twice as large as the one before: end such a chain before it eats the machine.
            Op::Insert(..) if self.capacity() > GROWN_ENOUGH => {}
            Op::Insert(x, _) => self.insert(&K::key(*x)),
            Op::Remove(x, _) => self.remove(&K::key(*x)),
            Op::Clear => self.clear(),
        }
    }
    fn obs(&mut self, probes: &[u64], out: &mut Vec<u64>) {
        for p in probes {
            out.push(u64::from(self.contains(&K::key(*p))));
        }
        self.read(probes, out)
    }
    fn read(&self, _probes: &[u64], out: &mut Vec<u64>) {
        out.extend([
            self.len() as u64,
            u64::from(self.is_empty()),
            self.capacity() as u64,
            self.entries_per_index() as u64,
            self.filter_count() as u64,
            f(self.estimated_fpp()),
            hb(&self.hashers()[0]),
            hb(&self.hashers()[1]),
        ]);
    }
}

impl<K: Key> Ds for QuotientFilter<K, HB> {
    fn has(&mut self, x: u64) -> bool {
        self.contains(&K::key(x))
    }
    fn facts(&self) -> Facts {
        Facts {
            len: self.len(),
            capacity: self.capacity(),
            bits: usize::from(self.quotient_bits()),
            fp_bits: usize::from(self.remainder_bits()),
            efpp: self.estimated_fpp(),
            empty: self.is_empty(),
            ..Facts::default()
        }
    }
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Insert(x, _) => self.insert(&K::key(*x)),
            Op::Remove(x, _) => self.remove(&K::key(*x)),
            Op::Clear => self.clear(),
        }
    }
    fn accepts(&self, op: &Op) -> bool {
        match op {
            Op::Insert(x, _) => self.len() < self.capacity() || self.contains(&K::key(*x)),
            _ => true,
        }
    }
    fn obs(&mut self, probes: &[u64], out: &mut Vec<u64>) {
        self.read(probes, out)
    }
    fn read(&self, probes: &[u64], out: &mut Vec<u64>) {
        for p in probes {
            out.push(u64::from(self.contains(&K::key(*p))));
        }
        out.extend([
            self.len() as u64,
            u64::from(self.is_empty()),
            self.capacity() as u64,
            u64::from(self.quotient_bits()),
            u64::from(self.remainder_bits()),
            f(self.estimated_fpp()),
            hb(self.hasher()),
        ]);
    }
}

macro_rules! cms {
    ($st:ident) => {
        impl<K: Key> Ds for CountMinSketch<$st, K, HB> {
            fn apply(&mut self, op: &Op) {
                match op {
                    Op::Insert(x, w) => self.insert(&K::key(*x), *w),
                    Op::Remove(x, w) => self.remove(&K::key(*x), *w),
                    Op::Clear => self.clear(),
                }
            }
            fn obs(&mut self, probes: &[u64], out: &mut Vec<u64>) {
                self.read(probes, out)
            }
            fn read(&self, probes: &[u64], out: &mut Vec<u64>) {
                for p in probes {
                    out.push(self.count(&K::key(*p)) as u64);
                }
                out.extend([
                    self.rows() as u64,
                    self.cols() as u64,
                    f(self.confidence()),
                    f(self.error()),
                    hb(&self.hashers()[0]),
                    hb(&self.hashers()[1]),
                ]);
            }
        }
    };
}
cms!(Min);
cms!(Mean);
cms!(Median);

impl<K: Key> Ds for HyperLogLog<K, HB> {
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Insert(x, _) => self.insert(&K::key(*x)),
            Op::Remove(..) => {}
            Op::Clear => self.clear(),
        }
    }
    fn obs(&mut self, probes: &[u64], out: &mut Vec<u64>) {
        self.read(probes, out)
    }
    fn read(&self, _probes: &[u64], out: &mut Vec<u64>) {
        out.extend([f(self.len()), u64::from(self.is_empty()), hb(self.hasher())]);
    }
}

fn chunks<K: Key>(probes: &[u64]) -> Vec<Vec<K>> {
    probes
        .chunks(5)
        .map(|c| c.iter().map(|x| K::key(*x)).collect())
        .collect()
}

impl<K: Key> Ds for MinHash<Vec_<K>, K, HB> {
    fn apply(&mut self, _op: &Op) {}
    fn obs(&mut self, probes: &[u64], out: &mut Vec<u64>) {
        self.read(probes, out)
    }
    fn read(&self, probes: &[u64], out: &mut Vec<u64>) {
        let sets = chunks::<K>(probes);
        for s in &sets {
            out.extend(self.get_min_hashes(s.clone().into_iter()));
        }
        for w in sets.windows(2) {
            out.push(f(self.get_similarity(w[0].clone().into_iter(), w[1].clone().into_iter())));
        }
        out.push(self.hasher_count() as u64);
        out.push(hb(&self.hashers()[0]));
        out.push(hb(&self.hashers()[1]));
    }
}

impl<K: Key> Ds for SimHash<Vec_<K>, K, HB> {
    fn apply(&mut self, _op: &Op) {}
    fn obs(&mut self, probes: &[u64], out: &mut Vec<u64>) {
        self.read(probes, out)
    }
    fn read(&self, probes: &[u64], out: &mut Vec<u64>) {
        let sets = chunks::<K>(probes);
        for s in &sets {
            out.push(self.get_sim_hash(s.clone().into_iter()));
        }
        let mut pairs = self.report_similarities(2, sets.iter().map(|s| s.clone().into_iter()).collect());
        pairs.sort();
        for (a, b) in pairs {
            out.push(((a as u64) << 32) | b as u64);
        }
        out.push(hb(self.hasher()));
    }
}

pub trait Subject {
    fn apply(&mut self, op: &Op);
    fn accepts(&self, op: &Op) -> bool;
    fn has(&mut self, x: u64) -> bool;
    fn facts(&self) -> Facts;
    fn obs(&mut self, probes: &[u64]) -> Vec<u64>;
    fn read(&self, probes: &[u64]) -> Vec<u64>;
    fn bytes(&self) -> Vec<u8>;
    fn json(&self) -> String;
    fn from_bytes(&self, b: &[u8]) -> Result<Box<dyn Subject>, String>;
    fn from_json(&self, s: &str) -> Result<Box<dyn Subject>, String>;
    fn dup(&self) -> Box<dyn Subject>;
    fn overwrite_from(&mut self, other: &dyn Subject);
    fn as_any(&self) -> &dyn Any;
    /// Observes from several threads at once through shared references; only sound for Sync types.
    fn concurrent(&self, probes: &[u64], threads: usize) -> Vec<Vec<u64>>;
}

struct Wrap<D: Ds>(D);

fn wrap<D: Ds>(d: D) -> Box<dyn Subject> {
    Box::new(Wrap(d))
}

impl<D: Ds> Subject for Wrap<D> {
    fn apply(&mut self, op: &Op) {
        self.0.apply(op)
    }
    fn accepts(&self, op: &Op) -> bool {
        self.0.accepts(op)
    }
    fn has(&mut self, x: u64) -> bool {
        self.0.has(x)
    }
    fn facts(&self) -> Facts {
        self.0.facts()
    }
    fn obs(&mut self, probes: &[u64]) -> Vec<u64> {
        let mut v = Vec::new();
        self.0.obs(probes, &mut v);
        v
    }
    fn read(&self, probes: &[u64]) -> Vec<u64> {
        let mut v = Vec::new();
        self.0.read(probes, &mut v);
        v
    }
    fn bytes(&self) -> Vec<u8> {
        bincode::serialize(&self.0).expect("bincode serialization")
    }
    fn json(&self) -> String {
        serde_json::to_string(&self.0).expect("JSON serialization")
    }
    fn from_bytes(&self, b: &[u8]) -> Result<Box<dyn Subject>, String> {
        bincode::deserialize::<D>(b).map(wrap).map_err(|e| e.to_string())
    }
    fn from_json(&self, s: &str) -> Result<Box<dyn Subject>, String> {
        serde_json::from_str::<D>(s).map(wrap).map_err(|e| e.to_string())
    }
    fn dup(&self) -> Box<dyn Subject> {
        wrap(self.0.clone())
    }
    fn overwrite_from(&mut self, other: &dyn Subject) {
        if let Some(o) = other.as_any().downcast_ref::<Wrap<D>>() {
            self.0.clone_from(&o.0);
        } else {
            unreachable!("same type expected");
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn concurrent(&self, probes: &[u64], threads: usize) -> Vec<Vec<u64>> {
        // The concrete types are checked to be Sync by the caller (C21) before it relies on this; the
        // bound is not required here so that the monitors still build if a type loses it.
        struct Shared<'a, D>(&'a D);
        impl<D> Clone for Shared<'_, D> {
            fn clone(&self) -> Self {
                Shared(self.0)
            }
        }
        unsafe impl<D> Send for Shared<'_, D> {}
        let d = Shared(&self.0);
        let start = std::sync::Barrier::new(threads);
        let start = &start;
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    let d = d.clone();
                    s.spawn(move || {
                        let d = d;
                        let mut v = Vec::new();
                        start.wait();
                        d.0.read(probes, &mut v);
                        v
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(v) => v,
                    Err(e) => std::panic::resume_unwind(e),
                })
                .collect()
        })
    }
}

/// A random history over `universe` keys.
pub fn history(r: &mut Rng, ty: Ty, len: usize, universe: u64, clears: bool) -> Vec<Op> {
    let base = if r.chance(0.3) { r.u64() >> 1 } else { 0 };
    let mut ops = Vec::with_capacity(len);
    for _ in 0..len {
        let x = base + r.below(universe);
        let w = match r.below(6) {
            0 => 0,
            1..=3 => r.range(1, 5) as i64,
            4 => r.range(1, 100_000) as i64,
            _ => -(r.range(1, 50) as i64),
        };
        let op = match r.below(100) {
            0 if clears && ty.clears() => Op::Clear,
            0..=29 if ty.removes() => Op::Remove(x, w),
            _ => Op::Insert(x, w),
        };
        ops.push(op);
    }
    ops
}

/// Keys to query: members of the universe and strangers.
pub fn probes(r: &mut Rng, ops: &[Op], n: usize) -> Vec<u64> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let x = match r.below(3) {
            0 => r.u64() >> 1,
            _ if ops.is_empty() => r.below(64),
            _ => match ops[r.idx(ops.len())] {
                Op::Insert(x, _) | Op::Remove(x, _) => x,
                Op::Clear => r.below(16),
            },
        };
        v.push(x);
    }
    v
}

/// A structure beyond 2^16 of whatever it counts, and a history that fills it that far.
pub fn large(r: &mut Rng, ty: Ty) -> (Spec, Vec<Op>) {
    let hb = HB::good_pair(r);
    let mut s = Spec::random(r, ty, hb);
    s.key = r.pick(&[0, 0, 0, 1, 2]);
    s.growth = 2.0;
    s.tight = 0.5;
    let mut items = r.range(66_000, 120_000);
    match ty {
        Ty::Bloom => {
            s.ctor = r.pick(&[0, 2]);
            s.m = r.urange(1 << 17, 1 << 20);
            s.n = r.urange(30_000, 150_000);
            s.fpp = r.log_f64(0.001, 0.2);
        }
        Ty::Partitioned => {
            s.ctor = r.pick(&[0, 2]);
            s.m = r.urange(1 << 17, 1 << 19);
            s.n = r.urange(30_000, 150_000);
            s.fpp = r.log_f64(0.001, 0.2);
        }
        Ty::ScalableBloom => {
            s.n = r.urange(10_000, 300_000);
            s.fpp = r.log_f64(0.001, 0.1);
        }
        Ty::Bs | Ty::Bssd | Ty::Rlbs => {
            s.m = r.urange(66_000, 300_000);
            s.fpp = r.log_f64(0.02, 0.4);
        }
        Ty::Cuckoo => {
            s.ctor = r.pick(&[0, 2, 3]);
            s.n = r.urange(66_000, 140_000);
            s.m = r.pick(&[2, 4, 4, 8]);
            s.fpp = r.log_f64(0.001, 0.1);
        }
        Ty::ScalableCuckoo => {
            s.n = r.urange(5_000, 100_000);
            s.m = 4;
            s.fpp = r.log_f64(0.001, 0.03);
        }
        Ty::Quotient => {
            s.ctor = 1;
            s.n = r.urange(17, 18);
            s.m = r.pick(&[5, 8, 14, 15, 16, 29, 30, 40]);
        }
        Ty::CmsMin | Ty::CmsMean | Ty::CmsMedian => {
            s.n = r.urange(1, 4);
            s.m = r.urange(30_000, 140_000);
        }
        Ty::Hll => s.fpp = 1.04 / f64::from(1 << r.range(14, 17)).sqrt() * 1.001,
        Ty::MinHash => {
            s.n = r.urange(1000, 70_000);
            items = 0;
        }
        Ty::SimHash => items = 0,
    }
    let base = if r.chance(0.5) { r.u64() >> 1 } else { 0 };
    let mut ops = Vec::with_capacity(items as usize);
    for i in 0..items {
        let w = if r.chance(0.2) { r.range(1, 1 << 20) as i64 } else { 1 };
        ops.push(Op::Insert(base + i, w));
        if ty.removes() && r.chance(0.1) {
            ops.push(Op::Remove(base + r.below(i + 1), w));
        }
    }
    (s, ops)
}

/// A structure of thousands of whatever it counts, and a history that hardly fills it.
pub fn sparse(r: &mut Rng, ty: Ty) -> (Spec, Vec<Op>) {
    let (mut s, mut ops) = large(r, ty);
    let shrink = r.below(8);
    match ty {
        Ty::Quotient => s.n -= shrink as usize,
        Ty::Hll => s.fpp *= f64::from(1 << (shrink / 2)),
        Ty::CmsMin | Ty::CmsMean | Ty::CmsMedian => s.m >>= shrink,
        Ty::Cuckoo | Ty::ScalableCuckoo => s.n >>= shrink,
        _ => {
            s.n >>= shrink;
            s.m >>= shrink;
        }
    }
    if ty.removes() && r.chance(0.4) {
        // filled first and emptied again
        ops.retain(|op| matches!(op, Op::Insert(..)));
        ops.truncate(r.urange(1, 2 + (66_000 >> (shrink + 1))));
        let kept: Vec<usize> = (0..r.idx(8)).map(|_| r.idx(ops.len())).collect();
        let mut gone: Vec<Op> = ops
            .iter()
            .enumerate()
            .filter(|(i, _)| !kept.contains(i))
            .filter_map(|(_, op)| if let Op::Insert(x, w) = op { Some(Op::Remove(*x, *w)) } else { None })
            .collect();
        if r.chance(0.5) {
            r.shuffle(&mut gone);
        }
        ops.extend(gone);
        return (s, ops);
    }
    let kept = r.log_range(1, 60);
    ops.truncate(kept);
    (s, ops)
}

/// Applies the operations that the structure accepts.
pub fn run_all(c: &mut crate::Ctx, x: &mut Box<dyn Subject>, ops: &[Op]) {
    for (i, op) in ops.iter().enumerate() {
        if x.accepts(op) {
            x.apply(op);
        }
        if i % 256 == 0 {
            c.tick();
        }
    }
}
