//! Position-controlled items: with hash builders that return the first and second word of the item,
//! the bits an item uses in a Bloom-type filter are known, which turns answers into bit reads.
use crate::hashers::{FIRST, SECOND};
use crate::{Rng, HB};
use probabilistic_collections::bloom::*;

pub type Item = (u64, u64);

pub fn builders() -> [HB; 2] {
    [HB::new(FIRST, 0, 0), HB::new(SECOND, 0, 0)]
}

/// The hash sequence of an item: a, a+b, a+2b, ... plus the enhanced double hashing term.
pub fn hashes(x: &Item, k: usize) -> Vec<u64> {
    let (mut a, mut b) = *x;
    (0..k as u64)
        .map(|c| {
            let r = a;
            a = a.wrapping_add(b);
            b = b.wrapping_add(c);
            r
        })
        .collect()
}

/// The six Bloom-type filters over position-controlled items.
#[derive(Clone)]
pub enum Filter {
    Bloom(BloomFilter<Item, HB>),
    Partitioned(PartitionedBloomFilter<Item, HB>),
    Bs(BSBloomFilter<Item, HB>),
    Bssd(BSSDBloomFilter<Item, HB>),
    Rlbs(RLBSBloomFilter<Item, HB>),
    Scalable(ScalableBloomFilter<Item, HB>),
}

macro_rules! each {
    ($s:expr, $f:ident => $e:expr) => {
        match $s {
            Filter::Bloom($f) => $e,
            Filter::Partitioned($f) => $e,
            Filter::Bs($f) => $e,
            Filter::Bssd($f) => $e,
            Filter::Rlbs($f) => $e,
            Filter::Scalable($f) => $e,
        }
    };
}

impl Filter {
    pub fn insert(&mut self, x: &Item) {
        each!(self, f => f.insert(x))
    }
    pub fn contains(&self, x: &Item) -> bool {
        each!(self, f => f.contains(x))
    }
    pub fn clear(&mut self) {
        each!(self, f => f.clear())
    }
    pub fn len(&self) -> usize {
        each!(self, f => f.len())
    }
    pub fn ones(&self) -> usize {
        each!(self, f => f.count_ones())
    }
    pub fn zeros(&self) -> usize {
        each!(self, f => f.count_zeros())
    }
    pub fn hashers(&self) -> usize {
        match self {
            Filter::Bloom(f) => f.hasher_count(),
            Filter::Partitioned(f) => f.hasher_count(),
            Filter::Bs(f) => f.hasher_count(),
            Filter::Bssd(f) => f.hasher_count(),
            Filter::Rlbs(f) => f.hasher_count(),
            Filter::Scalable(_) => 0,
        }
    }
    /// Bits per slice (all of them for the plain filter).
    pub fn slice(&self) -> usize {
        match self {
            Filter::Bloom(f) => f.len(),
            Filter::Partitioned(f) => f.bit_count(),
            Filter::Bs(f) => f.bit_count(),
            Filter::Bssd(f) => f.bit_count(),
            Filter::Rlbs(f) => f.bit_count(),
            Filter::Scalable(f) => f.len(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        each!(self, f => bincode::serialize(f).unwrap())
    }
    pub fn name(&self) -> &'static str {
        match self {
            Filter::Bloom(_) => "BloomFilter",
            Filter::Partitioned(_) => "PartitionedBloomFilter",
            Filter::Bs(_) => "BSBloomFilter",
            Filter::Bssd(_) => "BSSDBloomFilter",
            Filter::Rlbs(_) => "RLBSBloomFilter",
            Filter::Scalable(_) => "ScalableBloomFilter",
        }
    }
    /// Bit indexes (over all slices) that the item uses, if the hash sequence is as assumed.
    pub fn positions(&self, x: &Item) -> Vec<usize> {
        let m = self.slice() as u64;
        let plain = matches!(self, Filter::Bloom(_));
        hashes(x, self.hashers())
            .into_iter()
            .enumerate()
            .map(|(i, h)| (h % m) as usize + if plain { 0 } else { i * m as usize })
            .collect()
    }
    /// Whether the assumed positions explain the behaviour of fresh single-item filters; they are an
    /// observation aid, not part of any property.
    pub fn calibrated(&self, r: &mut Rng) -> bool {
        let mut fresh = self.clone();
        for _ in 0..12 {
            fresh.clear();
            let x = (r.u64(), r.u64());
            fresh.insert(&x);
            let p = self.positions(&x);
            let mut q = p.clone();
            q.sort();
            q.dedup();
            if fresh.ones() != q.len() {
                return false;
            }
            let m = self.slice() as u64;
            for _ in 0..30 {
                let y = (
                    (x.0 % m + r.below(3)) % m,
                    if r.chance(0.7) { x.1 % m } else { r.below(m) },
                );
                let want = self.positions(&y).iter().all(|i| p.contains(i));
                if fresh.contains(&y) != want {
                    return false;
                }
            }
        }
        true
    }
}
