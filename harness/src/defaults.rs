//! Structures with the crate's default hash builder, made by the constructors that pick it.
use crate::Rng;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, SimHash};
use probabilistic_collections::SipHasherBuilder as Sip;
use std::vec::IntoIter;

/// A default-built structure over String keys that is used through borrowed forms.
pub trait Default_: Sized {
    const NAME: &'static str;
    /// Number of constructors.
    const CTORS: u8;
    /// Answers may depend on internal random choices (after the same insertions).
    const RANDOM: bool;
    fn make(ctor: u8) -> Self;
    /// The same parameters with these builders.
    fn rebuild(ctor: u8, h: &[Sip]) -> Self;
    fn builders(&self) -> Vec<Sip>;
    fn insert(&mut self, x: &str);
    fn insert_owned(&mut self, x: &String);
    fn answer(&mut self, x: &str) -> u64;
    fn answer_owned(&mut self, x: &String) -> u64;
    fn bytes(&self) -> Vec<u8>;
    fn from_bytes(b: &[u8]) -> Self;
    fn json(&self) -> String;
    fn from_json(s: &str) -> Self;
}

macro_rules! serde_fns {
    () => {
        fn bytes(&self) -> Vec<u8> {
            bincode::serialize(self).unwrap()
        }
        fn from_bytes(b: &[u8]) -> Self {
            bincode::deserialize(b).unwrap()
        }
        fn json(&self) -> String {
            serde_json::to_string(self).unwrap()
        }
        fn from_json(s: &str) -> Self {
            serde_json::from_str(s).unwrap()
        }
    };
}

macro_rules! filter {
    ($ty:ty, $name:literal, $random:literal, [$($i:literal => $new:expr, $with:expr;)*], $h:ident, $get:expr) => {
        impl Default_ for $ty {
            const NAME: &'static str = $name;
            const CTORS: u8 = [$($i),*].len() as u8;
            const RANDOM: bool = $random;
            fn make(ctor: u8) -> Self {
                match ctor { $($i => $new,)* _ => unreachable!() }
            }
            fn rebuild(ctor: u8, $h: &[Sip]) -> Self {
                match ctor { $($i => $with,)* _ => unreachable!() }
            }
            fn builders(&self) -> Vec<Sip> {
                let g: fn(&Self) -> Vec<Sip> = $get;
                g(self)
            }
            fn insert(&mut self, x: &str) { <$ty>::insert(self, x) }
            fn insert_owned(&mut self, x: &String) { <$ty>::insert(self, x) }
            fn answer(&mut self, x: &str) -> u64 { u64::from(self.contains(x)) }
            fn answer_owned(&mut self, x: &String) -> u64 { u64::from(self.contains(x)) }
            serde_fns!();
        }
    };
}

filter!(BloomFilter<String>, "BloomFilter", false, [
    0 => Self::new(50, 0.02), Self::with_hashers(50, 0.02, [h[0], h[1]]);
    1 => Self::from_item_count(300, 40), Self::from_item_count_with_hashers(300, 40, [h[0], h[1]]);
    2 => Self::from_fpp(300, 0.05), Self::from_fpp_with_hashers(300, 0.05, [h[0], h[1]]);
], h, |s| s.hashers().to_vec());
filter!(PartitionedBloomFilter<String>, "PartitionedBloomFilter", false, [
    0 => Self::from_bit_count(90, 0.05), Self::from_bit_count_with_hashers(90, 0.05, [h[0], h[1]]);
    1 => Self::from_item_count(60, 0.03), Self::from_item_count_with_hashers(60, 0.03, [h[0], h[1]]);
], h, |s| s.hashers().to_vec());
filter!(ScalableBloomFilter<String>, "ScalableBloomFilter", false, [
    0 => Self::new(20, 0.05, 2.0, 0.5), Self::with_hashers(20, 0.05, 2.0, 0.5, [h[0], h[1]]);
], h, |s| s.hashers().to_vec());
filter!(BSBloomFilter<String>, "BSBloomFilter", true, [
    0 => Self::new(400, 0.05), Self::with_hashers(400, 0.05, [h[0], h[1]]);
], h, |s| s.hashers().to_vec());
filter!(BSSDBloomFilter<String>, "BSSDBloomFilter", true, [
    0 => Self::new(400, 0.05), Self::with_hashers(400, 0.05, [h[0], h[1]]);
], h, |s| s.hashers().to_vec());
filter!(RLBSBloomFilter<String>, "RLBSBloomFilter", true, [
    0 => Self::new(400, 0.05), Self::with_hashers(400, 0.05, [h[0], h[1]]);
], h, |s| s.hashers().to_vec());
filter!(CuckooFilter<String>, "CuckooFilter", false, [
    0 => Self::new(64), Self::with_hashers(64, [h[0], h[1]]);
    1 => Self::from_parameters(16, 10, 2), Self::from_parameters_with_hashers(16, 10, 2, [h[0], h[1]]);
    2 => Self::from_entries_per_index(64, 0.02, 4), Self::from_entries_per_index_with_hashers(64, 0.02, 4, [h[0], h[1]]);
    3 => Self::from_fingerprint_bit_count(64, 0.05, 9), Self::from_fingerprint_bit_count_with_hashers(64, 0.05, 9, [h[0], h[1]]);
], h, |s| s.hashers().to_vec());
filter!(ScalableCuckooFilter<String>, "ScalableCuckooFilter", true, [
    0 => Self::new(16, 0.01, 2.0, 0.5), Self::with_hashers(16, 0.01, 2.0, 0.5, [h[0], h[1]]);
    1 => Self::from_entries_per_index(16, 0.01, 4, 2.0, 0.5), Self::from_entries_per_index_with_hashers(16, 0.01, 4, 2.0, 0.5, [h[0], h[1]]);
], h, |s| s.hashers().to_vec());
filter!(QuotientFilter<String>, "QuotientFilter", false, [
    0 => Self::new(8, 6), Self::with_hasher(8, 6, h[0]);
    1 => Self::from_fpp(200, 0.03), Self::from_fpp_with_hasher(200, 0.03, h[0]);
], h, |s| vec![*s.hasher()]);

macro_rules! sketch {
    ($st:ident, $name:literal) => {
        impl Default_ for CountMinSketch<$st, String> {
            const NAME: &'static str = $name;
            const CTORS: u8 = 2;
            const RANDOM: bool = false;
            fn make(ctor: u8) -> Self {
                if ctor == 0 {
                    Self::new(3, 29)
                } else {
                    Self::from_error(0.05, 0.1)
                }
            }
            fn rebuild(ctor: u8, h: &[Sip]) -> Self {
                if ctor == 0 {
                    Self::with_hashers(3, 29, [h[0], h[1]])
                } else {
                    Self::from_error_with_hashers(0.05, 0.1, [h[0], h[1]])
                }
            }
            fn builders(&self) -> Vec<Sip> {
                self.hashers().to_vec()
            }
            fn insert(&mut self, x: &str) {
                CountMinSketch::insert(self, x, 3)
            }
            fn insert_owned(&mut self, x: &String) {
                CountMinSketch::insert(self, x, 3)
            }
            fn answer(&mut self, x: &str) -> u64 {
                self.count(x) as u64
            }
            fn answer_owned(&mut self, x: &String) -> u64 {
                self.count(x) as u64
            }
            serde_fns!();
        }
    };
}
sketch!(CountMinStrategy, "CountMinSketch/min");
sketch!(CountMeanStrategy, "CountMinSketch/mean");
sketch!(CountMedianBiasStrategy, "CountMinSketch/median");

impl Default_ for HyperLogLog<String> {
    const NAME: &'static str = "HyperLogLog";
    const CTORS: u8 = 1;
    const RANDOM: bool = false;
    fn make(_: u8) -> Self {
        Self::new(0.1)
    }
    fn rebuild(_: u8, h: &[Sip]) -> Self {
        Self::with_hasher(0.1, h[0])
    }
    fn builders(&self) -> Vec<Sip> {
        vec![*self.hasher()]
    }
    fn insert(&mut self, x: &str) {
        HyperLogLog::insert(self, x)
    }
    fn insert_owned(&mut self, x: &String) {
        HyperLogLog::insert(self, x)
    }
    fn answer(&mut self, x: &str) -> u64 {
        let mut c = self.clone();
        HyperLogLog::insert(&mut c, x);
        c.len().to_bits()
    }
    fn answer_owned(&mut self, x: &String) -> u64 {
        let mut c = self.clone();
        HyperLogLog::insert(&mut c, x);
        c.len().to_bits()
    }
    serde_fns!();
}

impl Default_ for MinHash<IntoIter<String>, String> {
    const NAME: &'static str = "MinHash";
    const CTORS: u8 = 1;
    const RANDOM: bool = false;
    fn make(_: u8) -> Self {
        Self::new(9)
    }
    fn rebuild(_: u8, h: &[Sip]) -> Self {
        Self::with_hashers(9, [h[0], h[1]])
    }
    fn builders(&self) -> Vec<Sip> {
        self.hashers().to_vec()
    }
    fn insert(&mut self, _: &str) {}
    fn insert_owned(&mut self, _: &String) {}
    fn answer(&mut self, x: &str) -> u64 {
        self.get_min_hashes(vec![x.to_string()].into_iter())
            .iter()
            .fold(0, |a, h| a.rotate_left(7) ^ h)
    }
    fn answer_owned(&mut self, x: &String) -> u64 {
        self.answer(x)
    }
    serde_fns!();
}

impl Default_ for SimHash<IntoIter<String>, String> {
    const NAME: &'static str = "SimHash";
    const CTORS: u8 = 2;
    const RANDOM: bool = false;
    fn make(ctor: u8) -> Self {
        if ctor == 0 {
            Self::new()
        } else {
            Self::default()
        }
    }
    fn rebuild(_: u8, h: &[Sip]) -> Self {
        Self::with_hasher(h[0])
    }
    fn builders(&self) -> Vec<Sip> {
        vec![*self.hasher()]
    }
    fn insert(&mut self, _: &str) {}
    fn insert_owned(&mut self, _: &String) {}
    fn answer(&mut self, x: &str) -> u64 {
        self.get_sim_hash(vec![x.to_string()].into_iter())
    }
    fn answer_owned(&mut self, x: &String) -> u64 {
        self.answer(x)
    }
    serde_fns!();
}

/// Runs a generic check on the i-th default-built structure.
#[macro_export]
macro_rules! with_default {
    ($i:expr, $f:ident($($a:expr),*)) => {{
        use probabilistic_collections::bloom::*;
        use probabilistic_collections::count_min_sketch::*;
        use probabilistic_collections::cuckoo::*;
        use probabilistic_collections::hyperloglog::HyperLogLog;
        use probabilistic_collections::quotient::QuotientFilter;
        use probabilistic_collections::similarity::{MinHash, SimHash};
        match $i % 15 {
            0 => $f::<BloomFilter<String>>($($a),*),
            1 => $f::<PartitionedBloomFilter<String>>($($a),*),
            2 => $f::<ScalableBloomFilter<String>>($($a),*),
            3 => $f::<BSBloomFilter<String>>($($a),*),
            4 => $f::<BSSDBloomFilter<String>>($($a),*),
            5 => $f::<RLBSBloomFilter<String>>($($a),*),
            6 => $f::<CuckooFilter<String>>($($a),*),
            7 => $f::<ScalableCuckooFilter<String>>($($a),*),
            8 => $f::<QuotientFilter<String>>($($a),*),
            9 => $f::<CountMinSketch<CountMinStrategy, String>>($($a),*),
            10 => $f::<CountMinSketch<CountMeanStrategy, String>>($($a),*),
            11 => $f::<CountMinSketch<CountMedianBiasStrategy, String>>($($a),*),
            12 => $f::<HyperLogLog<String>>($($a),*),
            13 => $f::<MinHash<std::vec::IntoIter<String>, String>>($($a),*),
            _ => $f::<SimHash<std::vec::IntoIter<String>, String>>($($a),*),
        }
    }};
}

pub fn name(r: &mut Rng, tag: u64) -> String {
    match r.below(4) {
        0 => String::new() + &tag.to_string(),
        1 => format!("item number {tag} with some more text behind it"),
        2 => format!("ß{tag}é"),
        _ => format!("{tag:064x}"),
    }
}
