//! Hash builders under the monitor's control: good ones that are independent of the library, the
//! library's own, and hostile ones (weak, constant, raw words).
#![allow(deprecated)]
use crate::Rng;
use probabilistic_collections::SipHasherBuilder;
use serde::{Deserialize, Serialize};
use std::hash::{BuildHasher, Hasher, SipHasher};

pub const SIP: u8 = 0; // std SipHash, keyed
pub const FIRST: u8 = 1; // first word written
pub const SECOND: u8 = 2; // second word written
pub const IDENT: u8 = 3; // last word written
pub const WEAK: u8 = 4; // SipHash reduced to k1 low bits
pub const CONST: u8 = 5; // k0 for every item
pub const HIGH: u8 = 6; // SipHash with k1 low zero bits
pub const LIB: u8 = 7; // the library's default builder
pub const FNV: u8 = 8; // FNV-1a with a strong finalizer, keyed
pub const MULT: u8 = 9; // word times an odd constant (weak low bits)
pub const INVERT: u8 = 10; // SipHash with k1 high bits forced to one

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct HB {
    pub kind: u8,
    pub k0: u64,
    pub k1: u64,
}

impl HB {
    pub fn new(kind: u8, k0: u64, k1: u64) -> HB {
        HB { kind, k0, k1 }
    }
    pub fn sip(r: &mut Rng) -> HB {
        HB::new(SIP, r.u64(), r.u64())
    }
    /// A well distributed builder of some family.
    pub fn good(r: &mut Rng) -> HB {
        HB::new(r.pick(&[SIP, LIB, FNV]), r.u64(), r.u64())
    }
    pub fn good_pair(r: &mut Rng) -> [HB; 2] {
        [HB::good(r), HB::good(r)]
    }
    /// Any builder, including hostile ones.
    pub fn any(r: &mut Rng) -> HB {
        match r.below(12) {
            0..=3 => HB::good(r),
            4 => HB::new(FIRST, 0, 0),
            5 => HB::new(IDENT, 0, 0),
            6 => HB::new(WEAK, r.u64(), r.range(1, 12)),
            7 => {
                let c = r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, 0x8000_0000, 7]);
                HB::new(CONST, c, 0)
            }
            8 => HB::new(HIGH, r.u64(), r.range(1, 60)),
            9 => HB::new(MULT, r.u64() | 1, 0),
            10 => HB::new(INVERT, r.u64(), r.range(1, 60)),
            _ => HB::new(SECOND, 0, 0),
        }
    }
    pub fn any_pair(r: &mut Rng) -> [HB; 2] {
        [HB::any(r), HB::any(r)]
    }
    pub fn hash_one_u64(&self, x: u64) -> u64 {
        let mut h = self.build_hasher();
        h.write_u64(x);
        h.finish()
    }
}

#[derive(Clone)]
pub struct HBHasher {
    b: HB,
    words: [u64; 2],
    n: usize,
    fnv: u64,
    sip: SipHasher,
    lib: Option<<SipHasherBuilder as BuildHasher>::Hasher>,
}

impl BuildHasher for HB {
    type Hasher = HBHasher;
    fn build_hasher(&self) -> HBHasher {
        HBHasher {
            b: *self,
            words: [0; 2],
            n: 0,
            fnv: 0xcbf2_9ce4_8422_2325 ^ self.k0,
            sip: SipHasher::new_with_keys(self.k0, self.k1),
            lib: if self.kind == LIB {
                Some(SipHasherBuilder::from_seed(self.k0, self.k1).build_hasher())
            } else {
                None
            },
        }
    }
}

fn finalize(mut z: u64) -> u64 {
    z = (z ^ (z >> 33)).wrapping_mul(0xff51_afd7_ed55_8ccd);
    z = (z ^ (z >> 33)).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
    z ^ (z >> 33)
}

impl Hasher for HBHasher {
    fn write(&mut self, bytes: &[u8]) {
        match self.b.kind {
            SIP | WEAK | HIGH | INVERT => self.sip.write(bytes),
            LIB => self.lib.as_mut().unwrap().write(bytes),
            _ => {}
        }
        match self.b.kind {
            FNV => {
                for b in bytes {
                    self.fnv = (self.fnv ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
                }
            }
            FIRST | SECOND | IDENT | MULT => {
                let word = if bytes.len() <= 8 {
                    let mut w = [0u8; 8];
                    w[..bytes.len()].copy_from_slice(bytes);
                    u64::from_le_bytes(w)
                } else {
                    bytes
                        .iter()
                        .fold(0u64, |a, b| a.wrapping_mul(257).wrapping_add(u64::from(*b)))
                };
                if self.n < 2 {
                    self.words[self.n] = word;
                } else {
                    self.words[1] = word;
                }
                self.n += 1;
            }
            _ => {}
        }
    }
    // integers are fed alike on every machine
    fn write_u16(&mut self, x: u16) {
        self.write(&x.to_le_bytes())
    }
    fn write_u32(&mut self, x: u32) {
        self.write(&x.to_le_bytes())
    }
    fn write_u64(&mut self, x: u64) {
        self.write(&x.to_le_bytes())
    }
    fn write_u128(&mut self, x: u128) {
        self.write(&x.to_le_bytes())
    }
    fn write_usize(&mut self, x: usize) {
        self.write(&(x as u64).to_le_bytes())
    }
    fn finish(&self) -> u64 {
        let last = if self.n >= 2 { self.words[1] } else { self.words[0] };
        match self.b.kind {
            SIP => self.sip.finish(),
            LIB => self.lib.as_ref().unwrap().finish(),
            FIRST => self.words[0],
            SECOND => last,
            IDENT => last,
            WEAK => self.sip.finish() & ((1u64 << self.b.k1.min(63)) - 1),
            HIGH => self.sip.finish() << self.b.k1.min(63),
            INVERT => self.sip.finish() | !(u64::MAX >> self.b.k1.min(63)),
            CONST => self.b.k0,
            FNV => finalize(self.fnv ^ self.b.k1),
            _ => last.wrapping_mul(self.b.k0),
        }
    }
}
