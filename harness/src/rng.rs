//! Small deterministic generator for workloads (independent of the library's own generators).

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 2],
}

pub fn splitmix(x: u64) -> u64 {
    let x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let a = splitmix(seed);
        let b = splitmix(a ^ 0xD1B5_4A32_D192_ED03);
        Rng { s: [a, b | 1] }
    }
    pub fn u64(&mut self) -> u64 {
        // xoroshiro128++
        let [s0, mut s1] = self.s;
        let r = s0.wrapping_add(s1).rotate_left(17).wrapping_add(s0);
        s1 ^= s0;
        self.s = [s0.rotate_left(49) ^ s1 ^ (s1 << 21), s1.rotate_left(28)];
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.idx(xs.len())]
    }
    /// Log-uniform in lo..=hi.
    pub fn log_range(&mut self, lo: usize, hi: usize) -> usize {
        let (a, b) = ((lo as f64).ln(), ((hi + 1) as f64).ln());
        let x = (a + (b - a) * self.f64()).exp().floor() as usize;
        x.clamp(lo, hi)
    }
    pub fn log_f64(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + (hi.ln() - lo.ln()) * self.f64()).exp()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.idx(i + 1);
            xs.swap(i, j);
        }
    }
    /// Geometric-like trailing zero count of a fresh word.
    pub fn geometric(&mut self) -> u32 {
        self.u64().trailing_zeros()
    }
}
