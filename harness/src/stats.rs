//! Bounds used by the statistical monitors. An alarm needs an event whose probability under the
//! property is below e^-LIMIT, so a correct tree never raises one in practice.
pub const LIMIT: f64 = 34.0; // e^-34 < 2e-15

fn kl(a: f64, p: f64) -> f64 {
    let t = |x: f64, y: f64| if x <= 0.0 { 0.0 } else { x * (x / y).ln() };
    t(a, p) + t(1.0 - a, 1.0 - p)
}

/// True if k successes in n independent trials are (almost surely) too many for probability p.
pub fn too_many(k: u64, n: u64, p: f64) -> bool {
    if n == 0 || p >= 1.0 {
        return false;
    }
    if p <= 0.0 {
        return k > 0;
    }
    let a = k as f64 / n as f64;
    a > p && n as f64 * kl(a, p) > LIMIT
}

/// True if k successes in n independent trials are (almost surely) too few for probability p.
pub fn too_few(k: u64, n: u64, p: f64) -> bool {
    if n == 0 || p <= 0.0 {
        return false;
    }
    if p >= 1.0 {
        return k < n;
    }
    let a = k as f64 / n as f64;
    a < p && n as f64 * kl(a, p) > LIMIT
}

pub fn mean(xs: &[f64]) -> f64 {
    xs.iter().sum::<f64>() / xs.len() as f64
}

pub fn rms(xs: &[f64]) -> f64 {
    (xs.iter().map(|x| x * x).sum::<f64>() / xs.len() as f64).sqrt()
}
