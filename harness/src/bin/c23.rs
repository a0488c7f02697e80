//! C23: constructors size structures as documented and reject only documented input.
use pcverif::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::MinHash;

const LN2: f64 = std::f64::consts::LN_2;
type M = CountMinStrategy;

/// `got` is `x` rounded up, for any reasonable way to compute `x`.
fn is_ceil(got: usize, x: f64) -> bool {
    let (lo, hi) = ((x * (1.0 - 1e-9)).ceil(), (x * (1.0 + 1e-9)).ceil());
    (lo..=hi.max(1.0)).contains(&(got as f64))
}
fn is_floor(got: usize, x: f64) -> bool {
    let (lo, hi) = ((x * (1.0 - 1e-6)).floor(), (x * (1.0 + 1e-6)).floor());
    (lo..=hi).contains(&(got as f64))
}

/// Bytes a structure may hold for `documented` bytes of content.
fn memory(what: &str, held: isize, peak: isize, documented: f64) -> R {
    let allowed = documented * 1.3 + 512.0;
    ensure!(held as f64 <= allowed, "{what} holds {held} bytes; its documented content is {documented:.0} bytes");
    ensure!(peak as f64 <= allowed + documented + 512.0, "{what} needed {peak} bytes while it was built; its documented content is {documented:.0} bytes");
    Ok(())
}

fn fpp(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => r.log_f64(1e-15, 1e-6),
        1 => 1.0 - r.log_f64(1e-6, 0.5),
        2 => r.pick(&[0.5, 0.25, 0.125, 0.01, 0.001, 0.1, 0.05, 1e-9, 0.999_999, 0.75]),
        _ => r.log_f64(1e-6, 0.9),
    }
}

fn items(c: &mut Ctx) -> usize {
    let top = c.scale(300_000, 2_000_000);
    match c.rng.below(5) {
        0 => c.rng.urange(1, 5),
        1 => {
            let b = 1usize << c.rng.range(0, 17);
            (b + c.rng.idx(3)).saturating_sub(1).max(1)
        }
        _ => c.rng.log_range(1, top),
    }
}

/// Builds under observation: a panic here is a rejected legal argument.
fn build<T>(c: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> Result<(T, isize, isize), String> {
    c.count("constructions", 1);
    match c.catch(|| alloc::measure(f)) {
        Ok(x) => Ok(x),
        Err(e) => Err(format!("{what} rejects legal arguments: {e}")),
    }
}

fn hold(c: &mut Ctx, what: &str, has: impl Fn(u64) -> bool, x: u64) -> R {
    c.count("fresh_queries", 1);
    ensure!(!has(x), "{what} reports an item before any insertion");
    Ok(())
}

fn bloom(c: &mut Ctx) -> R {
    let h = HB::good_pair(&mut c.rng);
    let (n, p) = (items(c), fpp(&mut c.rng));
    let bits = c.rng.log_range(1, c.scale(300_000, 3_000_000));
    let x = c.rng.u64();
    let seed = c.seed;
    c.mix(seed);
    c.nontrivial();
    let default = c.rng.chance(0.15);
    match c.index % 8 {
        0 | 1 => {
            let what = format!("BloomFilter::new({n}, {p:e})");
            let (mut f, held, peak) = if default {
                let (f, a, b) = build(c, &what, || BloomFilter::<u64>::new(n, p))?;
                return checks_bloom_items(&what, f.len(), f.hasher_count(), f.count_ones(), n, p)
                    .and_then(|_| memory(&what, a, b, f.len() as f64 / 8.0));
            } else {
                build(c, &what, || BloomFilter::<u64, HB>::with_hashers(n, p, h))?
            };
            checks_bloom_items(&what, f.len(), f.hasher_count(), f.count_ones(), n, p)?;
            memory(&what, held, peak, f.len() as f64 / 8.0)?;
            hold(c, &what, |x| f.contains(&x), x)?;
            f.insert(&x);
            ensure!(f.contains(&x), "{what} loses its first item");
        }
        2 => {
            let n = n.min(bits);
            let what = format!("BloomFilter::from_item_count({bits}, {n})");
            let (len, k, held, peak) = if default {
                let (f, a, b) = build(c, &what, || BloomFilter::<u64>::from_item_count(bits, n))?;
                (f.len(), f.hasher_count(), a, b)
            } else {
                let (f, a, b) = build(c, &what, || BloomFilter::<u64, HB>::from_item_count_with_hashers(bits, n, h))?;
                hold(c, &what, |x| f.contains(&x), x)?;
                (f.len(), f.hasher_count(), a, b)
            };
            ensure!(len == bits, "{what} has {len} bits");
            ensure!(is_ceil(k, bits as f64 / n as f64 * LN2), "{what} has {k} hash functions, not {}", bits as f64 / n as f64 * LN2);
            memory(&what, held, peak, bits as f64 / 8.0)?;
        }
        3 => {
            let what = format!("BloomFilter::from_fpp({bits}, {p:e})");
            let (len, k, held, peak) = if default {
                let (f, a, b) = build(c, &what, || BloomFilter::<u64>::from_fpp(bits, p))?;
                (f.len(), f.hasher_count(), a, b)
            } else {
                let (f, a, b) = build(c, &what, || BloomFilter::<u64, HB>::from_fpp_with_hashers(bits, p, h))?;
                hold(c, &what, |x| f.contains(&x), x)?;
                (f.len(), f.hasher_count(), a, b)
            };
            ensure!(len == bits, "{what} has {len} bits");
            // the design load is the (whole) number of items these bits are good for
            let exact = LN2 * bits as f64 / -p.log2();
            let ok = [(exact * (1.0 - 1e-9)).floor(), (exact * (1.0 + 1e-9)).floor(), exact.ceil()]
                .iter()
                .any(|n| is_ceil(k, bits as f64 / n.max(1.0) * LN2));
            ensure!(ok, "{what} has {k} hash functions for {exact} items");
            memory(&what, held, peak, bits as f64 / 8.0)?;
        }
        4 => {
            let what = format!("PartitionedBloomFilter::from_item_count({n}, {p:e})");
            let (len, b, k, held, peak) = if default {
                let (f, a, m) = build(c, &what, || PartitionedBloomFilter::<u64>::from_item_count(n, p))?;
                (f.len(), f.bit_count(), f.hasher_count(), a, m)
            } else {
                let (f, a, m) = build(c, &what, || PartitionedBloomFilter::<u64, HB>::from_item_count_with_hashers(n, p, h))?;
                hold(c, &what, |x| f.contains(&x), x)?;
                (f.len(), f.bit_count(), f.hasher_count(), a, m)
            };
            ensure!(is_ceil(k, -p.log2()), "{what} has {k} hash functions, not {}", -p.log2());
            ensure!(is_ceil(b, n as f64 * -p.ln() / (LN2 * LN2) / k as f64), "{what} has {b} bits per partition");
            ensure!(len == b * k, "{what}: {len} bits are not {k} partitions of {b}");
            memory(&what, held, peak, len as f64 / 8.0)?;
        }
        5 => {
            let bits = bits.min(100_000);
            let what = format!("PartitionedBloomFilter::from_bit_count({bits}, {p:e})");
            let (len, b, k, held, peak) = if default {
                let (f, a, m) = build(c, &what, || PartitionedBloomFilter::<u64>::from_bit_count(bits, p))?;
                (f.len(), f.bit_count(), f.hasher_count(), a, m)
            } else {
                let (f, a, m) = build(c, &what, || PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(bits, p, h))?;
                hold(c, &what, |x| f.contains(&x), x)?;
                (f.len(), f.bit_count(), f.hasher_count(), a, m)
            };
            ensure!(b == bits, "{what} has {b} bits per partition");
            ensure!(is_ceil(k, -p.log2()), "{what} has {k} hash functions, not {}", -p.log2());
            ensure!(len == b * k, "{what}: {len} bits are not {k} partitions of {b}");
            memory(&what, held, peak, len as f64 / 8.0)?;
        }
        6 => {
            let bits = bits.min(60_000);
            let k_exact = (2.0 + p.ln() / (1.0 - (-1.0f64).exp()).ln()) / 2.0;
            macro_rules! stream {
                ($t:ident, $name:literal) => {{
                    let what = format!("{}::new({bits}, {p:e})", $name);
                    let (len, b, k, held, peak) = if default {
                        let (f, a, m) = build(c, &what, || $t::<u64>::new(bits, p))?;
                        (f.len(), f.bit_count(), f.hasher_count(), a, m)
                    } else {
                        let (mut f, a, m) = build(c, &what, || $t::<u64, HB>::with_hashers(bits, p, h))?;
                        hold(c, &what, |x| f.contains(&x), x)?;
                        f.insert(&x);
                        ensure!(f.contains(&x), "{what} loses its first item");
                        (f.len(), f.bit_count(), f.hasher_count(), a, m)
                    };
                    ensure!(b == bits, "{what} has {b} bits per filter");
                    ensure!(is_ceil(k, k_exact), "{what} has {k} hash functions, not {k_exact}");
                    ensure!(len == b * k, "{what}: {len} bits are not {k} filters of {b}");
                    memory(&what, held, peak, len as f64 / 8.0 + 32.0 * k as f64)?;
                }};
            }
            match c.rng.below(3) {
                0 => stream!(BSBloomFilter, "BSBloomFilter"),
                1 => stream!(BSSDBloomFilter, "BSSDBloomFilter"),
                _ => stream!(RLBSBloomFilter, "RLBSBloomFilter"),
            }
        }
        _ => {
            let bits = bits.min(60_000);
            let (g, t) = (c.rng.pick(&[1.0, 1.5, 2.0, 4.0]), c.rng.pick(&[0.3, 0.5, 0.9]));
            let what = format!("ScalableBloomFilter::new({bits}, {p:e}, {g}, {t})");
            let (mut f, held, peak) = build(c, &what, || ScalableBloomFilter::<u64, HB>::with_hashers(bits, p, g, t, h))?;
            ensure!(f.len() == bits && f.filter_count() == 1, "{what} starts with {} bits in {} levels", f.len(), f.filter_count());
            memory(&what, held, peak, bits as f64 / 8.0 + 200.0)?;
            // memory follows the reported size through growth
            let before = alloc::current();
            for i in 0..c.rng.log_range(1, 4000) as u64 {
                f.insert(&(x ^ i));
                c.tick();
            }
            let now = held + alloc::current() - before;
            memory(&what, now, 0, f.len() as f64 / 8.0 + 400.0 * f.filter_count() as f64)?;
        }
    }
    Ok(())
}

fn checks_bloom_items(what: &str, len: usize, k: usize, ones: usize, n: usize, p: f64) -> R {
    let exact = -p.log2() * n as f64 / LN2;
    ensure!(is_ceil(len, exact), "{what} has {len} bits, {exact} are needed");
    ensure!(is_ceil(k, len as f64 / n as f64 * LN2), "{what} has {k} hash functions for {} bits per item", len as f64 / n as f64);
    ensure!(ones == 0, "{what} starts with {ones} bits set");
    Ok(())
}

fn cuckoo(c: &mut Ctx) -> R {
    let h = HB::good_pair(&mut c.rng);
    let n = items(c).min(c.scale(100_000, 500_000));
    let e = match c.rng.below(4) {
        0 => c.rng.log_range(1, 100),
        _ => c.rng.urange(1, 8),
    };
    let p = fpp(&mut c.rng).min(0.97);
    let x = c.rng.u64();
    let seed = c.seed;
    c.mix(seed);
    c.nontrivial();
    let default = c.rng.chance(0.15);
    macro_rules! facts {
        ($f:expr) => {
            ($f.bucket_len(), $f.entries_per_index(), $f.capacity(), $f.fingerprint_bit_count(), $f.len() + $f.extra_items_len())
        };
    }
    let ctor = c.index % 5;
    let (what, (buckets, entries, cap, bits, len), held, peak, want_e, want_bits): (String, (usize, usize, usize, usize, usize), isize, isize, Option<usize>, Option<usize>);
    match ctor {
        0 => {
            what = format!("CuckooFilter::new({n})");
            if default {
                let (f, a, b) = build(c, &what, || CuckooFilter::<u64>::new(n))?;
                ((buckets, entries, cap, bits, len), held, peak) = (facts!(f), a, b);
            } else {
                let (f, a, b) = build(c, &what, || CuckooFilter::<u64, HB>::with_hashers(n, h))?;
                hold(c, &what, |x| f.contains(&x), x)?;
                ((buckets, entries, cap, bits, len), held, peak) = (facts!(f), a, b);
            }
            (want_e, want_bits) = (Some(4), Some(8));
        }
        1 => {
            let w = c.rng.urange(1, 64);
            what = format!("CuckooFilter::from_parameters({n}, {w}, {e})");
            if default {
                let (f, a, b) = build(c, &what, || CuckooFilter::<u64>::from_parameters(n, w, e))?;
                ((buckets, entries, cap, bits, len), held, peak) = (facts!(f), a, b);
            } else {
                let (mut f, a, b) = build(c, &what, || CuckooFilter::<u64, HB>::from_parameters_with_hashers(n, w, e, h))?;
                hold(c, &what, |x| f.contains(&x), x)?;
                ((buckets, entries, cap, bits, len), held, peak) = (facts!(f), a, b);
                let ins = c.catch(|| f.insert(&x));
                ensure!(ins.is_ok() && f.contains(&x), "{what} loses its first item: {ins:?}");
            }
            (want_e, want_bits) = (Some(e), Some(w));
        }
        2 | 3 => {
            what = format!("CuckooFilter::from_entries_per_index({n}, {p:e}, {e})");
            if default {
                let (f, a, b) = build(c, &what, || CuckooFilter::<u64>::from_entries_per_index(n, p, e))?;
                ((buckets, entries, cap, bits, len), held, peak) = (facts!(f), a, b);
            } else {
                let (f, a, b) = build(c, &what, || CuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(n, p, e, h))?;
                hold(c, &what, |x| f.contains(&x), x)?;
                ((buckets, entries, cap, bits, len), held, peak) = (facts!(f), a, b);
            }
            (want_e, want_bits) = (Some(e), None);
            // the smallest fingerprint that keeps 2e comparisons below p (one bit to spare)
            let exact = (-2.0 / ((-p).ln_1p() / (2.0 * e as f64)).exp_m1()).log2();
            ensure!(is_ceil(bits, exact.min(64.0)), "{what} has {bits}-bit fingerprints, {exact} needed");
        }
        _ => {
            let w = c.rng.urange(2, 64);
            let count = 2f64.powi(w as i32);
            let exact = (-p).ln_1p() / (-1.0 / (count - 1.0)).ln_1p() / 2.0;
            what = format!("CuckooFilter::from_fingerprint_bit_count({n}, {p:e}, {w})");
            if exact < 1.0 - 1e-6 {
                // documented: impossible to achieve
                let r = c.catch(|| CuckooFilter::<u64, HB>::from_fingerprint_bit_count_with_hashers(n, p, w, h).len());
                ensure!(r.is_err(), "{what} accepts a false positive probability that {w} bits cannot meet");
                c.count("rejections", 1);
                return Ok(());
            }
            if exact < 1.0 + 1e-6 {
                return Ok(());
            }
            if default {
                let (f, a, b) = build(c, &what, || CuckooFilter::<u64>::from_fingerprint_bit_count(n, p, w))?;
                ((buckets, entries, cap, bits, len), held, peak) = (facts!(f), a, b);
            } else {
                let (f, a, b) = build(c, &what, || CuckooFilter::<u64, HB>::from_fingerprint_bit_count_with_hashers(n, p, w, h))?;
                hold(c, &what, |x| f.contains(&x), x)?;
                ((buckets, entries, cap, bits, len), held, peak) = (facts!(f), a, b);
            }
            // more entries than items would only waste space
            ensure!(
                (exact >= n as f64 && entries == n) || is_floor(entries, exact),
                "{what} has {entries} entries per index, {exact} meet the false positive probability"
            );
            (want_e, want_bits) = (None, Some(w));
        }
    }
    if let Some(e) = want_e {
        ensure!(entries == e, "{what} has {entries} entries per index");
    }
    if let Some(w) = want_bits {
        ensure!(bits == w, "{what} has {bits}-bit fingerprints");
    }
    ensure!(len == 0, "{what} starts with {len} items");
    let want = ((n + entries - 1) / entries).next_power_of_two();
    ensure!(buckets == want, "{what} has {buckets} buckets, {want} documented");
    ensure!(cap == buckets * entries, "{what}: capacity() {cap} is not {buckets} buckets of {entries}");
    ensure!(cap >= n, "{what} has room for {cap} items only");
    memory(&what, held, peak, (cap * bits) as f64 / 8.0)?;
    Ok(())
}

fn scalable_cuckoo(c: &mut Ctx) -> R {
    let h = HB::good_pair(&mut c.rng);
    let n = items(c).min(20_000);
    let e = c.rng.urange(1, 8);
    let p = c.rng.log_f64(1e-6, 0.4);
    let (g, t) = (c.rng.pick(&[1.0, 1.5, 2.0]), c.rng.pick(&[0.3, 0.5, 0.9]));
    let what = format!("ScalableCuckooFilter::from_entries_per_index({n}, {p:e}, {e}, {g}, {t})");
    let seed = c.seed;
    c.mix(seed);
    c.nontrivial();
    let plain = c.rng.chance(0.4);
    let e = if plain { 4 } else { e };
    let (mut f, held, peak) = build(c, &what, || {
        if plain {
            ScalableCuckooFilter::<u64, HB>::with_hashers(n, p, g, t, h)
        } else {
            ScalableCuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(n, p, e, g, t, h)
        }
    })?;
    let width = |p: f64| (-2.0 / ((-p).ln_1p() / (2.0 * e as f64)).exp_m1()).log2().ceil().min(64.0);
    let want = ((n + e - 1) / e).next_power_of_two() * e;
    ensure!(f.capacity() == want, "{what} has capacity {}, {want} documented", f.capacity());
    ensure!(f.filter_count() == 1 && f.len() == 0 && f.entries_per_index() == e, "{what} does not start empty with one level of {e} entries");
    memory(&what, held, peak, want as f64 * width(p) / 8.0 + 300.0)?;
    let before = alloc::current();
    let base = c.rng.u64();
    let top = (3 * n).clamp(1, 5000);
    for i in 0..c.rng.log_range(1, top) as u64 {
        f.insert(&base.wrapping_add(i));
        c.tick();
    }
    let now = held + alloc::current() - before;
    let last = width(p * t.powi(f.filter_count() as i32 - 1)) + 1.0;
    // the overflow records take two words each and at most one level keeps a few of them
    memory(&what, now, 0, f.capacity() as f64 * last / 8.0 + 800.0 * f.filter_count() as f64)?;
    ensure!(f.capacity() >= f.len(), "{what} reports {} items in {} slots", f.len(), f.capacity());
    Ok(())
}

fn quotient(c: &mut Ctx) -> R {
    let q = c.index % 14 + 1;
    let seed = c.seed;
    c.mix(seed);
    c.nontrivial();
    if c.index % 3 == 0 {
        let (n, p) = (items(c).min(200_000), fpp(&mut c.rng));
        let what = format!("QuotientFilter::from_fpp({n}, {p:e})");
        let h = HB::good(&mut c.rng);
        // fingerprints are taken from 64-bit hashes, lower rates are impossible
        let exact = (1.0 / -1.33 / (-p).ln_1p()).log2();
        if (n as f64 * 1.33).log2().ceil() + exact.ceil() > 63.0 {
            return Ok(());
        }
        let (cap, qb, rb, held, peak) = if c.rng.chance(0.2) {
            let (f, a, b) = build(c, &what, || QuotientFilter::<u64>::from_fpp(n, p))?;
            (f.capacity(), f.quotient_bits(), f.remainder_bits(), a, b)
        } else {
            let (f, a, b) = build(c, &what, || QuotientFilter::<u64, HB>::from_fpp_with_hasher(n, p, h))?;
            (f.capacity(), f.quotient_bits(), f.remainder_bits(), a, b)
        };
        ensure!(cap == 1 << qb, "{what}: capacity() is {cap} with {qb} quotient bits");
        ensure!(cap as f64 >= n as f64 * 1.33 * (1.0 - 1e-9), "{what} has {cap} slots, at least {} documented", n as f64 * 1.33);
        ensure!((cap as f64) < n as f64 * 1.33 * 2.0 * (1.0 + 1e-9) + 1.0, "{what} has {cap} slots, far more than needed");
        // fpp = 1 - exp(-fullness / 2^r) at a fullness of 1 / 1.33
        ensure!(is_ceil(usize::from(rb), exact.max(1.0)), "{what} has {rb} remainder bits, {exact} needed");
        return memory(&what, held, peak, cap as f64 * (f64::from(rb) + 3.0) / 8.0);
    }
    let r = c.rng.urange(1, 61).min(64 - q);
    let what = format!("QuotientFilter::new({q}, {r})");
    let (mut f, held, peak) = build(c, &what, || QuotientFilter::<u64, HB>::with_hasher(q as u8, r as u8, HB::new(hashers::IDENT, 0, 0)))?;
    let cap = f.capacity();
    ensure!(cap == 1 << q, "{what} has capacity {cap}");
    ensure!(usize::from(f.quotient_bits()) == q && usize::from(f.remainder_bits()) == r, "{what} reports {} and {} bits", f.quotient_bits(), f.remainder_bits());
    memory(&what, held, peak, cap as f64 * (r as f64 + 3.0) / 8.0)?;
    // it really takes capacity() distinct fingerprints and then refuses
    if q <= c.scale(8, 10) && (q + r) >= q + 1 {
        let total = if q + r >= 63 { u64::MAX >> 1 } else { 1 << (q + r) };
        let start = c.rng.below(total);
        let step = c.rng.u64() | 1;
        for i in 0..cap as u64 {
            let x = start.wrapping_add(i.wrapping_mul(step));
            let res = c.catch(|| f.insert(&x));
            ensure!(res.is_ok(), "{what} refuses its distinct fingerprint number {} of {cap}: {res:?}", i + 1);
        }
        ensure!(f.len() == cap, "{what} holds {} of {cap} distinct fingerprints", f.len());
        let extra = start.wrapping_add((cap as u64).wrapping_mul(step));
        let res = c.catch(|| f.insert(&extra));
        ensure!(res.is_err(), "{what} accepts a new fingerprint although all {cap} slots are used");
        c.count("filled_tables", 1);
    }
    Ok(())
}

fn sketches(c: &mut Ctx) -> R {
    let seed = c.seed;
    c.mix(seed);
    c.nontrivial();
    let h = HB::good_pair(&mut c.rng);
    let default = c.rng.chance(0.15);
    match c.index % 4 {
        0 => {
            let (rows, cols) = (c.rng.log_range(1, 40), c.rng.log_range(1, 20_000));
            let what = format!("CountMinSketch::new({rows}, {cols})");
            let (r, k, conf, err, held, peak) = if default {
                let (f, a, b) = build(c, &what, || CountMinSketch::<M, u64>::new(rows, cols))?;
                (f.rows(), f.cols(), f.confidence(), f.error(), a, b)
            } else {
                let (f, a, b) = build(c, &what, || CountMinSketch::<M, u64, HB>::with_hashers(rows, cols, h))?;
                (f.rows(), f.cols(), f.confidence(), f.error(), a, b)
            };
            ensure!((r, k) == (rows, cols), "{what} has {r} rows and {k} columns");
            let (want_c, want_e) = (1f64.exp() / cols as f64, (-(rows as f64)).exp());
            ensure!((conf / want_c - 1.0).abs() < 1e-9, "{what}: confidence() is {conf}, not e/cols = {want_c}");
            ensure!((err / want_e - 1.0).abs() < 1e-9, "{what}: error() is {err}, not exp(-rows) = {want_e}");
            memory(&what, held, peak, (rows * cols * 8) as f64)?;
        }
        1 | 2 => {
            let (eps, delta) = (c.rng.log_f64(1e-5, 0.99), fpp(&mut c.rng));
            let what = format!("CountMinSketch::from_error({eps:e}, {delta:e})");
            let (r, k, conf, err, held, peak) = if default {
                let (f, a, b) = build(c, &what, || CountMinSketch::<M, u64>::from_error(eps, delta))?;
                (f.rows(), f.cols(), f.confidence(), f.error(), a, b)
            } else {
                let (f, a, b) = build(c, &what, || CountMinSketch::<M, u64, HB>::from_error_with_hashers(eps, delta, h))?;
                (f.rows(), f.cols(), f.confidence(), f.error(), a, b)
            };
            ensure!(is_ceil(r, -delta.ln()), "{what} has {r} rows, {} needed", -delta.ln());
            ensure!(is_ceil(k, 1f64.exp() / eps), "{what} has {k} columns, {} needed", 1f64.exp() / eps);
            ensure!(conf <= eps * (1.0 + 1e-9), "{what}: confidence() is {conf}");
            ensure!(err <= delta * (1.0 + 1e-9), "{what}: error() is {err}");
            memory(&what, held, peak, (r * k * 8) as f64)?;
        }
        _ => {
            let e = match c.rng.below(3) {
                0 => c.rng.log_f64(0.3, 0.999_999),
                1 => 1.04 / 2f64.powi(c.rng.range(2, 15) as i32).sqrt() * c.rng.pick(&[1.0 - 1e-6, 1.0 + 1e-6]),
                _ => c.rng.log_f64(0.0025, 0.5),
            };
            let what = format!("HyperLogLog::new({e:e})");
            let (len, empty, held, peak) = if default {
                let (f, a, b) = build(c, &what, || HyperLogLog::<u64>::new(e))?;
                (f.len(), f.is_empty(), a, b)
            } else {
                let (f, a, b) = build(c, &what, || HyperLogLog::<u64, HB>::with_hasher(e, h[0]))?;
                (f.len(), f.is_empty(), a, b)
            };
            ensure!(len == 0.0 && empty, "{what} starts at {len}");
            // one byte per register, a power of two of them
            let registers = 2f64.powi((1.04 / e).powi(2).log2().ceil() as i32);
            memory(&what, held, peak, registers)?;
            // a register counts up to 64, which takes five bits or more
            ensure!(held as f64 >= registers * 0.6, "{what} holds {held} bytes, its error needs {registers} registers");
        }
    }
    Ok(())
}

/// Arguments the documentation says are rejected, and the edges that are not.
fn edges(c: &mut Ctx) -> R {
    let h = HB::good_pair(&mut c.rng);
    let n = c.rng.log_range(1, 500);
    let seed = c.seed;
    c.mix(seed);
    c.nontrivial();
    macro_rules! rejects {
        ($($what:literal => $e:expr;)+) => {$(
            let r = c.catch(|| { let _ = $e; });
            ensure!(r.is_err(), "{} is accepted, the documentation rejects it", $what);
            c.count("rejections", 1);
        )+};
    }
    type Q = QuotientFilter<u64, HB>;
    type C = CuckooFilter<u64, HB>;
    type S = ScalableCuckooFilter<u64, HB>;
    type H = HyperLogLog<u64, HB>;
    rejects! {
        "QuotientFilter::new(0, r)" => Q::with_hasher(0, 8, h[0]);
        "QuotientFilter::new(q, 0)" => Q::with_hasher(8, 0, h[0]);
        "QuotientFilter::new(10, 55)" => Q::with_hasher(10, 55, h[0]);
        "QuotientFilter::new(1, 64)" => Q::with_hasher(1, 64, h[0]);
        "QuotientFilter::new(4, 255)" => Q::with_hasher(4, 255, h[0]);
        "QuotientFilter::new(255, 4)" => Q::with_hasher(255, 4, h[0]);
        "QuotientFilter::new(128, 129)" => Q::with_hasher(128, 129, h[0]);
        "QuotientFilter::from_fpp(0, p)" => Q::from_fpp_with_hasher(0, 0.1, h[0]);
        "QuotientFilter::from_fpp(n, 0)" => Q::from_fpp_with_hasher(n, 0.0, h[0]);
        "QuotientFilter::from_fpp(n, 1)" => Q::from_fpp_with_hasher(n, 1.0, h[0]);
        "QuotientFilter::from_fpp(n, -0.5)" => Q::from_fpp_with_hasher(n, -0.5, h[0]);
        "QuotientFilter::from_fpp(n, 1.5)" => Q::from_fpp_with_hasher(n, 1.5, h[0]);
        "QuotientFilter::from_fpp(n, NaN)" => Q::from_fpp_with_hasher(n, f64::NAN, h[0]);
        "CuckooFilter::new(0)" => C::with_hashers(0, h);
        "CuckooFilter::from_parameters(0, 8, 4)" => C::from_parameters_with_hashers(0, 8, 4, h);
        "CuckooFilter::from_parameters(n, 0, 4)" => C::from_parameters_with_hashers(n, 0, 4, h);
        "CuckooFilter::from_parameters(n, 65, 4)" => C::from_parameters_with_hashers(n, 65, 4, h);
        "CuckooFilter::from_parameters(n, 8, 0)" => C::from_parameters_with_hashers(n, 8, 0, h);
        "CuckooFilter::from_entries_per_index(0, p, 4)" => C::from_entries_per_index_with_hashers(0, 0.1, 4, h);
        "CuckooFilter::from_entries_per_index(n, p, 0)" => C::from_entries_per_index_with_hashers(n, 0.1, 0, h);
        "CuckooFilter::from_fingerprint_bit_count(0, p, 8)" => C::from_fingerprint_bit_count_with_hashers(0, 0.1, 8, h);
        "CuckooFilter::from_fingerprint_bit_count(n, p, 0)" => C::from_fingerprint_bit_count_with_hashers(n, 0.1, 0, h);
        "CuckooFilter::from_fingerprint_bit_count(n, p, 65)" => C::from_fingerprint_bit_count_with_hashers(n, 0.1, 65, h);
        "CuckooFilter::from_fingerprint_bit_count(n, 0.001, 8)" => C::from_fingerprint_bit_count_with_hashers(n, 0.001, 8, h);
        "ScalableCuckooFilter::new(0, p, 2, 0.5)" => S::with_hashers(0, 0.1, 2.0, 0.5, h);
        "ScalableCuckooFilter::from_entries_per_index(n, p, 0, 2, 0.5)" => S::from_entries_per_index_with_hashers(n, 0.1, 0, 2.0, 0.5, h);
        "HyperLogLog::new(0)" => H::with_hasher(0.0, h[0]);
        "HyperLogLog::new(1)" => H::with_hasher(1.0, h[0]);
        "HyperLogLog::new(-1)" => H::with_hasher(-1.0, h[0]);
        "HyperLogLog::new(2)" => H::with_hasher(2.0, h[0]);
        "HyperLogLog::new(NaN)" => H::with_hasher(f64::NAN, h[0]);
        "HyperLogLog::merge with another error probability" => H::with_hasher(0.3, h[0]).merge(&H::with_hasher(0.1, h[0]));
        "HyperLogLog::merge with another hash builder" => H::with_hasher(0.3, h[0]).merge(&H::with_hasher(0.3, h[1]));
    }
    let k = c.rng.log_range(1, 300);
    let mh = MinHash::<std::vec::IntoIter<u64>, u64, HB>::with_hashers(k, h);
    ensure!(mh.hasher_count() == k, "MinHash::new({k}) has {} hash functions", mh.hasher_count());
    let hashes = mh.get_min_hashes(vec![1, 2, 3].into_iter());
    ensure!(hashes.len() == k, "MinHash::new({k}) gives {} hashes", hashes.len());
    rejects! {
        "MinHash::get_similarity_from_hashes with different lengths" => mh.get_similarity_from_hashes(&hashes, &hashes[1..]);
        "MinHash::get_similarity_from_hashes with different lengths" => mh.get_similarity_from_hashes(&hashes[..k - 1], &hashes);
    }
    // the widest legal quotient filters
    for (q, r) in [(1u8, 63u8), (2, 62), (3, 61), (1, 61), (1, 1)] {
        let sig = format!("QuotientFilter::new({q},{r})");
        let (a, b) = (c.rng.u64(), c.rng.u64());
        let res = c.catch(|| {
            let mut f = Q::with_hasher(q, r, HB::new(hashers::IDENT, 0, 0));
            let mask = if q + r == 64 { u64::MAX } else { (1 << (q + r)) - 1 };
            f.insert(&a);
            let others = [a ^ (1 << (q + r - 1)), a ^ 1, a ^ (1 << (r - 1)), b];
            let mut ok = f.contains(&a) && others.iter().all(|x| f.contains(x) == (x & mask == a & mask));
            f.insert(&b);
            ok &= f.contains(&a) && f.contains(&b) && f.len() == if a & mask == b & mask { 1 } else { 2 };
            f.remove(&a);
            ok &= f.contains(&b) == (a & mask != b & mask) && !f.contains(&a);
            ok
        });
        match res {
            Ok(true) => {}
            Ok(false) => c.violation(&sig, format!("{sig} is legal but does not work (items {a:#x} and {b:#x})"))?,
            Err(e) => c.violation(&sig, format!("{sig} is legal but fails: {e}"))?,
        }
        c.count("constructions", 1);
    }
    Ok(())
}

static ONE_AT_A_TIME: std::sync::Mutex<()> = std::sync::Mutex::new(());

/// Structures of more than 2^32 bits. Untouched pages of theirs cost nothing.
fn vast(c: &mut Ctx) -> R {
    let _one = ONE_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner());
    let h = HB::good_pair(&mut c.rng);
    let bits = (1usize << 32) + c.rng.idx(1000);
    let n = 2000u64;
    let base = c.rng.u64();
    c.mix(base);
    c.nontrivial();
    macro_rules! used {
        ($what:expr, $f:expr, $held:expr, $documented:expr, $insert:expr, $k:expr, $ones:expr) => {{
            let (what, documented) = (&$what, $documented);
            memory(what, $held, $held, documented)?;
            ensure!($held as f64 >= documented * 0.99, "{what} holds {} bytes; its documented content is {documented:.0} bytes", $held);
            for i in 0..n {
                let x = base.wrapping_add(i);
                let res = c.catch(|| $insert(&mut $f, &x));
                ensure!(res.is_ok(), "{what}: insertion {i} fails: {res:?}");
                ensure!($f.contains(&x), "{what}: item {i} is not reported right after its insertion");
                if i % 128 == 0 {
                    c.tick();
                }
            }
            let (mut lost, mut false_hits) = (0, 0);
            for i in 0..n {
                lost += u64::from(!$f.contains(&base.wrapping_add(i)));
                false_hits += u64::from($f.contains(&base.wrapping_add(1 << 40).wrapping_add(i)));
            }
            // 2000 items occupy a millionth of the bits.
            ensure!(lost == 0 && false_hits == 0, "{what}: {lost} of {n} items are not reported, {false_hits} others are");
            let ones: Option<usize> = $ones;
            if let Some(ones) = ones {
                let all = n as usize * $k;
                ensure!(ones <= all && ones + 3 * $k + 3 >= all, "{what}: {n} items with {} positions each set {ones} bits", $k);
            }
            c.count("vast_structures", 1);
            c.count("fresh_queries", n);
        }};
    }
    let bytes = bits as f64 / 8.0;
    match c.index % 10 {
        0 => {
            let what = format!("BloomFilter::from_fpp({bits}, 0.01)");
            let (mut f, held, _) = build(c, &what, || BloomFilter::<u64, HB>::from_fpp_with_hashers(bits, 0.01, h))?;
            ensure!(f.len() == bits, "{what} has {} bits", f.len());
            let k = f.hasher_count();
            used!(what, f, held, bytes, |f: &mut BloomFilter<u64, HB>, x| f.insert(x), k, Some(f.count_ones()));
        }
        1 => {
            let what = format!("BloomFilter::new({}, 0.001)", bits / 14);
            let (mut f, held, _) = build(c, &what, || BloomFilter::<u64, HB>::with_hashers(bits / 14, 0.001, h))?;
            let want = (bits / 14) as f64 * -(0.001f64.ln()) / (LN2 * LN2);
            ensure!(is_ceil(f.len(), want), "{what} has {} bits, the formula gives {want}", f.len());
            let k = f.hasher_count();
            used!(what, f, held, want / 8.0, |f: &mut BloomFilter<u64, HB>, x| f.insert(x), k, Some(f.count_ones()));
        }
        2 => {
            let what = format!("PartitionedBloomFilter::from_bit_count({bits}, 0.2)");
            let (mut f, held, _) = build(c, &what, || PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(bits, 0.2, h))?;
            let k = f.hasher_count();
            ensure!(f.bit_count() == bits && f.len() == bits * k, "{what}: bit_count {} len {}", f.bit_count(), f.len());
            used!(what, f, held, bytes * k as f64, |f: &mut PartitionedBloomFilter<u64, HB>, x| f.insert(x), k, Some(f.count_ones()));
        }
        3 => {
            let what = format!("PartitionedBloomFilter::from_item_count({}, 0.01)", bits / 9);
            let (mut f, held, _) = build(c, &what, || PartitionedBloomFilter::<u64, HB>::from_item_count_with_hashers(bits / 9, 0.01, h))?;
            let (k, len) = (f.hasher_count(), f.len());
            let want = (bits / 9) as f64 * -(0.01f64.ln()) / (LN2 * LN2) / k as f64;
            ensure!(is_ceil(f.bit_count(), want) && len == f.bit_count() * k, "{what}: {} bits per function, the formula gives {want}; len {len}", f.bit_count());
            used!(what, f, held, len as f64 / 8.0, |f: &mut PartitionedBloomFilter<u64, HB>, x| f.insert(x), k, Some(f.count_ones()));
        }
        4 => {
            let what = format!("BSBloomFilter::new({bits}, 0.3)");
            let (mut f, held, _) = build(c, &what, || BSBloomFilter::<u64, HB>::with_hashers(bits, 0.3, h))?;
            let k = f.hasher_count();
            ensure!(f.bit_count() == bits && f.len() == bits * k, "{what}: bit_count {} len {}", f.bit_count(), f.len());
            used!(what, f, held, bytes * k as f64, |f: &mut BSBloomFilter<u64, HB>, x| f.insert(x), k, Some(f.count_ones()));
        }
        5 => {
            let what = format!("BSSDBloomFilter::new({bits}, 0.3)");
            let (mut f, held, _) = build(c, &what, || BSSDBloomFilter::<u64, HB>::with_hashers(bits, 0.3, h))?;
            let k = f.hasher_count();
            ensure!(f.bit_count() == bits && f.len() == bits * k, "{what}: bit_count {} len {}", f.bit_count(), f.len());
            used!(what, f, held, bytes * k as f64, |f: &mut BSSDBloomFilter<u64, HB>, x| f.insert(x), k, Some(f.count_ones()));
        }
        6 => {
            let what = "CuckooFilter::from_parameters(2^27, 33, 4)".to_string();
            let (mut f, held, _) = build(c, &what, || CuckooFilter::<u64, HB>::from_parameters_with_hashers(1 << 27, 33, 4, h))?;
            ensure!(f.capacity() >= 1 << 27 && f.capacity() <= 1 << 28, "{what}: capacity {}", f.capacity());
            let content = f.capacity() as f64 * 33.0 / 8.0;
            used!(what, f, held, content, |f: &mut CuckooFilter<u64, HB>, x| f.insert(x), 1, Some(f.len()));
            for i in 0..n / 2 {
                f.remove(&base.wrapping_add(i));
            }
            ensure!(f.len() == n as usize / 2 && (0..n).all(|i| f.contains(&base.wrapping_add(i)) == (i >= n / 2)), "{what}: wrong answers after removing half of the items");
        }
        7 => {
            let what = "QuotientFilter::new(27, 29)".to_string();
            let (mut f, held, _) = build(c, &what, || QuotientFilter::<u64, HB>::with_hasher(27, 29, h[0]))?;
            ensure!(f.capacity() == 1 << 27, "{what}: capacity {}", f.capacity());
            used!(what, f, held, (1u64 << 29) as f64, |f: &mut QuotientFilter<u64, HB>, x| f.insert(x), 1, Some(f.len()));
            for i in 0..n / 2 {
                f.remove(&base.wrapping_add(i));
            }
            ensure!(f.len() == n as usize / 2 && (0..n).all(|i| f.contains(&base.wrapping_add(i)) == (i >= n / 2)), "{what}: wrong answers after removing half of the items");
        }
        8 => {
            let p = if c.rng.chance(0.5) { 30 } else { c.rng.range(20, 30) };
            let e = 1.04 / 2f64.powi(p as i32).sqrt() * (1.0 + 1e-9);
            let what = format!("HyperLogLog::new({e:e})");
            let (mut f, held, _) = build(c, &what, || HyperLogLog::<u64, HB>::with_hasher(e, h[0]))?;
            let registers = (1u64 << p) as f64;
            memory(&what, held, held, registers)?;
            ensure!(held as f64 >= registers * 0.6, "{what} holds {held} bytes, its error needs 2^{p} registers");
            for i in 0..n {
                f.insert(&base.wrapping_add(i));
            }
            let len = f.len();
            // three items may share a register with another one, 2^20 registers as few as possible
            ensure!((len - n as f64).abs() < 12.0, "{what}: len()={len} after {n} items");
            c.count("vast_structures", 1);
        }
        _ => {
            let what = "CountMinSketch::new(4, 2^25)".to_string();
            let (mut f, held, _) = build(c, &what, || CountMinSketch::<CountMinStrategy, u64, HB>::with_hashers(4, 1 << 25, h))?;
            let documented = (1u64 << 30) as f64;
            memory(&what, held, held, documented)?;
            ensure!(held as f64 >= documented, "{what} holds {held} bytes for 2^27 counters of 8 bytes");
            for i in 0..n {
                let x = base.wrapping_add(i);
                let res = c.catch(|| f.insert(&x, i as i64 + 1));
                ensure!(res.is_ok(), "{what}: insertion {i} fails: {res:?}");
            }
            for i in 0..n {
                let (got, other) = (f.count(&base.wrapping_add(i)), f.count(&base.wrapping_add(1 << 40).wrapping_add(i)));
                ensure!(got == i as i64 + 1 && other == 0, "{what}: item {i} counts {got}, one never inserted {other}");
            }
            c.count("vast_structures", 1);
        }
    }
    Ok(())
}

static P: Property = Property {
    id: "C23",
    rule: "every constructor with random documented arguments over orders of magnitude (items 1..300k, fpp 1e-15..1-1e-6, widths 1..64, entries 1..100, errors), default and explicit builders; accessors compared with the documented sizing formulas (own computation, float rounding tolerated), initial emptiness, bytes held and peak bytes from the counting allocator against the documented content, real slot count of quotient filters by filling them; vast: structures of more than 2^32 bits, their memory and 2000 items. edges: every documented rejection must panic and the widest legal layouts must work. Non-trivial: every case.",
    kinds: &[
        Kind { name: "bloom", run: bloom, quick: 60_000, thorough: 600_000 },
        Kind { name: "cuckoo", run: cuckoo, quick: 40_000, thorough: 400_000 },
        Kind { name: "scalable_cuckoo", run: scalable_cuckoo, quick: 3_000, thorough: 30_000 },
        Kind { name: "quotient", run: quotient, quick: 32_000, thorough: 320_000 },
        Kind { name: "sketches", run: sketches, quick: 30_000, thorough: 300_000 },
        Kind { name: "edges", run: edges, quick: 900, thorough: 9_000 },
        Kind { name: "vast", run: vast, quick: 10, thorough: 100 },
    ],
    floors: &[("constructions", 15_000), ("rejections", 4_000), ("filled_tables", 800), ("fresh_queries", 5_000)],
    assumptions: &["documented sizing is the textbook formula of each structure, rounded up"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
