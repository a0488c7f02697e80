//! C08: occupancy counters of the bit filters always match the contents.
use pcverif::positions::{builders, Filter, Item};
use pcverif::subject::{Op, Spec, Ty};
use pcverif::*;
use probabilistic_collections::bloom::*;

const BITS: [Ty; 6] = [Ty::Bloom, Ty::Partitioned, Ty::ScalableBloom, Ty::Bs, Ty::Bssd, Ty::Rlbs];

/// Counter laws on any sizing, item type and hash builder.
fn laws(c: &mut Ctx) -> R {
    let ty = BITS[c.index % 6];
    let hb = if c.rng.chance(0.6) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let mut s = Spec::random(&mut c.rng, ty, hb);
    if ty != Ty::ScalableBloom && c.rng.chance(0.2) {
        s.m = c.rng.pick(&[1, 1, 2, 31, 32, 33, 63, 64, 65, 128, 1000, 4096, 20_000]);
    }
    if ty == Ty::ScalableBloom {
        if c.rng.chance(0.05) {
            s.n = 1;
        }
        s.growth = c.rng.pick(&[1.0, 1.5, 2.0]);
        if !hb.iter().all(|h| matches!(h.kind, hashers::SIP | hashers::LIB | hashers::FNV)) {
            s.growth = 1.0;
        }
    }
    if c.rng.chance(0.2) {
        s.fpp = c.rng.log_f64(1e-9, 1e-3);
    }
    let mut f = s.build();
    let mut prev = f.facts();
    ensure!(prev.empty == (prev.len == 0), "{s:?}: is_empty()={} with len()={}", prev.empty, prev.len);
    ensure!(prev.ones == 0 && prev.zeros == prev.len, "{s:?}: a new filter reports {prev:?}");
    let n = c.rng.urange(5, 400);
    let universe = c.rng.log_range(3, 600) as u64;
    let base = c.rng.u64() >> 2;
    let slices = if ty == Ty::Bssd { 1 } else { prev.hashers };
    let mut hashers = prev.hashers.max(1);
    c.sample(|| format!("{s:?} operations={n}"));
    c.mix(base ^ n as u64);
    for step in 0..n {
        if c.rng.chance(0.01) {
            f.apply(&Op::Clear);
            let now = f.facts();
            ensure!(now.ones == 0 && now.zeros == now.len, "{s:?}: after clear() the filter reports {now:?}");
            prev = now;
            continue;
        }
        let x = base + c.rng.below(universe);
        let present = f.has(x);
        f.apply(&Op::Insert(x, 1));
        let now = f.facts();
        c.log(|| format!("insert {x} present={present} {now:?}"));
        ensure!(
            now.ones + now.zeros == now.len,
            "{s:?}: count_ones()={} + count_zeros()={} != len()={} at step {step}",
            now.ones,
            now.zeros,
            now.len
        );
        ensure!(now.empty == (now.len == 0), "{s:?}: is_empty()={} with len()={} at step {step}", now.empty, now.len);
        if ty != Ty::ScalableBloom {
            ensure!(now.len == prev.len, "{s:?}: len() went from {} to {}", prev.len, now.len);
        } else {
            hashers = 2000; // level dependent; bounded exactly in C06
        }
        if present {
            ensure!(
                now.ones == prev.ones && now.zeros == prev.zeros,
                "{s:?}: inserting an item already reported changed the counters from {prev:?} to {now:?} (step {step})"
            );
            c.count("repeated_insertions", 1);
        } else {
            let cleared = match ty {
                Ty::Bs | Ty::Rlbs | Ty::Bssd => slices,
                _ => 0,
            };
            let (lo, hi) = (prev.ones as i64 - cleared as i64 + 1, prev.ones + hashers);
            ensure!(
                now.ones as i64 >= lo && now.ones <= hi,
                "{s:?}: a new item moved count_ones() from {} to {} with {hashers} hash functions (step {step})",
                prev.ones,
                now.ones
            );
            c.count("new_insertions", 1);
        }
        prev = now;
        if prev.levels > 80 {
            break;
        }
    }
    c.nontrivial();
    Ok(())
}

/// Filters of no bits at all, as far as a constructor gives one.
fn bitless(c: &mut Ctx) -> R {
    let ty = [Ty::Bloom, Ty::Partitioned, Ty::Bs, Ty::Bssd, Ty::Rlbs][c.index % 5];
    let hb = HB::any_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, ty, hb);
    (s.m, s.ctor, s.n) = (0, (c.index / 5 % 2) as u8, s.n.max(1));
    c.mix(s.fpp.to_bits());
    let Ok(mut f) = c.catch(|| s.build()) else {
        c.count("refused", 1);
        return Ok(());
    };
    for round in 0..2 {
        let Ok(now) = c.catch(|| f.facts()) else {
            c.count("refused", 1);
            return Ok(());
        };
        ensure!(
            now.len == 0 && now.empty && now.ones == 0 && now.zeros == 0,
            "{s:?}: a filter of 0 bits reports {now:?} (round {round})"
        );
        f.apply(&Op::Clear);
    }
    c.count("filters_without_bits", 1);
    c.nontrivial();
    Ok(())
}

/// Bit-exact shadow of the filters that never forget.
fn shadow(c: &mut Ctx) -> R {
    let m = if c.rng.chance(0.3) { c.rng.pick(&[1, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 4096]) } else { c.rng.log_range(1, 3000) };
    let fpp = c.rng.log_f64(1e-6, 0.9);
    let mut f = if c.rng.chance(0.5) {
        Filter::Bloom(BloomFilter::from_fpp_with_hashers(m, fpp, builders()))
    } else {
        Filter::Partitioned(PartitionedBloomFilter::from_bit_count_with_hashers(m, fpp, builders()))
    };
    if !f.calibrated(&mut c.rng) {
        c.count("uncalibrated_filters", 1);
        return Ok(());
    }
    let name = f.name();
    let mut bits = vec![false; f.len()];
    let mut ones = 0;
    let n = c.rng.urange(5, 300);
    c.sample(|| format!("{name} slice={m} hashers={} operations={n}", f.hashers()));
    c.mix(m as u64 ^ fpp.to_bits() ^ c.seed);
    for step in 0..n {
        let x: Item = if c.rng.chance(0.3) { (c.rng.below(m as u64), c.rng.below(3)) } else { (c.rng.u64(), c.rng.u64()) };
        if c.rng.chance(0.01) {
            f.clear();
            bits.iter_mut().for_each(|b| *b = false);
            ones = 0;
        } else {
            f.insert(&x);
            for p in f.positions(&x) {
                if !bits[p] {
                    bits[p] = true;
                    ones += 1;
                }
            }
        }
        ensure!(
            f.ones() == ones && f.zeros() == bits.len() - ones,
            "{name} slice={m} fpp={fpp}: count_ones()={} count_zeros()={} but {ones} of {} bits are set (step {step})",
            f.ones(),
            f.zeros(),
            bits.len()
        );
        for _ in 0..6 {
            let y: Item = if c.rng.chance(0.6) { (c.rng.below(m as u64), c.rng.below(4)) } else { (c.rng.u64(), c.rng.u64()) };
            let want = f.positions(&y).iter().all(|p| bits[*p]);
            ensure!(
                f.contains(&y) == want,
                "{name} slice={m} fpp={fpp}: contains({y:?})={} but its bits say {want} (step {step})",
                !want
            );
        }
        c.count("shadow_steps", 1);
        c.count("bit_reads", 6);
    }
    c.nontrivial();
    Ok(())
}

/// The same with more bits, and more one bits, than 16 bits count.
fn big(c: &mut Ctx) -> R {
    let m = c.rng.log_range(66_000, 400_000);
    let fpp = c.rng.pick(&[0.1, 0.3, 0.6]);
    let mut f = if c.index % 2 == 0 {
        Filter::Bloom(BloomFilter::from_fpp_with_hashers(m / 3, fpp, builders()))
    } else {
        Filter::Partitioned(PartitionedBloomFilter::from_bit_count_with_hashers(m, fpp, builders()))
    };
    if !f.calibrated(&mut c.rng) {
        c.count("uncalibrated_filters", 1);
        return Ok(());
    }
    let name = f.name();
    let mut bits = vec![false; f.len()];
    let mut ones = 0;
    let n = c.rng.urange(70_000, 120_000);
    c.sample(|| format!("{name} slice={m} hashers={} operations={n}", f.hashers()));
    c.mix(m as u64 ^ fpp.to_bits() ^ c.seed);
    for step in 0..n {
        let x: Item = (c.rng.u64(), c.rng.u64());
        f.insert(&x);
        for p in f.positions(&x) {
            if !bits[p] {
                bits[p] = true;
                ones += 1;
            }
        }
        ensure!(
            f.ones() == ones && f.zeros() == bits.len() - ones,
            "{name} slice={m} fpp={fpp}: count_ones()={} count_zeros()={} but {ones} of {} bits are set (step {step})",
            f.ones(),
            f.zeros(),
            bits.len()
        );
        let y: Item = (c.rng.u64(), c.rng.u64());
        let want = f.positions(&y).iter().all(|p| bits[*p]);
        ensure!(f.contains(&y) == want, "{name} slice={m} fpp={fpp}: contains({y:?})={} but its bits say {want} (step {step})", !want);
        c.count("shadow_steps", 1);
        c.count("bit_reads", 1);
    }
    c.max("most_one_bits", ones as u64);
    f.clear();
    ensure!(f.ones() == 0 && f.zeros() == bits.len(), "{name} slice={m}: {} one bits after clear()", f.ones());
    c.nontrivial();
    Ok(())
}

/// Stream filters with two slices: every bit is read through items that address it directly.
fn stream_bits(c: &mut Ctx) -> R {
    let m = c.rng.urange(2, 24);
    let fpp = c.rng.pick(&[0.45, 0.6, 0.9]);
    let mut f = match c.index % 3 {
        0 => Filter::Bs(BSBloomFilter::with_hashers(m, fpp, builders())),
        1 => Filter::Bssd(BSSDBloomFilter::with_hashers(m, fpp, builders())),
        _ => Filter::Rlbs(RLBSBloomFilter::with_hashers(m, fpp, builders())),
    };
    if f.hashers() != 2 || !f.calibrated(&mut c.rng) {
        c.count("uncalibrated_filters", 1);
        return Ok(());
    }
    f.clear();
    let name = f.name();
    let n = c.rng.urange(5, 120);
    c.sample(|| format!("{name} slice={m} operations={n}"));
    c.mix(c.seed);
    for step in 0..n {
        f.insert(&(c.rng.u64(), c.rng.u64()));
        // Reported items of the m * m grid are the product of the two slices' one bits.
        let mm = m as u64;
        let mut rows = vec![false; m];
        let mut cols = vec![false; m];
        let mut reported = 0;
        for p in 0..mm {
            for q in 0..mm {
                if f.contains(&(p, (q + mm - p) % mm)) {
                    rows[p as usize] = true;
                    cols[q as usize] = true;
                    reported += 1;
                }
            }
        }
        let (a, b) = (rows.iter().filter(|x| **x).count(), cols.iter().filter(|x| **x).count());
        ensure!(reported == a * b, "{name} slice={m}: {reported} items reported, but slices with {a} and {b} bits explain {}", a * b);
        // At least one bit of each slice is set after an insertion, so all are visible.
        ensure!(
            f.ones() == a + b && f.zeros() == 2 * m - a - b && f.len() == 2 * m,
            "{name} slice={m}: count_ones()={} count_zeros()={} len()={} but {a}+{b} bits are set (step {step})",
            f.ones(),
            f.zeros(),
            f.len()
        );
        c.count("shadow_steps", 1);
        c.count("bit_reads", mm * mm);
    }
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C08",
    rule: "laws: counters of all six filters watched after every insertion and clear (sum, repeated items change nothing, new items move count_ones within the documented bounds). shadow: hash builders returning chosen words make every bit position known; a shadow bitmap must agree with count_ones, count_zeros and all answers (big: with hundreds of thousands of bits). bitless: filters of 0 bits report 0 everywhere and is_empty(). stream_bits: the bits of two-slice stream filters are read one by one through chosen items and counted. Non-trivial: items were inserted.",
    kinds: &[
        Kind { name: "laws", run: laws, quick: 60_000, thorough: 900_000 },
        Kind { name: "shadow", run: shadow, quick: 24_000, thorough: 300_000 },
        Kind { name: "big", run: big, quick: 60, thorough: 1000 },
        Kind { name: "bitless", run: bitless, quick: 100, thorough: 1000 },
        Kind { name: "stream_bits", run: stream_bits, quick: 6000, thorough: 80_000 },
    ],
    floors: &[("new_insertions", 100_000), ("repeated_insertions", 10_000)],
    assumptions: &["shadow and stream_bits rely on the hash sequence a, a+b, a+2b+.. of the crate after checking it on fresh filters; filters that do not follow it are counted as uncalibrated and skipped"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
