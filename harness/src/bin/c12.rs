//! C12: count sketches are linear; strategies are as defined.
use pcverif::*;
use probabilistic_collections::count_min_sketch::*;
use std::cell::{Cell, RefCell};

thread_local!(static SEEN: RefCell<(Vec<i64>, i64, usize, usize)> = const { RefCell::new((Vec::new(), 0, 0, 0)) });

// readings of a counter iterator that differ from its elements
thread_local!(static UNLIKE: Cell<u64> = const { Cell::new(0) });

/// Hands the row counters (and the arguments) it is shown to the monitor.
struct Record;
impl CountStrategy for Record {
    fn get_estimate(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> i64 {
        let v: Vec<i64> = iter.clone().collect();
        // the other ways to read an iterator
        let n = v.len();
        let i = (items.unsigned_abs() % (n as u64 + 1)) as usize;
        let (mut rest, mut tail) = (iter.clone(), iter.clone());
        let nth = rest.nth(i);
        let (low, high) = iter.size_hint();
        let alike = nth == v.get(i).copied()
            && (i == n || rest.eq(v[i + 1..].iter().copied()))
            && iter.clone().skip(i).eq(v[i..].iter().copied())
            && iter.clone().step_by(2).eq(v.iter().copied().step_by(2))
            && iter.clone().count() == n
            && iter.clone().last() == v.last().copied()
            && iter.clone().min() == v.iter().copied().min()
            && iter.clone().max() == v.iter().copied().max()
            && iter.fold(0, |a: i64, x| a.wrapping_mul(3).wrapping_add(x)) == v.iter().fold(0, |a: i64, x| a.wrapping_mul(3).wrapping_add(*x))
            && tail.by_ref().take(i).eq(v[..i].iter().copied())
            && tail.eq(v[i..].iter().copied())
            && low <= n
            && high.map_or(true, |h| h >= n);
        UNLIKE.with(|u| u.set(u.get() + u64::from(!alike)));
        SEEN.with(|s| *s.borrow_mut() = (v, items, rows, cols));
        0
    }
}

type S<T> = CountMinSketch<T, u64, HB>;

/// Four sketches that differ only in their strategy.
struct Quad {
    rec: S<Record>,
    min: S<CountMinStrategy>,
    mean: S<CountMeanStrategy>,
    bias: S<CountMedianBiasStrategy>,
    rows: usize,
    cols: usize,
}

impl Quad {
    fn new(rows: usize, cols: usize, hb: [HB; 2]) -> Quad {
        Quad {
            rec: S::with_hashers(rows, cols, hb),
            min: S::with_hashers(rows, cols, hb),
            mean: S::with_hashers(rows, cols, hb),
            bias: S::with_hashers(rows, cols, hb),
            rows,
            cols,
        }
    }
    fn insert(&mut self, x: u64, w: i64) {
        self.rec.insert(&x, w);
        self.min.insert(&x, w);
        self.mean.insert(&x, w);
        self.bias.insert(&x, w);
    }
    fn remove(&mut self, x: u64, w: i64) {
        self.rec.remove(&x, w);
        self.min.remove(&x, w);
        self.mean.remove(&x, w);
        self.bias.remove(&x, w);
    }
    fn clear(&mut self) {
        self.rec.clear();
        self.min.clear();
        self.mean.clear();
        self.bias.clear();
    }
    fn counters(&self, x: u64) -> (Vec<i64>, i64) {
        self.rec.count(&x);
        SEEN.with(|s| (s.borrow().0.clone(), s.borrow().1))
    }
    fn answers(&self, x: u64) -> (Vec<i64>, i64, i64, i64, i64) {
        let (v, items) = self.counters(x);
        let bias = if self.cols >= 2 { self.bias.count(&x) } else { 0 };
        (v, items, self.min.count(&x), self.mean.count(&x), bias)
    }
}

fn div_ceil(a: i128, b: i128) -> i128 {
    let q = a.div_euclid(b);
    if a.rem_euclid(b) == 0 {
        q
    } else {
        q + 1
    }
}

/// The defined estimate of each strategy over these counters.
fn check_strategies(q: &Quad, x: u64, total: i64, what: &str) -> R {
    let (v, items, min, mean, bias) = q.answers(x);
    let (rows, cols) = (q.rows, q.cols);
    ensure!(v.len() == rows, "{what}: {} counters shown for {rows} rows", v.len());
    ensure!(items == total, "{what}: a strategy is told a total of {items}, the net total is {total}");
    let least = *v.iter().min().unwrap();
    ensure!(min == least, "{what}: count-min returns {min} for the counters {v:?}");
    let sum: i128 = v.iter().map(|x| i128::from(*x)).sum();
    SEEN.with(|s| -> R {
        let (r, k) = (s.borrow().2, s.borrow().3);
        ensure!(UNLIKE.with(|u| u.replace(0)) == 0, "{what}: the row counters read with nth, skip, last, count, fold, ... are not those read with next, {v:?}");
        ensure!((r, k) == (rows, cols), "{what}: a strategy is told {r} rows and {k} columns of {rows}x{cols}");
        Ok(())
    })?;
    // quotients are taken in doubles: rounded right for small sums, off by one in the middle, accurate to
    // a few units in the last place above 2^53
    let ulps = |x: i128| i128::from(x.abs() > 1 << 44) + (x.abs() >> 50);
    let size = v.iter().map(|x| i128::from(*x).abs()).max().unwrap() * rows as i128;
    let twice = i128::from(mean) * 2 * rows as i128 - 2 * sum;
    ensure!(
        twice.abs() <= rows as i128 + 2 * ulps(size),
        "{what}: count-mean returns {mean} for the counters {v:?}"
    );
    if cols >= 2 {
        let mut w: Vec<i128> = v
            .iter()
            .map(|x| i128::from(*x) - div_ceil(i128::from(total) - i128::from(*x), cols as i128 - 1))
            .collect();
        w.sort();
        // an estimate below the range of the answer is cut off there
        let want = i128::from(least).min(w[(rows - 1) / 2]).max(i128::from(i64::MIN));
        let room = v.iter().map(|x| ulps(i128::from(total) - i128::from(*x))).max().unwrap();
        ensure!(
            (i128::from(bias) - want).abs() <= room,
            "{what}: count-median-bias returns {bias} for the counters {v:?} with total {total} and {cols} columns, defined value {want}"
        );
    }
    Ok(())
}

fn shape(c: &mut Ctx) -> (usize, usize, [HB; 2]) {
    if c.kind == "histories" && c.rng.chance(0.004) {
        // more counters, or columns, than 16 bits count
        let hb = HB::good_pair(&mut c.rng);
        return match c.rng.below(3) {
            0 => (c.rng.urange(1, 3), c.rng.log_range(65_000, 200_000), hb),
            1 => (c.rng.urange(200, 400), c.rng.urange(250, 400), hb),
            _ => (c.rng.urange(3000, 9000), c.rng.urange(1, 20), hb),
        };
    }
    let hb = if c.rng.chance(0.6) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let rows = if c.rng.chance(0.1) { c.rng.urange(9, 16) } else { c.rng.urange(1, 8) };
    let cols = if c.rng.chance(0.4) { c.rng.urange(1, 6) } else { c.rng.log_range(2, 200) };
    (rows, cols, hb)
}

fn weight(c: &mut Ctx) -> i64 {
    let w = match c.rng.below(6) {
        0 => 0,
        // at the edge of narrower integers
        5 => (1u64 << c.rng.below(35)) + c.rng.below(3) - 1,
        1 | 2 => c.rng.range(1, 6),
        3 => c.rng.range(1, 5000),
        _ => c.rng.range(1, 1 << 34),
    } as i64;
    if c.rng.chance(0.35) {
        -w
    } else {
        w
    }
}

/// Counters are the sums of the net counts of the items sharing them; strategies on real counters.
fn linear(c: &mut Ctx) -> R {
    let (rows, cols, hb) = shape(c);
    let u = c.rng.urange(2, 16);
    let keys: Vec<u64> = (0..u).map(|i| (i as u64) * 0x9E37_79B9 + (c.index as u64)).collect();
    let mut shared = vec![vec![Vec::new(); rows]; u];
    for (j, y) in keys.iter().enumerate() {
        let mut one = Quad::new(rows, cols, hb);
        one.rec.insert(y, 1);
        for i in 0..u {
            for (k, v) in one.counters(keys[i]).0.iter().enumerate() {
                ensure!(*v == 0 || *v == 1, "{rows}x{cols}: one insertion of weight 1 shows as {v}");
                if *v == 1 {
                    shared[i][k].push(j);
                }
            }
        }
    }
    let mut q = Quad::new(rows, cols, hb);
    let mut net = vec![0i64; u];
    c.sample(|| format!("{rows}x{cols} items={u} {hb:?}"));
    c.mix(hb[0].k0 ^ (rows as u64) << 20 ^ cols as u64 ^ c.seed);
    let steps = c.scale(40, 150);
    for step in 0..steps {
        let i = c.rng.idx(u);
        let w = weight(c);
        match c.rng.below(30) {
            0 => {
                q.clear();
                net = vec![0; u];
            }
            1..=10 => {
                q.remove(keys[i], w);
                net[i] -= w;
            }
            _ => {
                q.insert(keys[i], w);
                net[i] += w;
            }
        }
        let total: i64 = net.iter().sum();
        for i in 0..u {
            let what = format!("{rows}x{cols} {hb:?} item {} after step {step}", keys[i]);
            let (v, _) = q.counters(keys[i]);
            for k in 0..rows {
                let want: i64 = shared[i][k].iter().map(|j| net[*j]).sum();
                ensure!(
                    v[k] == want,
                    "{what}: its counter in row {k} holds {}, the net counts of the items sharing it add up to {want}",
                    v[k]
                );
            }
            check_strategies(&q, keys[i], total, &what)?;
        }
    }
    c.count("estimates_checked", (steps * u * 3) as u64);
    c.nontrivial();
    Ok(())
}

/// Counts anywhere in the range of the counters: every row counter and the total stay representable
/// (the absolute net counts add up to less than 2^63), so every estimate is defined.
fn heavy(c: &mut Ctx) -> R {
    let (mut rows, mut cols, hb) = shape(c);
    if c.rng.chance(0.3) {
        cols = c.rng.urange(1, 4);
    }
    if rows * cols > 1 << 14 {
        (rows, cols) = (5, 9);
    }
    let u = c.rng.urange(1, 6);
    let keys: Vec<u64> = (0..u).map(|_| c.rng.u64()).collect();
    let mut q = Quad::new(rows, cols, hb);
    let mut net = vec![0i64; u];
    c.sample(|| format!("{rows}x{cols} items={u} {hb:?}"));
    c.mix(hb[0].k0 ^ (rows as u64) << 20 ^ cols as u64 ^ c.seed);
    let steps = c.scale(30, 100);
    let (mut large, mut wide) = (0, 0);
    for step in 0..steps {
        let i = c.rng.idx(u);
        let others: i128 = (0..u).filter(|j| *j != i).map(|j| i128::from(net[j]).abs()).sum();
        let room = i128::from(i64::MAX) - others;
        let size = match c.rng.below(5) {
            0 => room,
            4 => (1 << c.rng.below(63)) + c.rng.below(3) as i128 - 1,
            1 => room / 2,
            2 => c.rng.below(1 << 62) as i128,
            _ => (c.rng.u64() >> c.rng.range(1, 63)) as i128,
        };
        let mut to = size.min(room) as i64;
        if c.rng.chance(0.4) {
            to = -to;
        }
        let Some(w) = to.checked_sub(net[i]) else { continue };
        if w == i64::MIN {
            continue;
        }
        if c.rng.chance(0.5) {
            q.insert(keys[i], w);
        } else {
            q.remove(keys[i], -w);
        }
        net[i] = to;
        let total: i64 = net.iter().sum();
        for k in 0..u {
            let what = format!("{rows}x{cols} {hb:?} item {} after step {step}, net counts {net:?}", keys[k]);
            let (v, _) = q.counters(keys[k]);
            let sum: i128 = v.iter().map(|x| i128::from(*x)).sum();
            large += u64::from(sum.abs() > 1 << 53);
            wide += u64::from(sum.abs() > i128::from(i64::MAX));
            if u == 1 {
                ensure!(v.iter().all(|x| *x == net[0]), "{what}: the counters of the only item are {v:?}");
            }
            check_strategies(&q, keys[k], total, &what)?;
        }
    }
    c.count("estimates_of_large_counts", large * 3);
    c.count("row_sums_beyond_64_bits", wide);
    c.nontrivial();
    Ok(())
}

/// The same net counts reached along different histories give the same estimates everywhere.
fn histories(c: &mut Ctx) -> R {
    let (rows, cols, hb) = shape(c);
    let u = c.rng.urange(1, 30);
    let net: Vec<i64> = (0..u).map(|_| weight(c)).collect();
    let base = c.rng.u64() >> 2;
    let mut a = Quad::new(rows, cols, hb);
    for i in 0..u {
        a.insert(base + i as u64, net[i]);
    }
    // b: splits, merges, cancelling pairs, strangers that come and go, in random order
    let mut ops: Vec<(u64, i64)> = Vec::new();
    for i in 0..u {
        let mut left = net[i];
        for _ in 0..c.rng.urange(0, 4) {
            let w = weight(c);
            ops.push((base + i as u64, w));
            left -= w;
        }
        ops.push((base + i as u64, left));
    }
    for _ in 0..c.rng.urange(0, 20) {
        let (x, w) = (base + c.rng.below(60), weight(c));
        ops.push((x, w));
        ops.push((x, -w));
    }
    c.rng.shuffle(&mut ops);
    let mut b = Quad::new(rows, cols, hb);
    if c.rng.chance(0.3) {
        for _ in 0..c.rng.urange(1, 20) {
            let (x, w) = (c.rng.u64(), weight(c));
            b.insert(x, w);
        }
        b.clear();
    }
    for (x, w) in &ops {
        if c.rng.chance(0.5) {
            b.insert(*x, *w);
        } else {
            b.remove(*x, -*w);
        }
    }
    let mut probes: Vec<u64> = (0..u as u64).map(|i| base + i).collect();
    for _ in 0..40 {
        probes.push(c.rng.u64());
    }
    for x in &probes {
        let (p, q) = (a.answers(*x), b.answers(*x));
        ensure!(
            p == q,
            "{rows}x{cols} {hb:?}: two histories with the same net counts answer {p:?} and {q:?} for item {x}"
        );
    }
    let bytes = |s: &S<CountMinStrategy>| bincode::serialize(s).unwrap();
    ensure!(bytes(&a.min) == bytes(&b.min), "{rows}x{cols}: two histories with the same net counts leave different sketches");
    // removing everything restores the empty sketch
    for i in 0..u {
        b.remove(base + i as u64, net[i]);
    }
    let fresh = Quad::new(rows, cols, hb);
    for x in &probes {
        let (p, q) = (b.answers(*x), fresh.answers(*x));
        ensure!(p == q, "{rows}x{cols} {hb:?}: after removing everything item {x} gives {p:?}, an empty sketch {q:?}");
    }
    c.count("estimates_checked", probes.len() as u64 * 8);
    c.mix(base ^ ops.len() as u64);
    c.nontrivial();
    Ok(())
}

/// A single item in an otherwise empty sketch is counted exactly by every strategy of the crate that
/// claims it, whatever the shape, also through the other constructors.
fn shapes(c: &mut Ctx) -> R {
    let epsilon = c.rng.log_f64(0.003, 0.9);
    let delta = c.rng.log_f64(1e-6, 0.9);
    let w = weight(c);
    let x = c.rng.u64();
    let hb = HB::good_pair(&mut c.rng);
    macro_rules! go {
        ($t:ty, $name:expr) => {{
            let mut s = [
                S::<$t>::from_error_with_hashers(epsilon, delta, hb),
                S::<$t>::with_hashers(3, 17, hb),
            ];
            for s in &mut s {
                s.insert(&x, w);
                ensure!(s.count(&x) == w, "{}: one item of weight {w} alone in the sketch is counted {}", $name, s.count(&x));
                s.remove(&x, w);
                ensure!(s.count(&x) == 0, "{}: {} after removing the only item", $name, s.count(&x));
            }
            let mut s = CountMinSketch::<$t, u64>::from_error(epsilon, delta);
            s.insert(&x, w);
            ensure!(s.count(&x) == w, "{}: one item of weight {w} alone in the sketch is counted {}", $name, s.count(&x));
            let mut s = CountMinSketch::<$t, u64>::new(5, 9);
            s.insert(&x, w);
            ensure!(s.count(&x) == w, "{}: one item of weight {w} alone in the sketch is counted {}", $name, s.count(&x));
        }};
    }
    go!(CountMinStrategy, "count-min");
    go!(CountMeanStrategy, "count-mean");
    go!(CountMedianBiasStrategy, "count-median-bias");
    c.count("estimates_checked", 18);
    c.mix(x);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C12",
    rule: "linear: four sketches that differ only in strategy, one of them recording the row counters; after every weighted insert, removal or clear every counter of every item equals the sum of the net counts of the items sharing it (read off single-item sketches) and every strategy's answer equals its definition over the recorded counters in exact arithmetic. heavy: counts up to the ends of the 64-bit range (the absolute net counts add up to less than 2^63, so every counter and the total are representable), every strategy against its definition, to within the rounding of doubles. histories: same net counts along two random histories, some over more than 2^16 counters (splits, cancellations, strangers, clear), all answers and the serialized state equal; then everything removed equals fresh. shapes: all constructors, one item. Every case is non-trivial; except in heavy, weights keep every sum small enough for doubles to round right.",
    kinds: &[
        Kind { name: "linear", run: linear, quick: 40_000, thorough: 400_000 },
        Kind { name: "heavy", run: heavy, quick: 15_000, thorough: 200_000 },
        Kind { name: "histories", run: histories, quick: 50_000, thorough: 600_000 },
        Kind { name: "shapes", run: shapes, quick: 30_000, thorough: 300_000 },
    ],
    floors: &[("estimates_checked", 1_500_000), ("estimates_of_large_counts", 100_000), ("row_sums_beyond_64_bits", 10_000)],
    assumptions: &["the strategies' arithmetic in 64-bit floats rounds right for sums below 2^44; kind heavy allows one more above, and 8 units in the last place above 2^53"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
