//! C11: count-min estimates never undercount and meet the (epsilon, delta) bound.
use pcverif::stats::too_many;
use pcverif::*;
use probabilistic_collections::count_min_sketch::*;
use std::cell::RefCell;

thread_local!(static ROWS: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) });

/// Reports the row counters it is shown instead of an estimate.
struct Record;
impl CountStrategy for Record {
    fn get_estimate(_items: i64, _rows: usize, _cols: usize, iter: ItemValueIter<'_>) -> i64 {
        ROWS.with(|r| {
            let mut r = r.borrow_mut();
            r.clear();
            r.extend(iter);
        });
        0
    }
}

fn rows_of(s: &CountMinSketch<Record, u64, HB>, x: u64) -> Vec<i64> {
    s.count(&x);
    ROWS.with(|r| r.borrow().clone())
}

/// Universe of items, sketch of any shape, any hash builders; every estimate after every update.
fn bounds(c: &mut Ctx) -> R {
    let hb = if c.rng.chance(0.6) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let rows = if c.rng.chance(0.85) { c.rng.urange(1, 8) } else { c.rng.log_range(9, 80) };
    let cols = c.rng.log_range(1, 60);
    let u = c.rng.urange(2, 24);
    let keys: Vec<u64> = (0..u).map(|i| if c.rng.chance(0.5) { c.rng.u64() } else { i as u64 }).collect();
    let mut sketch = CountMinSketch::<CountMinStrategy, u64, HB>::with_hashers(rows, cols, hb);
    // shared[x] = per row, the other items counted in the same counter, as seen in sketches holding one item
    let mut shared = vec![vec![Vec::new(); rows]; u];
    for (j, y) in keys.iter().enumerate() {
        let mut one = CountMinSketch::<Record, u64, HB>::with_hashers(rows, cols, hb);
        one.insert(y, 1);
        for (i, x) in keys.iter().enumerate() {
            let r = rows_of(&one, *x);
            ensure!(r.len() == rows, "a strategy is shown {} counters of a sketch with {rows} rows", r.len());
            for (k, v) in r.iter().enumerate() {
                if keys[i] == keys[j] {
                    ensure!(*v == 1, "row {k} of the item itself holds {v} after one insertion of weight 1 ({rows}x{cols} {hb:?})");
                } else if *v != 0 {
                    shared[i][k].push(j);
                }
            }
        }
    }
    let mut net = vec![0i64; u];
    let steps = c.scale(60, 200);
    // counts beyond what a double holds exactly, their sum still below 2^63
    let heavy = c.rng.chance(0.03);
    c.sample(|| format!("{rows}x{cols} items={u} {hb:?}"));
    c.mix(hb[0].k0 ^ (rows as u64) << 20 ^ cols as u64);
    let mut exact = 0;
    let mut over = 0;
    for step in 0..steps {
        let i = c.rng.idx(u);
        match c.rng.below(20) {
            0 if step > 20 => {
                sketch.clear();
                net = vec![0; u];
            }
            1..=6 => {
                let w = c.rng.range(0, net[i] as u64) as i64;
                sketch.remove(&keys[i], w);
                net[i] -= w;
            }
            _ => {
                let w = match c.rng.below(4) {
                    0 => 1,
                    1 => c.rng.range(0, 5),
                    2 => c.rng.range(0, 1000),
                    _ if heavy => c.rng.range(1 << 53, 1 << 55),
                    _ => c.rng.range(0, 1 << 40),
                } as i64;
                sketch.insert(&keys[i], w);
                net[i] += w;
            }
        }
        let truth = |i: usize| -> i64 { (0..u).filter(|j| keys[*j] == keys[i]).map(|j| net[j]).sum() };
        for i in 0..u {
            let got = sketch.count(&keys[i]);
            let want = truth(i);
            ensure!(
                got >= want,
                "{rows}x{cols} {hb:?}: count({})={got} after step {step}, its true count is {want}",
                keys[i]
            );
            let alone = shared[i].iter().any(|s| s.iter().all(|j| net[*j] == 0));
            if alone {
                exact += 1;
                ensure!(
                    got == want,
                    "{rows}x{cols} {hb:?}: count({})={got} after step {step}, its true count is {want} and one of its counters is shared with no other counted item",
                    keys[i]
                );
            }
            if got > want {
                over += 1;
            }
        }
    }
    c.count("estimates_checked", (steps * u) as u64);
    c.count("exact_estimates_required", exact);
    c.count("overestimates_seen", over);
    if over > 0 && exact > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Frequency of errors above epsilon * total, over independent sketches, on the streams that make it
/// as large as the bound allows: about 1/epsilon items of equal weight.
fn error_bound(c: &mut Ctx) -> R {
    let i = c.index;
    // delta just above e^-rows leaves no slack in the number of rows; epsilon just above e/cols none in the columns
    // (or where the exact number of rows lies just below a half: one row fewer would not do)
    let tight_rows = [1, 2, 3, 1, 2, 3, 4, 8][i % 8];
    let delta = (-(tight_rows as f64)).exp() * [1.0 + 1e-9, (-0.47f64).exp(), 1.4][i % 3];
    let delta = delta.min(0.95);
    let want_cols = match tight_rows {
        1 => c.rng.urange(40, 150),
        2 => c.rng.urange(120, 300),
        3 => c.rng.urange(400, 600),
        _ => c.rng.urange(60, 150),
    };
    let epsilon = 1f64.exp() / (want_cols as f64 - 1e-6);
    let heavy = ((1.0 / epsilon) * 0.999).floor() as u64;
    let trials = match tight_rows {
        1 => c.scale(40_000, 200_000),
        2 => c.scale(40_000, 150_000),
        3 => c.scale(30_000, 120_000),
        _ => c.scale(60_000, 300_000),
    } as u64;
    let w = c.rng.pick(&[1i64, 1, 7, 1_000_000]);
    let (mut bad, mut above) = (0u64, 0u64);
    let entropy = c.rng.chance(0.3);
    for t in 0..trials {
        let base = c.rng.u64();
        let (est, total) = if entropy {
            let mut s = CountMinSketch::<CountMinStrategy, u64>::from_error(epsilon, delta);
            ensure!(
                s.error() <= delta * (1.0 + 1e-9) && s.confidence() <= epsilon * (1.0 + 1e-9),
                "from_error({epsilon:.5}, {delta:.5}) promises {} and {}",
                s.confidence(),
                s.error()
            );
            (0..heavy).for_each(|y| s.insert(&(base ^ y), w));
            (s.count(&(base ^ (1 << 40))), heavy as i64 * w)
        } else {
            let hb = [HB::sip(&mut c.rng), HB::sip(&mut c.rng)];
            let mut s = CountMinSketch::<CountMinStrategy, u64, HB>::from_error_with_hashers(epsilon, delta, hb);
            (0..heavy).for_each(|y| s.insert(&(base ^ y), w));
            (s.count(&(base ^ (1 << 40))), heavy as i64 * w)
        };
        if est as f64 > epsilon * total as f64 {
            bad += 1;
        }
        if est > 0 {
            above += 1;
        }
        if t % 64 == 0 {
            c.tick();
        }
    }
    let allowed = delta.max(epsilon / 4.0);
    c.sample(|| format!("epsilon={epsilon:.5} delta={delta:.5} heavy={heavy} bad={bad}/{trials}"));
    c.mix(trials ^ (want_cols as u64) << 32 ^ i as u64);
    ensure!(
        !too_many(bad, trials, allowed),
        "from_error({epsilon:.5}, {delta:.5}): {bad} of {trials} independent estimates exceed the true count by more than epsilon times the total (bound {allowed:.5})"
    );
    c.max("max_error_rate_over_bound_ppm", (bad as f64 / trials as f64 / allowed * 1e6) as u64);
    c.count("independent_sketches", trials);
    c.count("overestimates_seen", above);
    c.nontrivial();
    Ok(())
}

/// A realistic skewed stream with a dictionary; the bound per query over one sketch's items.
fn skewed(c: &mut Ctx) -> R {
    let epsilon = c.rng.log_f64(0.002, 0.1);
    let delta = c.rng.log_f64(0.01, 0.3);
    let reps = c.scale(12, 40);
    let items = 2000usize;
    let (mut bad, mut n) = (0u64, 0u64);
    for _ in 0..reps {
        let hb = HB::good_pair(&mut c.rng);
        let mut s = CountMinSketch::<CountMinStrategy, String, HB>::from_error_with_hashers(epsilon, delta, hb);
        let salt = c.rng.u64();
        let names: Vec<String> = (0..items).map(|i| format!("{salt:x}/{i}")).collect();
        let mut truth = vec![0i64; items];
        for _ in 0..4000 {
            let i = c.rng.log_range(1, items) - 1;
            s.insert(&names[i], 1);
            truth[i] += 1;
        }
        let total: i64 = truth.iter().sum();
        for i in 0..items {
            let got = s.count(names[i].as_str());
            ensure!(got >= truth[i], "count({})={got}, true count {}", names[i], truth[i]);
            n += 1;
            if (got - truth[i]) as f64 > epsilon * total as f64 {
                bad += 1;
            }
        }
        c.tick();
    }
    ensure!(
        bad as f64 <= n as f64 * delta.max(epsilon / 4.0) * 1.3 + 60.0,
        "from_error({epsilon:.4}, {delta:.4}): {bad} of {n} estimates of a skewed stream exceed the bound"
    );
    c.count("estimates_checked", n);
    c.mix(n ^ c.seed);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C11",
    rule: "bounds: random weighted inserts, removals (never below zero) and clears over up to 24 items in sketches of 1x1 to 80x60 with good and hostile builders, every estimate after every step against exact counts, and against equality when a recording strategy shows in single-item sketches that one counter is shared with no counted item. error_bound: independent sketches from from_error on streams of about 1/epsilon equal items, the worst case of the bound, one unseen item queried in each; binomial tail bound at e^-34. skewed: Zipf-like streams. Non-trivial: overestimates and exact estimates both occurred.",
    kinds: &[
        Kind { name: "bounds", run: bounds, quick: 40_000, thorough: 400_000 },
        Kind { name: "error_bound", run: error_bound, quick: 240, thorough: 1_200 },
        Kind { name: "skewed", run: skewed, quick: 500, thorough: 4_000 },
    ],
    floors: &[("estimates_checked", 1_000_000), ("exact_estimates_required", 200_000), ("overestimates_seen", 100_000), ("independent_sketches", 500_000)],
    assumptions: &["SipHash with random keys behaves like a random function"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
