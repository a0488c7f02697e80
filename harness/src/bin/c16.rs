//! C16: SimHash is a per-bit majority vote and report_similarities is exact.
use pcverif::hashers::{CONST, IDENT, WEAK};
use pcverif::*;
use probabilistic_collections::similarity::{ShingleIterator, SimHash};
use std::collections::BTreeSet;
use std::vec::IntoIter;

type S = SimHash<IntoIter<u64>, u64, HB>;

fn sim(s: &S, items: &[u64]) -> u64 {
    s.get_sim_hash(items.to_vec().into_iter())
}

fn builder(c: &mut Ctx) -> HB {
    match c.rng.below(6) {
        0 => HB::new(WEAK, c.rng.u64(), c.rng.range(1, 6)),
        1 => HB::any(&mut c.rng),
        2 => HB::new(IDENT, 0, 0),
        _ => HB::good(&mut c.rng),
    }
}

/// The vote over the single-item hashes; each bit of those is that item's vote.
fn vote(c: &mut Ctx) -> R {
    let hb = builder(c);
    let s = S::with_hasher(hb);
    let base = c.rng.u64() >> 1;
    let universe = c.rng.pick(&[2u64, 5, 50, 1 << 40]);
    let n = c.rng.log_range(1, 120);
    let items: Vec<u64> = (0..n).map(|_| base + c.rng.below(universe)).collect();
    let mut votes = [0i64; 64];
    for x in &items {
        let h = sim(&s, &[*x]);
        for (i, v) in votes.iter_mut().enumerate() {
            *v += if h >> i & 1 == 1 { 1 } else { -1 };
        }
    }
    let got = sim(&s, &items);
    let mut ties = 0;
    for (i, v) in votes.iter().enumerate() {
        let want = u64::from(*v >= 0);
        ties += u64::from(*v == 0);
        ensure!(
            got >> i & 1 == want,
            "{hb:?}: bit {i} of the hash of {n} items is {}, the votes of the items add up to {v}",
            got >> i & 1
        );
    }
    let mut again = items.clone();
    c.rng.shuffle(&mut again);
    ensure!(sim(&s, &again) == got, "{hb:?}: the order of {items:?} changes the hash");
    // every item three times: the same votes
    let triple: Vec<u64> = items.iter().flat_map(|x| [*x, *x, *x]).collect();
    ensure!(sim(&s, &triple) == got, "{hb:?}: tripling every item changes the hash");
    c.count("votes_checked", 64);
    c.count("ties_seen", ties);
    c.mix(base ^ n as u64);
    c.sample(|| format!("{hb:?} items={n} hash={got:#x} ties={ties}"));
    c.nontrivial();
    Ok(())
}

/// Long inputs in hostile order (all items of one kind first): the vote is over all of them.
fn long(c: &mut Ctx) -> R {
    let hb = HB::good(&mut c.rng);
    let s = S::with_hasher(hb);
    let kinds = c.rng.urange(1, 4);
    let base = c.rng.u64() >> 1;
    let size = c.rng.pick(&[300usize, 3000, 40_000, 70_000, 140_000]);
    let mut votes = [0i64; 64];
    let mut items = Vec::new();
    let mut runs = Vec::new();
    for k in 0..kinds as u64 {
        let n = c.rng.urange(size / 2, size);
        let h = sim(&s, &[base + k]);
        for (i, v) in votes.iter_mut().enumerate() {
            *v += if h >> i & 1 == 1 { n as i64 } else { -(n as i64) };
        }
        items.extend(std::iter::repeat(base + k).take(n));
        runs.push(n);
    }
    let ask = |items: &[u64]| s.get_sim_hash(items.to_vec().into_iter());
    let got = match c.catch(|| ask(&items)) {
        Ok(v) => v,
        Err(e) => return Err(format!("{hb:?}: hashing {} items panicked: {e}", items.len())),
    };
    for (i, v) in votes.iter().enumerate() {
        ensure!(
            got >> i & 1 == u64::from(*v >= 0),
            "{hb:?}: bit {i} of the hash of runs of {runs:?} equal items is {}, the votes add up to {v}",
            got >> i & 1
        );
    }
    if c.rng.chance(0.3) {
        c.rng.shuffle(&mut items);
        ensure!(ask(&items) == got, "{hb:?}: the order of runs of {runs:?} equal items changes the hash");
    }
    c.count("long_inputs", 1);
    c.count("votes_checked", 64);
    c.mix(base);
    c.sample(|| format!("{hb:?} runs={runs:?}"));
    c.nontrivial();
    Ok(())
}

/// The hash bits themselves: the vote of one item is the item's hash, bit by bit (in a fixed order and
/// polarity), so different items vote independently; similar multisets have close hashes.
fn distances(c: &mut Ctx) -> R {
    let rounds = c.scale(60, 300);
    let n = c.rng.urange(60, 200);
    let change = 0.05;
    let (mut near, mut far, mut single) = (Vec::new(), Vec::new(), Vec::new());
    for _ in 0..rounds {
        let hb = if c.rng.chance(0.5) { HB::sip(&mut c.rng) } else { HB::good(&mut c.rng) };
        let s = S::with_hasher(hb);
        let base = c.rng.u64() >> 1;
        let a: Vec<u64> = (0..n as u64).map(|i| base + i).collect();
        let mut b = a.clone();
        for i in 0..(n as f64 * change).ceil() as usize {
            b[i] = base + 10_000 + i as u64;
        }
        let d: Vec<u64> = (0..n as u64).map(|i| base + 50_000 + i).collect();
        let h = sim(&s, &a);
        near.push(f64::from((h ^ sim(&s, &b)).count_ones()));
        far.push(f64::from((h ^ sim(&s, &d)).count_ones()));
        single.push(f64::from((sim(&s, &a[..1]) ^ sim(&s, &d[..1])).count_ones()));
        c.tick();
    }
    let (near, far, single) = (stats::mean(&near), stats::mean(&far), stats::mean(&single));
    c.sample(|| format!("items={n} distance of 5% changed {near:.1}, unrelated {far:.1}, single items {single:.1}"));
    // 32 expected with a deviation of 4 per pair for unrelated ones; about 64 acos(0.95)/pi = 6.5 for near ones
    let lim = 8.0 * 4.0 / (rounds as f64).sqrt();
    ensure!((far - 32.0).abs() <= lim, "hashes of unrelated multisets of {n} items differ in {far:.1} of 64 bits on average");
    ensure!((single - 32.0).abs() <= lim, "hashes of two single items differ in {single:.1} of 64 bits on average");
    ensure!(near <= 14.0, "hashes of multisets that share 95% of {n} items differ in {near:.1} bits on average");
    c.count("distances_measured", rounds as u64 * 3);
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

/// The defining set of pairs, from the inputs' hashes.
fn expected(hashes: &[u64], window: usize) -> BTreeSet<(usize, usize)> {
    let mut out = BTreeSet::new();
    let n = hashes.len();
    for r in 0..64 {
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by_key(|i| (hashes[*i].rotate_left(r), *i));
        for p in 0..n {
            for q in p + 1..n.min(p + window) {
                out.insert((order[p].min(order[q]), order[p].max(order[q])));
            }
        }
    }
    out
}

fn report(c: &mut Ctx) -> R {
    let hb = match c.rng.below(5) {
        0 => HB::new(CONST, c.rng.u64(), 0),
        _ => builder(c),
    };
    let s = S::with_hasher(hb);
    let n = match c.rng.below(4) {
        0 => c.rng.urange(0, 4),
        1 | 2 => c.rng.urange(2, 24),
        _ => c.rng.urange(20, 90),
    };
    let base = c.rng.u64() >> 1;
    let clusters = c.rng.range(1, 12);
    let inputs: Vec<Vec<u64>> = (0..n)
        .map(|_| {
            let k = c.rng.below(clusters);
            let mut v: Vec<u64> = (0..c.rng.urange(0, 20)).map(|i| base + k * 1000 + i as u64).collect();
            if c.rng.chance(0.4) {
                v.push(c.rng.u64() >> 1);
            }
            v
        })
        .collect();
    let window = match c.rng.below(4) {
        0 => 2,
        1 => c.rng.urange(2, 5),
        2 => c.rng.urange(2, n.max(2)),
        _ => c.rng.urange(n.max(2), n + 40),
    };
    let hashes: Vec<u64> = inputs.iter().map(|v| sim(&s, v)).collect();
    let want = expected(&hashes, window);
    let ask = || s.report_similarities(window, inputs.iter().map(|v| v.clone().into_iter()).collect());
    let got = match c.catch(ask) {
        Ok(v) => v,
        Err(e) => return Err(format!("{hb:?}: report_similarities(window {window}) of {n} inputs panicked: {e}")),
    };
    let set: BTreeSet<(usize, usize)> = got.iter().copied().collect();
    let what = format!("{hb:?}: report_similarities(window {window}) of {n} inputs");
    ensure!(set.len() == got.len(), "{what} returns a pair twice");
    ensure!(got.iter().all(|(i, j)| i < j && *j < n), "{what} returns an unordered or unknown pair");
    if let Some(p) = want.difference(&set).next() {
        return Err(format!("{what} misses {p:?} (hashes {:#x} and {:#x})", hashes[p.0], hashes[p.1]));
    }
    if let Some(p) = set.difference(&want).next() {
        return Err(format!("{what} reports {p:?}, which share no window (hashes {:#x} and {:#x})", hashes[p.0], hashes[p.1]));
    }
    c.count("pair_sets_compared", 1);
    c.count("pairs_reported", set.len() as u64);
    c.mix(base);
    c.sample(|| format!("{hb:?} inputs={n} window={window} pairs={}", set.len()));
    if !set.is_empty() && set.len() < n * (n - 1) / 2 {
        c.count("partial_pair_sets", 1);
    }
    c.nontrivial();
    Ok(())
}

/// More inputs than 16 bits count.
fn crowd(c: &mut Ctx) -> R {
    let hb = HB::good(&mut c.rng);
    let s = S::with_hasher(hb);
    let n = c.rng.urange(65_537, 72_000);
    let base = c.rng.u64() >> 1;
    let inputs: Vec<Vec<u64>> = (0..n as u64).map(|i| (0..1 + i % 2).map(|j| base + 2 * i + j).collect()).collect();
    let hashes: Vec<u64> = inputs.iter().map(|v| sim(&s, v)).collect();
    let window = 2;
    let mut want: Vec<(u32, u32)> = Vec::with_capacity(64 * n);
    for r in 0..64 {
        let mut order: Vec<(u64, u32)> = hashes.iter().zip(0..).map(|(h, i)| (h.rotate_left(r), i)).collect();
        order.sort_unstable();
        want.extend(order.windows(2).map(|w| (w[0].1.min(w[1].1), w[0].1.max(w[1].1))));
        c.tick();
    }
    want.sort_unstable();
    want.dedup();
    let ask = || s.report_similarities(window, inputs.into_iter().map(Vec::into_iter).collect());
    let got = match c.catch(ask) {
        Ok(v) => v,
        Err(e) => return Err(format!("{hb:?}: report_similarities(window {window}) of {n} inputs panicked: {e}")),
    };
    let mut got: Vec<(usize, usize)> = got.into_iter().collect();
    got.sort_unstable();
    let what = format!("{hb:?}: report_similarities(window {window}) of {n} inputs");
    let wrong = got.iter().zip(&want).find(|(g, w)| **g != (w.0 as usize, w.1 as usize));
    if let Some((g, w)) = wrong {
        return Err(format!("{what}: the next pair in order is {g:?} where {w:?} is due"));
    }
    ensure!(got.len() == want.len(), "{what} returns {} pairs, {} are due", got.len(), want.len());
    c.count("crowds_compared", 1);
    c.mix(base);
    c.sample(|| format!("{hb:?} inputs={n} pairs={}", got.len()));
    c.nontrivial();
    Ok(())
}

fn texts(c: &mut Ctx) -> R {
    let s = SimHash::<ShingleIterator<'_, str>, Vec<&str>>::new();
    let words: Vec<String> = (0..30).map(|i| format!("w{i}")).collect();
    let base: Vec<&str> = (0..40).map(|_| words[c.rng.idx(30)].as_str()).collect();
    let docs: Vec<Vec<&str>> = (0..c.rng.urange(2, 12))
        .map(|_| {
            let mut d = base.clone();
            for _ in 0..c.rng.urange(0, 10) {
                let i = c.rng.idx(d.len());
                d[i] = words[c.rng.idx(30)].as_str();
            }
            d
        })
        .collect();
    let hashes: Vec<u64> = docs.iter().map(|d| s.get_sim_hash(ShingleIterator::new(2, d.clone()))).collect();
    let window = c.rng.urange(2, 4);
    let got = s.report_similarities(window, docs.iter().map(|d| ShingleIterator::new(2, d.clone())).collect());
    let set: BTreeSet<_> = got.iter().copied().collect();
    ensure!(set == expected(&hashes, window), "report_similarities({window}) of {} texts", docs.len());
    let again = SimHash::<ShingleIterator<'_, str>, Vec<&str>>::with_hasher(*s.hasher());
    for (d, h) in docs.iter().zip(&hashes) {
        ensure!(again.get_sim_hash(ShingleIterator::new(2, d.clone())) == *h, "an instance with the same builder hashes a text differently");
    }
    c.count("pair_sets_compared", 1);
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C16",
    rule: "vote: random multisets under good, weak and constant builders, every bit against the vote of the single-item hashes (tie = 1), order and repetition. long: runs of up to 140000 equal items each. distances: unrelated multisets and single items differ in half the bits, 5% changed ones in few. report: inputs from few clusters (many equal hashes), windows from 2 to beyond the number of inputs, 0 to 90 inputs, against the brute-force pair set of the 64 rotations. crowd: the same for more than 65536 inputs. texts: ShingleIterator and default builder. Every case is non-trivial.",
    kinds: &[
        Kind { name: "vote", run: vote, quick: 40_000, thorough: 400_000 },
        Kind { name: "long", run: long, quick: 400, thorough: 5_000 },
        Kind { name: "distances", run: distances, quick: 200, thorough: 1_500 },
        Kind { name: "report", run: report, quick: 30_000, thorough: 300_000 },
        Kind { name: "crowd", run: crowd, quick: 4, thorough: 60 },
        Kind { name: "texts", run: texts, quick: 3_000, thorough: 40_000 },
    ],
    floors: &[("votes_checked", 300_000), ("ties_seen", 1000), ("long_inputs", 300), ("pair_sets_compared", 3000), ("partial_pair_sets", 500), ("crowds_compared", 3)],
    assumptions: &["none beyond the public API"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
