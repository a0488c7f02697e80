//! C15: MinHash similarity is a symmetric, order-free estimate of Jaccard similarity.
use pcverif::*;
use probabilistic_collections::similarity::{MinHash, ShingleIterator};
use std::collections::HashSet;
use std::vec::IntoIter;

type M = MinHash<IntoIter<u64>, u64, HB>;

fn hashes(m: &M, s: &[u64]) -> Vec<u64> {
    m.get_min_hashes(s.to_vec().into_iter())
}

fn min2(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| *x.min(y)).collect()
}

fn show(s: &[u64]) -> String {
    format!("{:?}{}", &s[..s.len().min(40)], if s.len() > 40 { format!(".. ({} items)", s.len()) } else { String::new() })
}

fn laws(c: &mut Ctx) -> R {
    let hb = if c.rng.chance(0.6) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    // rarely more hash functions, or more items, than 16 bits count
    let (k, most) = match (c.kind, c.rng.below(2)) {
        ("big", 0) => (c.rng.log_range(66_000, 140_000), 8),
        ("big", _) => (c.rng.urange(2, 8), 100_000),
        _ => (c.rng.log_range(1, 200), 60),
    };
    let m = M::with_hashers(k, hb);
    ensure!(m.hasher_count() == k, "hasher_count()={} for {k}", m.hasher_count());
    let universe = c.rng.pick(&[3u64, 20, 200, 1 << 50]);
    let base = c.rng.u64() >> 1;
    let set = |c: &mut Ctx| -> Vec<u64> {
        let n = if most > 60 { c.rng.urange(most / 3 * 2, most) } else { c.rng.log_range(1, most) };
        (0..n).map(|_| base + c.rng.below(universe)).collect()
    };
    let (a, b) = (set(c), set(c));
    let (ha, hb_) = (hashes(&m, &a), hashes(&m, &b));
    c.mix(base);
    c.sample(|| format!("{hb:?} hashes={k} |a|={} |b|={}", a.len(), b.len()));
    ensure!(ha.len() == k && hb_.len() == k, "{k} hash functions give {} and {} hashes", ha.len(), hb_.len());
    let mut again = a.clone();
    for _ in 0..a.len() {
        again.push(a[c.rng.idx(a.len())]);
    }
    c.rng.shuffle(&mut again);
    ensure!(hashes(&m, &again) == ha, "{hb:?} k={k}: order or repetition changes the hashes of {}", show(&a));
    let union: Vec<u64> = a.iter().chain(&b).copied().collect();
    ensure!(
        hashes(&m, &union) == min2(&ha, &hb_),
        "{hb:?} k={k}: the hashes of the union of {} and {} are not the minima of their hashes",
        show(&a),
        show(&b)
    );
    let mut single = vec![u64::MAX; k];
    for x in &a {
        single = min2(&single, &hashes(&m, &[*x]));
    }
    ensure!(single == ha, "{hb:?} k={k}: the hashes of {} are not the minima over its items", show(&a));
    // more hash functions extend the sequence, they do not change it
    let more = M::with_hashers(k + 7, hb);
    ensure!(hashes(&more, &a)[..k] == ha[..], "{hb:?}: the first {k} of {} hashes differ", k + 7);
    let agree = ha.iter().zip(&hb_).filter(|(x, y)| x == y).count();
    let want = agree as f64 / k as f64;
    let it = |s: &[u64]| s.to_vec().into_iter();
    for (how, got) in [
        ("get_similarity", m.get_similarity(it(&a), it(&b))),
        ("get_similarity swapped", m.get_similarity(it(&b), it(&a))),
        ("get_similarity_from_hashes", m.get_similarity_from_hashes(&ha, &hb_)),
        ("get_similarity_from_hashes swapped", m.get_similarity_from_hashes(&hb_, &ha)),
    ] {
        ensure!((got - want).abs() < 1e-12, "{hb:?} k={k}: {how} is {got}, {agree} of {k} hashes agree");
        ensure!((0.0..=1.0).contains(&got), "{how} is {got}");
    }
    ensure!(m.get_similarity(it(&a), it(&again)) == 1.0, "{hb:?} k={k}: equal sets have similarity {}", m.get_similarity(it(&a), it(&again)));
    ensure!(c.catch(|| m.get_similarity_from_hashes(&ha, &ha[..k - 1])).is_err(), "hash lists of different length are compared");
    // hashes that agree in part of their bits only are different hashes
    let near: Vec<u64> = ha
        .iter()
        .map(|h| match c.rng.below(4) {
            0 => *h,
            1 => h ^ 1 << c.rng.below(64),
            2 => h ^ (c.rng.u64() | 1) << 32,
            _ => h ^ (1 + (c.rng.u64() & 0x7fff_ffff)),
        })
        .collect();
    let agree_near = ha.iter().zip(&near).filter(|(x, y)| x == y).count();
    let got = m.get_similarity_from_hashes(&ha, &near);
    ensure!((got - agree_near as f64 / k as f64).abs() < 1e-12, "k={k}: get_similarity_from_hashes is {got}, {agree_near} of {k} hashes agree in all bits");
    c.count("laws_checked", 11);
    let da: HashSet<_> = a.iter().collect();
    let db: HashSet<_> = b.iter().collect();
    if agree > 0 && da != db {
        c.nontrivial();
    }
    Ok(())
}

/// Mean and spread of the estimate over independent hash functions, at a chosen Jaccard similarity.
fn accuracy(c: &mut Ctx) -> R {
    const SHAPES: [(usize, usize, usize); 12] = [
        (1, 1, 1), (1, 2, 2), (5, 0, 5), (2, 9, 9), (20, 5, 5), (10, 40, 0), (50, 50, 50), (95, 3, 2),
        (0, 30, 30), (3, 0, 97), (40, 1, 160), (200, 60, 40),
    ];
    let (both, only_a, only_b) = SHAPES[c.index % SHAPES.len()];
    let j = both as f64 / (both + only_a + only_b) as f64;
    let k = c.rng.pick(&[1, 4, 16, 64, 64, 256, 1024, 4096]);
    let runs = c.scale(8_000_000, 60_000_000) / ((both * 2 + only_a + only_b) * (k + 20)) ;
    let runs = runs.clamp(60, 20_000);
    let mut errs = Vec::with_capacity(runs);
    let own = c.rng.chance(0.25);
    for _ in 0..runs {
        let base = c.rng.u64() >> 1;
        let a: Vec<u64> = (0..both + only_a).map(|i| base + i as u64).collect();
        let b: Vec<u64> = (0..both).chain(both + only_a..both + only_a + only_b).map(|i| base + i as u64).collect();
        let s = if own {
            MinHash::<IntoIter<u64>, u64>::new(k).get_similarity(a.into_iter(), b.into_iter())
        } else {
            let hb = [HB::sip(&mut c.rng), HB::sip(&mut c.rng)];
            M::with_hashers(k, hb).get_similarity(a.into_iter(), b.into_iter())
        };
        errs.push(s - j);
        c.tick();
    }
    let sd = (j * (1.0 - j) / k as f64).sqrt();
    let n = runs as f64;
    let bias = stats::mean(&errs);
    // With a probability of about k / 2^8 / items one item with a small hash and a small step wins all
    // the way, a heavy tail of double hashing: the outermost runs are not counted.
    errs.sort_by(|x, y| y.abs().partial_cmp(&x.abs()).unwrap());
    let rms = stats::rms(&errs[runs / 40 + 1..]);
    c.sample(|| format!("J={j:.3} k={k} runs={runs} bias={bias:+.4} rms={rms:.4} ideal={sd:.4}"));
    c.mix(c.seed);
    let lim = 8.5 * sd.max(0.02) * 1.3 / n.sqrt() + 0.003;
    ensure!(bias.abs() <= lim, "k={k}: similarity of sets with Jaccard {j:.3} is {bias:+.4} off on average over {runs} runs (bound {lim:.4})");
    let lim = sd * (1.25 + 5.0 / n.sqrt()) + 0.01 / (k as f64).sqrt() + 0.002;
    ensure!(rms <= lim, "k={k}: similarity of sets with Jaccard {j:.3} has a standard error of {rms:.4} over {runs} runs (bound {lim:.4})");
    if sd > 0.0 {
        c.max("max_spread_over_ideal_ppm", (rms / sd * 1e6) as u64);
    }
    c.count("similarities_measured", runs as u64);
    c.nontrivial();
    Ok(())
}

/// Shingles of texts, through the crate's own iterator and default builders.
fn texts(c: &mut Ctx) -> R {
    let vocab = c.rng.urange(2, 40);
    let words: Vec<String> = (0..vocab).map(|i| format!("w{i}")).collect();
    let n = c.rng.urange(3, 60);
    let t1: Vec<&str> = (0..n).map(|_| words[c.rng.idx(vocab)].as_str()).collect();
    let mut t2 = t1.clone();
    for _ in 0..c.rng.urange(0, 6) {
        let i = c.rng.idx(t2.len());
        t2[i] = words[c.rng.idx(vocab)].as_str();
    }
    let w = c.rng.urange(1, 3);
    let k = c.rng.urange(1, 100);
    let m = MinHash::<ShingleIterator<'_, str>, Vec<&str>>::new(k);
    let sim = m.get_similarity(ShingleIterator::new(w, t1.clone()), ShingleIterator::new(w, t2.clone()));
    let back = m.get_similarity(ShingleIterator::new(w, t2.clone()), ShingleIterator::new(w, t1.clone()));
    let (h1, h2) = (
        m.get_min_hashes(ShingleIterator::new(w, t1.clone())),
        m.get_min_hashes(ShingleIterator::new(w, t2.clone())),
    );
    let set = |t: &[&str]| -> HashSet<Vec<String>> { t.windows(w).map(|x| x.iter().map(|s| s.to_string()).collect()).collect() };
    let (s1, s2) = (set(&t1), set(&t2));
    ensure!((0.0..=1.0).contains(&sim) && sim == back, "similarities {sim} and {back} of the same two texts");
    ensure!((sim - m.get_similarity_from_hashes(&h1, &h2)).abs() < 1e-12, "get_similarity and get_similarity_from_hashes disagree");
    if s1 == s2 {
        ensure!(sim == 1.0, "texts with the same shingles have similarity {sim}");
    }
    if s1.is_disjoint(&s2) {
        ensure!(sim == 0.0, "texts without a common shingle have similarity {sim}");
    }
    c.count("laws_checked", 3);
    c.mix(c.seed);
    if s1 != s2 {
        c.nontrivial();
    }
    Ok(())
}

static P: Property = Property {
    id: "C15",
    rule: "laws: random multisets and builders (hostile ones included); order/repetition-freeness, union = element-wise minimum, minima over single items, prefix-stability, symmetry, agreement ratio recomputed from the returned hashes, 1 for equal sets; big: more than 2^16 hash functions or items. accuracy: 12 overlap shapes, independent builders, mean and RMS error of the similarity against the exact Jaccard value and its binomial spread. texts: ShingleIterator and default builders. Non-trivial: different sets with some agreement, or a measured estimate.",
    kinds: &[
        Kind { name: "laws", run: laws, quick: 60_000, thorough: 800_000 },
        Kind { name: "big", run: laws, quick: 60, thorough: 1500 },
        Kind { name: "accuracy", run: accuracy, quick: 480, thorough: 3_000 },
        Kind { name: "texts", run: texts, quick: 15_000, thorough: 200_000 },
    ],
    floors: &[("laws_checked", 50_000), ("similarities_measured", 50_000)],
    assumptions: &["SipHash with random keys behaves like a random function"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
