//! C17: Jaccard similarity and shingles are computed exactly.
use pcverif::*;
use probabilistic_collections::similarity::{get_jaccard_similarity, ShingleIterator};
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;

fn windows<'a, T: ?Sized>(k: usize, tokens: &[&'a T]) -> Vec<Vec<&'a T>> {
    if k > tokens.len() {
        return Vec::new();
    }
    (0..=tokens.len() - k).map(|i| tokens[i..i + k].to_vec()).collect()
}

fn check<'a, T: ?Sized + PartialEq + Debug>(c: &mut Ctx, k: usize, tokens: &[&'a T]) -> R {
    let want = windows(k, tokens);
    let n = tokens.len();
    let mut it = ShingleIterator::new(k, tokens.to_vec());
    let mut got: Vec<Vec<&T>> = Vec::new();
    loop {
        match c.catch(|| it.next()) {
            Err(e) => return Err(format!("ShingleIterator({k}) over {n} tokens panicked after {} shingles: {e}", got.len())),
            Ok(None) => break,
            Ok(Some(s)) => got.push(s),
        }
        ensure!(got.len() <= want.len(), "ShingleIterator({k}) over {n} tokens yields more than {} shingles", want.len());
    }
    ensure!(got.len() == want.len(), "ShingleIterator({k}) over {n} tokens yields {} shingles, expected {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(
            g.len() == w.len() && g.iter().zip(w).all(|(a, b)| std::ptr::eq(*a, *b) || a == b),
            "shingle {i} of ShingleIterator({k}) over {n} tokens is {g:?}, expected {w:?}"
        );
    }
    for _ in 0..3 {
        ensure!(
            matches!(c.catch(|| it.next().is_none()), Ok(true)),
            "ShingleIterator({k}) over {n} tokens goes on after its end"
        );
    }
    // the adaptors see the same sequence
    let collected: Vec<Vec<&T>> = ShingleIterator::new(k, tokens.to_vec()).collect();
    ensure!(collected == want, "ShingleIterator({k}) over {n} tokens collects to something else than it yields");
    ensure!(ShingleIterator::new(k, tokens.to_vec()).count() == want.len(), "count()");
    ensure!(ShingleIterator::new(k, tokens.to_vec()).last() == want.last().cloned(), "last()");
    let j = c.rng.idx(n + 2);
    ensure!(ShingleIterator::new(k, tokens.to_vec()).nth(j) == want.get(j).cloned(), "nth({j})");
    let (lo, hi) = ShingleIterator::new(k, tokens.to_vec()).size_hint();
    ensure!(lo <= want.len() && hi.map_or(true, |h| h >= want.len()), "size_hint ({lo}, {hi:?}) for {} shingles", want.len());
    mixed(c, k, tokens, &want)?;
    c.count("shingles_checked", want.len() as u64);
    c.count("iterators_exhausted", 1);
    if want.len() > 1 {
        c.nontrivial();
    }
    Ok(())
}

/// Any mixture of next, nth, size_hint and by_ref adaptors, then one that takes all the rest, against a
/// plain vector's iterator.
fn mixed<'a, T: ?Sized + PartialEq + Debug>(c: &mut Ctx, k: usize, tokens: &[&'a T], want: &[Vec<&'a T>]) -> R {
    let mut it = ShingleIterator::new(k, tokens.to_vec());
    let mut model = want.iter().cloned();
    let step = (want.len() / 6).max(2);
    for _ in 0..12 {
        let j = c.rng.idx(step + 1);
        let (what, got, exp) = match c.rng.below(6) {
            0 | 1 => ("next", it.next(), model.next()),
            2 => ("nth", it.nth(j), model.nth(j)),
            3 => ("skip", it.by_ref().skip(j).next(), model.by_ref().skip(j).next()),
            4 => ("step_by", it.by_ref().take(step).step_by(j + 1).last(), model.by_ref().take(step).step_by(j + 1).last()),
            _ => ("take", it.by_ref().take(j).last(), model.by_ref().take(j).last()),
        };
        ensure!(got == exp, "{what}({j}) amid ShingleIterator({k}) over {} tokens is {got:?}, expected {exp:?}", tokens.len());
        let left = model.len();
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size_hint ({lo}, {hi:?}) with {left} shingles left");
    }
    let what = format!("of a partly read ShingleIterator({k}) over {} tokens", tokens.len());
    match c.rng.below(5) {
        0 => {
            let (n, m) = (it.count(), model.len());
            ensure!(n == m, "count() {what} is {n}, {m} shingles are left");
        }
        1 => ensure!(it.last() == model.last(), "last() {what} is wrong"),
        2 => {
            let got = it.fold(Vec::new(), |mut v, x| {
                v.push(x);
                v
            });
            ensure!(got == model.collect::<Vec<_>>(), "fold() {what} visits something else");
        }
        3 => {
            let mut got = Vec::new();
            it.for_each(|x| got.push(x));
            ensure!(got == model.collect::<Vec<_>>(), "for_each() {what} visits something else");
        }
        _ => {
            let rest: Vec<Vec<&T>> = it.collect();
            ensure!(rest == model.collect::<Vec<_>>(), "the rest {what} is wrong");
        }
    }
    c.count("mixed_reads", 1);
    Ok(())
}

/// Different items whose hashes collide: all of them (0), most of them (1), the usual ones (2).
#[derive(Clone, PartialEq, Eq)]
struct Coarse(u64, u8);

impl std::hash::Hash for Coarse {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        match self.1 {
            0 => (),
            1 => state.write_u64(self.0 % 5),
            _ => state.write_u64(self.0),
        }
    }
}

/// Items that are equal though they are not the same.
#[derive(Clone, Eq)]
struct Class(u64);

impl PartialEq for Class {
    fn eq(&self, o: &Self) -> bool {
        self.0 / 4 == o.0 / 4
    }
}

impl std::hash::Hash for Class {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        state.write_u64(self.0 / 4)
    }
}

fn shingles(c: &mut Ctx) -> R {
    let n = match c.rng.below(6) {
        0 => 0,
        1 => c.rng.urange(1, 3),
        2..=4 => c.rng.urange(1, 40),
        _ => c.rng.urange(30, 400),
    };
    let k = match c.rng.below(10) {
        0 => 1,
        1 => n,
        2 => n + 1,
        3 => n.saturating_sub(1),
        4 => c.rng.urange(n, n + 50),
        5 => c.rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 40]),
        6 => c.rng.urange(1, 4),
        _ => c.rng.urange(1, n.max(1)),
    };
    c.mix((n as u64) << 32 ^ k as u64);
    c.sample(|| format!("tokens={n} token_count={k}"));
    if k == 0 {
        return Ok(());
    }
    let vocab = c.rng.urange(1, 30);
    match c.rng.below(3) {
        0 => {
            let words: Vec<String> = (0..n).map(|_| format!("t{}", c.rng.idx(vocab))).collect();
            let t: Vec<&str> = words.iter().map(String::as_str).collect();
            check(c, k, &t)
        }
        1 => {
            let nums: Vec<u64> = (0..n).map(|_| c.rng.below(vocab as u64)).collect();
            let t: Vec<&u64> = nums.iter().collect();
            check(c, k, &t)
        }
        _ => {
            let bytes: Vec<Vec<u8>> = (0..n).map(|_| vec![c.rng.below(vocab as u64) as u8; 3]).collect();
            let t: Vec<&[u8]> = bytes.iter().map(Vec::as_slice).collect();
            check(c, k, &t)
        }
    }
}

/// Every number of tokens up to 40 with every window length up to 45.
fn small(c: &mut Ctx) -> R {
    let n = c.index / 45;
    let k = c.index % 45 + 1;
    let nums: Vec<usize> = (0..n).collect();
    let t: Vec<&usize> = nums.iter().collect();
    c.mix(c.index as u64);
    check(c, k, &t)
}

fn jaccard(c: &mut Ctx) -> R {
    let universe = c.rng.log_range(1, 300) as u64;
    let make = |c: &mut Ctx| -> Vec<u64> {
        let n = if c.rng.chance(0.1) { 0 } else { c.rng.log_range(1, 200) };
        let base = c.rng.below(universe + 1);
        (0..n).map(|_| base + c.rng.below(universe)).collect()
    };
    let a = make(c);
    let b = match c.rng.below(6) {
        0 => a.clone(),
        1 => a[..a.len() / 2].to_vec(),
        _ => make(c),
    };
    if a.is_empty() && b.is_empty() {
        return Ok(());
    }
    let (sa, sb): (BTreeSet<u64>, BTreeSet<u64>) = (a.iter().copied().collect(), b.iter().copied().collect());
    let inter = sa.intersection(&sb).count();
    let union = sa.union(&sb).count();
    let want = inter as f64 / union as f64;
    c.mix(c.seed);
    let mut a2 = a.clone();
    a2.extend(a.iter().rev().copied().collect::<Vec<_>>());
    c.rng.shuffle(&mut a2);
    let s = |v: &[u64]| -> Vec<String> { v.iter().map(|x| format!("k{x}")).collect() };
    for (how, got) in [
        ("a,b", get_jaccard_similarity(a.clone().into_iter(), b.clone().into_iter())),
        ("b,a", get_jaccard_similarity(b.clone().into_iter(), a.clone().into_iter())),
        ("repeated a,b", get_jaccard_similarity(a2.clone().into_iter(), b.clone().into_iter())),
        ("b,repeated a", get_jaccard_similarity(b.iter(), a2.iter())),
        ("as strings", get_jaccard_similarity(s(&a).into_iter(), s(&b).into_iter())),
    ] {
        ensure!((got - want).abs() < 1e-12, "get_jaccard_similarity ({how}) of {a:?} and {b:?} is {got}, |A∩B|={inter} |A∪B|={union}");
    }
    let w = c.rng.below(3) as u8;
    let coarse = |v: &[u64]| -> Vec<Coarse> { v.iter().map(|x| Coarse(*x, w)).collect() };
    let got = get_jaccard_similarity(coarse(&a).into_iter(), coarse(&b).into_iter());
    ensure!((got - want).abs() < 1e-12, "get_jaccard_similarity of {a:?} and {b:?} as items with colliding hashes is {got}, |A∩B|={inter} |A∪B|={union}");
    let class = |v: &[u64]| -> Vec<Class> { v.iter().map(|x| Class(*x)).collect() };
    let (ca, cb): (BTreeSet<u64>, BTreeSet<u64>) = (a.iter().map(|x| x / 4).collect(), b.iter().map(|x| x / 4).collect());
    let want4 = ca.intersection(&cb).count() as f64 / ca.union(&cb).count() as f64;
    let got = get_jaccard_similarity(class(&a).into_iter(), class(&b).into_iter());
    ensure!((got - want4).abs() < 1e-12, "get_jaccard_similarity of {a:?} and {b:?} as items equal by quarters is {got}, expected {want4}");
    c.count("similarities_checked", 7);
    if inter > 0 && inter < union {
        c.nontrivial();
    }
    Ok(())
}

/// Large inputs: token lists and sets past the 16-bit counts, sizes far apart.
fn large(c: &mut Ctx) -> R {
    if c.index % 3 == 0 {
        let n = c.rng.log_range(20_000, 200_000);
        let k = c.rng.pick(&[1usize, 2, 3, 7, n - 1, n, n + 1]).min(if n > 60_000 { n + 1 } else { 2 * n });
        let nums: Vec<u32> = (0..n as u32).map(|i: u32| i ^ 0x55).collect();
        let mut i = 0usize;
        let mut it = ShingleIterator::new(k, nums.iter().collect::<Vec<_>>());
        while let Some(s) = it.next() {
            ensure!(
                s.len() == k && i + k <= n && s.iter().zip(&nums[i..i + k]).all(|(a, b)| **a == *b),
                "shingle {i} of ShingleIterator({k}) over {n} tokens is wrong"
            );
            i += 1;
        }
        ensure!(i == (n + 1).saturating_sub(k), "ShingleIterator({k}) over {n} tokens yields {i} shingles");
        ensure!(it.next().is_none(), "ShingleIterator({k}) over {n} tokens goes on after its end");
        c.count("shingles_checked", i as u64);
    } else {
        let small = c.rng.log_range(1, 100) as u64;
        let big = c.rng.log_range(3000, 300_000) as u64;
        let other = if c.rng.chance(0.5) { small } else { c.rng.log_range(3000, 300_000) as u64 };
        let reps = c.rng.pick(&[1u64, 1, 2]);
        // [0, other) against a range that starts inside it and repeats itself
        let from = c.rng.below(other + 1);
        let inter = other.min(from + big) - from;
        let union = other.max(from + big);
        let want = inter as f64 / union as f64;
        let b: Vec<u64> = (0..big * reps).map(|i| from + i % big).rev().collect();
        let a: Vec<u64> = (0..other).collect();
        let one = get_jaccard_similarity(a.iter(), b.iter());
        let two = get_jaccard_similarity(b.iter(), a.iter());
        ensure!(
            (one - want).abs() < 1e-12 && (two - want).abs() < 1e-12,
            "get_jaccard_similarity of 0..{other} and {reps} times {from}..{} is {one} and {two}, expected {want}",
            from + big
        );
        c.count("similarities_checked", 2);
    }
    c.count("large_inputs", 1);
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

/// Both together, as the documentation uses them.
fn texts(c: &mut Ctx) -> R {
    let vocab = c.rng.urange(1, 8);
    let words = ["a", "b", "c", "d", "e", "f", "g", "h"];
    let t = |c: &mut Ctx| -> Vec<&str> { (0..c.rng.urange(1, 40)).map(|_| words[c.rng.idx(vocab)]).collect() };
    let (t1, t2) = (t(c), t(c));
    let k = c.rng.urange(1, 4);
    let set = |t: &[&str]| -> HashSet<String> { windows(k, t).iter().map(|w| w.join(" ")).collect() };
    let (s1, s2) = (set(&t1), set(&t2));
    if s1.is_empty() && s2.is_empty() {
        return Ok(());
    }
    let want = s1.intersection(&s2).count() as f64 / s1.union(&s2).count() as f64;
    let got = get_jaccard_similarity(ShingleIterator::new(k, t1.clone()), ShingleIterator::new(k, t2.clone()));
    ensure!((got - want).abs() < 1e-12, "Jaccard similarity of the {k}-shingles of {t1:?} and {t2:?} is {got}, expected {want}");
    c.count("similarities_checked", 1);
    c.mix(c.seed);
    if want > 0.0 && want < 1.0 {
        c.nontrivial();
    }
    Ok(())
}

static P: Property = Property {
    id: "C17",
    rule: "small: every token count 0..40 with every window length 1..45. shingles: up to 400 tokens of three token types, window lengths around the number of tokens and up to usize::MAX, through next (beyond the end), collect, count, last, nth, size_hint and random mixtures of next, nth, skip, step_by and take on one iterator. jaccard: random multisets of integers and strings against exact set algebra, symmetric, repeated and reordered, subsets, one side empty, items whose hashes collide, items that are equal without being the same. large: up to 200000 tokens, sets of up to 300000 items. texts: shingles of texts. Non-trivial: more than one shingle, or a similarity strictly between 0 and 1.",
    kinds: &[
        Kind { name: "small", run: small, quick: 41 * 45, thorough: 41 * 45 },
        Kind { name: "shingles", run: shingles, quick: 60_000, thorough: 1_000_000 },
        Kind { name: "jaccard", run: jaccard, quick: 100_000, thorough: 1_500_000 },
        Kind { name: "large", run: large, quick: 240, thorough: 4_000 },
        Kind { name: "texts", run: texts, quick: 60_000, thorough: 800_000 },
    ],
    floors: &[("shingles_checked", 100_000), ("similarities_checked", 40_000), ("iterators_exhausted", 7000), ("mixed_reads", 7000), ("large_inputs", 150)],
    assumptions: &["none beyond the public API"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
