//! C09: stream filters report an item right after inserting it; forgetting is bounded.
use pcverif::positions::{builders, Filter, Item};
use pcverif::subject::{Op, Spec, Ty};
use pcverif::*;
use probabilistic_collections::bloom::*;
use std::collections::HashSet;

const STREAM: [Ty; 3] = [Ty::Bs, Ty::Bssd, Ty::Rlbs];

/// Immediate membership and no-op repetition, any sizing, hash builder and item type.
fn stream(c: &mut Ctx) -> R {
    let ty = STREAM[c.index % 3];
    let hb = if c.rng.chance(0.6) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.m = match c.rng.below(5) {
        0 => c.rng.urange(1, 6),
        1 => c.rng.pick(&[31, 32, 33, 63, 64, 65, 128, 4096]),
        2 => c.rng.log_range(500, 50_000),
        _ if c.kind == "big" => c.rng.log_range(66_000, 300_000),
        _ => c.rng.log_range(1, 300),
    };
    if c.rng.chance(0.3) {
        s.fpp = c.rng.log_f64(1e-6, 0.999);
    }
    let mut f = s.build();
    let mut twin = f.dup();
    for _ in 0..20 {
        let x = c.rng.u64() >> 1;
        ensure!(!f.has(x), "{s:?}: an empty filter reports item {x}");
    }
    let (n, universe) = match c.kind {
        // many distinct items; the state is only compared at repetitions, which stay rare
        "big" => (c.rng.urange(70_000, 100_000), 1 << 34),
        _ => (c.rng.urange(10, 600), c.rng.log_range(4, 5000) as u64),
    };
    let base = c.rng.u64() >> 2;
    c.sample(|| format!("{s:?} operations={n}"));
    c.mix(base ^ n as u64);
    for step in 0..n {
        let x = base + c.rng.below(universe);
        let present = f.has(x);
        if present && c.kind == "big" && !c.rng.chance(0.001) {
            continue;
        }
        if present {
            // Nothing at all may change, including the future: the twin does not get this insertion.
            let before = f.bytes();
            let facts = f.facts();
            f.apply(&Op::Insert(x, 1));
            ensure!(
                f.bytes() == before && f.facts() == facts,
                "{s:?}: inserting item {x}, already reported present, changed the filter (step {step})"
            );
            c.count("repeated_insertions", 1);
        } else {
            f.apply(&Op::Insert(x, 1));
            twin.apply(&Op::Insert(x, 1));
            c.count("new_insertions", 1);
        }
        ensure!(f.has(x), "{s:?}: item {x} is not reported right after its insertion (step {step})");
    }
    ensure!(
        f.bytes() == twin.bytes() && f.facts() == twin.facts(),
        "{s:?}: insertions of items already reported present changed the later history"
    );
    f.apply(&Op::Clear);
    for _ in 0..20 {
        let x = base + c.rng.below(universe);
        ensure!(!f.has(x), "{s:?}: a cleared filter reports item {x}");
    }
    c.nontrivial();
    Ok(())
}

/// One insertion may only forget items that own a bit it cleared: at most one per slice (BS, RLBS) or
/// one in total (BSSD). All items of a small position grid are asked before and after.
fn forgetting(c: &mut Ctx) -> R {
    let m = c.rng.urange(2, 12);
    let fpp = c.rng.pick(&[0.9, 0.6, 0.45, 0.3, 0.2, 0.12, 0.05]);
    let kind = c.index % 3;
    let mut f = match kind {
        0 => Filter::Bs(BSBloomFilter::with_hashers(m, fpp, builders())),
        1 => Filter::Bssd(BSSDBloomFilter::with_hashers(m, fpp, builders())),
        _ => Filter::Rlbs(RLBSBloomFilter::with_hashers(m, fpp, builders())),
    };
    if !f.calibrated(&mut c.rng) {
        c.count("uncalibrated_filters", 1);
        return Ok(());
    }
    f.clear();
    let (name, k, mm) = (f.name(), f.hashers(), m as u64);
    let grid: Vec<Item> = (0..mm).flat_map(|a| (0..mm).map(move |b| (a, b))).collect();
    let pos: Vec<Vec<usize>> = grid.iter().map(|x| f.positions(x)).collect();
    let n = c.rng.urange(10, 150);
    c.sample(|| format!("{name} slice={m} slices={k} insertions={n}"));
    c.mix(c.seed);
    let mut before: Vec<bool> = grid.iter().map(|x| f.contains(x)).collect();
    ensure!(before.iter().all(|b| !b), "{name} slice={m}: an empty filter reports items");
    for step in 0..n {
        let x = (c.rng.below(mm), c.rng.below(mm));
        let set: HashSet<usize> = f.positions(&x).into_iter().collect();
        let ones_before = f.ones();
        let present = f.contains(&x);
        f.insert(&x);
        let after: Vec<bool> = grid.iter().map(|y| f.contains(y)).collect();
        let ones_after = f.ones();
        if present {
            ensure!(before == after && ones_before == ones_after, "{name} slice={m}: re-inserting {x:?} changed answers (step {step})");
            continue;
        }
        // Bits known to be set after it: those of reported items (they were not cleared).
        let alive: HashSet<usize> = (0..grid.len()).filter(|i| after[*i]).flat_map(|i| pos[i].iter().copied()).collect();
        let lost: Vec<usize> = (0..grid.len()).filter(|i| before[*i] && !after[*i]).collect();
        let budget = if kind == 1 { 1 } else { k };
        let mut chosen = Vec::new();
        ensure!(
            explain(&lost, &pos, &alive, &set, m, budget, kind == 1, &mut chosen),
            "{name} slice={m} slices={k}: inserting {x:?} forgot {} items, which no clearing of {} explains (step {step})",
            lost.len(),
            if kind == 1 { "one bit" } else { "one bit per slice" }
        );
        // New answers: only items all of whose bits are the new item's or were set already.
        let known: HashSet<usize> = (0..grid.len()).filter(|i| before[*i]).flat_map(|i| pos[i].iter().copied()).collect();
        let gained = (0..grid.len()).filter(|i| !before[*i] && after[*i]).count();
        let unseen_ones = ones_before.saturating_sub(known.len());
        for i in 0..grid.len() {
            if !before[i] && after[i] {
                let unexplained = pos[i].iter().filter(|p| !set.contains(p) && !known.contains(p)).count();
                ensure!(
                    unexplained <= unseen_ones,
                    "{name} slice={m}: {:?} is reported after inserting {x:?} with {unexplained} bits nobody set (step {step})",
                    grid[i]
                );
                ensure!(
                    pos[i].iter().any(|p| set.contains(p)),
                    "{name} slice={m}: {:?} is newly reported after inserting {x:?}, with which it shares no bit (step {step})",
                    grid[i]
                );
            }
        }
        ensure!(
            ones_after as i64 >= ones_before as i64 - budget as i64 + 1 && ones_after <= ones_before + k,
            "{name} slice={m}: one insertion moved count_ones() from {ones_before} to {ones_after}"
        );
        c.count("insertions_explained", 1);
        c.count("items_forgotten", lost.len() as u64);
        c.count("items_gained", gained as u64);
        before = after;
    }
    c.nontrivial();
    Ok(())
}

/// Is there a set of cleared bits (at most one per slice, at most `budget`) that explains all losses?
fn explain(
    lost: &[usize],
    pos: &[Vec<usize>],
    alive: &HashSet<usize>,
    set: &HashSet<usize>,
    m: usize,
    budget: usize,
    single: bool,
    chosen: &mut Vec<usize>,
) -> bool {
    let Some(first) = lost.iter().find(|i| !pos[**i].iter().any(|p| chosen.contains(p))) else {
        return true;
    };
    if chosen.len() == budget {
        return false;
    }
    for p in &pos[*first] {
        // A bit that is set afterwards, or that the new item sets again, was not lost.
        if alive.contains(p) || set.contains(p) {
            continue;
        }
        if !single && chosen.iter().any(|q| q / m == p / m) {
            continue;
        }
        chosen.push(*p);
        if explain(lost, pos, alive, set, m, budget, single, chosen) {
            return true;
        }
        chosen.pop();
    }
    false
}

static P: Property = Property {
    id: "C09",
    rule: "stream: random streams into the three stream filters; each item must be reported right after insertion, re-insertion of a reported item must leave the serialized state, the counters and (checked by a twin that never got the repetitions) the whole later history unchanged. forgetting: all items of a position grid are asked before and after every insertion; the losses must be explained by clearing at most one bit per slice (BS, RLBS) or one in total (BSSD), and gains by the bits just set. big: the same on structures and histories beyond 2^16 items, bits or slots. Non-trivial: items were inserted.",
    kinds: &[
        Kind { name: "stream", run: stream, quick: 36_000, thorough: 500_000 },
        Kind { name: "big", run: stream, quick: 60, thorough: 1000 },
        Kind { name: "forgetting", run: forgetting, quick: 15_000, thorough: 200_000 },
    ],
    floors: &[("new_insertions", 100_000), ("repeated_insertions", 10_000)],
    assumptions: &["forgetting relies on the hash sequence of the crate after checking it on fresh filters; filters that do not follow it are counted as uncalibrated and skipped"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
