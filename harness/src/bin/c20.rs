//! C20: clones are equal and fully independent.
use pcverif::subject::*;
use pcverif::*;

fn grow(c: &mut Ctx, x: &mut Box<dyn Subject>, ops: &[Op]) -> usize {
    let mut done = 0;
    for op in ops {
        if x.accepts(op) {
            x.apply(op);
            done += 1;
        }
        c.tick();
    }
    done
}

fn same(c: &mut Ctx, a: &mut Box<dyn Subject>, b: &mut Box<dyn Subject>, probes: &[u64], what: &str) -> R {
    let (x, y) = (a.obs(probes), b.obs(probes));
    ensure!(x == y, "{what}: the original answers {x:?}, the clone {y:?}");
    ensure!(a.bytes() == b.bytes(), "{what}: original and clone serialize differently");
    c.count("observations_compared", 1);
    Ok(())
}

fn clones(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let hb = if c.rng.chance(0.6) || ty == Ty::ScalableCuckoo { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let s = Spec::random(&mut c.rng, ty, hb);
    let universe = c.rng.log_range(4, 400) as u64;
    let len = if c.rng.chance(0.1) { 0 } else { c.rng.log_range(1, 500) };
    let ops = history(&mut c.rng, ty, len, universe, true);
    let mut a = s.build();
    let done = grow(c, &mut a, &ops);
    let probes = probes(&mut c.rng, &ops, 50);
    c.mix(c.seed);
    c.sample(|| format!("{s:?} operations={done}"));
    let from = c.rng.chance(0.5);
    let mut b = if from {
        // clone_from onto a structure with other parameters and another past
        let mut hb2 = if ty == Ty::ScalableCuckoo { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
        if c.rng.chance(0.3) {
            hb2 = hb;
        }
        let mut s2 = Spec::random(&mut c.rng, ty, hb2);
        s2.key = s.key;
        if c.rng.chance(0.3) {
            s2 = s.clone();
        }
        let mut b = s2.build();
        let len2 = c.rng.log_range(1, 500);
        let ops2 = history(&mut c.rng, ty, len2, universe, true);
        grow(c, &mut b, &ops2);
        b.overwrite_from(&*a);
        b
    } else {
        a.dup()
    };
    let how = if from { "clone_from" } else { "clone" };
    same(c, &mut a, &mut b, &probes, &format!("{s:?} after {done} operations, {how}"))?;
    let frozen = a.dup();
    let frozen_bytes = frozen.bytes();
    // operations on one never show in the other
    let (alone, other) = (history(&mut c.rng, ty, 60, universe, true), history(&mut c.rng, ty, 60, universe, true));
    let (mut a2, mut b2) = (a.dup(), b.dup());
    let (a_bytes, mut a_obs) = (a2.bytes(), a2.obs(&probes));
    grow(c, &mut b2, &alone);
    ensure!(a2.bytes() == a_bytes && a2.obs(&probes) == a_obs, "{s:?}: operations on a clone changed the original");
    let (b_bytes, b_obs) = (b2.bytes(), b2.obs(&probes));
    grow(c, &mut a2, &other);
    ensure!(b2.bytes() == b_bytes && b2.obs(&probes) == b_obs, "{s:?}: operations on the original changed a clone");
    drop(a2);
    ensure!(b2.bytes() == b_bytes && b2.obs(&probes) == b_obs, "{s:?}: dropping the original changed a clone");
    c.count("independence_checks", 3);
    // the same future, random choices included
    let more_len = c.scale(120, 500);
    let more = history(&mut c.rng, ty, more_len, universe, true);
    let levels = a.facts().levels;
    let mut grew = false;
    for (i, op) in more.iter().enumerate() {
        // levels that a scalable cuckoo filter makes from now on (growth, clear) are seeded afresh
        if ty == Ty::ScalableCuckoo && (a.facts().levels != levels || *op == Op::Clear) {
            grew = true;
            break;
        }
        if !a.accepts(op) {
            ensure!(!b.accepts(op), "{s:?}: only one of original and clone is full");
            continue;
        }
        a.apply(op);
        b.apply(op);
        if i % 10 == 9 || i < 5 {
            let what = format!("{s:?} after {done} operations, {how}, {} later", i + 1);
            same(c, &mut a, &mut b, &probes, &what)?;
        }
    }
    a_obs = a.obs(&probes);
    ensure!(grew || b.obs(&probes) == a_obs, "{s:?}: original and {how} disagree at the end");
    ensure!(frozen.bytes() == frozen_bytes, "{s:?}: an untouched clone changed");
    if done > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Long randomized futures, where every random choice of the original has to be made by the clone.
fn futures(c: &mut Ctx) -> R {
    let ty = [Ty::Bs, Ty::Bssd, Ty::Rlbs, Ty::Cuckoo, Ty::ScalableCuckoo][c.index % 5];
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.key = 0;
    if ty == Ty::ScalableCuckoo {
        s.growth = 2.0;
    }
    let mut a = s.build();
    let base = c.rng.u64() >> 2;
    let n = c.rng.urange(0, 300) as u64;
    for i in 0..n {
        a.apply(&Op::Insert(base + i, 1));
    }
    let mut b = a.dup();
    let mut third = s.build();
    third.apply(&Op::Insert(1, 1));
    third.overwrite_from(&*b);
    let levels = a.facts().levels;
    // with a full cuckoo filter every insertion tries its relocations
    for i in n..n + c.scale(250, 1000) as u64 {
        for x in [&mut a, &mut b, &mut third] {
            x.apply(&Op::Insert(base + i, 1));
        }
        c.tick();
        if ty == Ty::ScalableCuckoo && a.facts().levels != levels {
            // levels added from now on are seeded afresh
            for x in [&mut a, &mut b, &mut third] {
                for j in 0..=i {
                    ensure!(x.has(base + j), "{s:?}: item {j} disappeared after cloning and growing");
                }
            }
            c.mix(base);
            return Ok(());
        }
        if i % 25 == 0 || ty == Ty::ScalableCuckoo {
            ensure!(a.bytes() == b.bytes(), "{s:?}: a clone made after {n} items differs after {} more", i - n + 1);
            ensure!(a.bytes() == third.bytes(), "{s:?}: a clone_from made after {n} items differs after {} more", i - n + 1);
            c.count("observations_compared", 2);
        }
    }
    ensure!(a.bytes() == b.bytes() && a.bytes() == third.bytes(), "{s:?}: a clone made after {n} items differs at the end");
    c.mix(base);
    c.nontrivial();
    Ok(())
}

/// More than 2^16 items, bits, slots or counters.
fn big(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let (s, ops) = large(&mut c.rng, ty);
    at_size(c, ty, s, ops)
}

/// A handful of items in thousands of slots.
fn nearly_empty(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let (s, ops) = sparse(&mut c.rng, ty);
    at_size(c, ty, s, ops)
}

fn at_size(c: &mut Ctx, ty: Ty, s: Spec, ops: Vec<Op>) -> R {
    let mut a = s.build();
    run_all(c, &mut a, &ops);
    let probes = probes(&mut c.rng, &ops, 300);
    let mut b = if c.index / ALL.len() % 2 == 1 {
        let mut b = s.build();
        run_all(c, &mut b, &ops[..c.rng.clone().idx(ops.len() / 8 + 1)]);
        b.overwrite_from(&*a);
        b
    } else {
        a.dup()
    };
    same(c, &mut a, &mut b, &probes, &format!("{s:?} after {} operations", ops.len()))?;
    let (bytes, levels) = (a.bytes(), a.facts().levels);
    let frozen = a.dup();
    for _ in 0..10 {
        let more = history(&mut c.rng, ty, 200, 1 << 20, false);
        run_all(c, &mut a, &more);
        run_all(c, &mut b, &more);
        if ty == Ty::ScalableCuckoo && a.facts().levels != levels {
            break;
        }
        same(c, &mut a, &mut b, &probes, &format!("{s:?} after {} operations and more", ops.len()))?;
    }
    ensure!(frozen.bytes() == bytes, "{s:?}: operations on a structure show in its clone");
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C20",
    rule: "clones: all 15 types, random constructor, sizing, key type, builder and history; clone() or clone_from() onto a structure with other parameters and past; full observation and serialized state equal; operations on either (and dropping the original) leave the other's state and answers as they were; then the same further history on both keeps them equal, random choices included. futures: randomized structures over hundreds of random choices. big: the same on structures and histories beyond 2^16 items, bits or slots. sparse: the same on structures of thousands of slots that hold a few items. Non-trivial: at least one operation before cloning.",
    kinds: &[
        Kind { name: "big", run: big, quick: 15 * 10, thorough: 15 * 200 },
        Kind { name: "sparse", run: nearly_empty, quick: 15 * 60, thorough: 15 * 1000 },
        Kind { name: "clones", run: clones, quick: 15 * 4000, thorough: 15 * 45_000 },
        Kind { name: "futures", run: futures, quick: 3_200, thorough: 50_000 },
    ],
    floors: &[("observations_compared", 80_000), ("independence_checks", 15_000)],
    assumptions: &["two structures with equal serialized state and equal observations are equal"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
