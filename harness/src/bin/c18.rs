//! C18: serialized structures come back observably identical and keep working.
use pcverif::defaults::{name, Default_};
use pcverif::subject::*;
use pcverif::*;

/// Answers that do not depend on internal random choices made after the copy.
fn settled(c: &mut Ctx, s: &Spec, a: &mut Box<dyn Subject>, b: &mut Box<dyn Subject>, last: Option<u64>, probes: &[u64], what: &str) -> R {
    match s.ty {
        Ty::Cuckoo => {
            let (fa, fb) = (a.facts(), b.facts());
            ensure!(fa.len + fa.extra == fb.len + fb.extra, "{what}: {} + {} items held, the copy holds {} + {}", fa.len, fa.extra, fb.len, fb.extra);
            ensure!(fa.capacity == fb.capacity && fa.fp_bits == fb.fp_bits && fa.entries == fb.entries, "{what}: sizing differs");
            for p in probes {
                let (x, y) = (a.has(*p), b.has(*p));
                ensure!(x == y, "{what}: contains({p}) is {x} on the original and {y} on the copy");
            }
        }
        Ty::Bs | Ty::Bssd | Ty::Rlbs | Ty::ScalableCuckoo => {
            let (fa, fb) = (a.facts(), b.facts());
            ensure!(fa.hashers == fb.hashers && fa.bits == fb.bits && fa.entries == fb.entries, "{what}: sizing differs");
            if let Some(x) = last {
                ensure!(a.has(x) && b.has(x), "{what}: item {x} just inserted is reported {} by the original, {} by the copy", a.has(x), b.has(x));
            }
        }
        _ => {
            let (x, y) = (a.obs(probes), b.obs(probes));
            ensure!(x == y, "{what}: the original answers {x:?}, the copy {y:?}");
        }
    }
    c.count("observations_compared", 1);
    Ok(())
}

fn roundtrip(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let hb = if c.rng.chance(0.6) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let mut s = Spec::random(&mut c.rng, ty, hb);
    if ty == Ty::ScalableCuckoo {
        s.hb = HB::good_pair(&mut c.rng);
    }
    let mut a = s.build();
    let universe = c.rng.log_range(4, 400) as u64;
    let len = if c.rng.chance(0.1) { 0 } else { c.rng.log_range(1, 400) };
    let ops = history(&mut c.rng, ty, len, universe, true);
    let mut done = 0;
    for op in &ops {
        if a.accepts(op) {
            a.apply(op);
            done += 1;
        }
        c.tick();
    }
    let probes = probes(&mut c.rng, &ops, 60);
    c.mix(c.seed);
    c.sample(|| format!("{s:?} operations={done}"));
    let (bytes, json) = (a.bytes(), a.json());
    let want = a.obs(&probes);
    let json_copy = c.index / ALL.len() % 2 == 1;
    let mut copies = Vec::new();
    let how = ["bincode", "JSON"];
    for h in 0..2 {
        let r = c.catch(|| if h == 0 { a.from_bytes(&bytes) } else { a.from_json(&json) });
        let mut b = match r {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => return Err(format!("{s:?} after {done} operations: the {} form is not accepted back: {e}", how[h])),
            Err(e) => return Err(format!("{s:?} after {done} operations: deserializing {} panicked: {e}", how[h])),
        };
        let got = b.obs(&probes);
        ensure!(got == want, "{s:?} after {done} operations: the {} copy answers {got:?}, the original {want:?}", how[h]);
        ensure!(b.bytes() == bytes, "{s:?} after {done} operations: serializing the {} copy gives other bytes", how[h]);
        ensure!(b.json() == json, "{s:?} after {done} operations: serializing the {} copy gives other JSON", how[h]);
        c.count("round_trips", 1);
        copies.push(b);
    }
    ensure!(a.bytes() == bytes && a.obs(&probes) == want, "{s:?}: serializing changed the structure");
    let mut b = copies.swap_remove(usize::from(json_copy));
    // the copy may be used from now on in place of the original
    let more_len = c.scale(80, 300);
    let more = history(&mut c.rng, ty, more_len, universe, true);
    for (i, op) in more.iter().enumerate() {
        let (x, y) = (a.accepts(op), b.accepts(op));
        ensure!(x == y, "{s:?}: only one of original and copy is full");
        if !x {
            continue;
        }
        a.apply(op);
        b.apply(op);
        let last = if let Op::Insert(x, _) = op { Some(*x) } else { None };
        if i % 8 == 0 || i < 10 {
            let what = format!("{s:?}, {} copy after {done} operations, {} later", how[usize::from(json_copy)], i + 1);
            settled(c, &s, &mut a, &mut b, last, &probes, &what)?;
        } else if let Some(x) = last {
            if !matches!(ty, Ty::CmsMin | Ty::CmsMean | Ty::CmsMedian | Ty::Hll | Ty::MinHash | Ty::SimHash) {
                ensure!(b.has(x), "{s:?}: item {x} just inserted into the copy is not reported");
            }
        }
    }
    if done > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Stream filters and scalable cuckoo filters go on as well after a round trip as without.
fn random_choices(c: &mut Ctx) -> R {
    let ty = [Ty::Bs, Ty::Bssd, Ty::Rlbs, Ty::ScalableCuckoo][c.index % 4];
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, ty, hb);
    s.key = 0;
    s.m = if ty == Ty::ScalableCuckoo { 4 } else { c.rng.urange(300, 1500) };
    s.n = c.rng.urange(20, 60);
    s.fpp = c.rng.pick(&[0.1, 0.03, 0.01]);
    s.growth = 2.0;
    let mut a = s.build();
    let base = c.rng.u64() >> 2;
    let first = c.rng.urange(0, 2000) as u64;
    for i in 0..first {
        a.apply(&Op::Insert(base + i, 1));
    }
    let mut b = if c.rng.chance(0.5) { a.from_bytes(&a.bytes()) } else { a.from_json(&a.json()) }?;
    let mut third = b.from_bytes(&b.bytes())?;
    let n = c.rng.urange(500, 4000) as u64;
    for i in first..first + n {
        for x in [&mut a, &mut b, &mut third] {
            x.apply(&Op::Insert(base + i, 1));
            if i % 16 == 0 {
                ensure!(x.has(base + i), "{s:?}: item just inserted is not reported");
            }
        }
        c.tick();
    }
    let (fa, fb) = (a.facts(), b.facts());
    if ty == Ty::ScalableCuckoo {
        ensure!(fa.levels.abs_diff(fb.levels) <= 1, "{s:?}: {} levels, the deserialized copy {}", fa.levels, fb.levels);
        for i in 0..first + n {
            ensure!(b.has(base + i), "{s:?}: item {i} of {} disappeared from the deserialized copy", first + n);
        }
    } else {
        // deletions of the copy are as random as those of the original
        let total = fa.ones + fa.zeros;
        let tol = 8.0 * (total as f64).sqrt() * 0.7 + 4.0;
        ensure!(
            (fa.ones as f64 - fb.ones as f64).abs() <= tol,
            "{s:?}: after {n} more items {} of {total} bits are set, in the deserialized copy {}",
            fa.ones,
            fb.ones
        );
    }
    c.count("random_continuations", 1);
    c.mix(base);
    c.nontrivial();
    Ok(())
}

fn default_one<D: Default_>(c: &mut Ctx) -> R {
    let ctor = c.rng.below(u64::from(D::CTORS)) as u8;
    let mut a = D::make(ctor);
    let tag = c.rng.u64() >> 20;
    let n = c.rng.urange(0, 100);
    let items: Vec<String> = (0..n).map(|i| name(&mut c.rng, tag + i as u64)).collect();
    items.iter().for_each(|x| a.insert(x));
    let mut probes = items.clone();
    probes.extend((0..50).map(|i| format!("stranger {i} {tag}")));
    let (bytes, json) = (a.bytes(), a.json());
    let mut b = if c.rng.chance(0.5) { D::from_bytes(&bytes) } else { D::from_json(&json) };
    ensure!(b.bytes() == bytes && b.json() == json, "{}: serializing the copy gives something else", D::NAME);
    ensure!(a.builders() == b.builders(), "{}: the copy has other hash builders", D::NAME);
    for p in &probes {
        ensure!(a.answer(p) == b.answer(p), "{} (constructor {ctor}): original and copy disagree on {p:?}", D::NAME);
    }
    if !D::RANDOM {
        for i in 0..20u64 {
            let x = name(&mut c.rng, tag + 1000 + i);
            a.insert(&x);
            b.insert(&x);
            probes.push(x);
        }
        for p in &probes {
            ensure!(a.answer(p) == b.answer(p), "{} (constructor {ctor}): original and copy disagree on {p:?} after more items", D::NAME);
        }
    }
    c.count("default_round_trips", 1);
    c.mix(tag);
    c.nontrivial();
    Ok(())
}

fn defaults(c: &mut Ctx) -> R {
    with_default!(c.index, default_one(c))
}

/// The next few representable numbers above or below.
fn beside(c: &mut Ctx, x: f64) -> f64 {
    match c.rng.below(4) {
        0 => f64::from_bits(x.to_bits() + c.rng.range(1, 8)),
        1 => f64::from_bits(x.to_bits() - c.rng.range(1, 8)),
        2 => x * (1.0 + (c.rng.f64() - 0.5) * 1e-9),
        _ => x,
    }
}

/// Parameters right beside the points where sizing rounds up: a copy that keeps them less exactly
/// continues with other sizes.
fn precise(c: &mut Ctx) -> R {
    let cuckoo = c.index % 2 == 1;
    let hb = HB::good_pair(&mut c.rng);
    let mut s = Spec::random(&mut c.rng, if cuckoo { Ty::ScalableCuckoo } else { Ty::ScalableBloom }, hb);
    s.key = 0;
    s.n = c.rng.urange(4, 40);
    s.m = c.rng.pick(&[2, 4, 8]);
    let power = f64::from(1u32 << c.rng.range(0, if cuckoo { 7 } else { 8 }));
    let ratio = if c.rng.chance(0.5) { power } else { 1.0 + c.rng.below(9) as f64 / c.rng.pick(&[2.0, 3.0, 5.0, 10.0, 7.0]) };
    s.growth = beside(c, ratio).max(1.0);
    // the error of a later level crosses a power of two
    let log = |g: &mut Rng| -> f64 { 0.5f64.powi(g.range(1, 6) as i32) };
    s.fpp = if c.rng.chance(0.5) { log(&mut c.rng) } else { c.rng.log_f64(0.01, 0.5) };
    let tight = if c.rng.chance(0.5) { log(&mut c.rng) } else { (log(&mut c.rng) / s.fpp).min(0.9) };
    s.tight = beside(c, tight);
    s.fpp = beside(c, s.fpp);
    let mut a = s.build();
    let base = c.rng.u64() >> 2;
    let mut i = 0;
    for _ in 0..c.rng.pick(&[0u64, 0, 5, 30, 200]) {
        i += 1;
        a.apply(&Op::Insert(base + i, 1));
    }
    let json = c.rng.chance(0.5);
    let mut b = if json { a.from_json(&a.json()) } else { a.from_bytes(&a.bytes()) }?;
    c.sample(|| format!("{s:?} inserted={i}"));
    c.mix(c.seed);
    let goal = a.facts().levels + 2;
    let stop = i + c.scale(3000, 20_000) as u64;
    while i < stop && (a.facts().levels < goal || b.facts().levels < goal) {
        i += 1;
        a.apply(&Op::Insert(base + i, 1));
        b.apply(&Op::Insert(base + i, 1));
        let (fa, fb) = (a.facts(), b.facts());
        if cuckoo {
            // when a level counts as full depends on random choices, how large the next one is does not
            if fa.levels == fb.levels {
                ensure!(fa.capacity == fb.capacity, "{s:?}: {} levels of together {} slots, those of the copy {}", fa.levels, fa.capacity, fb.capacity);
            }
        } else {
            ensure!(fa == fb, "{s:?}, {i} items: {fa:?}, the copy {fb:?}");
        }
        c.tick();
    }
    if a.facts().levels >= goal {
        c.count("grown_copies", 1);
        c.nontrivial();
    }
    if !cuckoo {
        ensure!(a.bytes() == b.bytes(), "{s:?}, {i} items: original and copy serialize differently");
    }
    Ok(())
}

/// More than 2^16 items, bits, slots or counters.
fn big(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let (s, ops) = large(&mut c.rng, ty);
    at_size(c, ty, s, ops)
}

/// A handful of items in thousands of slots.
fn nearly_empty(c: &mut Ctx) -> R {
    let ty = ALL[c.index % ALL.len()];
    let (s, ops) = sparse(&mut c.rng, ty);
    at_size(c, ty, s, ops)
}

fn at_size(c: &mut Ctx, ty: Ty, s: Spec, ops: Vec<Op>) -> R {
    let mut a = s.build();
    run_all(c, &mut a, &ops);
    let probes = probes(&mut c.rng, &ops, 300);
    let (bytes, want) = (a.bytes(), a.obs(&probes));
    let json = c.index / ALL.len() % 2 == 1;
    let mut b = if json { a.from_json(&a.json())? } else { a.from_bytes(&bytes)? };
    ensure!(b.obs(&probes) == want, "{s:?} after {} operations: the copy answers otherwise", ops.len());
    ensure!(b.bytes() == bytes, "{s:?} after {} operations: serializing the copy gives other bytes", ops.len());
    c.count("round_trips", 1);
    c.mix(c.seed);
    for i in 0..40 {
        let more = history(&mut c.rng, ty, 20, 1 << 20, false);
        run_all(c, &mut a, &more);
        run_all(c, &mut b, &more);
        let last = more.iter().rev().find_map(|op| if let Op::Insert(x, _) = op { Some(*x) } else { None });
        if i % 10 == 0 && ty != Ty::Cuckoo {
            settled(c, &s, &mut a, &mut b, if matches!(more.last(), Some(Op::Insert(..))) { last } else { None }, &probes, &format!("{s:?} and its copy"))?;
        }
    }
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C18",
    rule: "roundtrip: all 15 structure types, random constructor, sizing, key type, builder (hostile included), history with removals and clears up to 400 operations, through bincode and JSON: every observable value, re-serialized bytes and JSON, then both continue the same history and stay in agreement (what random choices may change excepted). precise: scalable filters with ratios and error probabilities beside the points where sizing rounds, copied and grown by two levels. random_continuations: long streams on randomized structures before and after. defaults: all default-builder constructors with String keys. big: the same on structures and histories beyond 2^16 items, bits or slots. sparse: the same on structures of thousands of slots that hold a few items. Non-trivial: at least one operation before the round trip.",
    kinds: &[
        Kind { name: "big", run: big, quick: 15 * 12, thorough: 15 * 200 },
        Kind { name: "sparse", run: nearly_empty, quick: 15 * 60, thorough: 15 * 1000 },
        Kind { name: "roundtrip", run: roundtrip, quick: 15 * 6000, thorough: 15 * 60_000 },
        Kind { name: "precise", run: precise, quick: 12_000, thorough: 60_000 },
        Kind { name: "random_continuations", run: random_choices, quick: 2_000, thorough: 20_000 },
        Kind { name: "defaults", run: defaults, quick: 15 * 300, thorough: 15 * 3000 },
    ],
    floors: &[("round_trips", 15_000), ("observations_compared", 80_000), ("grown_copies", 200), ("random_continuations", 150), ("default_round_trips", 800)],
    assumptions: &["bincode 1.3 and serde_json (float_roundtrip) are faithful"],
    exhaustive: false,
};

fn main() {
    run(&P)
}
