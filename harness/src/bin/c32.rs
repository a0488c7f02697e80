//! C32: the cost of an operation does not depend on how much was stored or seen.
//!
//! The instructions executed by each operation are counted by valgrind (callgrind), which makes cost a
//! deterministic observation instead of a timing.
use pcverif::subject::{Op, Spec, Ty, ALL};
use pcverif::*;
use probabilistic_collections::similarity::{get_jaccard_similarity, MinHash, ShingleIterator, SimHash};
use std::hint::black_box;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::Command;

/// callgrind writes the instruction count up to here whenever this is entered.
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_phase_mark(phase: u32) -> u32 {
    black_box(phase)
}


/// Limits on the instructions of a phase in the large run, given those of the small run.
#[derive(Clone, Copy, PartialEq)]
enum Bound {
    /// As in the small run.
    Constant,
    /// Proportional to the size, constant in the stream.
    Size,
    /// Proportional to the size or to what is held.
    Linear,
}

const PHASES: [(&str, Bound); 11] = [
    ("setup", Bound::Linear),
    ("insertion of new items", Bound::Constant),
    ("insertion of items already there", Bound::Constant),
    ("queries of items held", Bound::Constant),
    ("queries of unseen items", Bound::Constant),
    ("removal of unseen items", Bound::Constant),
    ("removal of items held", Bound::Constant),
    ("reading sizes and estimates", Bound::Size),
    ("cloning", Bound::Linear),
    ("merging or comparing", Bound::Linear),
    ("clear", Bound::Linear),
];
const OPS: u64 = 200;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Axis {
    /// The structure is larger, the items are the same.
    Size,
    /// The structure is the same, the stream is longer.
    Stream,
    /// Structure and contents grow together.
    Held,
    /// Structure and contents are the same, after many items came and were removed.
    Churn,
    /// Structure and contents are the same, after being filled and cleared many times.
    Refill,
}
const AXES: [Axis; 5] = [Axis::Size, Axis::Stream, Axis::Held, Axis::Churn, Axis::Refill];

/// Size of the structure and number of items in a small and in a large run, and the ratio.
fn steps(ty: Ty, axis: Axis, big: usize) -> Option<([u64; 2], [u64; 2], f64)> {
    Some(match (ty, axis) {
        (Ty::MinHash | Ty::SimHash, _) => return None,
        (_, Axis::Churn) if !ty.removes() => return None,
        (Ty::Quotient, Axis::Churn | Axis::Refill) => ([1 << 12, 2400], [1 << 12, 2400], 1.0),
        (Ty::Cuckoo, Axis::Churn | Axis::Refill) => ([3000, 1800], [3000, 1800], 1.0),
        (_, Axis::Churn | Axis::Refill) => ([1000, 1300], [1000, 1300], 1.0),
        (Ty::Quotient, Axis::Size) => ([1 << 12, 600], [1 << 17, 600], 32.0),
        (Ty::Quotient, Axis::Held) => ([1 << 12, 2400], [1 << 15, 2400 * 8], 8.0),
        (Ty::Quotient, Axis::Stream) => return None,
        (Ty::Cuckoo, Axis::Size) => ([3000, 600], [100_000, 600], 33.4),
        (Ty::Cuckoo, Axis::Held) => ([3000, 1800], [24_000, 14_400], 8.0),
        (Ty::Cuckoo, Axis::Stream) => return None,
        (Ty::ScalableBloom | Ty::ScalableCuckoo, Axis::Size) => ([2000, 600], [100_000, 600], 50.0),
        (Ty::ScalableBloom | Ty::ScalableCuckoo, Axis::Held) => {
            ([1000, 1300], [20_000, 26_000], 20.0)
        }
        (Ty::ScalableBloom | Ty::ScalableCuckoo, Axis::Stream) => return None,
        (Ty::Hll, Axis::Size) => ([1 << 8, 600], [1 << 14, 600], 64.0),
        (Ty::Bs | Ty::Bssd | Ty::Rlbs, Axis::Held) => return None,
        (_, Axis::Size) => ([1000, 600], [200_000, 600], 200.0),
        (_, Axis::Stream) => ([1000, 1000], [1000, 1000 * big as u64], big as f64),
        (Ty::Hll, Axis::Held) => return None,
        (_, Axis::Held) => ([1000, 1000], [1000 * big as u64, 1000 * big as u64], big as f64),
    })
}

/// The measured process.
fn measured(ty: Ty, size: usize, held: u64, variant: usize, axis: Axis, rounds: u64, seed: u64) {
    getrandom::verif_seed(seed);
    let s = spec(ty, size, variant, seed);
    let mut f = s.build();
    for round in 1..=rounds {
        for i in 0..held {
            f.apply(&Op::Insert((round << 32) + i, 1));
            if axis == Axis::Churn {
                f.apply(&Op::Remove((round << 32) + i, 1));
            }
        }
        if axis == Axis::Refill {
            f.apply(&Op::Clear);
        }
    }
    for i in 0..held {
        f.apply(&Op::Insert(i, 1));
    }
    verif_phase_mark(0);
    // items spread over everything inserted
    let old = |i: u64| i * (held / OPS).max(1) % held;
    for i in 0..OPS {
        f.apply(&Op::Insert(held + i, 1));
    }
    verif_phase_mark(1);
    for i in 0..OPS {
        f.apply(&Op::Insert(old(i), 1));
    }
    verif_phase_mark(2);
    let count = matches!(ty, Ty::CmsMin | Ty::CmsMean | Ty::CmsMedian);
    for i in 0..OPS {
        if count {
            black_box(f.read(&[old(i)]));
        } else {
            black_box(f.has(old(i)));
        }
    }
    verif_phase_mark(3);
    for i in 0..OPS {
        if count {
            black_box(f.read(&[(1 << 40) + i]));
        } else {
            black_box(f.has((1 << 40) + i));
        }
    }
    verif_phase_mark(4);
    if ty.removes() {
        for i in 0..OPS {
            f.apply(&Op::Remove((1 << 41) + i, 1));
        }
    }
    verif_phase_mark(5);
    if ty.removes() {
        for i in 0..OPS {
            f.apply(&Op::Remove(old(i), 1));
        }
    }
    verif_phase_mark(6);
    for _ in 0..10 {
        black_box(f.read(&[]));
    }
    verif_phase_mark(7);
    let mut g = f.dup();
    verif_phase_mark(8);
    g.overwrite_from(&*f);
    verif_phase_mark(9);
    f.apply(&Op::Clear);
    verif_phase_mark(10);
    black_box(g.read(&[]));
}

fn spec(ty: Ty, size: usize, variant: usize, seed: u64) -> Spec {
    let hb = [HB::new(hashers::SIP, seed, 22), HB::new(hashers::SIP, seed, 44)];
    let mut s = Spec { ty, ctor: 0, hb, n: size, m: 0, fpp: 0.01, growth: 2.0, tight: 0.5, key: [0, 1, 0, 3][variant % 4] };
    match ty {
        Ty::Bloom => {
            s.ctor = 2;
            s.fpp = [0.01, 0.1, 0.001, 0.3][variant % 4];
        }
        Ty::Partitioned => {
            s.ctor = 2;
            s.fpp = [0.01, 0.1, 0.001, 0.3][variant % 4];
        }
        Ty::ScalableBloom => s.n = size,
        Ty::Bs | Ty::Bssd | Ty::Rlbs => {
            s.m = size;
            s.fpp = [0.05, 0.3, 0.01, 0.1][variant % 4];
        }
        Ty::Cuckoo => {
            s.ctor = 3;
            s.m = [4, 8, 4, 6][variant % 4];
        }
        Ty::ScalableCuckoo => s.m = 4,
        Ty::Quotient => {
            s.ctor = 1;
            s.n = size.next_power_of_two().trailing_zeros() as usize;
            s.m = [20, 8, 12, 30][variant % 4];
        }
        Ty::CmsMin | Ty::CmsMean | Ty::CmsMedian => {
            s.n = [4, 2, 7, 1][variant % 4];
            s.m = size;
        }
        Ty::Hll => s.fpp = 1.04 / (size.next_power_of_two() as f64).sqrt() * 1.001,
        Ty::MinHash => s.n = 40,
        Ty::SimHash => {}
    }
    s
}

/// Similarity: one phase per function, cost per item.
const SIM: [&str; 6] = ["setup", "get_min_hashes", "get_sim_hash", "get_jaccard_similarity", "ShingleIterator", "report_similarities"];
fn similarity(size: usize, seed: u64) {
    let hb = [HB::new(hashers::SIP, seed, 22), HB::new(hashers::SIP, seed, 44)];
    let items: Vec<u64> = (0..size as u64).collect();
    let others: Vec<u64> = (size as u64 / 2..size as u64 * 3 / 2).collect();
    let m = MinHash::<std::vec::IntoIter<u64>, u64, HB>::with_hashers(20, hb);
    let s = SimHash::<std::vec::IntoIter<u64>, u64, HB>::with_hasher(hb[0]);
    let words: Vec<String> = items.iter().map(|x| format!("{x}")).collect();
    let docs: Vec<std::vec::IntoIter<u64>> = items.iter().map(|x| vec![*x, x + 1].into_iter()).collect();
    verif_phase_mark(0);
    black_box(m.get_min_hashes(items.clone().into_iter()));
    verif_phase_mark(1);
    black_box(s.get_sim_hash(items.clone().into_iter()));
    verif_phase_mark(2);
    black_box(get_jaccard_similarity(items.clone().into_iter(), others.into_iter()));
    verif_phase_mark(3);
    let tokens: Vec<&str> = words.iter().map(String::as_str).collect();
    black_box(ShingleIterator::new(3, tokens).count());
    verif_phase_mark(4);
    black_box(s.report_similarities(3, docs));
    verif_phase_mark(5);
}


enum Measure {
    Phases(Vec<u64>),
    /// The process used up its processor time.
    Endless,
}

const CPU_SECONDS: u64 = 120;

/// Instructions per phase of one measured process.
fn count(args: &[String], phases: usize) -> Measure {
    let dir = std::env::temp_dir().join(format!("verif-c32-{}-{}", std::process::id(), args.join("-")));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let out = dir.join("cg");
    let exe = std::env::current_exe().expect("own path");
    let mut cmd = Command::new("valgrind");
    cmd.args(["--tool=callgrind", "--quiet", "--dump-before=verif_phase_mark"])
        .arg(format!("--callgrind-out-file={}", out.display()))
        .arg(exe)
        .arg("measured")
        .args(args);
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: CPU_SECONDS, rlim_max: CPU_SECONDS + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let r = cmd.output();
    let mut counts = Vec::new();
    for i in 1..=phases {
        let text = std::fs::read_to_string(dir.join(format!("cg.{i}"))).unwrap_or_default();
        if let Some(n) = text.lines().rev().find_map(|l| l.strip_prefix("totals: ")) {
            counts.push(n.trim().parse::<u64>().expect("totals"));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let r = r.expect("valgrind starts");
    if r.status.signal() == Some(libc::SIGXCPU) {
        return Measure::Endless;
    }
    assert!(
        r.status.success() && counts.len() == phases,
        "valgrind {args:?}: {} with {} phases: {}",
        r.status,
        counts.len(),
        String::from_utf8_lossy(&r.stderr)
    );
    Measure::Phases(counts)
}

/// Every structure: the same operations on a small and on a large instance.
fn structures(c: &mut Ctx) -> R {
    let i = c.index % 65;
    let (ty, axis) = (ALL[i % 13], AXES[i / 13]);
    let variant = c.index / 65;
    let rounds = if i / 13 >= 3 { c.scale(20, 100) } else { 0 };
    let Some((small, large, ratio)) = steps(ty, axis, c.scale(20, 100)) else {
        return Ok(());
    };
    let seed = c.rng.u64() >> 8;
    let mut m = Vec::new();
    for (x, rounds) in [(small, 0), (large, rounds)] {
        let args = [
            (i % 13).to_string(),
            x[0].to_string(),
            x[1].to_string(),
            variant.to_string(),
            (i / 13).to_string(),
            rounds.to_string(),
            seed.to_string(),
        ];
        match count(&args, PHASES.len()) {
            Measure::Phases(p) => m.push(p),
            Measure::Endless => {
                return Err(format!(
                    "{ty:?} with size {} did not get through {} items and {} further operations in {CPU_SECONDS} s",
                    x[0],
                    x[1],
                    OPS * 6
                ))
            }
        }
        c.tick();
    }
    c.sample(|| format!("{ty:?} {axis:?} small={:?} large={:?}", m[0], m[1]));
    for (p, (name, bound)) in PHASES.iter().enumerate().skip(1) {
        let (a, b) = (m[0][p] as f64, m[1][p] as f64);
        let per = match name {
            n if n.starts_with("reading") => 10.0,
            _ if p >= 8 => 1.0,
            _ => OPS as f64,
        };
        let linear = *bound == Bound::Linear && axis != Axis::Stream
            || *bound == Bound::Size && axis != Axis::Stream;
        let allowed = if linear { a * ratio * 3.0 + 40.0 * large[0].max(large[1]) as f64 + 20_000.0 } else { a * SLACK + 200.0 * per };
        if std::env::var_os("C32_TABLE").is_some() {
            println!("{ty:?} {axis:?} {variant} {name}: {:.0} {:.0} {:.2} {:.2}", a / per, b / per, b / a, b / allowed);
        }
        ensure!(
            b <= allowed,
            "{ty:?} ({axis:?}, variant {variant}): {name} takes {:.0} instructions with size {} and {} items, but {:.0} with size {} and {} items after {rounds} rounds of {axis:?}",
            a / per,
            small[0],
            small[1],
            b / per,
            large[0],
            large[1]
        );
        c.count("operations_compared", per as u64);
        c.max("max_share_of_allowance_ppm", (b / allowed * 1e6) as u64);
    }
    c.count("instructions_counted", m.iter().flatten().sum());
    c.count("phases_compared", PHASES.len() as u64 - 1);
    c.mix(i as u64 + 100 * variant as u64);
    c.nontrivial();
    Ok(())
}
const SLACK: f64 = 1.6;

/// Similarity: instructions per item, in a short and in a long input.
fn similarities(c: &mut Ctx) -> R {
    let sizes = [[150u64, 6000], [400, 10_000], [60, 3000], [1000, 20_000]][c.index % 4];
    let seed = c.rng.u64() >> 8;
    let mut m = Vec::new();
    for n in sizes {
        match count(&["99".into(), n.to_string(), seed.to_string()], SIM.len()) {
            Measure::Phases(p) => m.push(p),
            Measure::Endless => return Err(format!("comparing sets of {n} items was not done in {CPU_SECONDS} s")),
        }
        c.tick();
    }
    c.sample(|| format!("sizes={sizes:?} {m:?}"));
    for p in 1..SIM.len() {
        let (a, b) = (m[0][p] as f64 / sizes[0] as f64, m[1][p] as f64 / sizes[1] as f64);
        if std::env::var_os("C32_TABLE").is_some() {
            println!("{}: {a:.0} {b:.0}", SIM[p]);
        }
        ensure!(
            b <= a * SLACK + 200.0,
            "{}: {a:.0} instructions per item for {} items, {b:.0} for {} items",
            SIM[p],
            sizes[0],
            sizes[1]
        );
        c.count("operations_compared", sizes[0] + sizes[1]);
    }
    c.count("instructions_counted", m.iter().flatten().sum());
    c.count("phases_compared", SIM.len() as u64 - 1);
    c.mix(1000 + c.index as u64);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C32",
    rule: "callgrind counts the instructions of 200 operations of every sort (insertions of new and of held items, queries and removals of held and unseen items; reading sizes, cloning, overwriting, clearing once each) on a small and on a large instance of all 13 structures: the structure larger, the stream longer, or both, or the same contents after 20 rounds of churn or of filling and clearing; for every sort the large instance may take 1.6 times the small one's instructions plus 200 per operation, whole-structure operations may grow with the size. Similarity functions: the same per item of input. Non-trivial: both runs measured.",
    kinds: &[
        Kind { name: "structures", run: structures, quick: 65 * 2, thorough: 65 * 4 },
        Kind { name: "similarities", run: similarities, quick: 1, thorough: 4 },
    ],
    floors: &[("phases_compared", 300), ("instructions_counted", 1_000_000_000)],
    assumptions: &["callgrind counts the instructions the program executes"],
    exhaustive: false,
};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("measured") {
        alloc::never_reuse();
        let n = |i: usize| a[i].parse::<usize>().expect("number");
        if n(2) == 99 {
            similarity(n(3), n(4) as u64);
        } else {
            measured(ALL[n(2)], n(3), n(4) as u64, n(5), AXES[n(6)], n(7) as u64, n(8) as u64);
        }
        return;
    }
    run(&P)
}
