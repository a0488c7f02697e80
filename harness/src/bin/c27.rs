//! C27: hashes and serialized data are portable.
//!
//! Besides the monitor proper this binary is the runner of the platform leg: `emit` writes cases with
//! the data the structures serialize to here, `exec` works through such a file (natively, and under
//! Miri as a 32-bit or a big-endian machine) and `compare` judges two results of it.
use pcverif::hashers::IDENT;
use pcverif::subject::*;
use pcverif::*;
use probabilistic_collections::similarity::MinHash;
use probabilistic_collections::SipHasherBuilder;
use std::fmt::Write as _;
use std::hash::{BuildHasher, Hash, Hasher};
use std::vec::IntoIter;

/// SipHash-2-4 of a byte string, from its definition.
fn siphash24(k0: u64, k1: u64, m: &[u8]) -> u64 {
    fn round(v: &mut [u64; 4]) {
        v[0] = v[0].wrapping_add(v[1]);
        v[1] = v[1].rotate_left(13) ^ v[0];
        v[0] = v[0].rotate_left(32);
        v[2] = v[2].wrapping_add(v[3]);
        v[3] = v[3].rotate_left(16) ^ v[2];
        v[0] = v[0].wrapping_add(v[3]);
        v[3] = v[3].rotate_left(21) ^ v[0];
        v[2] = v[2].wrapping_add(v[1]);
        v[1] = v[1].rotate_left(17) ^ v[2];
        v[2] = v[2].rotate_left(32);
    }
    let mut v = [
        k0 ^ 0x736f_6d65_7073_6575,
        k1 ^ 0x646f_7261_6e64_6f6d,
        k0 ^ 0x6c79_6765_6e65_7261,
        k1 ^ 0x7465_6462_7974_6573,
    ];
    let mut word = |w: u64| {
        v[3] ^= w;
        round(&mut v);
        round(&mut v);
        v[0] ^= w;
    };
    let whole = m.len() / 8 * 8;
    for c in m[..whole].chunks(8) {
        word(u64::from_le_bytes(c.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    last[..m.len() - whole].copy_from_slice(&m[whole..]);
    last[7] = m.len() as u8;
    word(u64::from_le_bytes(last));
    v[2] ^= 0xff;
    for _ in 0..4 {
        round(&mut v);
    }
    v[0] ^ v[1] ^ v[2] ^ v[3]
}

/// Collects what an item feeds to a hasher.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn tape(x: &impl Hash) -> Vec<u8> {
    let mut t = Tape::default();
    x.hash(&mut t);
    t.0
}

fn hash_of(b: &impl BuildHasher, x: &impl Hash) -> u64 {
    let mut h = b.build_hasher();
    x.hash(&mut h);
    h.finish()
}

/// The default builder is SipHash-2-4 keyed with the two seed words.
fn siphash(c: &mut Ctx) -> R {
    // the published test vector keeps the reference honest
    let m: Vec<u8> = (0..15).collect();
    ensure!(siphash24(0x0706_0504_0302_0100, 0x0f0e_0d0c_0b0a_0908, &m) == 0xa129_ca61_49be_45e5, "the reference SipHash is wrong");
    let k = c.rng.u64();
    let (k0, k1) = match c.rng.below(20) {
        0 => (0, 0),
        1 => (k, 0),
        2 => (0, k),
        3 => (u64::MAX, u64::MAX),
        4 => (k, k),
        5 => (k, !k),
        6 => (k, k.wrapping_neg()),
        7 => (k, k.swap_bytes()),
        8 => (k & 0xffff_ffff, k >> 32),
        9 => (k & !0xffff_ffff, k << 32),
        10 | 11 => (c.rng.below(300), c.rng.below(300)),
        12 => (1 << (k & 63), 1 << (k >> 58)),
        _ => (c.rng.u64(), c.rng.u64()),
    };
    let b = SipHasherBuilder::from_seed(k0, k1);
    let what = format!("from_seed({k0:#x}, {k1:#x})");
    let n = if c.rng.chance(0.05) { c.rng.urange(200, 3000) } else { c.rng.urange(0, 70) };
    let bytes: Vec<u8> = (0..n).map(|_| c.rng.u64() as u8).collect();
    let mut h = b.build_hasher();
    let mut at = 0;
    while at < n {
        let to = n.min(at + c.rng.urange(0, 20));
        h.write(&bytes[at..to]);
        if c.rng.chance(0.1) {
            let want = siphash24(k0, k1, &bytes[..to]);
            ensure!(h.finish() == want, "{what}: {to} bytes so far hash to {:#x}, SipHash-2-4 is {want:#x}", h.finish());
            h = h.clone();
        }
        at = to;
    }
    let want = siphash24(k0, k1, &bytes);
    ensure!(h.finish() == want && h.finish() == want, "{what}: {n} bytes hash to {:#x}, SipHash-2-4 is {want:#x}", h.finish());
    let x = c.rng.u64();
    let text = String::key(x);
    macro_rules! item {
        ($($e:expr),+) => {$({
            let i = $e;
            let want = siphash24(k0, k1, &tape(&i));
            let got = hash_of(&b, &i);
            ensure!(got == want, "{what}: {i:?} hashes to {got:#x}, SipHash-2-4 of what it feeds is {want:#x}");
        })+};
    }
    item!(x, x as u8, x as u32 as i32, u128::from(x) << 50, text.as_str(), text, Some(x as u16), (x, "s", [x as u8; 3]), bytes, Raw::key(x), 'x', ());
    c.count("hashes_compared", 13);
    c.mix(k0 ^ x);
    c.nontrivial();
    Ok(())
}

/// The i-th hash function is a + i b + i(i-1)(i-2)/6, modulo 2^64.
fn sequence(c: &mut Ctx) -> R {
    let hb = if c.rng.chance(0.5) { HB::good_pair(&mut c.rng) } else { HB::any_pair(&mut c.rng) };
    let k = c.rng.log_range(1, 3000);
    let mut x = c.rng.u64();
    if c.rng.chance(0.2) {
        x |= !0 << c.rng.range(1, 63);
    }
    let want = |a: u64, b: u64| -> Vec<u64> {
        (0..k as u128)
            .map(|i| {
                let t = if i < 3 { 0 } else { i * (i - 1) * (i - 2) / 6 };
                (u128::from(a) + i * u128::from(b) + t) as u64
            })
            .collect()
    };
    macro_rules! one {
        ($t:ty, $x:expr) => {{
            let x: $t = $x;
            let w = want(hash_of(&hb[0], &x), hash_of(&hb[1], &x));
            let got = MinHash::<IntoIter<$t>, $t, HB>::with_hashers(k, hb).get_min_hashes(vec![x.clone()].into_iter());
            if let Some(i) = (0..k).find(|i| got.get(*i) != Some(&w[*i])) {
                return Err(format!("{hb:?}: hash {i} of {k} of item {x:?} is {:?}, enhanced double hashing gives {}", got.get(i), w[i]));
            }
        }};
    }
    match c.rng.below(4) {
        0 => one!(String, String::key(x)),
        1 => one!((u64, u64), <(u64, u64)>::key(x)),
        2 => one!(Raw, Raw::key(x)),
        _ => one!(u64, x),
    }
    c.count("hash_sequences", 1);
    c.mix(x ^ k as u64);
    if k > 3 && hb[1].kind != IDENT {
        c.nontrivial();
    }
    Ok(())
}

// ---- platform leg ----

struct Case {
    load: Option<Vec<u8>>,
    spec: Spec,
    ops: Vec<Op>,
    more: Vec<Op>,
    probes: Vec<u64>,
}

fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let v: Vec<u8> = b.iter().flat_map(|x| [D[usize::from(x >> 4)], D[usize::from(x & 15)]]).collect();
    String::from_utf8(v).expect("hex")
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

impl Case {
    fn new(r: &mut Rng, i: usize) -> Case {
        let ty = ALL[i % ALL.len()];
        let hb = HB::good_pair(r);
        let mut spec = Spec::random(r, ty, hb);
        spec.n = spec.n.min(if ty == Ty::MinHash { 30 } else { 120 });
        spec.m = spec.m.min(600);
        if ty == Ty::Hll {
            spec.fpp = r.log_f64(0.06, 0.5);
        }
        spec.growth = r.pick(&[1.0, 1.37, 2.0]);
        spec.key = r.pick(&[1, 4, 4]);
        let universe = r.pick(&[6, 20, 60]);
        let len = r.urange(5, 40);
        let ops = history(r, ty, len, universe, true);
        let more = history(r, ty, 10, universe, true);
        let probes = probes(r, &ops, 15);
        let mut c = Case { load: None, spec, ops, more, probes };
        if i % 2 == 1 {
            let mut s = c.spec.build();
            run_ops(&mut *s, &c.ops);
            c.load = Some(s.bytes());
        }
        c
    }
    fn line(&self) -> String {
        let s = &self.spec;
        let mut o = format!("{} {} {} {} {} {} {} {}", s.ty as u8, s.ctor, s.n, s.m, s.fpp.to_bits(), s.growth.to_bits(), s.tight.to_bits(), s.key);
        for h in &s.hb {
            let _ = write!(o, " {} {} {}", h.kind, h.k0, h.k1);
        }
        let ops = |v: &[Op]| {
            v.iter()
                .map(|x| match x {
                    Op::Insert(x, w) => format!("1,{x},{w}"),
                    Op::Remove(x, w) => format!("2,{x},{w}"),
                    Op::Clear => "0,0,0".to_string(),
                })
                .collect::<Vec<_>>()
                .join(" ")
        };
        let probes: Vec<String> = self.probes.iter().map(u64::to_string).collect();
        format!(
            "{o}|{}|{}|{}|{}",
            ops(&self.ops),
            ops(&self.more),
            probes.join(" "),
            self.load.as_ref().map_or("-".to_string(), |b| hex(b))
        )
    }
    fn parse(line: &str) -> Case {
        let f: Vec<&str> = line.split('|').collect();
        let n: Vec<u64> = f[0].split(' ').map(|x| x.parse().expect("number")).collect();
        let hb = |i: usize| HB::new(n[i] as u8, n[i + 1], n[i + 2]);
        let ops = |s: &str| -> Vec<Op> {
            s.split(' ')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let p: Vec<&str> = x.split(',').collect();
                    let (k, w) = (p[1].parse().expect("key"), p[2].parse().expect("weight"));
                    match p[0] {
                        "1" => Op::Insert(k, w),
                        "2" => Op::Remove(k, w),
                        _ => Op::Clear,
                    }
                })
                .collect()
        };
        Case {
            spec: Spec {
                ty: ALL[n[0] as usize],
                ctor: n[1] as u8,
                n: n[2] as usize,
                m: n[3] as usize,
                fpp: f64::from_bits(n[4]),
                growth: f64::from_bits(n[5]),
                tight: f64::from_bits(n[6]),
                key: n[7] as u8,
                hb: [hb(8), hb(11)],
            },
            ops: ops(f[1]),
            more: ops(f[2]),
            probes: f[3].split(' ').map(|x| x.parse().expect("probe")).collect(),
            load: if f[4] == "-" { None } else { Some(unhex(f[4])) },
        }
    }
    /// Every value the platforms have to agree on.
    fn exec(&self) -> (Vec<u64>, Vec<u8>, String) {
        let ty = self.spec.ty;
        let mut s = self.spec.build();
        match &self.load {
            Some(b) => match s.from_bytes(b) {
                Ok(x) => s = x,
                Err(e) => panic!("the data cannot be read: {e}"),
            },
            None => run_ops(&mut *s, &self.ops),
        }
        let (mut obs, bytes, json) = if self.load.is_some() || !ty.randomized() {
            (s.obs(&self.probes), s.bytes(), s.json())
        } else {
            (stable(ty, &mut *s, &self.ops, &self.probes), Vec::new(), String::new())
        };
        run_ops(&mut *s, &self.more);
        if ty.randomized() {
            let all: Vec<Op> = self.ops.iter().chain(&self.more).copied().collect();
            obs.extend(stable(ty, &mut *s, &all, &self.probes));
        } else {
            obs.extend(s.obs(&self.probes));
        }
        (obs, bytes, json)
    }
}

fn run_ops(s: &mut dyn Subject, ops: &[Op]) {
    for op in ops {
        if s.accepts(op) {
            s.apply(op);
        }
    }
}

/// What the internal random choices of a structure cannot change.
fn stable(ty: Ty, s: &mut dyn Subject, ops: &[Op], probes: &[u64]) -> Vec<u64> {
    let f = s.facts();
    let mut out = vec![f.hashers as u64, f.bits as u64, f.entries as u64, f.fp_bits as u64];
    match ty {
        Ty::Cuckoo => {
            out.extend([f.capacity as u64, (f.len + f.extra) as u64]);
            out.extend(probes.iter().map(|p| u64::from(s.has(*p))));
        }
        Ty::ScalableCuckoo => {}
        _ => {
            out.push(f.len as u64);
            if let Some(Op::Insert(x, _)) = ops.last() {
                out.push(u64::from(s.has(*x)));
            }
        }
    }
    out
}

fn exec(file: &str, budget: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    let start = std::time::Instant::now();
    for (i, line) in std::fs::read_to_string(file).expect("cases").lines().enumerate() {
        if start.elapsed().as_secs() >= budget {
            break;
        }
        let case = Case::parse(line);
        match std::panic::catch_unwind(|| case.exec()) {
            Ok((o, b, j)) => {
                let o: Vec<String> = o.iter().map(u64::to_string).collect();
                println!("{i}|{}|{}|{}", o.join(" "), hex(&b), j.replace(['|', '\n'], " "));
            }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                println!("{i}|panic|{}|", m.unwrap_or_default().replace(['|', '\n'], " "));
            }
        }
    }
}

/// Equal, or the same floating point value up to rounding (which the platforms' mathematical
/// functions do not share).
fn same(a: u64, b: u64) -> bool {
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    a == b || (x.is_normal() && y.is_normal() && ((x - y) / x).abs() < 1e-9)
}

fn compare(cases: &str, here: &str, there: &str, name: &str) {
    let read = |f: &str| std::fs::read_to_string(f).expect("results");
    let (cases, here, there) = (read(cases), read(here), read(there));
    let (mut n, mut values, mut bytes, mut loaded) = (0u64, 0u64, 0u64, 0u64);
    let mut lines: Vec<&str> = there.split_inclusive('\n').collect();
    lines.retain(|l| l.ends_with('\n'));
    for ((c, h), t) in cases.lines().zip(here.lines()).zip(lines) {
        let (h, t): (Vec<&str>, Vec<&str>) = (h.split('|').collect(), t.trim_end().split('|').collect());
        if h.len() != 4 || t.len() != 4 || h[0] != t[0] {
            eprintln!("results out of step");
            std::process::exit(3);
        }
        let case = Case::parse(c);
        let what = format!(
            "{:?}, {}",
            case.spec,
            if case.load.is_some() { "read from data written on x86_64" } else { "built and filled there" }
        );
        let fail = |m: String| {
            println!("{name}: {what}: {m}");
            std::process::exit(1);
        };
        let nums = |s: &str| -> Vec<u64> { s.split(' ').filter_map(|x| x.parse().ok()).collect() };
        if h[1] == "panic" {
            fail(format!("panics here already: {}", h[2]));
        }
        if t[1] == "panic" {
            fail(format!("panics: {}", t[2]));
        }
        let (a, b) = (nums(h[1]), nums(t[1]));
        if a.len() != b.len() || a.iter().zip(&b).any(|(a, b)| !same(*a, *b)) {
            let at = a.iter().zip(&b).position(|(a, b)| !same(*a, *b));
            fail(format!(
                "observation {at:?} of {} is {:?}, on x86_64 {:?}",
                a.len(),
                at.map(|i| b[i]),
                at.map(|i| a[i])
            ));
        }
        if h[2] != t[2] {
            fail(format!("serializes to {}, on x86_64 to {}", t[2], h[2]));
        }
        if h[3] != t[3] {
            fail(format!("serializes to {}, on x86_64 to {}", t[3], h[3]));
        }
        n += 1;
        values += a.len() as u64;
        bytes += h[2].len() as u64 / 2;
        loaded += u64::from(case.load.is_some());
    }
    println!("SAME cases={n} {{\"cases\": {n}, \"values\": {values}, \"bytes\": {bytes}, \"loaded\": {loaded}}}");
}

/// The case format itself, and the platform workload run natively against its own reading.
fn cases(c: &mut Ctx) -> R {
    let case = Case::new(&mut c.rng, c.index);
    let back = Case::parse(&case.line());
    ensure!(back.line() == case.line() && back.spec == case.spec, "the monitor misreads its own case");
    let (a, b) = (case.exec(), back.exec());
    ensure!(a == b, "{:?}: the same case gives different results twice", case.spec);
    if let Some(data) = &case.load {
        ensure!(&a.1 == data, "{:?}: reading serialized data and writing it again changes it", case.spec);
    }
    c.count("portable_cases", 1);
    c.mix(c.seed);
    c.nontrivial();
    Ok(())
}

static P: Property = Property {
    id: "C27",
    rule: "siphash: random keys and byte strings in random pieces, and 12 item types, against a SipHash-2-4 written from its definition (itself checked against the published vector). sequence: up to 3000 hash functions of one item under good and hostile builders against a + i b + i(i-1)(i-2)/6 in 128-bit arithmetic, through MinHash. cases: the workload of the platform leg, natively. platform leg: the same cases executed by Miri as i686 (32 bit) and s390x (big-endian) machines; answers, counters, sizing, estimates, bincode and JSON must be those of x86_64, both for structures built there and for structures read from data written here.",
    kinds: &[
        Kind { name: "siphash", run: siphash, quick: 100_000, thorough: 2_000_000 },
        Kind { name: "sequence", run: sequence, quick: 20_000, thorough: 400_000 },
        Kind { name: "cases", run: cases, quick: 6_000, thorough: 100_000 },
    ],
    floors: &[("hashes_compared", 500_000), ("hash_sequences", 10_000), ("portable_cases", 3000)],
    assumptions: &["Miri implements the foreign targets faithfully", "mathematical functions of the platforms agree to 1e-9"],
    exhaustive: false,
};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().expect("number");
    match a.get(1).map(String::as_str) {
        Some("emit") => {
            let mut r = Rng::new(num(2) ^ 0xC27);
            for i in 0..num(3) as usize {
                println!("{}", Case::new(&mut r, i).line());
            }
        }
        Some("exec") => exec(&a[2], num(3)),
        Some("compare") => compare(&a[2], &a[3], &a[4], &a[5]),
        _ => run(&P),
    }
}
