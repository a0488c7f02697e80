//! C24: the packed containers behave exactly like plain vectors.
#[cfg(verif_hooks)]
mod monitor {
    use pcverif::*;
    use probabilistic_collections::verif_hooks::{BitVec, BitstringVec};

    /// Every observation of the packed bit vector against the model.
    fn check_bits(c: &mut Ctx, v: &BitVec, m: &[bool], deep: bool, log: &str) -> R {
        ensure!(v.len() == m.len(), "{log}: len() is {}, not {}", v.len(), m.len());
        let ones = m.iter().filter(|b| **b).count();
        ensure!(v.count_ones() == ones, "{log}: count_ones() is {}, a recount gives {ones}", v.count_ones());
        ensure!(v.count_zeros() == m.len() - ones, "{log}: count_zeros() is {}", v.count_zeros());
        ensure!(v.is_empty() == m.is_empty(), "{log}: is_empty() is wrong");
        ensure!(v.capacity() >= v.len(), "{log}: capacity() {} is below len()", v.capacity());
        c.count("states_compared", 1);
        if !deep {
            return Ok(());
        }
        ensure!(
            v.iter().eq(m.iter().copied()),
            "{log}: iter() first differs at {:?}",
            v.iter().zip(m).position(|(a, b)| a != *b)
        );
        for (i, b) in m.iter().enumerate() {
            ensure!(v.get(i) == Some(*b), "{log}: get({i}) is {:?}, expected {b}", v.get(i));
            ensure!(v[i] == *b, "{log}: [{i}] is not {b}");
        }
        for past in [m.len(), m.len() + 1, m.len() + 7, m.len() + 64, usize::MAX] {
            ensure!(v.get(past).is_none(), "{log}: get({past}) past the end is {:?}", v.get(past));
        }
        let mut n = 0;
        for (i, b) in v.into_iter().enumerate() {
            ensure!(m.get(i) == Some(&b), "{log}: borrowed iteration differs at {i}");
            n += 1;
        }
        ensure!(n == m.len(), "{log}: borrowed iteration gives {n} elements");
        // the same content built the plain way is equal and indistinguishable
        let mut plain = BitVec::new(m.len());
        for (i, b) in m.iter().enumerate() {
            plain.set(i, *b);
        }
        ensure!(*v == plain, "{log}: not equal to a vector with the same elements");
        let mut pushed = BitVec::with_capacity(0);
        for b in m {
            pushed.push(*b);
        }
        ensure!(pushed == *v, "{log}: not equal to the same elements pushed one by one");
        ensure!(
            v.to_bytes() == model_bytes(m),
            "{log}: to_bytes() first differs at {:?}",
            v.to_bytes().iter().zip(model_bytes(m)).position(|(a, b)| *a != b)
        );
        if !m.is_empty() {
            let i = c.rng.idx(m.len());
            let mut other = v.clone();
            other.flip(i);
            ensure!(*v != other, "{log}: equal to a vector that differs at {i}");
            let mut shorter = v.clone();
            shorter.truncate(i);
            ensure!(*v != shorter, "{log}: equal to its own prefix of length {i}");
        }
        let bytes = bincode::serialize(v).map_err(|e| e.to_string())?;
        ensure!(bytes == bincode::serialize(&plain).unwrap(), "{log}: serializes differently from the same elements");
        let back: BitVec = bincode::deserialize(&bytes).map_err(|e| format!("{log}: {e}"))?;
        ensure!(back == *v && back.iter().eq(m.iter().copied()), "{log}: the bincode round trip changed it");
        ensure!(back.count_ones() == ones, "{log}: the bincode round trip changed count_ones()");
        let json = serde_json::to_string(v).map_err(|e| e.to_string())?;
        let back: BitVec = serde_json::from_str(&json).map_err(|e| format!("{log}: {e}"))?;
        ensure!(back == *v && back.count_ones() == ones, "{log}: the JSON round trip changed it");
        ensure!(v.clone().into_iter().eq(m.iter().copied()), "{log}: into_iter() differs");
        c.count("deep_comparisons", 1);
        Ok(())
    }

    /// Most significant bit first, zero padded.
    fn model_bytes(m: &[bool]) -> Vec<u8> {
        m.chunks(8)
            .map(|ch| ch.iter().enumerate().fold(0u8, |a, (i, b)| a | (u8::from(*b) << (7 - i))))
            .collect()
    }

    fn some_len(r: &mut Rng) -> usize {
        match r.below(4) {
            0 => r.urange(0, 3),
            1 => (r.urange(1, 20) * 8 + 1).saturating_sub(r.urange(0, 2)),
            2 => (r.urange(1, 6) * 64 + 1).saturating_sub(r.urange(0, 2)),
            _ => r.log_range(1, 300),
        }
    }

    fn random_bits(r: &mut Rng, n: usize) -> Vec<bool> {
        let p = r.pick(&[0.0, 0.05, 0.5, 0.5, 0.95, 1.0]);
        (0..n).map(|_| r.chance(p)).collect()
    }

    fn build_bits(r: &mut Rng, m: &[bool]) -> BitVec {
        if r.chance(0.5) {
            let mut v = BitVec::new(m.len());
            for (i, b) in m.iter().enumerate() {
                v.set(i, *b);
            }
            v
        } else {
            let mut v = BitVec::with_capacity(r.idx(2 * m.len() + 1));
            for b in m {
                v.push(*b);
            }
            v
        }
    }

    const BIT_OPS: usize = 26;

    fn bit_op(c: &mut Ctx, op: usize, v: &mut BitVec, m: &mut Vec<bool>) -> Result<String, String> {
        let n = m.len();
        Ok(match op {
            0 | 1 if n > 0 => {
                let (i, b) = (c.rng.idx(n), c.rng.chance(0.5));
                v.set(i, b);
                m[i] = b;
                format!("set({i},{b})")
            }
            2 | 3 if n > 0 => {
                // the ends of the vector
                let i = if op == 2 { n - 1 } else { 0 };
                v.flip(i);
                m[i] = !m[i];
                format!("flip({i})")
            }
            4 if n > 0 => {
                let i = c.rng.idx(n);
                v.flip(i);
                m[i] = !m[i];
                format!("flip({i})")
            }
            5 | 6 => {
                let b = op == 5;
                v.set_all(b);
                m.iter_mut().for_each(|x| *x = b);
                format!("set_all({b})")
            }
            7 => {
                v.flip_all();
                m.iter_mut().for_each(|x| *x = !*x);
                "flip_all".into()
            }
            8..=10 => {
                let k = c.rng.urange(1, 11);
                let mut s = String::from("push");
                for _ in 0..k {
                    let b = c.rng.chance(0.5);
                    v.push(b);
                    m.push(b);
                    s.push(if b { '1' } else { '0' });
                }
                s
            }
            11 | 12 => {
                let k = c.rng.urange(1, 11);
                for _ in 0..k {
                    let (a, b) = (v.pop(), m.pop());
                    ensure!(a == b, "pop() gives {a:?}, expected {b:?}");
                }
                format!("pop x{k}")
            }
            13 => {
                let k = if c.rng.chance(0.2) { n + c.rng.idx(20) } else { n.saturating_sub(c.rng.idx(20)) };
                v.truncate(k);
                m.truncate(k);
                format!("truncate({k})")
            }
            14 => {
                let k = c.rng.idx(n + 1);
                v.truncate(k);
                m.truncate(k);
                format!("truncate({k})")
            }
            15..=18 => {
                let o = random_bits(&mut c.rng, n);
                let w = build_bits(&mut c.rng, &o);
                let name = match op {
                    15 => {
                        v.union(&w);
                        m.iter_mut().zip(&o).for_each(|(x, y)| *x |= *y);
                        "union"
                    }
                    16 => {
                        v.intersection(&w);
                        m.iter_mut().zip(&o).for_each(|(x, y)| *x &= *y);
                        "intersection"
                    }
                    17 => {
                        v.difference(&w);
                        m.iter_mut().zip(&o).for_each(|(x, y)| *x &= !*y);
                        "difference"
                    }
                    _ => {
                        v.symmetric_difference(&w);
                        m.iter_mut().zip(&o).for_each(|(x, y)| *x ^= *y);
                        "symmetric_difference"
                    }
                };
                check_bits(c, &w, &o, false, "the operand of a set operation")?;
                name.into()
            }
            19 | 20 => {
                let k = c.rng.log_range(1, 300);
                if op == 19 {
                    v.reserve(k);
                } else {
                    v.reserve_exact(k);
                }
                ensure!(v.capacity() >= n + k, "capacity() is {} after reserving {k} on top of {n}", v.capacity());
                format!("reserve({k})")
            }
            21 => {
                let mut w = v.clone();
                std::mem::swap(&mut w, v);
                // what happens to one of them does not reach the other
                w.flip_all();
                w.push(true);
                "clone".into()
            }
            22 => {
                let k = some_len(&mut c.rng);
                let o = random_bits(&mut c.rng, k);
                let mut w = build_bits(&mut c.rng, &o);
                w.clone_from(v);
                std::mem::swap(&mut w, v);
                w.flip_all();
                format!("clone_from onto length {}", o.len())
            }
            23 => {
                let bytes = bincode::serialize(&*v).map_err(|e| e.to_string())?;
                *v = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
                "serialize and deserialize".into()
            }
            24 => {
                // an out of range index is refused and changes nothing
                let i = n + c.rng.pick(&[0, 1, 7, 8, 1 << 40]);
                let before = v.clone();
                let r1 = c.catch(|| v.set(i, true));
                ensure!(r1.is_err(), "set({i}) on length {n} is accepted");
                let r2 = c.catch(|| v.flip(i));
                ensure!(r2.is_err(), "flip({i}) on length {n} is accepted");
                ensure!(c.catch(|| v[i]).is_err(), "[{i}] on length {n} is accepted");
                let w = BitVec::new(n + 1);
                ensure!(c.catch(|| v.union(&w)).is_err(), "union with another length is accepted");
                ensure!(*v == before, "a refused operation changed the vector");
                "out of range".into()
            }
            _ => {
                let k = some_len(&mut c.rng);
                match c.rng.below(4) {
                    0 => {
                        *v = BitVec::new(k);
                        *m = vec![false; k];
                        format!("new({k})")
                    }
                    1 => {
                        let b = c.rng.chance(0.7);
                        *v = BitVec::from_elem(k, b);
                        *m = vec![b; k];
                        format!("from_elem({k},{b})")
                    }
                    2 => {
                        *v = BitVec::with_capacity(k);
                        ensure!(v.capacity() >= k, "with_capacity({k}) has capacity {}", v.capacity());
                        m.clear();
                        format!("with_capacity({k})")
                    }
                    _ => {
                        let bytes: Vec<u8> = (0..k / 4).map(|_| c.rng.u64() as u8).collect();
                        *v = BitVec::from_bytes(&bytes);
                        *m = bytes.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect();
                        format!("from_bytes({} bytes)", bytes.len())
                    }
                }
            }
        })
    }

    fn bits(c: &mut Ctx) -> R {
        let mut v = BitVec::new(0);
        let mut m = Vec::new();
        bit_op(c, 25, &mut v, &mut m)?;
        let steps = c.scale(60, 200);
        let mut log = String::new();
        for step in 0..steps {
            // make every ordered pair of operations appear systematically
            let op = match step {
                0 => c.index % BIT_OPS,
                1 => c.index / BIT_OPS % BIT_OPS,
                _ if c.rng.chance(0.03) => BIT_OPS - 1,
                _ => c.rng.idx(BIT_OPS - 1),
            };
            let before = m.len();
            log = match bit_op(c, op, &mut v, &mut m) {
                Ok(l) => format!("step {step}, {l} on length {before}"),
                Err(e) => return Err(format!("step {step} after {log}: {e}")),
            };
            c.log(|| log.clone());
            if m.len() > 700 {
                v.truncate(130);
                m.truncate(130);
            }
            let deep = step < 3 || c.rng.chance(0.15);
            check_bits(c, &v, &m, deep, &log)?;
            c.count("operations", 1);
        }
        check_bits(c, &v, &m, true, &log)?;
        c.mix(c.seed);
        c.nontrivial();
        Ok(())
    }

    /// More elements, ones and bytes than 16 bits count.
    fn big_bits(c: &mut Ctx) -> R {
        let n = c.rng.pick(&[65_528, 65_535, 65_536, 65_537, 70_001, 131_072, 140_003, 524_288, 600_007]);
        let mut m = random_bits(&mut c.rng, n);
        let mut v = build_bits(&mut c.rng, &m);
        let mut log = format!("length {n}");
        check_bits(c, &v, &m, true, &log)?;
        for step in 0..c.scale(16, 40) {
            let op = match step {
                0 => c.index % 25,
                _ => c.rng.idx(25),
            };
            let before = m.len();
            log = match bit_op(c, op, &mut v, &mut m) {
                Ok(l) => format!("step {step}, {l} on length {before}"),
                Err(e) => return Err(format!("step {step} after {log}: {e}")),
            };
            c.log(|| log.clone());
            // far apart positions and long runs
            if m.len() > 70_000 && c.rng.chance(0.3) {
                let k = c.rng.idx(66_000);
                let b = c.rng.chance(0.5);
                for i in k..k + 3000 {
                    v.set(i, b);
                    m[i] = b;
                }
            }
            if m.len() < 1000 {
                while m.len() < 66_000 {
                    let b = c.rng.chance(0.7);
                    v.push(b);
                    m.push(b);
                }
            }
            let deep = c.rng.chance(0.1);
            check_bits(c, &v, &m, deep, &log)?;
            c.count("operations", 1);
        }
        check_bits(c, &v, &m, true, &log)?;
        c.mix(c.seed);
        c.nontrivial();
        Ok(())
    }

    fn limit(width: usize) -> u64 {
        if width == 64 {
            u64::MAX
        } else {
            (1 << width) - 1
        }
    }

    fn value(r: &mut Rng, width: usize) -> u64 {
        let top = limit(width);
        match r.below(6) {
            0 => 0,
            1 => top,
            2 => 1,
            3 => top ^ (top >> 1),
            _ => r.u64() & top,
        }
    }

    fn check_strings(c: &mut Ctx, v: &BitstringVec, width: usize, m: &[u64], deep: bool, log: &str) -> R {
        ensure!(v.len() == m.len(), "{log}: len() is {}, not {}", v.len(), m.len());
        ensure!(v.bit_count() == width, "{log}: bit_count() is {}", v.bit_count());
        let used = m.iter().filter(|x| **x != 0).count();
        ensure!(v.occupied_len() == used, "{log}: occupied_len() is {}, a recount gives {used}", v.occupied_len());
        ensure!(v.is_empty() == m.is_empty(), "{log}: is_empty() is wrong");
        ensure!(v.capacity() >= v.len(), "{log}: capacity() {} is below len() {}", v.capacity(), v.len());
        c.count("states_compared", 1);
        for i in [0, m.len() / 2, m.len().saturating_sub(2), m.len().saturating_sub(1)] {
            if i < m.len() {
                ensure!(v.get(i) == m[i], "{log}: get({i}) is {:#x}, expected {:#x}", v.get(i), m[i]);
            }
        }
        if !deep {
            return Ok(());
        }
        ensure!(
            v.iter().eq(m.iter().copied()),
            "{log}: iter() first differs at {:?}",
            v.iter().zip(m).position(|(a, b)| a != *b)
        );
        for (i, x) in m.iter().enumerate() {
            ensure!(v.get(i) == *x, "{log}: get({i}) is {:#x}, expected {x:#x}", v.get(i));
        }
        let mut n = 0;
        for (i, x) in v.into_iter().enumerate() {
            ensure!(m.get(i) == Some(&x), "{log}: borrowed iteration differs at {i}");
            n += 1;
        }
        ensure!(n == m.len(), "{log}: borrowed iteration gives {n} elements");
        let mut plain = BitstringVec::new(width, m.len());
        for (i, x) in m.iter().enumerate() {
            plain.set(i, *x);
        }
        ensure!(*v == plain, "{log}: not equal to a vector with the same elements");
        let mut pushed = BitstringVec::with_capacity(width, 0);
        for x in m {
            pushed.push(*x);
        }
        ensure!(pushed == *v, "{log}: not equal to the same elements pushed one by one");
        if !m.is_empty() {
            let i = c.rng.idx(m.len());
            let mut other = v.clone();
            other.set(i, m[i] ^ (1 << c.rng.idx(width)));
            ensure!(*v != other, "{log}: equal to a vector that differs at {i}");
        }
        let bytes = bincode::serialize(v).map_err(|e| e.to_string())?;
        ensure!(bytes == bincode::serialize(&plain).unwrap(), "{log}: serializes differently from the same elements");
        let back: BitstringVec = bincode::deserialize(&bytes).map_err(|e| format!("{log}: {e}"))?;
        ensure!(back == *v && back.iter().eq(m.iter().copied()), "{log}: the bincode round trip changed it");
        let json = serde_json::to_string(v).map_err(|e| e.to_string())?;
        let back: BitstringVec = serde_json::from_str(&json).map_err(|e| format!("{log}: {e}"))?;
        ensure!(back == *v && back.occupied_len() == used, "{log}: the JSON round trip changed it");
        ensure!(v.clone().into_iter().eq(m.iter().copied()), "{log}: into_iter() differs");
        c.count("deep_comparisons", 1);
        Ok(())
    }

    const STR_OPS: usize = 17;

    fn str_op(c: &mut Ctx, op: usize, w: usize, v: &mut BitstringVec, m: &mut Vec<u64>) -> Result<String, String> {
        let n = m.len();
        Ok(match op {
            0..=3 if n > 0 => {
                let i = match op {
                    0 => n - 1,
                    1 => 0,
                    _ => c.rng.idx(n),
                };
                let x = value(&mut c.rng, w);
                v.set(i, x);
                m[i] = x;
                format!("set({i},{x:#x})")
            }
            4..=6 => {
                let k = c.rng.urange(1, 9);
                for _ in 0..k {
                    let x = value(&mut c.rng, w);
                    v.push(x);
                    m.push(x);
                }
                format!("push x{k}")
            }
            7 | 8 if n > 0 => {
                let k = c.rng.urange(1, 9).min(n);
                for _ in 0..k {
                    let (a, b) = (v.pop(), m.pop().unwrap());
                    ensure!(a == b, "pop() gives {a:#x}, expected {b:#x}");
                }
                format!("pop x{k}")
            }
            9 => {
                let k = if c.rng.chance(0.3) { n + c.rng.idx(5) } else { n.saturating_sub(c.rng.idx(12)) };
                v.truncate(k);
                m.truncate(k);
                format!("truncate({k})")
            }
            10 => {
                v.clear();
                m.iter_mut().for_each(|x| *x = 0);
                "clear".into()
            }
            11 | 12 => {
                let k = c.rng.log_range(1, 100);
                if op == 11 {
                    v.reserve(k);
                } else {
                    v.reserve_exact(k);
                }
                ensure!(v.capacity() >= n + k, "capacity() is {} after reserving {k} on top of {n}", v.capacity());
                format!("reserve({k})")
            }
            13 => {
                let mut o = v.clone();
                std::mem::swap(&mut o, v);
                o.push(limit(w));
                o.clear();
                "clone".into()
            }
            14 => {
                let k = c.rng.idx(40);
                let mut o = BitstringVec::from_elem(c.rng.urange(1, 64), k, 1);
                o.clone_from(v);
                std::mem::swap(&mut o, v);
                o.push(limit(w));
                o.clear();
                "clone_from".into()
            }
            15 => {
                let bytes = bincode::serialize(&*v).map_err(|e| e.to_string())?;
                *v = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
                "serialize and deserialize".into()
            }
            _ => {
                // an out of range index is refused and changes nothing
                let i = n + c.rng.pick(&[0, 1, 7, 64, 1 << 40]);
                let before = v.clone();
                ensure!(c.catch(|| v.set(i, 1)).is_err(), "set({i}) on length {n} is accepted");
                ensure!(c.catch(|| v.get(i)).is_err(), "get({i}) on length {n} is accepted");
                if n == 0 {
                    ensure!(c.catch(|| v.pop()).is_err(), "pop() on an empty vector gives something");
                }
                ensure!(*v == before, "a refused operation changed the vector");
                "out of range".into()
            }
        })
    }

    fn strings(c: &mut Ctx) -> R {
        let w = c.index % 64 + 1;
        let n = match c.rng.below(3) {
            0 => 0,
            1 => c.rng.urange(1, 12),
            _ => c.rng.log_range(1, 150),
        };
        let (mut v, mut m) = match c.rng.below(3) {
            0 => (BitstringVec::new(w, n), vec![0; n]),
            1 => {
                let x = value(&mut c.rng, w);
                (BitstringVec::from_elem(w, n, x), vec![x; n])
            }
            _ => {
                let v = BitstringVec::with_capacity(w, n);
                ensure!(v.capacity() >= n, "with_capacity({w},{n}) has capacity {}", v.capacity());
                (v, vec![])
            }
        };
        let mut log = format!("width {w}, initial length {}", m.len());
        check_strings(c, &v, w, &m, true, &log)?;
        let steps = c.scale(50, 200);
        for step in 0..steps {
            let op = match step {
                0 => c.index / 64 % STR_OPS,
                1 => c.index / (64 * STR_OPS) % STR_OPS,
                _ => c.rng.idx(STR_OPS),
            };
            let before = m.len();
            log = match str_op(c, op, w, &mut v, &mut m) {
                Ok(l) => format!("width {w}, step {step}, {l} on length {before}"),
                Err(e) => return Err(format!("width {w}, step {step} after {log}: {e}")),
            };
            c.log(|| log.clone());
            let deep = step < 2 || c.rng.chance(0.15);
            check_strings(c, &v, w, &m, deep, &log)?;
            c.count("operations", 1);
        }
        check_strings(c, &v, w, &m, true, &log)?;
        c.mix(c.seed);
        c.nontrivial();
        Ok(())
    }

    /// More entries than 16 bits count, at bit offsets beyond 2^16 and 2^20.
    fn big_strings(c: &mut Ctx) -> R {
        let w = c.index % 64 + 1;
        let n = c.rng.pick(&[65_535, 65_536, 65_537, 70_001, 140_003]);
        let mut m: Vec<u64> = (0..n).map(|_| if c.rng.chance(0.1) { 0 } else { value(&mut c.rng, w) }).collect();
        let mut v = BitstringVec::new(w, n);
        for (i, x) in m.iter().enumerate() {
            v.set(i, *x);
        }
        let mut log = format!("width {w}, length {n}");
        check_strings(c, &v, w, &m, true, &log)?;
        for step in 0..c.scale(12, 30) {
            let op = match step {
                0 => c.index / 64 % STR_OPS,
                _ => c.rng.idx(STR_OPS),
            };
            let before = m.len();
            log = match str_op(c, op, w, &mut v, &mut m) {
                Ok(l) => format!("width {w}, step {step}, {l} on length {before}"),
                Err(e) => return Err(format!("width {w}, step {step} after {log}: {e}")),
            };
            c.log(|| log.clone());
            if c.rng.chance(0.3) {
                let k = c.rng.idx(m.len().saturating_sub(2000).max(1));
                for i in k..(k + 2000).min(m.len()) {
                    let x = value(&mut c.rng, w);
                    v.set(i, x);
                    m[i] = x;
                }
            }
            let deep = c.rng.chance(0.1);
            check_strings(c, &v, w, &m, deep, &log)?;
            c.count("operations", 1);
        }
        check_strings(c, &v, w, &m, true, &log)?;
        c.mix(c.seed);
        c.nontrivial();
        Ok(())
    }

    static ONE_AT_A_TIME: std::sync::Mutex<()> = std::sync::Mutex::new(());

    /// Vectors of more than 2^32 bits, used at both ends; their untouched pages cost nothing.
    fn vast(c: &mut Ctx) -> R {
        let _one = ONE_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner());
        c.mix(c.seed);
        c.nontrivial();
        let far = 1usize << 32;
        if c.index % 2 == 0 {
            let n = far + 40 + c.rng.idx(100);
            let mut v = BitVec::new(n);
            let mut m = std::collections::BTreeSet::new();
            let places: Vec<usize> = (0..40).flat_map(|i| [i, far + i, far - 1 - i, far / 2 + i]).collect();
            for step in 0..400 {
                let i = c.rng.pick(&places);
                let b = c.rng.chance(0.6);
                if c.rng.chance(0.3) {
                    v.flip(i);
                    if !m.remove(&i) {
                        m.insert(i);
                    }
                } else {
                    v.set(i, b);
                    if b {
                        m.insert(i);
                    } else {
                        m.remove(&i);
                    }
                }
                ensure!(v.len() == n && v.count_ones() == m.len() && v.count_zeros() == n - m.len(), "length {n}, step {step}: len {} ones {} zeros {}, set are {}", v.len(), v.count_ones(), v.count_zeros(), m.len());
                if step % 20 == 0 {
                    for p in &places {
                        ensure!(v.get(*p) == Some(m.contains(p)) && v[*p] == m.contains(p), "length {n}, step {step}: bit {p} reads {:?}", v.get(*p));
                    }
                }
                c.count("operations", 1);
            }
            ensure!(v.get(n).is_none() && v.get(n - far).is_some(), "length {n}: reading past the end");
            for _ in 0..60 {
                let want = m.remove(&(v.len() - 1));
                let got = v.pop();
                ensure!(got == Some(want) && v.count_ones() == m.len(), "pop from {} gives {got:?}", v.len() + 1);
            }
            for i in 0..80 {
                let at = v.len();
                v.push(i % 3 == 0);
                if i % 3 == 0 {
                    m.insert(at);
                }
            }
            ensure!(v.count_ones() == m.len() && m.iter().all(|p| v.get(*p) == Some(true)), "pushes at {n} went elsewhere");
        } else {
            let w = c.rng.pick(&[5usize, 13, 33, 37, 64]);
            let n = far / w + 60;
            let mut v = BitstringVec::new(w, n);
            let mut m = std::collections::BTreeMap::new();
            let places: Vec<usize> = (0..30).flat_map(|i| [i, n - 1 - i, far / w - 15 + i, far / w / 2 + i]).collect();
            for step in 0..400 {
                let i = c.rng.pick(&places);
                let x = value(&mut c.rng, w);
                v.set(i, x);
                m.insert(i, x);
                if step % 20 == 0 {
                    for p in &places {
                        let want = m.get(p).copied().unwrap_or(0);
                        ensure!(v.get(*p) == want, "width {w}, length {n}, step {step}: element {p} reads {:#x}, {want:#x} was stored", v.get(*p));
                    }
                    let held = m.values().filter(|x| **x != 0).count();
                    ensure!(v.len() == n && v.occupied_len() == held, "width {w}, length {n}: len {} occupied {}, stored {held}", v.len(), v.occupied_len());
                }
                c.count("operations", 1);
            }
        }
        c.count("vast_vectors", 1);
        Ok(())
    }

    pub static P: Property = Property {
        id: "C24",
        rule: "bits: random operation sequences on the packed bit vector (set, get, index, flip, set_all, flip_all, push, pop, truncate, four set operations, reserve, clone, clone_from, four constructors, serialization, refused out of range calls) against Vec<bool>; the first two operations enumerate all ordered pairs; lengths around multiples of 8 and 64. strings: the same for the packed bit-string vector against Vec<u64>, every width 1..64. big_bits, big_strings: the same on vectors of 65 528 to 600 007 elements. After every operation: lengths and cached counts; at random points every element by get, index, iteration, equality with the same content built two other ways, inequality with changed content, bytes and round trips. Non-trivial: every case.",
        kinds: &[
            Kind { name: "bits", run: bits, quick: 26 * 26 * 150, thorough: 26 * 26 * 1500 },
            Kind { name: "strings", run: strings, quick: 64 * 17 * 17 * 4, thorough: 64 * 17 * 17 * 40 },
            Kind { name: "big_bits", run: big_bits, quick: 100, thorough: 2000 },
            Kind { name: "big_strings", run: big_strings, quick: 192, thorough: 64 * 17 * 2 },
            Kind { name: "vast", run: vast, quick: 4, thorough: 60 },
        ],
        floors: &[("operations", 500_000), ("deep_comparisons", 80_000)],
        assumptions: &["the guarded re-export is the only difference from the ordinary build"],
        exhaustive: false,
    };
}

#[cfg(verif_hooks)]
fn main() {
    pcverif::run(&monitor::P)
}

#[cfg(not(verif_hooks))]
fn main() {
    println!("HARNESS-ERROR built without --cfg verif_hooks");
    std::process::exit(3);
}
