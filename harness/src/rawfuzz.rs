//! Raw inputs: a few bytes of control, then the body of a hive. This is what the coverage-guided
//! campaigns of the thorough tier mutate; each property that can be judged from bytes alone does so.
use crate::model::*;
use crate::props::p01::header;
use crate::runner::{take_panic, Obs, Prop};
use crate::util::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Raw {
    pub bytes: Vec<u8>,
    pub seed: u64,
    /// names to ask for
    pub q: Vec<String>,
}

/// seed (8 bytes), root offset / 8 (2 bytes), number of header changes (1 byte), these (5 bytes each), body
pub fn decode(data: &[u8]) -> Raw {
    let mut it = data.iter().copied();
    let mut b = || it.next();
    let mut seed = 0u64;
    for i in 0..8 {
        seed |= (b().unwrap_or(0) as u64) << (8 * i);
    }
    let root = b().unwrap_or(4) as u32 | (b().unwrap_or(0) as u32) << 8;
    let n = b().unwrap_or(0) % 4;
    let mut changes = vec![];
    for _ in 0..n {
        let at = b().unwrap_or(0) as usize;
        let mut v = 0u32;
        for i in 0..4 {
            v |= (b().unwrap_or(0) as u32) << (8 * i);
        }
        changes.push((at, v));
    }
    let body: Vec<u8> = it.collect();
    let mut bytes = vec![0u8; BASE];
    bytes.extend_from_slice(&body);
    if seed & 1 == 0 {
        // whole pages, so that opening with validation succeeds
        let l = bytes.len().next_multiple_of(4096);
        bytes.resize(l, 0);
    }
    header(&mut bytes);
    put32(&mut bytes, 36, root * 8);
    for (at, v) in changes {
        put32(&mut bytes, (at * 4) % 512, v);
    }
    if seed & 2 == 0 {
        fix_checksum(&mut bytes);
    }
    // names: runs of letters found in the body, chosen by the seed
    let mut q = vec!["a".to_string(), String::new()];
    let mut r = Prng(seed);
    for _ in 0..3 {
        if body.len() > 8 {
            let i = r.below(body.len() as u64 - 4) as usize;
            let l = 1 + r.below(4) as usize;
            q.push(body[i..i + l].iter().map(|b| *b as char).collect());
        }
    }
    Raw { bytes, seed, q }
}

/// The reverse, for hives with an ordinary header.
pub fn encode(hive: &[u8], seed: u64) -> Vec<u8> {
    let mut out = seed.to_le_bytes().to_vec();
    out.extend_from_slice(&((le32(hive, 36) / 8) as u16).to_le_bytes());
    out.push(0);
    let mut body = &hive[BASE..];
    while let Some((0, rest)) = body.split_last().map(|(l, r)| (*l, r)) {
        body = rest;
    }
    out.extend_from_slice(body);
    out
}

/// Judges one raw input. None: the property cannot be judged from bytes alone.
pub fn judge<P: Prop>(p: &P, data: &[u8], obs: &mut Obs) -> Option<Result<(), String>> {
    crate::fuel::reset(u64::MAX);
    match catch_unwind(AssertUnwindSafe(|| p.raw(&decode(data), obs))) {
        Ok(r) => r,
        Err(_) => Some(Err(take_panic())),
    }
}

/// Judges the files in this process. 0: hold, 1: violated, 2: error.
pub fn files<P: Prop>(p: &P, paths: &[String]) -> i32 {
    crate::runner::install_hook();
    crate::runner::limit_memory();
    let mut list = vec![];
    for a in paths {
        match std::fs::read_dir(a) {
            Ok(d) => {
                let mut f: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).collect();
                f.sort();
                list.extend(f)
            }
            Err(_) => list.push(a.into()),
        }
    }
    let mut obs = Obs::default();
    for f in &list {
        let Ok(data) = std::fs::read(f) else {
            eprintln!("ERROR: cannot read {}", f.display());
            return 2;
        };
        let b = std::thread::Builder::new().stack_size(256 << 20);
        let r = std::thread::scope(|s| b.spawn_scoped(s, || judge(p, &data, &mut obs)).unwrap().join().unwrap());
        match r {
            None => {
                eprintln!("ERROR: {} is not judged from bytes", P::ID);
                return 2;
            }
            Some(Err(m)) if m.starts_with("panic at src/") && !m.contains(crate::fuel::MSG) => {
                eprintln!("ERROR: harness: {m}");
                return 2;
            }
            Some(Err(m)) => {
                println!("property {} broken: {}", P::ID, trunc(&m, 3000));
                println!("VIOLATION property={} replay={}", P::ID, f.display());
                return 1;
            }
            Some(Ok(())) => (),
        }
    }
    println!("{}: held on {} raw inputs ({} comparisons)", P::ID, list.len(), obs.checks);
    0
}

/// Start inputs: small generated hives of all kinds.
pub fn write_seeds(dir: &std::path::Path, n: usize) {
    use crate::gen::{self, TreeOpt};
    use proptest::strategy::{Strategy, ValueTree};
    use proptest::test_runner::*;
    let _ = std::fs::create_dir_all(dir);
    let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &[7; 32]));
    let s = gen::hive(TreeOpt { keys: 7, vals: 4, big: false, bulk: 10 });
    let mut i = 0;
    let mut put = |b: Vec<u8>| {
        if b.len() < BASE + 12000 {
            std::fs::write(dir.join(format!("{i}")), encode(&b, i as u64 * 4)).unwrap();
            i += 1;
        }
    };
    for h in crate::props::p19::minis() {
        put(build(&h).bytes);
    }
    for _ in 0..n {
        put(build(&s.new_tree(&mut r).unwrap().current()).bytes);
    }
}

/// An arbitrary value of a strategy, determined by the seed.
pub fn sample<T: std::fmt::Debug>(s: &proptest::strategy::BoxedStrategy<T>, seed: u64) -> T {
    use proptest::strategy::{Strategy, ValueTree};
    use proptest::test_runner::*;
    let mut k = [0u8; 32];
    Prng(seed).fill(&mut k);
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &k));
    s.new_tree(&mut r).unwrap().current()
}

/// Makes a failing input smaller (bounded work) and writes it over the file.
pub fn minimise<P: Prop>(p: &P, path: &str) -> i32 {
    crate::runner::install_hook();
    crate::runner::limit_memory();
    let Ok(mut best) = std::fs::read(path) else { return 2 };
    let fails = |d: &[u8]| match judge(p, d, &mut Obs::default()) {
        Some(Err(m)) => !m.starts_with("panic at src/") || m.contains(crate::fuel::MSG),
        _ => false,
    };
    if !fails(&best) {
        return 0;
    }
    let t = std::time::Instant::now();
    let mut left = 20_000;
    let mut size = best.len() / 2;
    while size > 0 {
        let mut at = 0;
        while at < best.len() && left > 0 && t.elapsed().as_secs() < 60 {
            left -= 1;
            let mut c = best[..at].to_vec();
            c.extend_from_slice(&best[(at + size).min(best.len())..]);
            let mut z = best.clone();
            for b in z.iter_mut().skip(at).take(size) {
                *b = 0;
            }
            if fails(&c) {
                best = c;
            } else if z != best && fails(&z) {
                best = z;
                at += size;
            } else {
                at += size;
            }
        }
        size /= 2;
    }
    i32::from(std::fs::write(path, &best).is_err())
}
