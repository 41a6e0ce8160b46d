//! Work done by a subkey lookup: accesses to the bytes, pages read, siblings inspected.
use crate::fuel::{self, Fuel};
use crate::gen;
use crate::model::*;
use crate::pages::Paged;
use crate::props::p03;
use crate::runner::*;
use crate::steps;
use crate::util::*;
use nt_hive::Hive;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub struct P20;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub n: u32,
    pub style: u8,
    pub ri: bool,
    pub parts: Vec<(u8, u16)>,
    pub shuffle: bool,
    /// (which sibling, 0: itself recased, else a neighbour of its name, from 7 on an unusual name)
    pub q: Vec<(u32, u8)>,
}

/// How often a lookup among a single sibling reads through the buffer, in a leaf and in an index root.
fn unit(ri: bool) -> u64 {
    static U: [OnceLock<u64>; 2] = [OnceLock::new(), OnceLock::new()];
    *U[ri as usize].get_or_init(|| {
        let mut max = 0;
        {
            let b = build(&p03::wide(1, 0, ri, vec![(1, 1)]));
            if let Ok(h) = Hive::without_validation(Fuel(&b.bytes)) {
                if let Ok(r) = h.root_key_node() {
                    for s in ["00000", "0", "1"] {
                        fuel::reset(u64::MAX);
                        let _ = r.subkey(s).is_some();
                        max = max.max(fuel::used());
                    }
                }
            }
        }
        max
    })
}

/// The name to look up.
fn query(u: &[u16], i: u32, how: u8) -> Vec<u16> {
    let put = |at: usize, s: &str| {
        let mut v = u.to_vec();
        v.splice(at..at, s.encode_utf16());
        v
    };
    let odd = ["\u{1f600}", "\u{df}", "\u{130}", "\u{fffd}", "\0", "?", "*", ".", " ", "\t", "\u{ff}", "\u{feff}", "/", "\u{149}", "\u{10ffff}", "e\u{301}"];
    let s = odd[i as usize % odd.len()];
    match how {
        0 => gen::recase(u, i as u64),
        1..7 => gen::near(u, how - 1),
        7 => put(0, s),
        8 => put(u.len(), s),
        9 => put(u.len() / 2, s),
        10 => s.encode_utf16().collect(),
        11 => vec![],
        12 => put(u.len(), &"x".repeat(1 + i as usize % 3000)),
        13 => put(u.len(), &s.repeat(1 + i as usize % 600)),
        14 => put(0, &u[..u.len() / 2].iter().map(|&c| char::from_u32(c as u32).unwrap_or('?')).collect::<String>()),
        15 => u.iter().rev().copied().collect(),
        16 => u.iter().map(|c| c ^ 0x80).collect(),
        17 => u.iter().map(|c| c | 0xff00).collect(),
        18 => vec![u.first().copied().unwrap_or(0x41); 300],
        _ => u[..u.len() / 2].to_vec(),
    }
}

fn log2(n: u64) -> u64 {
    64 - n.leading_zeros() as u64
}

/// The siblings without which the lookup ends differently: found by damaging ever smaller groups.
fn inspected(bytes: &mut [u8], sigs: &[usize], s: &str) -> Result<Vec<usize>, String> {
    // true if the lookup fails when these are damaged
    fn fails(bytes: &mut [u8], sigs: &[usize], lo: usize, hi: usize, s: &str) -> Result<bool, String> {
        for &p in &sigs[lo..hi] {
            bytes[p] ^= 0x55;
        }
        let r = {
            let h = Hive::without_validation(&*bytes).map_err(|e| format!("{e:?}"))?;
            let r = h.root_key_node().map_err(|e| format!("{e:?}"))?;
            matches!(r.subkey(s), Some(Err(_)))
        };
        for &p in &sigs[lo..hi] {
            bytes[p] ^= 0x55;
        }
        Ok(r)
    }
    let mut out = vec![];
    let mut todo = vec![(0, sigs.len())];
    while let Some((lo, hi)) = todo.pop() {
        if lo == hi || !fails(bytes, sigs, lo, hi, s)? {
            continue;
        }
        if hi - lo == 1 {
            out.push(lo);
            // enough to know that there are too many
            if out.len() > 400 {
                break;
            }
        } else {
            let mid = (lo + hi) / 2;
            todo.push((lo, mid));
            todo.push((mid, hi));
        }
    }
    Ok(out)
}

impl Prop for P20 {
    type Case = Case;
    const ID: &'static str = "P20";
    const RULE: &'static str = "cases: n siblings (1..70000; enumerated up to 131072, more than 32767 leaves) in a leaf of each kind or an index root of any partition, looked up present (recased) and absent (names next to present ones, before the first and after the last, with units of all kinds before, in and after them, empty, long). Four measures of the work, each against a bound proportional to log2(n): reads through a counting buffer (in units of a lookup among one sibling), pages of the list read (found by making the pages inaccessible), siblings inspected (found by damaging groups of siblings: the lookup fails exactly if one of them is inspected), machine instructions (from 32767 siblings, by single-stepping; against 64 siblings). Non-trivial: at least 16 siblings.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let max = if tier == Tier::Quick { 20_000 } else { 65_535 };
        let part = (0u8..3, prop_oneof![4 => 1u16..6, 2 => 6u16..80, 1 => 80u16..4000, 1 => any::<u16>()]);
        (
            prop_oneof![6 => 1u32..300, 5 => 300u32..4000, 1 => 4000u32..max],
            0u8..8,
            any::<bool>(),
            vec(part, 1..5),
            any::<bool>(),
            vec((prop_oneof![6 => any::<u32>(), 1 => Just(0u32), 1 => Just(u32::MAX)], prop_oneof![1 => Just(0u8), 1 => 1u8..7, 1 => 7u8..20]), 4..12),
        )
            .prop_map(|(n, style, ri, parts, shuffle, q)| Case { n, style, ri, parts, shuffle, q })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 15_000 } else { 200_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let mut out = vec![];
        let q: Vec<(u32, u8)> = (0..14u32).map(|i| (if i == 0 { 0 } else if i == 1 { u32::MAX } else { i.wrapping_mul(0x9e37_79b9) }, if i > 8 { 7 + (i % 4) as u8 } else { (i % 4) as u8 })).collect();
        // unusual names among all kinds of siblings
        for how in 7..20u8 {
            for style in 0..8 {
                let q: Vec<(u32, u8)> = (0..16).map(|j| (0x1001_0000u32.wrapping_mul(j) | j, how)).collect();
                out.push(Case { n: 3000, style, ri: style % 2 == how % 2, parts: vec![(how % 3, 100 + how as u16)], shuffle: false, q });
            }
        }
        for n in [1u32, 2, 3, 16, 255, 256, 1000, 4096, 16384, 32767, 32768, 32769, 65535] {
            for k in 0..3 {
                out.push(Case { n, style: k, ri: false, parts: vec![(k, 1)], shuffle: k == 2, q: q.clone() });
            }
        }
        for (n, parts) in [
            (65_536u32, vec![(0u8, 65_535u16)]),
            (131_072, vec![(2, 65_535), (1, 1)]),
            (131_072, vec![(1, 2)]),
            (65_535, vec![(1, 1)]),
            (40_000, vec![(2, 1)]),
            (32_768, vec![(0, 1)]),
            (70_000, vec![(1, 1000), (0, 1), (2, 513)]),
            (60_000, vec![(1, 1), (2, 30_000), (1, 1)]),
            (5000, vec![(1, 1), (2, 4000)]),
        ] {
            out.push(Case { n, style: 0, ri: true, parts: parts.clone(), shuffle: false, q: q.clone() });
            out.push(Case { n, style: 3, ri: true, parts, shuffle: true, q: q.clone() });
        }
        out
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let mut h = p03::wide(c.n, c.style, c.ri, c.parts.clone());
        h.lay.shuffle = c.shuffle;
        let b = build(&h);
        let kids = &b.nodes[0].kids;
        let n = kids.len() as u64;
        let ri = b.nodes[0].is_ri;
        // an index root needs two looks at each leaf on the way
        let probes = if ri { 5 * log2(n) / 2 + 6 } else { 3 * log2(n) / 2 + 4 };
        let paged = Paged::new(&b.bytes).ok_or("cannot map memory")?;
        // where the lists are
        let mut list_pages = BTreeSet::new();
        for f in b.fields.iter().filter(|f| matches!(f.kind, FK::ListCell | FK::LeafCell)) {
            let size = (le32(&b.bytes, f.pos) as i32).unsigned_abs() as usize;
            list_pages.extend(f.pos / 4096..=(f.pos + size - 1) / 4096);
        }
        let sigs: Vec<usize> = kids.iter().map(|&k| BASE + b.nodes[k].cell as usize + 4).collect();
        let mut scratch = b.bytes.clone();
        for (qi, (i, how)) in c.q.iter().enumerate() {
            let ix = (*i as u64 * n >> 32) as usize;
            let u = &b.nodes[kids[ix]].units;
            let u = query(u, *i, *how);
            let Some(s) = gen::to_str(&u) else { continue };
            let who = || format!("looking up {s:?} among {n} siblings ({})", if ri { format!("index root, {} leaves", b.nodes[0].leaves.len()) } else { "leaf".into() });
            // 1. accesses
            let hf = Hive::without_validation(Fuel(&b.bytes)).map_err(|e| format!("{e:?}"))?;
            let r = hf.root_key_node().map_err(|e| format!("{e:?}"))?;
            fuel::reset(u64::MAX);
            let found = r.subkey(&s);
            let used = fuel::used();
            obs.checks += 1;
            obs.label(if found.is_some() { "present" } else { "absent" });
            if used > unit(ri) * probes {
                return Err(format!("{} reads {used} times through the buffer; among one sibling {} times", who(), unit(ri)));
            }
            // 2. pages
            let hp = Hive::without_validation(paged.bytes()).map_err(|e| format!("{e:?}"))?;
            let r = hp.root_key_node().map_err(|e| format!("{e:?}"))?;
            paged.arm();
            let _ = r.subkey(&s).is_some();
            let t = paged.touched();
            let lp = t.iter().filter(|p| list_pages.contains(p)).count() as u64;
            obs.checks += 2;
            let cells = 4 * probes;
            if lp > if ri { cells } else { probes } || t.len() as u64 > 2 * cells {
                return Err(format!("{} reads {lp} of the {} pages of the lists, and {} pages in all", who(), list_pages.len(), t.len()));
            }
            // 3. siblings
            if qi < 4 {
                let seen = inspected(&mut scratch, &sigs, &s)?;
                obs.checks += 1;
                obs.add("siblings-inspected", seen.len() as u64);
                if seen.len() as u64 > probes {
                    return Err(format!("{} inspects {} siblings", who(), seen.len()));
                }
            }
        }
        // 4. instructions, on the large ones
        if c.n >= 32_767 {
            let few = Case { n: 64, ..c.clone() };
            let mut hs = p03::wide(few.n, few.style, few.ri, few.parts.clone());
            hs.lay.shuffle = few.shuffle;
            let bs = build(&hs);
            let most = |b: &Built, cap: u64| -> Option<(u64, String)> {
                let kids = &b.nodes[0].kids;
                let h = Hive::without_validation(&b.bytes[..]).ok()?;
                let r = h.root_key_node().ok()?;
                let mut max = (0, String::new());
                for (i, how) in c.q.iter().filter(|(i, _)| matches!(*i, 0 | u32::MAX)).chain(c.q.iter().take(4)) {
                    let u = &b.nodes[kids[(*i as u64 * kids.len() as u64 >> 32) as usize]].units;
                    let Some(s) = gen::to_str(&if *how == 0 { u.clone() } else { query(u, *i, *how) }) else { continue };
                    let n = steps::count(cap, || drop(std::hint::black_box(r.subkey(&s).is_some())))?;
                    if n > max.0 {
                        max = (n, s);
                    }
                }
                Some(max)
            };
            match most(&bs, 400_000) {
                None => obs.label("instructions-not-counted"),
                Some((few, _)) => {
                    // 64 siblings take 7 probes
                    let bound = few * log2(n) / 7 * 4;
                    match most(&b, bound + 1) {
                        None => obs.label("instructions-not-counted"),
                        Some((many, s)) => {
                            obs.checks += 1;
                            obs.label("instructions-counted");
                            if std::env::var("NTV_STATS").is_ok() {
                                eprintln!("STEPS n={n} ri={ri} few={few} many={many} bound={bound}");
                            }
                            if many > bound {
                                return Err(format!("looking up {s:?} among {n} siblings executes more than {bound} instructions; among 64 siblings {few}"));
                            }
                        }
                    }
                }
            }
        }
        obs.label(if ri { "index-root" } else { "leaf" });
        if b.nodes[0].leaves.len() > 32767 {
            obs.label("more-than-32767-leaves");
        }
        if n > 1000 {
            obs.label("more-than-1000-siblings");
        }
        obs.nontrivial = n >= 16;
        if std::env::var("NTV_STATS").is_ok() {
            for (i, how) in &c.q {
                let ix = (*i as u64 * n >> 32) as usize;
                let u = &b.nodes[kids[ix]].units;
                let u = query(u, *i, *how);
                let Some(s) = gen::to_str(&u) else { continue };
                let hf = Hive::without_validation(Fuel(&b.bytes)).unwrap();
                let r = hf.root_key_node().unwrap();
                fuel::reset(u64::MAX);
                let _ = r.subkey(&s).is_some();
                let used = fuel::used();
                let hp = Hive::without_validation(paged.bytes()).unwrap();
                let r = hp.root_key_node().unwrap();
                paged.arm();
                let _ = r.subkey(&s).is_some();
                let t = paged.touched();
                let lp = t.iter().filter(|p| list_pages.contains(p)).count();
                let seen = inspected(&mut scratch, &sigs, &s)?.len();
                eprintln!("STAT ri={} n={n} leaves={} unit={} used={used} ({}%) seen={seen}/{probes} listpages={lp}/{} pages={}", ri, b.nodes[0].leaves.len(), unit(ri), used * 100 / (unit(ri) * probes), list_pages.len(), t.len());
            }
        }
        Ok(())
    }
    fn max_shrink(&self) -> usize {
        400
    }
}
