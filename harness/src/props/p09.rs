//! String and multi-string values against an independent decoder of the whole data.
use crate::cosim::CALL_BUDGET;
use crate::fuel::{self, Fuel};
use crate::gen;
use crate::model::*;
use crate::runner::*;
use crate::util::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct P09;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub dat: Dat,
    pub inline: bool,
    pub surplus: u16,
    pub lay: LayS,
}

const SU: u32 = (SEG / 2) as u32;

impl Prop for P09 {
    type Case = Case;
    const ID: &'static str = "P09";
    const RULE: &'static str = "cases: UTF-16 data, short (rich in NULs, double NULs, paired and unpaired surrogates, odd bytes) or long with the interesting units around segment boundaries, stored under all twelve types and some unknown ones; enumerated: NULs, high/low surrogates, pairs and double NULs at every position -3..+3 around the first three segment boundaries, ends of data there with and without odd byte. Oracle: decode the units of the whole data. Non-trivial: the data contains a NUL, a surrogate, an odd byte or spans segments.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let plain = vec(prop_oneof![5 => gen::unit_any(), 1 => Just(0u16)], 0..40).prop_map(|u| Dat::B(utf16le(&u)));
        let dat = prop_oneof![6 => gen::text_bytes(), 3 => plain, 2 => gen::big_text(), 1 => gen::small_dat()];
        (dat, any::<bool>(), prop_oneof![3 => Just(0u16), 1 => 0u16..3], gen::lay())
            .prop_map(|(dat, inline, surplus, lay)| Case { dat, inline, surplus, lay })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 500_000 } else { 5_000_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let mut out = vec![];
        let mut add = |n: u32, edits: Vec<(u32, u16)>, odd: bool| {
            out.push(Case { dat: Dat::Txt { n, seed: n, edits, odd }, inline: false, surplus: (n % 2) as u16, lay: LayS::default() })
        };
        for seg in 1..4u32 {
            for d in 0..7 {
                let p = seg * SU + d - 3;
                let n = 3 * SU + 40;
                for odd in [false, true] {
                    add(p, vec![], odd);
                }
                for e in [
                    vec![(p, 0u16)],
                    vec![(p, 0), (p + 1, 0)],
                    vec![(p, 0), (p + 2, 0)],
                    vec![(p - 1, 0), (p, 0), (p + 1, 0)],
                    vec![(p, 0xD83D)],
                    vec![(p, 0xDE00)],
                    vec![(p, 0xD83D), (p + 1, 0xDE00)],
                    vec![(p, 0xDE00), (p + 1, 0xD83D)],
                    vec![(p, 0xD83D), (p + 1, 0xD83D), (p + 2, 0xDE00)],
                    vec![(p, 0xD83D), (p + 1, 0)],
                    vec![(p, 0xDBFF), (p + 1, 0xDFFF)],
                    vec![(p, 0xD800), (p + 1, 0xDC00)],
                    vec![(5, 0), (p, 0xD83D), (p + 1, 0xDE00), (p + 4, 0), (p + 5, 0)],
                ] {
                    add(n, e.clone(), false);
                    // the data ends right behind the last of them
                    add(e.last().unwrap().0 + 1, e, true);
                }
            }
        }
        // far beyond a few segments; lines, and counts of lines, around the powers of two
        for segs in [9u32, 10, 16, 17, 32, 33, 64, 65, 129, 256, 257] {
            for d in [-1i32, 0, 1] {
                let n = (segs * SU).saturating_add_signed(d);
                add(n, vec![(n - 2, 0xD83D), (n - 1, 0xDE00)], d == 0);
            }
            let n = segs * SU + 100;
            add(n, vec![(n - 90, 0), (n - 80, 0), (n - 10, 0), (n - 9, 0)], false);
            add(n, (1..segs).flat_map(|s| [(s * SU - 1, 0xD83D), (s * SU, 0xDE00), (s * SU + s, 0)]).collect(), true);
        }
        for n in gen::LENS {
            for n in [n as u32, n as u32 + 1] {
                // a line of n units in the middle
                add(n + 5, vec![(2, 0), (n + 3, 0)], false);
                // n lines
                let k = if n > 5000 { n + 40_000 } else { n };
                add(2 * k + 8, (1..=k).map(|i| (2 * i - 1, 0)).chain([(2 * k, 0)]).collect(), false);
            }
        }
        for n in [65_535u32, 65_536, 65_537, 131_072, 1 << 18] {
            add(n, vec![], false);
            add(n + 2, vec![(n, 0), (n + 1, 0)], false);
            add(n + 12, vec![(4, 0), (n + 5, 0), (n + 10, 0), (n + 11, 0)], false);
        }
        let mut small: Vec<Vec<u8>> = vec![vec![]];
        // every sequence of up to 4 units over a small alphabet, with and without odd byte
        let alpha = [0u16, 0x61, 0xD83D, 0xDE00, 0xFFFF];
        let mut level: Vec<Vec<u16>> = vec![vec![]];
        for _ in 0..4 {
            level = level.iter().flat_map(|s| alpha.iter().map(move |a| [&s[..], &[*a]].concat())).collect();
            for u in &level {
                small.push(utf16le(u));
                let mut b = utf16le(u);
                b.push(0x41);
                small.push(b);
            }
        }
        small.extend([vec![0x41], vec![0], vec![0, 0, 0]]);
        for (i, b) in small.into_iter().enumerate() {
            out.push(Case { dat: Dat::B(b), inline: i % 2 == 0, surplus: 0, lay: LayS::default() });
        }
        out
    }
    fn max_shrink(&self) -> usize {
        2000
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let mut h = HiveS::single();
        let big = c.dat.bytes().len() > SEG;
        // the same data under every type (big data: the text types and two others, to save time)
        let types: Vec<u32> = if big { vec![1, 2, 7, 3, 4] } else { (0..14).chain([0x100, 0x0001_0001, u32::MAX]).collect() };
        for (i, t) in types.iter().enumerate() {
            h.keys[0].vals.push(ValS { name: Nm::s(&format!("v{i}")), typ: *t, dat: c.dat.clone(), inline: c.inline, surplus: c.surplus });
        }
        h.lay = c.lay.clone();
        let b = build(&h);
        let data = c.dat.bytes();
        let units = units_of_utf16le(&data);
        if units.iter().any(|u| *u == 0 || (0xD800..0xE000).contains(u)) || data.len() % 2 == 1 || big {
            obs.nontrivial = true;
        }
        obs.label(if big { "big" } else { "small" });
        let end = units.iter().position(|u| *u == 0).unwrap_or(units.len());
        let text = lossy16(&units[..end]);
        let mut multi = vec![];
        for part in units.split(|u| *u == 0) {
            if part.is_empty() {
                break;
            }
            multi.push(lossy16(part));
        }
        fuel::reset(u64::MAX);
        let hive = Hive::new(Fuel(&b.bytes)).map_err(|e| format!("{e:?}"))?;
        let root = hive.root_key_node().map_err(|e| format!("{e:?}"))?;
        let all = root.values().ok_or("no values")?.map_err(|e| format!("{e:?}"))?;
        for (i, val) in all.enumerate() {
            let val = val.map_err(|e| format!("value {i}: {e:?}"))?;
            let t = types[i];
            obs.checks += 2;
            fuel::reset(CALL_BUDGET);
            match (val.string_data(), t) {
                (Ok(s), 1 | 2) if s == text => (),
                (Err(e), x) if !matches!(x, 1 | 2) => crate::cosim::message_ok(&e)?,
                (r, _) => {
                    return Err(format!("type {t}, {} bytes: string_data() = {}, expected {}", data.len(), show(&r), if matches!(t, 1 | 2) { show(&Ok(text.clone())) } else { "an error".into() }))
                }
            }
            match (val.multi_string_data(), t) {
                (Ok(it), 7) => {
                    let mut got = vec![];
                    let mut it = it;
                    let mut twin = it.clone();
                    loop {
                        fuel::reset(CALL_BUDGET);
                        match it.next() {
                            None => break,
                            Some(r) => got.push(r.map_err(|e| format!("multi string {}: {e:?}", got.len()))?),
                        }
                        if got.len() > multi.len() {
                            break;
                        }
                    }
                    if got != multi {
                        let k = got.iter().zip(&multi).position(|(a, b)| a != b).unwrap_or(got.len().min(multi.len()));
                        return Err(format!(
                            "type 7, {} bytes: {} strings, expected {}; first difference at string {k}: {:?} vs {:?}",
                            data.len(),
                            got.len(),
                            multi.len(),
                            got.get(k).map(|s| trunc(s, 60)),
                            multi.get(k).map(|s| trunc(s, 60))
                        ));
                    }
                    // nothing more at the end, and a copy gives the same
                    if it.next().is_some() || it.next().is_some() {
                        return Err("a string after the end".into());
                    }
                    if twin.by_ref().collect::<Result<Vec<_>>>().map_err(|e| format!("{e:?}"))? != multi {
                        return Err("a clone of the iterator gives other strings".into());
                    }
                }
                (Err(e), x) if x != 7 => crate::cosim::message_ok(&e)?,
                (r, _) => return Err(format!("type {t}: multi_string_data() is_ok = {}", r.is_ok())),
            }
        }
        Ok(())
    }
}

fn show(r: &Result<String>) -> String {
    match r {
        Err(e) => format!("{e:?}"),
        Ok(s) if s.chars().count() <= 60 => format!("{s:?}"),
        Ok(s) => {
            let v: Vec<char> = s.chars().collect();
            format!("{} chars ending in {:?} (hash {:x})", v.len(), v[v.len() - 20..].iter().collect::<String>(), hash64(s.as_bytes()))
        }
    }
}
