//! Name text conversions against an independent decoder.
use crate::fuel::{self, Fuel};
use crate::gen;
use crate::model::*;
use crate::runner::*;
use crate::util::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct P10;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// the bytes as a name of either encoding
    Raw(Vec<u8>),
    Units(Vec<u16>),
    /// read as key name, class name and value name of a hive
    InHive(Nm),
}

fn one(s: &NtHiveNameString<'_>, obs: &mut Obs) -> Result<(), String> {
    let (units, n, odd) = match s {
        NtHiveNameString::Latin1(b) => (units_of_latin1(b), b.len(), false),
        NtHiveNameString::Utf16LE(b) => (units_of_utf16le(b), b.len(), b.len() % 2 == 1),
    };
    obs.checks += 5;
    if s.len() != n || s.is_empty() != (n == 0) {
        return Err(format!("{s:?}: len() = {}, is_empty() = {}", s.len(), s.is_empty()));
    }
    let checked = s.to_string_checked();
    let lossy = s.to_string_lossy();
    let shown = format!("{s}");
    let again = s.to_string();
    if odd {
        // what a lone byte at the end stands for is not specified; the units before it are
        let w = lossy16(&units);
        for g in [&lossy, &shown, &again] {
            if !g.starts_with(&w) || g.chars().count() > w.chars().count() + 1 {
                return Err(format!("{s:?}: text {g:?}, expected {w:?}"));
            }
        }
        return Ok(());
    }
    let (wc, wl) = (checked16(&units), lossy16(&units));
    if checked != wc {
        return Err(format!("{units:x?}: to_string_checked() = {checked:?}, expected {wc:?}"));
    }
    if lossy != wl {
        return Err(format!("{units:x?}: to_string_lossy() = {lossy:?}, expected {wl:?}"));
    }
    if shown != wl || again != wl {
        return Err(format!("{units:x?}: displayed as {shown:?} / {again:?}, expected {wl:?}"));
    }
    // a width may pad the text as a whole, but not its characters
    for padded in [format!("{s:>3}"), format!("{s:<6}"), format!("{s:^w$}", w = (lossy.chars().count() + 3).min(60_000))] {
        obs.checks += 1;
        let at = padded.find(&wl);
        if !at.is_some_and(|k| padded[..k].chars().chain(padded[k + wl.len()..].chars()).all(|c| c == ' ')) {
            return Err(format!("{units:x?}: displayed with a width as {padded:?}, expected {wl:?}"));
        }
    }
    obs.label(if wc.is_some() { "decodable" } else { "undecodable" });
    Ok(())
}

impl Prop for P10 {
    type Case = Case;
    const ID: &'static str = "P10";
    const RULE: &'static str = "cases: random byte strings read in both encodings, random unit strings with paired and unpaired surrogates, the same as key, class and value names of a hive; enumerated: every single UTF-16 unit alone and between letters, every Latin-1 byte, all pairs and triples over boundary surrogates. Non-trivial: a unit that is not ASCII.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let sur = vec(prop::sample::select(vec![0xD800u16, 0xDBFF, 0xDC00, 0xDFFF, 0xD7FF, 0xE000, 0x61, 0xD83D, 0xDE00, 0xFFFF, 0]), 0..12);
        prop_oneof![
            3 => vec(any::<u8>(), 0..24).prop_map(Case::Raw),
            3 => gen::units(20).prop_map(Case::Units),
            3 => sur.clone().prop_map(Case::Units),
            2 => gen::val_name().prop_map(Case::InHive),
            2 => (sur, any::<bool>()).prop_map(|(u, w)| Case::InHive(Nm { u, w })),
            1 => (vec(0u16..256, 0..300), any::<bool>()).prop_map(|(u, w)| Case::InHive(Nm { u, w })),
        ]
        .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 2_500_000 } else { 20_000_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let mut out = vec![];
        for c in 0..=0xffff_u32 {
            let c = c as u16;
            out.push(Case::Units(vec![c]));
            out.push(Case::Units(vec![0x61, c, 0x62]));
        }
        for b in 0..=255u8 {
            out.push(Case::Raw(vec![b]));
            out.push(Case::Raw(vec![0x41, b, 0x42]));
            out.push(Case::InHive(Nm { u: vec![b as u16], w: false }));
            out.push(Case::InHive(Nm { u: vec![b as u16], w: true }));
        }
        let e = [0xD7FFu16, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0x61];
        for a in e {
            for b in e {
                out.push(Case::Units(vec![a, b]));
                for c in e {
                    out.push(Case::Units(vec![a, b, c]));
                    for d in e {
                        out.push(Case::Units(vec![a, b, c, d]));
                    }
                }
            }
        }
        for h in (0xD800..0xDC00u16).step_by(31) {
            for l in (0xDC00..0xE000u16).step_by(37) {
                out.push(Case::Units(vec![h, l]));
            }
        }
        out
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        match c {
            Case::Raw(b) => {
                obs.nontrivial = b.iter().any(|x| *x >= 0x80);
                one(&NtHiveNameString::Latin1(b), obs)?;
                one(&NtHiveNameString::Utf16LE(b), obs)?;
                one(&NtHiveNameString::Utf16LE(b).clone(), obs)
            }
            Case::Units(u) => {
                obs.nontrivial = u.iter().any(|x| *x >= 0x80);
                let b = utf16le(u);
                one(&NtHiveNameString::Utf16LE(&b), obs)?;
                if u.iter().all(|x| *x <= 0xff) {
                    let l: Vec<u8> = u.iter().map(|x| *x as u8).collect();
                    one(&NtHiveNameString::Latin1(&l), obs)?;
                }
                Ok(())
            }
            Case::InHive(n) => {
                obs.nontrivial = n.u.iter().any(|x| *x >= 0x80);
                let mut h = HiveS::single();
                h.lay.junk = true;
                h.keys[0].name = n.clone();
                h.keys[0].class = Some(n.u.clone());
                h.keys[0].vals = vec![ValS { name: n.clone(), typ: 1, dat: Dat::B(vec![]), inline: true, surplus: 0 }];
                let b = build(&h);
                fuel::reset(u64::MAX);
                let hive = Hive::new(Fuel(&b.bytes)).map_err(|e| format!("{e:?}"))?;
                let r = hive.root_key_node().map_err(|e| format!("{e:?}"))?;
                // (the builder keeps backslashes out of key names)
                let t = &b.nodes[0];
                let mut names = vec![("key name", r.name().map_err(|e| format!("{e:?}"))?, t.units.clone())];
                match r.class_name() {
                    Some(c) => names.push(("class name", c.map_err(|e| format!("{e:?}"))?, n.u[..n.u.len().min(32767)].to_vec())),
                    None if b.nodes[0].class.is_none() => (),
                    None => return Err("class name missing".into()),
                }
                for v in r.values().ok_or("no values")?.map_err(|e| format!("{e:?}"))? {
                    names.push(("value name", v.and_then(|v| v.name()).map_err(|e| format!("{e:?}"))?, t.vals[0].units.clone()));
                }
                if names.len() < 2 {
                    return Err("value missing".into());
                }
                for (what, s, u) in names {
                    one(&s, obs).map_err(|e| format!("{what}: {e}"))?;
                    let wl = lossy16(&u);
                    if s.to_string_lossy() != wl {
                        return Err(format!("{what}: {} chars {:?}, stored {} chars {:?}", s.to_string_lossy().chars().count(), trunc(&s.to_string_lossy(), 200), wl.chars().count(), trunc(&wl, 200)));
                    }
                }
                Ok(())
            }
        }
    }
}
