//! Name comparison against the lexicographic order of independently uppercased units.
use crate::gen;
use crate::runner::*;
use crate::util::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

pub struct P11;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// (units, prefer the wide encoding)
    pub n: Vec<(Vec<u16>, bool)>,
}

struct S {
    u: Vec<u16>,
    forms: Vec<(bool, Vec<u8>)>,
    text: Option<String>,
}
fn prep(u: &[u16]) -> S {
    let mut forms = vec![(false, utf16le(u))];
    if u.iter().all(|x| *x <= 0xff) {
        forms.push((true, u.iter().map(|x| *x as u8).collect()));
    }
    S { u: u.to_vec(), forms, text: checked16(u) }
}
fn nm(f: &(bool, Vec<u8>)) -> NtHiveNameString<'_> {
    if f.0 {
        NtHiveNameString::Latin1(&f.1)
    } else {
        NtHiveNameString::Utf16LE(&f.1)
    }
}

macro_rules! ops {
    ($what:expr, $a:expr, $b:expr, $w:expr) => {{
        let w = $w;
        let p = PartialOrd::partial_cmp($a, $b);
        if p != Some(w) {
            return Err(format!("{}: partial_cmp = {:?}, expected {:?}", $what, p, w));
        }
        let all = [
            ($a == $b) == (w == Ordering::Equal),
            ($a != $b) == (w != Ordering::Equal),
            ($a < $b) == (w == Ordering::Less),
            ($a <= $b) == (w != Ordering::Greater),
            ($a > $b) == (w == Ordering::Greater),
            ($a >= $b) == (w != Ordering::Less),
        ];
        if let Some(i) = all.iter().position(|x| !x) {
            return Err(format!("{}: operator {} disagrees with {:?}", $what, ["==", "!=", "<", "<=", ">", ">="][i], w));
        }
    }};
}

/// A name in messages.
struct Nt<'a>(&'a [u16], &'static str);
impl std::fmt::Display for Nt<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.len() > 80 {
            write!(f, "{} units ending in ", self.0.len())?;
        }
        write!(f, "{:x?} ({})", &self.0[self.0.len().saturating_sub(80)..], self.1)
    }
}
struct Vs<'a>(Nt<'a>, Nt<'a>);
impl std::fmt::Display for Vs<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} against {}", self.0, self.1)
    }
}
fn enc(latin: bool) -> &'static str {
    if latin {
        "Latin1"
    } else {
        "UTF-16"
    }
}

fn pair(a: &S, b: &S, obs: &mut Obs) -> Result<(), String> {
    let want = fold(&a.u).cmp(&fold(&b.u));
    if want == Ordering::Equal && a.u != b.u {
        obs.label("equal-ignoring-case");
    }
    for fa in &a.forms {
        let x = nm(fa);
        for fb in &b.forms {
            let y = nm(fb);
            obs.checks += 1;
            let what = Vs(Nt(&a.u, enc(fa.0)), Nt(&b.u, enc(fb.0)));
            if x.cmp(&y) != want {
                return Err(format!("{what}: cmp = {:?}, expected {want:?}", x.cmp(&y)));
            }
            ops!(what, &x, &y, want);
            if want == Ordering::Less && (std::cmp::max(&x, &y) != &y || std::cmp::min(x.clone(), y.clone()) != x) {
                return Err(format!("{what}: max/min"));
            }
        }
        if let Some(t) = &b.text {
            obs.checks += 2;
            let t: &str = t;
            let what = Vs(Nt(&a.u, enc(fa.0)), Nt(&b.u, "text"));
            ops!(what, &x, t, want);
            ops!(what, &x, &t, want);
            let what = Vs(Nt(&b.u, "text"), Nt(&a.u, enc(fa.0)));
            ops!(what, t, &x, want.reverse());
            ops!(what, &t, &x, want.reverse());
        }
    }
    Ok(())
}

impl Prop for P11 {
    type Case = Case;
    const ID: &'static str = "P11";
    const RULE: &'static str = "cases: 2 to 4 related names (recased, prefixes, near misses, random with surrogates), every pair in both encodings and as text on either side through all comparison operators; enumerated: every UTF-16 unit against its uppercase form, its neighbours, and fixed pivots. Oracle: lexicographic order of the units mapped by Java 17's simple uppercase table. Non-trivial: two names that share their first unit ignoring case.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        #[derive(Clone, Debug)]
        enum Rel {
            Recase(u64),
            Near(u8),
            Both(u64, u8),
            Prefix(u8),
            Swap(u8, u16),
            Free(Vec<u16>),
        }
        let rel = prop_oneof![
            4 => any::<u64>().prop_map(Rel::Recase),
            2 => any::<u8>().prop_map(Rel::Near),
            3 => (any::<u64>(), any::<u8>()).prop_map(|(a, b)| Rel::Both(a, b)),
            2 => any::<u8>().prop_map(Rel::Prefix),
            3 => (any::<u8>(), gen::unit_any()).prop_map(|(a, b)| Rel::Swap(a, b)),
            1 => gen::units(5).prop_map(Rel::Free),
        ];
        let long = (gen::long_len(), gen::units(6), gen::unit_any()).prop_map(|(n, e, u)| {
            // long ones seldom: they take longer
            let n = if n > 600 && e.len() % 4 != 0 { n % 97 } else { n };
            [vec![u; n], e].concat()
        });
        (prop_oneof![40 => gen::units(8), 20 => gen::valid_units(8), 20 => gen::name().prop_map(|n| n.u), 1 => long], vec((rel, any::<bool>()), 1..4))
            .prop_map(|(u, rs)| {
                let mut n = vec![(u.clone(), false)];
                let mut cur = u;
                for (r, w) in rs {
                    cur = match r {
                        Rel::Recase(b) => gen::recase(&cur, b),
                        Rel::Near(h) => gen::near(&cur, h),
                        Rel::Both(b, h) => gen::near(&gen::recase(&cur, b), h),
                        Rel::Prefix(k) => cur[..k as usize % (cur.len() + 1)].to_vec(),
                        Rel::Swap(k, x) => {
                            let mut c = cur.clone();
                            if !c.is_empty() {
                                let k = k as usize % c.len();
                                c[k] = x;
                            }
                            c
                        }
                        Rel::Free(f) => f,
                    };
                    n.push((cur.clone(), w));
                }
                Case { n }
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 300_000 } else { 6_000_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let mut out = vec![];
        for c in 0..=0xffffu32 {
            let c = c as u16;
            let mut n: Vec<Vec<u16>> = vec![vec![c]];
            for v in [up(c), c.wrapping_add(1), c.wrapping_sub(1), up(c).wrapping_add(1), up(c).wrapping_sub(1)] {
                n.push(vec![v]);
            }
            for v in variants(c) {
                n.push(vec![v]);
            }
            n.dedup();
            out.push(Case { n: n.into_iter().map(|u| (u, false)).collect() });
            // as the second unit, and against fixed pivots
            out.push(Case { n: vec![(vec![0x61, c], false), (vec![0x41, up(c)], false), (vec![0x41, 0x5f], false), (vec![0x41], false), (vec![0x7a], false)] });
        }
        // long names that differ (or not) only far behind, or in length
        for n in gen::LENS {
            let base = |w: bool| -> Vec<u16> { (0..n).map(|i| 0x61 + (i % 23) as u16 + if w && i == n / 2 { 0x3d0 } else { 0 }).collect() };
            for w in [false, true] {
                let b = base(w);
                let at = |i: usize, u: u16| {
                    let mut c = b.clone();
                    c[i] = u;
                    c
                };
                let ext = |u: &[u16]| [&b[..], u].concat();
                let up: Vec<u16> = b.iter().map(|u| up(*u)).collect();
                for m in [vec![at(n - 1, 0x5f), up.clone(), at(n - 1, 0x7a)], vec![b[..n - 1].to_vec(), ext(&[0x41]), ext(&[0x61, 0x61])], vec![at(n - 2, 0xff), at(n - 1, 0x178), ext(&[0xdf])]] {
                    out.push(Case { n: [b.clone()].into_iter().chain(m).map(|u| (u, false)).collect() });
                }
            }
        }
        // all pairs of the first 0x180 units in steps
        for a in 0..0x100u16 {
            for b in (0..0x100u16).step_by(8) {
                out.push(Case { n: std::iter::once((vec![a], false)).chain((b..b + 8).map(|x| (vec![x], false))).collect() });
            }
        }
        out
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let mut s: Vec<S> = c.n.iter().map(|(u, _)| prep(u)).collect();
        // what a name with undecodable units would be displayed as is another name
        for i in 0..s.len() {
            if s[i].text.is_none() {
                s.push(prep(&crate::gen::text(&s[i].u).encode_utf16().collect::<Vec<_>>()));
            }
        }
        for (i, a) in s.iter().enumerate() {
            for b in &s[i..] {
                if !a.u.is_empty() && !b.u.is_empty() && up(a.u[0]) == up(b.u[0]) && a.u != b.u {
                    obs.nontrivial = true;
                }
                pair(a, b, obs)?;
                pair(b, a, obs)?;
            }
        }
        // sorting with the crate's order gives an order by the reference
        let mut names: Vec<NtHiveNameString<'_>> = s.iter().map(|x| nm(&x.forms[x.forms.len() - 1])).collect();
        names.sort();
        let key = |n: &NtHiveNameString<'_>| match n {
            NtHiveNameString::Latin1(b) => fold(&units_of_latin1(b)),
            NtHiveNameString::Utf16LE(b) => fold(&units_of_utf16le(b)),
        };
        for w in names.windows(2) {
            if key(&w[0]) > key(&w[1]) {
                return Err(format!("sorted: {:?} before {:?}", w[0], w[1]));
            }
        }
        Ok(())
    }
}
