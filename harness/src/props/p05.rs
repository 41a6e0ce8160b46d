//! subpath() against successive subkey() calls and against the stored tree.
use crate::fuel::{self, Fuel};
use crate::gen::{self, Dmg, TreeOpt};
use crate::model::*;
use crate::props::p04::key_at;
use crate::runner::*;
use crate::util::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zerocopy::SplitByteSlice;

pub struct P05;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathQ {
    /// key the path leads to (modulo), and how many levels above it the path starts
    pub to: u16,
    pub up: u8,
    pub recase: u64,
    /// backslashes before each component and at the end (cycled)
    pub seps: Vec<u8>,
    /// (component, how): changed into something else
    pub tweak: Option<(u8, Tw)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tw {
    Near(u8),
    Lit(Vec<u16>),
    Dup,
    Drop,
    Dot,
    DotDot,
    Slash,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub h: HiveS,
    pub p: Vec<PathQ>,
    pub raw: Vec<(u16, Vec<u16>)>,
    /// from a key: a piece so many times, then an end
    #[serde(default)]
    pub rep: Vec<(u16, u32, String, String)>,
    /// the first subkey of the root has the same subkeys as the root: a bottomless tree
    #[serde(default)]
    pub cyclic: bool,
    pub d: Vec<Dmg>,
}

fn same<'h, B: SplitByteSlice>(a: &Option<Result<KeyNode<'h, B>>>, b: &Option<Result<KeyNode<'h, B>>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(Err(x)), Some(Err(y))) => x == y,
        (Some(Ok(x)), Some(Ok(y))) => {
            let at = match (x.name(), y.name()) {
                (Ok(_), Ok(_)) => key_at(x) == key_at(y),
                (Err(a), Err(b)) => a == b,
                _ => false,
            };
            x == y && at
        }
        _ => false,
    }
}
fn show<B: SplitByteSlice>(a: &Option<Result<KeyNode<'_, B>>>) -> String {
    match a {
        None => "absent".into(),
        Some(Err(e)) => format!("{e:?}"),
        Some(Ok(k)) => format!("key {:?}", k.name()),
    }
}

fn fold_path<'h, B: SplitByteSlice>(start: &KeyNode<'h, B>, path: &str) -> Option<Result<KeyNode<'h, B>>>
where
    KeyNode<'h, B>: Clone,
{
    let mut cur = start.clone();
    let mut comp = String::new();
    for c in path.chars().chain(['\\']) {
        if c == '\\' {
            if !comp.is_empty() {
                match cur.subkey(&comp)? {
                    Ok(k) => cur = k,
                    Err(e) => return Some(Err(e)),
                }
                comp.clear();
            }
        } else {
            comp.push(c);
        }
    }
    Some(Ok(cur))
}

impl Prop for P05 {
    type Case = Case;
    const ID: &'static str = "P05";
    const RULE: &'static str = "cases: random (often deep) trees, paths to random keys from random ancestors with recased components and 0..4 backslashes at every joint, components replaced, dropped, doubled or misspelt, random strings, 1 in 3 hives damaged. Oracle: character-wise split and successive subkey() calls (all hives), and the stored tree (undamaged). Non-trivial: a path of at least 2 components.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let tw = prop_oneof![
            3 => any::<u8>().prop_map(Tw::Near),
            2 => gen::valid_units(4).prop_map(Tw::Lit),
            1 => Just(Tw::Dup), 1 => Just(Tw::Drop), 1 => Just(Tw::Dot), 1 => Just(Tw::DotDot), 1 => Just(Tw::Slash),
        ];
        let sep = prop_oneof![6 => Just(1u8), 2 => 2u8..5];
        let ends = prop_oneof![2 => Just(0u8), 1 => 1u8..4];
        let p = (any::<u16>(), any::<u8>(), any::<u64>(), ends, vec(sep, 1..4), prop::option::weighted(0.35, (any::<u8>(), tw)))
            .prop_map(|(to, up, recase, e, mut seps, tweak)| {
                seps.push(e);
                PathQ { to, up, recase, seps, tweak }
            });
        let chars = prop::sample::select("\\\\\\aAb_/.ßÀ\u{10410}".encode_utf16().filter(|u| !(0xD800..0xE000).contains(u)).collect::<Vec<_>>());
        let deep = gen::hive(TreeOpt { keys: 30, vals: 0, big: false, bulk: 0 });
        let d = prop_oneof![2 => Just(vec![]), 1 => vec(gen::dmg(), 1..3)];
        (prop_oneof![3 => deep, 1 => gen::siblings(20)], vec(p, 1..10), vec((any::<u16>(), vec(chars, 0..8)), 0..4), d)
            .prop_map(|(h, p, raw, d)| Case { h, p, raw, rep: vec![], cyclic: false, d })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 500_000 } else { 4_000_000 }
    }
    fn fixed(&self, tier: Tier) -> Vec<Case> {
        let h = crate::props::p03::chain(400);
        let p = (0..12u16).map(|i| PathQ { to: 399 - i * 30, up: 255, recase: i as u64, seps: vec![1 + (i % 3) as u8, 1, i as u8 % 2], tweak: None }).collect();
        let mut v = vec![Case { h, p, raw: vec![], rep: vec![], cyclic: false, d: vec![] }];
        for n in [600u16, 1100, if tier == Tier::Thorough { 20_000 } else { 4100 }] {
            let h = crate::props::p03::chain(n as usize);
            let p = (0..4u16).map(|i| PathQ { to: n - 1 - i * 30, up: 255, recase: i as u64, seps: vec![1 + (i % 3) as u8, 1, i as u8 % 2], tweak: None }).collect();
            v.push(Case { h, p, raw: vec![], rep: vec![], cyclic: false, d: vec![] });
        }
        let n = if tier == Tier::Thorough { 20_000_000 } else { 3_000_000u32 };
        let m = n / 8;
        let r = |n: u32, a: &str, b: &str| (0u16, n, a.to_string(), b.to_string());
        let mut h = crate::props::p03::chain(2);
        h.keys.push(KeyS::named("e"));
        for rep in [
            vec![r(n, "\\", ""), r(n, "\\", "d"), r(n, "\\", "x"), (1, n, "\\".into(), String::new())],
            vec![r(n, "d", ""), r(1, "d\\", &"\\".repeat(n as usize)), r(n, "x", "")],
            vec![r(m, "d\\", ""), r(m, "\\D", "")],
            vec![r(m, "d\\", "E"), r(m, "D\\\\", "x"), r(m, "x\\", "")],
        ] {
            v.push(Case { h: h.clone(), p: vec![], raw: vec![], rep, cyclic: true, d: vec![] });
        }
        v
    }
    fn tight(&self, c: &Case) -> bool {
        !c.rep.is_empty() || c.h.keys.len() > 300
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let b = build(&c.h);
        let mut bytes = b.bytes.clone();
        gen::apply(&mut bytes, &b, &c.d);
        let t = &b.nodes;
        if c.cyclic && t.len() > 1 {
            let at = |i: usize| BASE + t[i].cell as usize + 4 + 28;
            let list = le32(&bytes, at(0));
            put32(&mut bytes, at(1), list);
            obs.label("bottomless");
        }
        fuel::reset(u64::MAX);
        let clean = c.d.is_empty() && !c.cyclic;
        let h = match Hive::without_validation(Fuel(&bytes)) {
            Ok(h) => h,
            Err(_) => return Ok(()),
        };
        let root = match h.root_key_node() {
            Ok(r) => r,
            Err(e) if clean => return Err(format!("root: {e:?}")),
            Err(_) => return Ok(()),
        };
        // handles to start from: found by walking down entry by entry
        let start = |i: usize| -> Option<KeyNode<'_, Fuel<'_>>> {
            let mut path = vec![];
            let mut j = i;
            while j != 0 {
                let p = t[j].parent;
                path.push(t[p].kids.iter().position(|k| *k == j)?);
                j = p;
            }
            let mut cur = root.clone();
            for k in path.into_iter().rev() {
                cur = cur.subkeys()?.ok()?.nth(k)?.ok()?;
            }
            Some(cur)
        };
        let ask = |from: usize, path: &str, want: Option<Option<usize>>, obs: &mut Obs| -> Result<(), String> {
            let Some(s) = start(from) else { return Ok(()) };
            fuel::reset(u64::MAX);
            let got = s.subpath(path);
            let exp = fold_path(&s, path);
            obs.checks += 1;
            if !same(&got, &exp) {
                return Err(format!("from key #{from}: subpath({}) gives {}, successive lookups give {}", trunc(&format!("{path:?}"), 3000), show(&got), show(&exp)));
            }
            if clean {
                if let Some(w) = want {
                    let ok = match (&got, w) {
                        (None, None) => true,
                        (Some(Ok(k)), Some(i)) => key_at(k)? == bytes.as_ptr() as usize + BASE + t[i].cell as usize + 80,
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("from key #{from}: subpath({}) gives {}, the tree says key {w:?}", trunc(&format!("{path:?}"), 3000), show(&got)));
                    }
                }
            }
            obs.label(match got {
                None => "absent",
                Some(Ok(_)) => "found",
                Some(Err(_)) => "error",
            });
            Ok(())
        };
        let model = |from: usize, comps: &[Vec<u16>]| -> Option<usize> {
            let mut cur = from;
            for c in comps {
                let f = fold(c);
                cur = *t[cur].kids.iter().find(|k| fold(&t[**k].units) == f)?;
            }
            Some(cur)
        };
        for q in &c.p {
            let to = q.to as usize % t.len();
            let mut from = to;
            let mut comps: Vec<Vec<u16>> = vec![];
            for _ in 0..q.up as usize % (t[to].depth + 1) + usize::from(q.up == 255) * t[to].depth {
                if from == 0 {
                    break;
                }
                comps.push(gen::recase(&t[from].units, q.recase.rotate_left(from as u32)));
                from = t[from].parent;
            }
            comps.reverse();
            if let (Some((k, tw)), false) = (&q.tweak, comps.is_empty()) {
                let k = *k as usize % comps.len();
                match tw {
                    Tw::Near(n) => comps[k] = gen::near(&comps[k], *n),
                    Tw::Lit(l) => comps[k] = l.clone(),
                    Tw::Dup => comps.insert(k, comps[k].clone()),
                    Tw::Drop => {
                        comps.remove(k);
                    }
                    Tw::Dot => comps.insert(k, vec![b'.' as u16]),
                    Tw::DotDot => comps.insert(k, vec![b'.' as u16; 2]),
                    Tw::Slash => comps[k].push(b'/' as u16),
                }
            }
            // components that contain backslashes fall apart; empty ones vanish
            let comps: Vec<Vec<u16>> =
                comps.iter().flat_map(|c| c.split(|u| *u == b'\\' as u16).map(|p| p.to_vec()).collect::<Vec<_>>()).filter(|c| !c.is_empty()).collect();
            let (&end, seps) = q.seps.split_last().unwrap();
            let mut units: Vec<u16> = vec![b'\\' as u16; end as usize];
            for (i, c) in comps.iter().enumerate() {
                if i > 0 {
                    let n = seps.get(i % seps.len().max(1)).copied().unwrap_or(1).max(1);
                    units.extend(vec![b'\\' as u16; n as usize]);
                }
                units.extend(c);
            }
            units.extend(vec![b'\\' as u16; q.recase as usize % 3]);
            let Some(path) = gen::to_str(&units) else { continue };
            if comps.len() >= 2 {
                obs.nontrivial = true;
            }
            obs.label(&format!("components-{}", comps.len().min(6)));
            ask(from, &path, Some(model(from, &comps)), obs)?;
        }
        for (from, u) in &c.raw {
            if let Some(p) = gen::to_str(u) {
                ask(*from as usize % t.len(), &p, None, obs)?;
            }
        }
        for (from, n, a, b) in &c.rep {
            obs.nontrivial = true;
            obs.label("huge-path");
            ask(*from as usize % t.len(), &(a.repeat(*n as usize) + b), None, obs)?;
        }
        // nothing but backslashes: the key itself
        for p in ["", "\\", "\\\\\\"] {
            ask(0, p, Some(Some(0)), obs)?;
            let last = t.len() - 1;
            ask(last, p, Some(Some(last)), obs)?;
        }
        Ok(())
    }
}
