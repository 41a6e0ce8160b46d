//! Subkey lookup against enumeration and the stored tree.
use crate::cosim::{Sim, CALL_BUDGET};
use crate::fuel::{self, Fuel};
use crate::gen::{self, Dmg, How, TreeOpt};
use crate::model::*;
use crate::props::{p03, p13::gen_q::Q};
use crate::refp::RefHive;
use crate::runner::*;
use crate::util::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use zerocopy::SplitByteSlice;

pub struct P04;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub h: HiveS,
    pub q: Vec<Q>,
    pub recase: u64,
    /// list entries left in insertion order
    pub unsorted: bool,
    pub d: Vec<Dmg>,
}

/// Address of the bytes of a readable name.
pub fn name_at(n: &NtHiveNameString<'_>) -> usize {
    match n {
        NtHiveNameString::Latin1(b) | NtHiveNameString::Utf16LE(b) => b.as_ptr() as usize,
    }
}
pub fn key_at<B: SplitByteSlice>(k: &KeyNode<'_, B>) -> Result<usize, String> {
    k.name().map(|n| name_at(&n)).map_err(|e| format!("name of a key of a well-formed hive: {e:?}"))
}

/// Every query in one key against the stored children (well-formed, sorted).
pub fn strict<B: SplitByteSlice>(n: &KeyNode<'_, B>, t: &[TNode], i: usize, base: usize, queries: &[String], recase: u64, obs: &mut Obs) -> Result<(), String> {
    let w = &t[i];
    let mut kids: Vec<KeyNode<'_, B>> = vec![];
    fuel::reset(u64::MAX);
    if let Some(it) = n.subkeys() {
        for k in it.map_err(|e| format!("key #{i}: subkeys(): {e:?}"))? {
            kids.push(k.map_err(|e| format!("key #{i}: subkey: {e:?}"))?);
        }
    }
    if kids.len() != w.kids.len() {
        return Err(format!("key #{i}: {} subkeys enumerated, {} stored", kids.len(), w.kids.len()));
    }
    let mut map: HashMap<Vec<u16>, usize> = HashMap::new();
    for (j, k) in w.kids.iter().enumerate() {
        map.insert(fold(&t[*k].units), j);
    }
    let ask = |q: &str, obs: &mut Obs| -> Result<(), String> {
        let want = map.get(&fold(&q.encode_utf16().collect::<Vec<_>>())).copied();
        fuel::reset(CALL_BUDGET);
        obs.checks += 1;
        match (n.subkey(q), want) {
            (None, None) => {
                obs.label("absent-lookups");
                Ok(())
            }
            (Some(Ok(g)), Some(j)) => {
                obs.label("present-lookups");
                let at = key_at(&g)?;
                let stored = base + BASE + t[w.kids[j]].cell as usize + 4 + 76;
                if at != stored || at != key_at(&kids[j])? {
                    return Err(format!("key #{i}: subkey({q:?}) returned {:?} (record at {:#x}) instead of subkey {j} at {:#x}", g.name(), at - base, stored - base));
                }
                if g != kids[j] {
                    return Err(format!("key #{i}: subkey({q:?}) is not equal to enumerated subkey {j}"));
                }
                Ok(())
            }
            (None, Some(j)) => Err(format!("key #{i}: subkey({q:?}) not found, but it is subkey {j} of {}", w.kids.len())),
            (Some(Ok(g)), None) => Err(format!("key #{i}: subkey({q:?}) found {:?}, but no such subkey is stored", g.name())),
            (Some(Err(e)), _) => Err(format!("key #{i}: subkey({q:?}) failed on a well-formed hive: {e:?}")),
        }
    };
    let many = w.kids.len() > 3000;
    for (j, k) in w.kids.iter().enumerate() {
        let u = &t[*k].units;
        if gen::to_str(u).is_none() {
            ask(&gen::text(u), obs)?;
        }
        if let Some(s) = gen::to_str(u) {
            ask(&s, obs)?;
            if !many || j % 97 == 0 {
                if let Some(s) = gen::to_str(&gen::recase(u, recase.wrapping_add(j as u64 * 0x9E37))) {
                    ask(&s, obs)?;
                }
                let upper = fold(u);
                if let Some(s) = gen::to_str(&upper) {
                    ask(&s, obs)?;
                }
            }
        }
        if !many || j % 31 == 0 || j + 2 > w.kids.len() {
            for how in [(recase as u8).wrapping_add(j as u8), 4] {
                if let Some(s) = gen::to_str(&gen::near(u, how)) {
                    ask(&s, obs)?;
                }
            }
        }
    }
    for q in queries {
        ask(q, obs)?;
    }
    ask("", obs)
}

fn walk<B: SplitByteSlice>(n: &KeyNode<'_, B>, t: &[TNode], i: usize, base: usize, qs: &[String], r: u64, obs: &mut Obs) -> Result<(), String> {
    strict(n, t, i, base, qs, r, obs)?;
    if t[i].kids.iter().all(|k| t[*k].kids.is_empty()) {
        return Ok(());
    }
    if let Some(it) = n.subkeys() {
        for (j, k) in it.map_err(|e| format!("{e:?}"))?.enumerate() {
            let k = k.map_err(|e| format!("{e:?}"))?;
            fuel::reset(u64::MAX);
            walk(&k, t, t[i].kids[j], base, qs, r, obs)?;
        }
    }
    Ok(())
}

impl Prop for P04 {
    type Case = Case;
    const ID: &'static str = "P04";
    const RULE: &'static str = "cases: random sibling sets and trees (names dense around prefixes, '_' between the letter cases, both encodings, non-ASCII case pairs) x list representation x layout; every stored name, its recased and uppercased forms, near misses and random names are looked up in every key and compared with the stored tree; 1 in 4 cases has unsorted or damaged lists, where the reference reader says which keys a lookup may return. Enumerated: lists of up to 131072 subkeys incl. index roots of more than 32767 leaves, all names looked up. Non-trivial: some key has at least 2 subkeys.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let sib = if tier == Tier::Quick { 40 } else { 120 };
        let h = prop_oneof![
            4 => gen::siblings(sib),
            2 => gen::siblings(6),
            2 => gen::hive(TreeOpt { keys: 16, vals: 1, big: false, bulk: 300 }),
        ];
        let list_dmg = (any::<u16>(), any::<u32>(), gen::how()).prop_map(|(k, i, how)| Dmg::Field { kind: k, i, how });
        let swap = (any::<u32>(), any::<u16>()).prop_map(|(i, c)| Dmg::Field { kind: u16::MAX, i, how: How::Cell(c) });
        (h, vec(crate::props::p13::gen_q::q(), 0..6), any::<u64>(), prop::bool::weighted(0.12), prop_oneof![7 => Just(vec![]), 1 => vec(prop_oneof![list_dmg, swap], 1..3)])
            .prop_map(|(h, q, recase, unsorted, d)| Case { h, q, recase, unsorted, d })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 300_000 } else { 3_000_000 }
    }
    fn fixed(&self, tier: Tier) -> Vec<Case> {
        let mut v: Vec<HiveS> = p03::big_shapes(tier == Tier::Thorough);
        v.extend(p03::long_names());
        v.retain(|h| h.keys[0].bulk.is_some());
        // every small size in every representation, every position found
        for n in 1..=40u32 {
            for kind in 0..3 {
                v.push(p03::wide(n, n as u8, false, vec![(kind, 1)]));
            }
            for parts in [vec![(0, 1)], vec![(1, 2), (2, 1)], vec![(2, 7)], vec![(0, 3), (1, 1), (2, 5)]] {
                v.push(p03::wide(n, n as u8 + 1, true, parts));
            }
        }
        v.into_iter().map(|h| Case { h, q: vec![], recase: 0x1b1b, unsorted: false, d: vec![] }).collect()
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let b = build_tree(&c.h, tree_opt(&c.h, !c.unsorted));
        let qs: Vec<String> = c.q.iter().filter_map(|q| q.text(&b.nodes)).collect();
        obs.nontrivial = b.nodes.iter().any(|n| n.kids.len() >= 2);
        for n in &b.nodes {
            if n.kids.len() >= 2 {
                obs.label(if n.is_ri { "index-root" } else { "leaf" });
            }
        }
        if !c.unsorted && c.d.is_empty() {
            let base = b.bytes.as_ptr() as usize;
            let h = Hive::new(Fuel(&b.bytes)).map_err(|e| format!("valid hive refused: {e:?}"))?;
            let root = h.root_key_node().map_err(|e| format!("root: {e:?}"))?;
            return walk(&root, &b.nodes, 0, base, &qs, c.recase, obs);
        }
        let mut bytes = b.bytes.clone();
        let kinds = [FK::ListSig, FK::ListCount, FK::LeafSig, FK::LeafCount, FK::RiItem, FK::LeafItem, FK::ListCell, FK::LeafCell, FK::NkCell, FK::NkSig, FK::NkNameLen, FK::NkSubOff, FK::NkFlags, FK::NkName];
        for d in &c.d {
            if let Dmg::Field { kind, i, how } = d {
                let want = if *kind == u16::MAX { FK::LeafItem } else { kinds[*kind as usize % kinds.len()] };
                let of: Vec<&Field> = b.fields.iter().filter(|f| f.kind == want && f.len > 0).collect();
                if !of.is_empty() {
                    let f = of[*i as usize % of.len()];
                    let how = match how {
                        // another key's record
                        How::Cell(x) if want == FK::LeafItem => How::Set(b.nodes[*x as usize % b.nodes.len()].cell),
                        h => h.clone(),
                    };
                    gen::apply_how(&mut bytes, &b, f, &how);
                }
            }
        }
        obs.label(if c.d.is_empty() { "unsorted" } else { "damaged" });
        let r = RefHive::new(&bytes);
        let h = Hive::without_validation(Fuel(&bytes)).map_err(|e| format!("{e:?}"))?;
        let mut o2 = Obs::default();
        let mut sim = Sim::new(&r, bytes.as_ptr() as usize, &mut o2);
        sim.extra_names = qs;
        sim.lookup_cap = 200;
        let res = sim.hive(&h);
        obs.checks += o2.checks;
        for (k, v) in o2.labels {
            obs.add(&k, v);
        }
        res
    }
}
