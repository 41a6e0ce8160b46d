use crate::fuel::Fuel;
use crate::gen::{self, TreeOpt};
use crate::model::*;
use crate::runner::*;
use crate::treesim;
use nt_hive::Hive;
use proptest::prelude::*;

pub struct P03;

pub fn chain(n: usize) -> HiveS {
    let mut h = HiveS::single();
    for i in 1..n {
        let mut k = KeyS::named("d");
        k.parent = i as u16 - 1;
        k.list.ri = i % 3 == 0;
        h.keys.push(k);
    }
    h
}

/// One key with `n` subkeys in the given representation.
pub fn wide(n: u32, style: u8, ri: bool, parts: Vec<(u8, u16)>) -> HiveS {
    let mut h = HiveS::single();
    h.keys[0].bulk = Some((n, style));
    h.keys[0].list = ListS { ri, parts, empty: false };
    h
}

/// Names and class names of all special lengths in both encodings.
pub fn long_names() -> Vec<HiveS> {
    let mut v = vec![];
    for (i, n) in gen::LENS.into_iter().enumerate() {
        for w in [false, true] {
            let mut h = HiveS::single();
            let nm = |c: char, d: usize| {
                let mut u = vec![c as u16; n.saturating_sub(d)];
                u.extend("xyz".encode_utf16().take(d));
                Nm { u, w }
            };
            // names that agree up to their end
            for (c, d) in [('k', 0), ('k', 1), ('k', 2), ('\u{e4}', 1)] {
                let mut k = KeyS::named("x");
                k.name = nm(c, d);
                k.class = (d > 0).then(|| nm(if w { '\u{416}' } else { 'c' }, d).u);
                k.list.ri = i % 2 == 0;
                h.keys.push(k);
            }
            h.keys[0].list.ri = i % 2 == 0;
            for (c, d) in [('v', 1), ('v', 0), ('V', 0), ('\u{e4}', 1), (if w { '\u{416}' } else { 'w' }, 0)] {
                h.keys[0].vals.push(ValS { name: nm(c, d), typ: 3, dat: Dat::B(vec![d as u8 + 1; 3]), inline: true, surplus: 0 });
            }
            v.push(h);
        }
    }
    v
}

pub fn big_shapes(thorough: bool) -> Vec<HiveS> {
    let mut v = vec![];
    for (i, n) in [1u32, 2, 255, 256, 257, 1023, 4096, 16384, 32767, 32768, 32769, 65534, 65535].into_iter().enumerate() {
        v.push(wide(n, i as u8, false, vec![(i as u8 % 3, 1)]));
        if thorough {
            v.push(wide(n, i as u8 + 1, false, vec![(i as u8 % 3 + 1, 1)]));
            v.push(wide(n, i as u8 + 1, false, vec![(i as u8 % 3 + 2, 1)]));
        }
    }
    // index roots with few large leaves, many small leaves, more than 32767 leaves, more than 65535 keys
    v.push(wide(65536, 0, true, vec![(0, 65535)]));
    v.push(wide(70000, 1, true, vec![(1, 1000), (0, 1), (2, 513)]));
    v.push(wide(32767, 2, true, vec![(2, 1)]));
    v.push(wide(32768, 0, true, vec![(2, 1)]));
    v.push(wide(33000, 0, true, vec![(1, 1)]));
    v.push(wide(65535, 3, true, vec![(0, 1)]));
    v.push(wide(131072, 0, true, vec![(1, 2)]));
    v.push(chain(300));
    v.push(chain(if thorough { 5000 } else { 1100 }));
    let mut h = HiveS::single();
    h.keys[0].bulk_vals = if thorough { 300_000 } else { 70_000 };
    v.push(h);
    v
}

impl Prop for P03 {
    type Case = HiveS;
    const ID: &'static str = "P03";
    const RULE: &'static str = "cases: random trees (up to 24 explicit keys, some with bulk subkeys, random names in both encodings, class names, values) x random list representation per key x random cell layout; enumerated: list sizes up to 131072, chains up to 512 deep, 70000 values. Non-trivial: at least 3 keys or values beyond the root and the whole tree was compared.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<HiveS> {
        let keys = if tier == Tier::Quick { 24 } else { 60 };
        prop_oneof![
            6 => gen::hive(TreeOpt { keys, vals: 5, big: false, bulk: 600 }),
            2 => gen::siblings(60),
            1 => gen::hive(TreeOpt { keys: 80, vals: 2, big: false, bulk: 0 }),
        ]
        .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 150_000 } else { 1_500_000 }
    }
    fn fixed(&self, tier: Tier) -> Vec<HiveS> {
        let mut v = big_shapes(tier == Tier::Thorough);
        v.extend(long_names());
        v
    }
    fn check(&self, c: &HiveS, obs: &mut Obs) -> Result<(), String> {
        let b = build(c);
        let h = Hive::new(Fuel(&b.bytes)).map_err(|e| format!("valid hive refused: {e:?}"))?;
        treesim::tree(&h, &b.nodes, treesim::Opt { values: true, data: false }, obs)?;
        obs.nontrivial = b.nodes.len() + b.nodes.iter().map(|n| n.vals.len()).sum::<usize>() >= 4;
        for n in &b.nodes {
            if n.is_ri {
                obs.label(if n.leaves.len() > 1 { "index-root-several-leaves" } else { "index-root" });
            }
            if n.has_list && n.kids.is_empty() {
                obs.label("empty-list");
            }
        }
        if b.nodes.iter().any(|n| n.depth >= 5) {
            obs.label("depth>=5");
        }
        if b.nodes.iter().any(|n| n.kids.len() > 100) {
            obs.label("more-than-100-subkeys");
        }
        Ok(())
    }
}
