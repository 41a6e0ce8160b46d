use crate::cosim::Sim;
use crate::fuel::Fuel;
use crate::gen::{self, Dmg, TreeOpt};
use crate::model::*;
use crate::refp::RefHive;
use crate::runner::*;
use nt_hive::Hive;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

pub struct P13;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub h: HiveS,
    pub d: Vec<Dmg>,
    pub q: Vec<gen_q::Q>,
}
pub mod gen_q {
    use super::*;
    /// a query string
    #[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
    pub enum Q {
        /// name of the i-th key (modulo), recased
        Key(u16, u64),
        /// name of some value
        Val(u16, u64),
        /// neighbour of a key name
        Near(u16, u8),
        NearVal(u16, u8),
        Lit(Vec<u16>),
    }
    pub fn q() -> BoxedStrategy<Q> {
        prop_oneof![
            4 => (any::<u16>(), any::<u64>()).prop_map(|(i, r)| Q::Key(i, r)),
            3 => (any::<u16>(), any::<u64>()).prop_map(|(i, r)| Q::Val(i, r)),
            3 => (any::<u16>(), any::<u8>()).prop_map(|(i, r)| Q::Near(i, r)),
            1 => (any::<u16>(), any::<u8>()).prop_map(|(i, r)| Q::NearVal(i, r)),
            2 => gen::valid_units(5).prop_map(Q::Lit),
            1 => gen::word().prop_map(Q::Lit),
        ]
        .boxed()
    }
    impl Q {
        pub fn units(&self, t: &[TNode]) -> Vec<u16> {
            let key = |i: u16| &t[i as usize % t.len()].units;
            let nv: usize = t.iter().map(|n| n.vals.len()).sum();
            let val = |i: u16| -> &[u16] {
                if nv == 0 {
                    return &[];
                }
                let mut k = i as usize % nv;
                for n in t {
                    if k < n.vals.len() {
                        return &n.vals[k].units;
                    }
                    k -= n.vals.len();
                }
                &[]
            };
            match self {
                Q::Key(i, r) => gen::recase(key(*i), *r),
                Q::Val(i, r) => gen::recase(val(*i), *r),
                Q::Near(i, h) => gen::near(key(*i), *h),
                Q::NearVal(i, h) => gen::near(val(*i), *h),
                Q::Lit(u) => u.clone(),
            }
        }
        pub fn text(&self, t: &[TNode]) -> Option<String> {
            Some(gen::text(&self.units(t)))
        }
    }
}

pub fn damaged(o: TreeOpt, maxd: usize) -> BoxedStrategy<Case> {
    (prop_oneof![3 => gen::hive(o), 1 => gen::siblings(30)], vec(gen::dmg(), 0..maxd.max(1) + 1), prop::option::weighted(0.1, (prop_oneof![4 => 0u16..128, 1 => any::<u16>()], any::<u32>())), vec(gen_q::q(), 0..4))
        .prop_map(|(mut h, mut d, head, q)| {
            h.lay.trailing = 0;
            // opened without validation, the base block matters for the root only
            d.extend(head.map(|(at, val)| Dmg::Head { at, val }));
            Case { h, d, q }
        })
        .boxed()
}

impl Prop for P13 {
    type Case = Case;
    const ID: &'static str = "P13";
    const RULE: &'static str = "cases: random hives (all list kinds, value forms, big data) x 0..4 damages aimed at every kind of on-disk field (or bytes, truncation, copies); enumerated: each kind of field x 60 special values. Every operation on everything reachable is compared with the reference reader's answer or set of true faults. Non-trivial: at least one error was reported and judged.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let big = TreeOpt { keys: 6, vals: 4, big: true, bulk: 0 };
        let small = TreeOpt { keys: 8, vals: 4, big: false, bulk: 40 };
        let n = if tier == Tier::Quick { 3 } else { 5 };
        prop_oneof![5 => damaged(small, n), 2 => damaged(big, n)].boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 200_000 } else { 3_000_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let mut v = systematic();
        v.extend(pairs());
        v.extend(far_ends());
        for at in 0..1024u16 {
            for val in [0u32, 1, 0xffff_ffff, 0x8000_0000, 6, 0xdead_beef] {
                if at < 130 || val == 0xdead_beef {
                    v.push(Case { h: showcase(at as u64 % 2), d: vec![Dmg::Head { at, val }], q: vec![] });
                }
            }
        }
        v
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let b = build(&c.h);
        let mut bytes = b.bytes.clone();
        let hit = gen::apply(&mut bytes, &b, &c.d);
        for k in hit {
            obs.label(&format!("damaged-{k:?}"));
        }
        check_bytes(bytes.into_boxed_slice(), c.q.iter().filter_map(|q| q.text(&b.nodes)).collect(), obs)
    }
    fn raw(&self, r: &crate::rawfuzz::Raw, obs: &mut Obs) -> Option<Result<(), String>> {
        Some(check_bytes(r.bytes.clone().into_boxed_slice(), r.q.clone(), obs))
    }
}

fn check_bytes(bytes: Box<[u8]>, q: Vec<String>, obs: &mut Obs) -> Result<(), String> {
    let r = RefHive::new(&bytes);
    let h = Hive::without_validation(Fuel(&bytes)).map_err(|e| format!("refused: {e:?}"))?;
    let mut o2 = Obs::default();
    let mut sim = Sim::new(&r, bytes.as_ptr() as usize, &mut o2);
    sim.extra_names = q;
    sim.lookup_cap = 12;
    let res = sim.hive(&h);
    obs.nontrivial = o2.labels.contains_key("errors-compared");
    obs.checks += o2.checks;
    for (k, v) in o2.labels {
        obs.add(&k, v);
    }
    res
}

/// A hive that contains every kind of structure.
pub fn showcase(seed: u64) -> HiveS {
    let v = |n: &str, typ: u32, dat: Dat, inline: bool| ValS { name: Nm::s(n), typ, dat, inline, surplus: 0 };
    let mut h = HiveS::single();
    h.lay = LayS { seed, shuffle: seed % 2 == 1, gap: 60, slack: (seed % 3) as u8, bins: 30, minor: 5, trailing: 0, junk: true, fat: None };
    h.keys[0].class = Some("cls".encode_utf16().collect());
    h.keys[0].list = ListS { ri: true, parts: vec![(0, 2), (1, 1), (2, 3)], empty: false };
    h.keys[0].vals = vec![
        v("dw", 4, Dat::B(vec![1, 2, 3, 4]), true),
        v("dwc", 5, Dat::B(vec![1, 2, 3, 4]), false),
        v("qw", 11, Dat::B(vec![1, 2, 3, 4, 5, 6, 7, 8]), true),
        v("sz", 1, Dat::Txt { n: 5, seed: 1, edits: vec![], odd: false }, true),
        v("msz", 7, Dat::Txt { n: 9, seed: 1, edits: vec![(3, 0), (7, 0), (8, 0)], odd: false }, true),
        v("big", 1, Dat::Txt { n: 20000, seed: 1, edits: vec![(8171, 0xD801), (8172, 0xDC01)], odd: false }, true),
        v("bigm", 7, Dat::Txt { n: 9000, seed: 1, edits: vec![(100, 0), (8172, 0)], odd: true }, true),
        v("", 3, Dat::Fill(100, 3), true),
        v("none", 0, Dat::B(vec![]), false),
        v("none0", 3, Dat::B(vec![]), true),
    ];
    let names = ["Alpha", "beta", "Gamma", "delta", "eps", "zeta", "Theta", "_x"];
    for (i, n) in names.iter().enumerate() {
        let mut k = KeyS::named(n);
        k.list.parts = vec![(i as u8, 1)];
        k.vol = i as u32;
        k.name.w = i % 3 == 1;
        if i % 2 == 0 {
            k.vals.push(v("v1", 1, Dat::B(vec![65, 0, 0, 0]), true));
            k.vals.push(v("v2", 3, Dat::B(vec![1, 2, 3, 4, 5]), true));
        }
        h.keys.push(k);
    }
    for i in 0..4u16 {
        let mut k = KeyS::named(if i % 2 == 0 { "Sub" } else { "other" });
        k.parent = 1 + i / 2;
        k.class = Some(vec![0x41]);
        h.keys.push(k);
    }
    h
}

pub fn far_shapes() -> Vec<HiveS> {
    let mut vals = HiveS::single();
    vals.keys[0].bulk_vals = 66_000;
    vec![vals, super::p03::wide(65535, 0, false, vec![(1, 1)]), super::p03::wide(66_000, 1, true, vec![(0, 40_000), (2, 1000)]), super::p03::chain(1100)]
}

/// Damage near the ends of very long lists and very deep down.
fn far_ends() -> Vec<Case> {
    let mut out = vec![];
    for h in far_shapes() {
        let b = build(&h);
        let mut kinds: Vec<FK> = b.fields.iter().filter(|f| f.len > 0).map(|f| f.kind).collect();
        kinds.sort_unstable();
        kinds.dedup();
        for k in 0..kinds.len() as u16 {
            let n = b.fields.iter().filter(|f| f.kind == kinds[k as usize] && f.len > 0).count() as u32;
            if n < 500 {
                continue;
            }
            for back in [1u32, 400] {
                out.push(Case { h: h.clone(), d: vec![Dmg::Field { kind: k, i: n - back, how: gen::How::Neg }], q: vec![gen_q::Q::Key(65534, 1), gen_q::Q::Val(65535, 2)] });
                out.push(Case { h: h.clone(), d: vec![Dmg::Field { kind: k, i: n - back, how: gen::How::Set(0xffff) }], q: vec![] });
            }
        }
    }
    out
}

/// Two fields of one record, or of a record and what it points to, wrong at the same time.
fn pairs() -> Vec<Case> {
    use gen::How::*;
    let mut out = vec![];
    let h = showcase(0);
    let b = build(&h);
    let mut kinds: Vec<FK> = b.fields.iter().filter(|f| f.len > 0).map(|f| f.kind).collect();
    kinds.sort_unstable();
    kinds.dedup();
    // (kind, number among its kind) of one field of each kind that belongs to `node` and `val`
    let of = |node: u32, val: u32| -> Vec<(u16, u32)> {
        let mut v = vec![];
        for (k, kind) in kinds.iter().enumerate() {
            let same: Vec<_> = b.fields.iter().filter(|f| f.kind == *kind && f.len > 0).collect();
            if let Some(i) = same.iter().rposition(|f| f.node == node && f.val == val) {
                v.push((k as u16, i as u32));
            }
        }
        v
    };
    let hows = [Set(0), Set(1), Set(0xffff_ffff), Set(0x8000_0000), Set(0x3fd9), Add(8), Add(-1), Neg];
    let owners: BTreeSet<(u32, u32)> = b.fields.iter().filter(|f| f.node <= 1 && f.len > 0).map(|f| (f.node, f.val)).collect();
    for (node, val) in owners {
        let f = of(node, val);
        for (n, (k1, i1)) in f.iter().enumerate() {
            for (k2, i2) in &f[n + 1..] {
                for a in &hows {
                    for c in &hows {
                        let d = vec![Dmg::Field { kind: *k1, i: *i1, how: a.clone() }, Dmg::Field { kind: *k2, i: *i2, how: c.clone() }];
                        out.push(Case { h: h.clone(), d, q: vec![] });
                    }
                }
            }
        }
    }
    out
}

fn systematic() -> Vec<Case> {
    let mut out = vec![];
    let specials = [
        0u32, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 19, 20, 24, 75, 76, 80, 0x7f, 0x80, 0xff, 0x100, 0xfff, 0x1000, 0x3fd8, 0x3fd9, 0x7fff, 0x8000, 0xfffe,
        0xffff, 0x1_0000, 0x7fff_fff8, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x8000_0003, 0x8000_0004, 0x8000_0005, 0x8000_0008, 0x4000_0000,
        0xffff_0000, 0xffff_efff, 0xffff_f000, 0xffff_ffb0, 0xffff_ffe8, 0xffff_fff0, 0xffff_fff8, 0xffff_fffc, 0xffff_fffe, 0xffff_ffff, 0xdead_beef,
        0x6b6e, 0x6b76, 0x666c, 0x686c, 0x696c, 0x6972, 0x6264, 0x3fff_ffff, 0xc000_0000,
    ];
    let q = vec![gen_q::Q::Key(2, 0x1b), gen_q::Q::Val(1, 0x1b), gen_q::Q::Near(3, 1)];
    for seed in 0..2u64 {
        let h = showcase(seed);
        let b = build(&h);
        let mut kinds: Vec<FK> = b.fields.iter().filter(|f| f.len > 0).map(|f| f.kind).collect();
        kinds.sort_unstable();
        kinds.dedup();
        for k in 0..kinds.len() as u16 {
            for i in 0..3u32 {
                for s in specials {
                    out.push(Case { h: h.clone(), d: vec![Dmg::Field { kind: k, i: i * 7, how: gen::How::Set(s) }], q: q.clone() });
                }
                for a in [-9i32, -8, -1, 1, 8, 16, 64] {
                    out.push(Case { h: h.clone(), d: vec![Dmg::Field { kind: k, i: i * 7, how: gen::How::Add(a) }], q: q.clone() });
                }
                for e in [-8i8, -5, -4, -3, -1, 0, 1, 8] {
                    out.push(Case { h: h.clone(), d: vec![Dmg::Field { kind: k, i: i * 7, how: gen::How::End(e) }], q: q.clone() });
                }
                out.push(Case { h: h.clone(), d: vec![Dmg::Field { kind: k, i: i * 7, how: gen::How::Neg }], q: q.clone() });
            }
        }
    }
    out
}
