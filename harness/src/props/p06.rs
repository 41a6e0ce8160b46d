//! Value lookup.
use crate::cosim::{Sim, CALL_BUDGET};
use crate::fuel::{self, Fuel};
use crate::gen;
use crate::model::*;
use crate::props::p13::gen_q::Q;
use crate::refp::RefHive;
use crate::runner::*;
use crate::util::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct P06;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub vals: Vec<ValS>,
    /// (value, recase): appended again under an equal name
    pub dups: Vec<(u8, u64)>,
    pub lay: LayS,
    pub bulk_vals: u32,
    pub q: Vec<Q>,
    /// (kind, value, how)
    pub d: Vec<(u8, u16, gen::How)>,
}

impl Prop for P06 {
    type Case = Case;
    const ID: &'static str = "P06";
    const RULE: &'static str = "cases: a key with 0..12 values of random names (tiny alphabets, empty names, duplicates ignoring case, both encodings), sometimes hundreds more; every stored name, recased forms, near misses, the empty name and random names are looked up; half of the cases have 1..3 damaged value records, name lengths, list entries or cells. Oracle: first match in stored order by the reference reader (record identity by address), plus the real enumeration. Non-trivial: at least 2 values or damage.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let val = (
            prop_oneof![
                3 => gen::val_name(),
                3 => vec(prop::sample::select(vec![b'a' as u16, b'A' as u16, b'b' as u16]), 0..3).prop_map(|u| Nm { u, w: false }),
                1 => vec(prop::sample::select(vec![0xe0u16, 0xc0, 0x430, 0x410, 0x61]), 0..3).prop_map(|u| Nm { u, w: true }),
            ],
            gen::vtype(),
            gen::small_dat(),
            any::<bool>(),
        )
            .prop_map(|(name, typ, dat, inline)| ValS { name, typ, dat, inline, surplus: 0 });
        (
            vec(val, 0..12),
            vec((any::<u8>(), any::<u64>()), 0..4),
            gen::lay(),
            prop_oneof![12 => Just(0u32), 1 => 1u32..400],
            vec(crate::props::p13::gen_q::q(), 0..6),
            prop_oneof![1 => Just(vec![]), 1 => vec((any::<u8>(), any::<u16>(), gen::how()), 1..4)],
        )
            .prop_map(|(vals, dups, lay, bulk_vals, q, d)| Case { vals, dups, lay, bulk_vals, q, d })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 300_000 } else { 4_000_000 }
    }
    fn fixed(&self, tier: Tier) -> Vec<Case> {
        let mut out = vec![];
        let v = |n: &str, i: u8| ValS { name: Nm::s(n), typ: 3, dat: Dat::B(vec![i; 4]), inline: true, surplus: 0 };
        // every kind of damage at every position of a small list, every name asked for
        let names = ["alpha", "", "Beta", "ALPHA", "gamma", "beta", ""];
        let vals: Vec<ValS> = names.iter().enumerate().map(|(i, n)| v(n, i as u8)).collect();
        for kind in 0..KINDS.len() as u8 {
            for pos in 0..names.len() as u16 {
                for how in [0u32, 1, 7, 0x7fff, 0xffff, 0xffff_ffff, 0xffff_fff8, 0x6b6e, 8].map(gen::How::Set).into_iter().chain([gen::How::Neg, gen::How::Add(1), gen::How::Add(-1)]) {
                    out.push(Case { vals: vals.clone(), dups: vec![], lay: LayS { seed: pos as u64, ..LayS::default() }, bulk_vals: 0, q: vec![], d: vec![(kind, pos, how)] });
                }
            }
        }
        out.push(Case { vals: vals.clone(), dups: vec![], lay: LayS::default(), bulk_vals: if tier == Tier::Quick { 3000 } else { 20_000 }, q: vec![], d: vec![] });
        // more values than 16 bits count, and so many that a call per value overflows the stack
        for n in [65_535u32, 65_536, 65_600, if tier == Tier::Quick { 300_000 } else { 900_000 }] {
            for d in [vec![], vec![(3u8, n as u16 % 100 + 65_400, gen::How::Set(0x7fff_fff8))]] {
                out.push(Case { vals: vals.clone(), dups: vec![(0, 3)], lay: LayS::default(), bulk_vals: n, q: vec![], d });
            }
        }
        // long names, among them some that share all but the last unit
        for n in gen::LENS {
            let lat = |e: u16| Nm { u: (0..n).map(|i| 0x61 + (i % 23) as u16).chain([e]).skip(1).collect(), w: false };
            let wide = |e: u16| Nm { u: lat(e).u, w: true };
            let of = |name: Nm| ValS { name, typ: 3, dat: Dat::B(vec![1]), inline: true, surplus: 0 };
            out.push(Case { vals: vec![of(lat(0x79)), of(wide(0x78)), of(wide(0x444)), of(lat(0xdf)), of(lat(0x58)), v("a", 1)], dups: vec![], lay: LayS::default(), bulk_vals: 0, q: vec![], d: vec![] });
        }
        out
    }
    fn tight(&self, c: &Case) -> bool {
        c.bulk_vals >= 10_000
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let mut h = HiveS::single();
        h.lay = c.lay.clone();
        h.keys[0].vals = c.vals.clone();
        h.keys[0].bulk_vals = c.bulk_vals;
        for (i, r) in &c.dups {
            if !c.vals.is_empty() {
                let mut v = c.vals[*i as usize % c.vals.len()].clone();
                v.name.u = gen::recase(&v.name.u, *r);
                v.name.w = r & 1 == 1;
                h.keys[0].vals.push(v);
            }
        }
        let b = build(&h);
        let mut bytes = b.bytes.clone();
        for (k, i, how) in &c.d {
            let kind = KINDS[*k as usize % KINDS.len()];
            let of: Vec<&Field> = b.fields.iter().filter(|f| f.kind == kind && f.len > 0).collect();
            if !of.is_empty() {
                gen::apply_how(&mut bytes, &b, of[*i as usize % of.len()], how);
                obs.label(&format!("damaged-{kind:?}"));
            }
        }
        let vals = &b.nodes[0].vals;
        obs.nontrivial = vals.len() >= 2 || !c.d.is_empty();
        let mut qs: Vec<String> = vec!["".into(), "bv0".into(), "BV17".into()];
        let step = if vals.len() > 10_000 { vals.len() / 8 } else { vals.len() / 60 + 1 };
        for (i, v) in vals.iter().enumerate().filter(|(i, _)| i % step == 0 || *i + 1 == vals.len()) {
            qs.push(gen::text(&v.units));
            qs.push(gen::text(&gen::recase(&v.units, c.lay.seed.rotate_left(i as u32))));
            qs.push(gen::text(&gen::near(&v.units, (c.lay.seed as u8).wrapping_add(i as u8))));
        }
        qs.extend(c.q.iter().filter_map(|q| q.text(&b.nodes)));
        let r = RefHive::new(&bytes);
        let hv = Hive::without_validation(Fuel(&bytes)).map_err(|e| format!("{e:?}"))?;
        let (root, w) = match (hv.root_key_node(), r.root()) {
            (Ok(a), Ok(b)) => (a, b),
            _ => return Ok(()),
        };
        let mut o2 = Obs::default();
        let mut sim = Sim::new(&r, bytes.as_ptr() as usize, &mut o2);
        for q in &qs {
            sim.value_lookup("root", &root, w, q)?;
        }
        obs.checks += o2.checks;
        for (k, v) in o2.labels {
            obs.add(&k, v);
        }
        // the same against the real enumeration
        fuel::reset(CALL_BUDGET);
        if let Some(Ok(it)) = root.values() {
            let all: Vec<Result<KeyValue<'_, Fuel<'_>>>> = it.collect();
            fuel::reset(u64::MAX);
            // (folded name, or the error) of each up to the first error
            let mut folded: Vec<Result<Vec<u16>>> = vec![];
            for v in &all {
                let n = v.as_ref().map_err(|e| e.clone()).and_then(|v| v.name());
                folded.push(n.map(|n| {
                    fold(&match n {
                        NtHiveNameString::Latin1(b) => units_of_latin1(b),
                        NtHiveNameString::Utf16LE(b) => units_of_utf16le(b),
                    })
                }));
                if folded.last().unwrap().is_err() {
                    break;
                }
            }
            for q in &qs {
                fuel::reset(CALL_BUDGET);
                let f = fold(&q.encode_utf16().collect::<Vec<_>>());
                let mut want: Option<Result<&KeyValue<'_, Fuel<'_>>>> = None;
                for (i, n) in folded.iter().enumerate() {
                    match n {
                        Err(e) => {
                            want = Some(Err(e.clone()));
                            break;
                        }
                        Ok(n) if *n == f => {
                            want = Some(Ok(all[i].as_ref().unwrap()));
                            break;
                        }
                        Ok(_) => (),
                    }
                }
                obs.checks += 1;
                let ok = match (root.value(q), &want) {
                    (None, None) => true,
                    (Some(Err(a)), Some(Err(b))) => a == *b,
                    (Some(Ok(a)), Some(Ok(b))) => a == **b,
                    _ => false,
                };
                if !ok {
                    return Err(format!("value({q:?}) disagrees with the first match of the enumeration"));
                }
            }
        }
        Ok(())
    }
}
const KINDS: [FK; 11] = [
    FK::VkNameLen, FK::VkSig, FK::VkCell, FK::ValsItem, FK::VkFlags, FK::NkValCount, FK::NkValOff, FK::ValsCell, FK::VkName, FK::VkNameLen, FK::VkSize,
];
