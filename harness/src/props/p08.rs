//! Integer values and type codes against an independent decoder.
use crate::fuel::{self, Fuel};
use crate::gen;
use crate::model::*;
use crate::runner::*;
use crate::util::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct P08;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V {
    pub typ: u32,
    pub dat: Dat,
    pub inline: bool,
    /// overwrites the size field of the record afterwards
    pub size: Option<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub v: Vec<V>,
    pub lay: LayS,
}

const KNOWN: [(&str, KeyValueDataType); 12] = [
    ("RegNone", KeyValueDataType::RegNone),
    ("RegSZ", KeyValueDataType::RegSZ),
    ("RegExpandSZ", KeyValueDataType::RegExpandSZ),
    ("RegBinary", KeyValueDataType::RegBinary),
    ("RegDWord", KeyValueDataType::RegDWord),
    ("RegDWordBigEndian", KeyValueDataType::RegDWordBigEndian),
    ("RegLink", KeyValueDataType::RegLink),
    ("RegMultiSZ", KeyValueDataType::RegMultiSZ),
    ("RegResourceList", KeyValueDataType::RegResourceList),
    ("RegFullResourceDescriptor", KeyValueDataType::RegFullResourceDescriptor),
    ("RegResourceRequirementsList", KeyValueDataType::RegResourceRequirementsList),
    ("RegQWord", KeyValueDataType::RegQWord),
];

impl Prop for P08 {
    type Case = Case;
    const ID: &'static str = "P08";
    const RULE: &'static str = "cases: up to 12 values with random type codes (known, neighbours of known, random), data of 0..17 bytes or big, inline or in a cell, some with the size field changed afterwards; enumerated: type codes 0..40 and powers of two x sizes 0..12 x forms x content patterns. Non-trivial: some value has an integer type or data of 4 or 8 bytes.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let typ = prop_oneof![
            6 => prop::sample::select(vec![4u32, 5, 11]),
            4 => 0u32..16,
            1 => any::<u32>(),
            1 => (0u32..32, 0u32..12).prop_map(|(b, t)| t ^ (1 << b)),
        ];
        let byte = prop_oneof![2 => any::<u8>(), 1 => prop::sample::select(vec![0u8, 1, 0x7f, 0x80, 0xff])];
        let dat = prop_oneof![
            5 => vec(byte.clone(), 4..=4).prop_map(Dat::B),
            5 => vec(byte.clone(), 8..=8).prop_map(Dat::B),
            4 => vec(byte, 0..18).prop_map(Dat::B),
            1 => (gen::data_len(), any::<u32>()).prop_map(|(n, s)| Dat::Fill(n, s)),
        ];
        let size = prop_oneof![
            12 => Just(None),
            2 => (0u32..20).prop_map(|n| Some(0x8000_0000 | n)),
            1 => prop::sample::select(vec![0u32, 3, 4, 5, 7, 8, 9, 0x4000_0004, 0xc000_0004, 0x8000_0008, 0x1_0004, 0x8001_0004]).prop_map(Some),
        ];
        let v = (typ, dat, any::<bool>(), size).prop_map(|(typ, dat, inline, size)| V { typ, dat, inline, size });
        (vec(v, 1..12), gen::lay()).prop_map(|(v, lay)| Case { v, lay }).boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 1_200_000 } else { 8_000_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let mut out = vec![];
        let types: Vec<u32> = (0..40).chain((5..32).map(|b| 1 << b)).chain((8..32).map(|b| 4 + (1 << b))).chain([u32::MAX, 0x0400_0000, 0x0500_0000, 0x0b00_0000]).collect();
        for typ in types {
            for n in 0..=12usize {
                let mut v = vec![];
                for pat in 0..5u8 {
                    let bytes: Vec<u8> = match pat {
                        0 => vec![0; n],
                        1 => vec![0xff; n],
                        2 => (0..n).map(|i| i as u8 + 1).collect(),
                        3 => (0..n).map(|i| if i == 0 { 0x80 } else { 0 }).collect(),
                        _ => (0..n).map(|i| if i + 1 == n { 0x80 } else { 0 }).collect(),
                    };
                    for inline in [false, true] {
                        v.push(V { typ, dat: Dat::B(bytes.clone()), inline, size: None });
                    }
                }
                for m in [0u32, 1, 3, 4, 5, 8] {
                    v.push(V { typ, dat: Dat::B((0..n as u8).collect()), inline: true, size: Some(0x8000_0000 | m) });
                }
                out.push(Case { v, lay: LayS { junk: true, seed: n as u64, ..LayS::default() } });
            }
            for n in [SEG as u32, SEG as u32 + 1, 2 * SEG as u32, SEG as u32 + 4, SEG as u32 + 8] {
                out.push(Case { v: vec![V { typ, dat: Dat::Fill(n, 3), inline: false, size: None }], lay: LayS::default() });
            }
        }
        out
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let mut h = HiveS::single();
        for (i, v) in c.v.iter().enumerate() {
            h.keys[0].vals.push(ValS { name: Nm::s(&format!("v{i}")), typ: v.typ, dat: v.dat.clone(), inline: v.inline, surplus: 0 });
        }
        h.lay = c.lay.clone();
        let mut b = build(&h);
        for (i, v) in c.v.iter().enumerate() {
            if let Some(s) = v.size {
                let f = *b.fields.iter().find(|f| f.kind == FK::VkSize && f.val == i as u32).unwrap();
                put32(&mut b.bytes, f.pos, s);
            }
        }
        fuel::reset(u64::MAX);
        let hive = Hive::new(Fuel(&b.bytes)).map_err(|e| format!("{e:?}"))?;
        let root = hive.root_key_node().map_err(|e| format!("{e:?}"))?;
        let all = root.values().ok_or("no values")?.map_err(|e| format!("{e:?}"))?;
        let mut n = 0;
        for (i, val) in all.enumerate() {
            n += 1;
            let val = val.map_err(|e| format!("value {i}: {e:?}"))?;
            let v = &c.v[i];
            let w = &b.nodes[0].vals[i];
            let rec = BASE + w.cell as usize + 4;
            let stored = le32(&b.bytes, rec + 4);
            // what the record says, read from the bytes
            let len = (stored & 0x7fff_ffff) as usize;
            let bytes: Option<Vec<u8>> = if stored >> 31 == 1 {
                (len <= 4).then(|| b.bytes[rec + 8..rec + 8 + len].to_vec())
            } else if v.size.is_none() {
                Some(w.data.clone())
            } else if len <= SEG && w.form == Form::Cell && len <= w.data.len() {
                Some(w.data[..len].to_vec())
            } else {
                None // some other region: only integers from 4 or 8 bytes are possible, judged below
            };
            let dw = val.dword_data();
            let qw = val.qword_data();
            let ty = val.data_type();
            obs.checks += 3;
            if matches!(v.typ, 4 | 5 | 11) || matches!(len, 4 | 8) {
                obs.nontrivial = true;
            }
            let unknown = bytes.is_none() && stored >> 31 == 0;
            if val.data_size() as usize != len {
                return Err(format!("value {i}: data_size() = {}, record says {len}", val.data_size()));
            }
            match (&ty, KNOWN.get(v.typ as usize)) {
                (Ok(t), Some((name, k))) if t == k && *t as u32 == v.typ && format!("{t:?}") == *name => (),
                (Err(_), None) => (),
                _ => return Err(format!("value {i}: data_type() = {ty:?}, stored code {:#x}", v.typ)),
            }
            let int = |n: usize| bytes.as_ref().filter(|b| b.len() == n);
            let want_d = match (v.typ, int(4)) {
                (4, Some(b)) => Some(b[0] as u32 + ((b[1] as u32) << 8) + ((b[2] as u32) << 16) + ((b[3] as u32) << 24)),
                (5, Some(b)) => Some(b[3] as u32 + ((b[2] as u32) << 8) + ((b[1] as u32) << 16) + ((b[0] as u32) << 24)),
                _ => None,
            };
            let want_q = match (v.typ, int(8)) {
                (11, Some(b)) => Some((0..8).fold(0u64, |a, k| a + ((b[k] as u64) << (8 * k)))),
                _ => None,
            };
            // a changed size may point past the data into slack: then only the refusals are certain
            let skip_d = unknown && matches!(v.typ, 4 | 5) && len == 4;
            let skip_q = unknown && v.typ == 11 && len == 8;
            if !skip_d && dw.as_ref().ok() != want_d.as_ref() {
                return Err(format!("value {i}: type {:#x}, size field {stored:#x}, data {:x?}: dword_data() = {dw:x?}, expected {want_d:x?}", v.typ, bytes));
            }
            if !skip_q && qw.as_ref().ok() != want_q.as_ref() {
                return Err(format!("value {i}: type {:#x}, size field {stored:#x}, data {:x?}: qword_data() = {qw:x?}, expected {want_q:x?}", v.typ, bytes));
            }
            obs.label(if want_d.is_some() || want_q.is_some() { "number" } else { "refused" });
            for e in dw.err().into_iter().chain(qw.err()).chain(ty.err()) {
                crate::cosim::message_ok(&e)?;
            }
        }
        if n != c.v.len() {
            return Err(format!("{n} of {} values", c.v.len()));
        }
        Ok(())
    }
}
