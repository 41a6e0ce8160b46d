//! Value data: the stored bytes come back, for every size and storage form.
use crate::cosim::CALL_BUDGET;
use crate::fuel::{self, Fuel};
use crate::gen;
use crate::model::*;
use crate::runner::*;
use crate::treesim::{self, Opt};
use crate::util::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct P07;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Vals { vals: Vec<ValS>, lay: LayS },
    /// one big value whose segment list names the same segment over and over: a huge value in a small file
    Huge { size: u32, seed: u32, spare: u16 },
}

fn v(name: &str, n: u32, seed: u32, inline: bool, surplus: u16) -> ValS {
    ValS { name: Nm::s(name), typ: 3, dat: Dat::Fill(n, seed), inline, surplus }
}

fn vals(vals: &[ValS], lay: &LayS, obs: &mut Obs) -> Result<(), String> {
    let mut h = HiveS::single();
    h.keys[0].vals = vals.to_vec();
    h.lay = lay.clone();
    let b = build(&h);
    let t = &b.nodes;
    for x in &t[0].vals {
        let n = x.data.len();
        let near = n <= 5 || (n + 2) % SEG <= 4;
        if n > 0 && (near || n > SEG) {
            obs.nontrivial = true;
        }
        obs.label(match x.form {
            Form::Inline => "inline",
            Form::Cell => "cell",
            Form::Big => "big",
        });
    }
    let hive = Hive::new(Fuel(&b.bytes)).map_err(|e| format!("{e:?}"))?;
    treesim::tree(&hive, t, Opt { values: true, data: true }, obs)?;
    // handed-out slices are the stored bytes themselves, and asking again or from a clone changes nothing
    fuel::reset(CALL_BUDGET);
    let root = hive.root_key_node().map_err(|e| format!("{e:?}"))?;
    let Some(it) = root.values() else { return Ok(()) };
    let lo = b.bytes.as_ptr() as usize;
    for (i, val) in it.map_err(|e| format!("{e:?}"))?.enumerate() {
        let val = val.map_err(|e| format!("{e:?}"))?;
        let w = &t[0].vals[i];
        fuel::reset(CALL_BUDGET);
        let d = val.clone().data().map_err(|e| format!("value {i}: {e:?}"))?;
        let inside = |s: &[u8]| s.is_empty() || (s.as_ptr() as usize >= lo && s.as_ptr() as usize + s.len() <= lo + b.bytes.len());
        obs.checks += 1;
        match &d {
            KeyValueData::Small(s) => {
                if *s != &w.data[..] || !inside(s) {
                    return Err(format!("value {i}: {} bytes read, {} stored", s.len(), w.data.len()));
                }
            }
            KeyValueData::Big(it) => {
                let mut cat = vec![];
                let n = it.clone().count();
                for s in it.clone() {
                    let s = s.map_err(|e| format!("value {i}: {e:?}"))?;
                    if !inside(s) {
                        return Err(format!("value {i}: slice outside the buffer"));
                    }
                    cat.extend_from_slice(s);
                }
                if cat != w.data || n != w.data.len().div_ceil(SEG) {
                    return Err(format!("value {i}: {n} segments with {} bytes, {} stored", cat.len(), w.data.len()));
                }
            }
        }
        if d.into_vec().map_err(|e| format!("value {i}: {e:?}"))? != w.data {
            return Err(format!("value {i}: into_vec() differs"));
        }
        // typed readers that take any size
        fuel::reset(CALL_BUDGET);
        if w.data.len() > 8 && (val.dword_data().is_ok() || val.qword_data().is_ok()) {
            return Err(format!("value {i}: {} bytes decoded as an integer", w.data.len()));
        }
    }
    Ok(())
}

fn huge(size: u32, seed: u32, spare: u16, obs: &mut Obs) -> Result<(), String> {
    let segs = size.div_ceil(SEG as u32).clamp(2, 65535);
    let size = size.clamp(SEG as u32 + 1, 65535 * SEG as u32);
    let list = (segs + spare as u32).min(65535);
    let mut h = HiveS::single();
    h.keys[0].vals = vec![v("x", 2 * SEG as u32, seed, false, (list - 2) as u16)];
    let mut b = build(&h);
    let data = Dat::Fill(2 * SEG as u32, seed).bytes();
    let f = *b.fields.iter().find(|f| f.kind == FK::VkSize).unwrap();
    put32(&mut b.bytes, f.pos, size);
    obs.nontrivial = true;
    obs.label(if segs > 1000 { "huge" } else { "shared-segments" });
    fuel::reset(u64::MAX);
    let hive = Hive::new(Fuel(&b.bytes)).map_err(|e| format!("{e:?}"))?;
    let root = hive.root_key_node().map_err(|e| format!("{e:?}"))?;
    let val = root.value("X").ok_or("no value")?.map_err(|e| format!("{e:?}"))?;
    if val.data_size() != size {
        return Err(format!("data_size() = {}, stored {size}", val.data_size()));
    }
    let KeyValueData::Big(it) = val.data().map_err(|e| format!("data(): {e:?}"))? else { return Err("small data".into()) };
    let n = it.clone().count();
    if n != segs as usize || it.size_hint() != (n, Some(n)) {
        return Err(format!("{n} segments counted, size_hint {:?}, expected {segs}", it.size_hint()));
    }
    let last = it.clone().last();
    let mut left = size as usize;
    let mut k = 0usize;
    let mut end = None;
    for s in it {
        let s = s.map_err(|e| format!("segment {k}: {e:?}"))?;
        let at = if k == 0 { 0 } else { SEG };
        let w = left.min(SEG);
        if s.len() != w || s != &data[at..at + w] {
            return Err(format!("segment {k} of {segs}: {} bytes, expected {w} (or other bytes)", s.len()));
        }
        left -= w;
        k += 1;
        end = Some(s);
    }
    obs.checks += k as u64;
    if left != 0 || k != segs as usize {
        return Err(format!("{k} segments, {left} bytes missing of {size}"));
    }
    if last.and_then(|r| r.ok()) != end {
        return Err("last() differs from the last segment".into());
    }
    if size < 3_000_000 {
        let all = val.data().and_then(|d| d.into_vec()).map_err(|e| format!("into_vec(): {e:?}"))?;
        if all.len() != size as usize || all[..SEG] != data[..SEG] {
            return Err(format!("into_vec() gives {} bytes of {size}", all.len()));
        }
    }
    Ok(())
}

impl Prop for P07 {
    type Case = Case;
    const ID: &'static str = "P07";
    const RULE: &'static str = "cases: up to 8 values of one key with data of random sizes around every form boundary (0..5 inline or in a cell, 16344, multiples of 16344), with surplus segments, in random layouts; huge values (up to 65535 segments, 1 GB) over shared segment cells; enumerated: every size 0..600, 16320..16370 and k*16344-3..+3. Non-trivial: some value non-empty within 2 bytes of a boundary, or split over segments.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let len = prop_oneof![
            4 => 0u32..6,
            2 => 6u32..40,
            1 => 40u32..16330,
            3 => 16336u32..16350,
            3 => (1u32..6, 0u32..7).prop_map(|(k, d)| k * SEG as u32 + d - 3),
            1 => 16344u32..120_000,
        ];
        let val = (gen::val_name(), gen::vtype(), len, any::<u32>(), any::<bool>(), prop_oneof![3 => Just(0u16), 1 => 0u16..5])
            .prop_map(|(name, typ, n, s, inline, surplus)| ValS { name, typ, dat: Dat::Fill(n, s), inline, surplus });
        let vals = (vec(val, 1..9), gen::lay()).prop_map(|(vals, lay)| Case::Vals { vals, lay });
        let huge = (prop_oneof![
            6 => (2u32..40, 0u32..7).prop_map(|(k, d)| k * SEG as u32 + d - 3),
            2 => 32689u32..2_000_000,
        ], any::<u32>(), 0u16..4)
            .prop_map(|(size, seed, spare)| Case::Huge { size, seed, spare });
        prop_oneof![6 => vals, 1 => huge].boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 250_000 } else { 2_000_000 }
    }
    fn fixed(&self, tier: Tier) -> Vec<Case> {
        let mut out = vec![];
        let lay = LayS::default();
        let mut sizes: Vec<u32> = (0..600).chain(16320..16370).collect();
        for k in 2..9u32 {
            sizes.extend(k * SEG as u32 - 3..k * SEG as u32 + 4);
        }
        sizes.extend([65535, 65536, 65537, 0x10_0000]);
        for n in sizes {
            let mut l = vec![v("c", n, n, false, 0)];
            if n <= 4 {
                l.push(v("i", n, n + 1, true, 0));
            }
            if n > SEG as u32 {
                l.push(v("s", n, n + 2, false, 1));
            }
            out.push(Case::Vals { vals: l.clone(), lay: lay.clone() });
            out.push(Case::Vals { vals: l, lay: LayS { seed: n as u64, shuffle: true, slack: 3, gap: 90, ..lay.clone() } });
        }
        for segs in [2u32, 3, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535] {
            if segs < 5000 || tier == Tier::Thorough || segs == 65535 {
                for d in [0u32, 1, SEG as u32 - 1] {
                    if segs < 32767 || d == 1 {
                        out.push(Case::Huge { size: segs * SEG as u32 - d, seed: segs, spare: (segs % 3) as u16 });
                    }
                }
            }
        }
        out
    }
    fn max_shrink(&self) -> usize {
        600
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        match c {
            Case::Vals { vals: l, lay } => vals(l, lay, obs),
            Case::Huge { size, seed, spare } => huge(*size, *seed, *spare, obs),
        }
    }
}
