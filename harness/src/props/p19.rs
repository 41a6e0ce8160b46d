//! Platforms: the same questions answered natively (64-bit, little-endian) and by interpreters of
//! 32-bit and big-endian machines.
use crate::fuel;
use crate::gen::{self, Dmg, TreeOpt};
use crate::model::*;
use crate::props::{p13, p18};
use crate::props::p18::Case;
use crate::remote::{self, Spec};
use crate::runner::*;
use crate::util::hash64;
use crate::transcript::{self, first_diff, Outs};
use proptest::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::OnceLock;

pub struct P19;

/// A build for another machine, and how many cases there are for each one it is asked.
struct Other {
    spec: Spec,
    every: u64,
}
/// Set in runs, not in replays, where every machine is asked.
static SAMPLED: AtomicBool = AtomicBool::new(false);
/// Set when a machine that is asked rarely disagrees: it is then asked while shrinking.
static SUSPECT: AtomicBool = AtomicBool::new(false);

fn others() -> &'static [Other] {
    static S: OnceLock<Vec<Other>> = OnceLock::new();
    S.get_or_init(|| {
        // written by tools/probes.sh
        let txt = std::fs::read_to_string(root().join("build/p19-specs.json")).expect("p19-specs.json");
        let v: Vec<serde_json::Value> = serde_json::from_str(&txt).expect("p19-specs.json");
        v.iter()
            .map(|s| Other {
                every: s["every"].as_u64().unwrap(),
                spec: Spec {
                    name: s["name"].as_str().unwrap().into(),
                    argv: s["argv"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect(),
                    env: s["env"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().into())).collect(),
                    cwd: s["cwd"].as_str().unwrap().into(),
                    recycle: if s["every"] == 1 { 0 } else { 400 },
                },
            })
            .collect()
    })
}

/// The answers of the crate as linked into this program (64-bit, little-endian, overflow checks on).
fn native(bytes: &[u8], q: &[String], text: bool) -> Result<Outs, String> {
    let mut o = Outs::new(text, false);
    let died = |o: &mut Outs| {
        let m = take_panic();
        o.shared.line("PANIC");
        if m.contains("overflow") {
            return Err(format!("64-bit little-endian: {m}"));
        }
        Ok(())
    };
    let r = catch_unwind(AssertUnwindSafe(|| match nt_hive::Hive::without_validation(bytes) {
        Ok(h) => transcript::hive(&h, q, &mut o),
        Err(e) => o.shared.line(&transcript::err(&e, false)),
    }));
    if r.is_err() {
        died(&mut o)?;
    }
    if !bytes.is_empty() {
        let mut copy = bytes.to_vec();
        fuel::reset(transcript::CLEARING_BUDGET);
        let r = catch_unwind(AssertUnwindSafe(|| transcript::clearing(nt_hive::Hive::without_validation(fuel::FuelMut(&mut copy[..])), &mut o)));
        let used = fuel::used();
        fuel::reset(u64::MAX);
        match r {
            Ok(()) => transcript::cleared_bytes(&copy, &mut o),
            Err(_) if used > transcript::CLEARING_BUDGET => (),
            Err(_) => died(&mut o)?,
        }
    }
    Ok(o)
}

/// Small hives with every kind of structure in between them.
pub fn minis() -> Vec<HiveS> {
    let v = |n: &str, typ: u32, dat: Dat, inline: bool| ValS { name: Nm::s(n), typ, dat, inline, surplus: 0 };
    let mut out = vec![];
    let mut h = HiveS::single();
    h.keys[0].class = Some(vec![0x63]);
    h.keys[0].list = ListS { ri: true, parts: vec![(1, 1), (2, 1)], empty: false };
    h.keys[0].vals = vec![
        v("d", 4, Dat::B(vec![1, 2, 3, 4]), false),
        v("q", 11, Dat::B(vec![1, 2, 3, 4, 5, 6, 7, 8]), true),
        v("m", 7, Dat::B(vec![65, 0, 0, 0, 66, 0, 0, 0, 0, 0]), true),
    ];
    for n in ["A", "b"] {
        h.keys.push(KeyS::named(n));
    }
    h.keys[2].name.w = true;
    out.push(h);
    let mut h = HiveS::single();
    h.keys[0].list = ListS { ri: false, parts: vec![(0, 1)], empty: false };
    h.keys.push(KeyS::named("Z"));
    h.keys[1].vals = vec![v("", 5, Dat::B(vec![1, 2, 3, 4]), true), v("big", 1, Dat::Txt { n: 8173, seed: 1, edits: vec![(8171, 0xD801), (8172, 0xDC01)], odd: false }, true)];
    out.push(h);
    out
}

const SPECIAL: [u32; 26] = [
    0, 1, 5, 0x7f, 0x80, 0xffff, 0x3fd9, 0x8000_0000, 0x8000_0004, 0x8000_0005, 0x7fff_ffff, 0x7fff_fff8, 0x4000_0000, 0x4000_0001, 0x2000_0000,
    0x2000_0001, 0x3fff_ffff, 0xffff_ffff, 0xffff_fffe, 0xffff_fffc, 0xffff_fff8, 0xffff_fff0, 0xffff_f000, 0xffff_effc, 0xffff_eff8, 0xc000_0000,
];

impl Prop for P19 {
    type Case = Case;
    const ID: &'static str = "P19";
    const RULE: &'static str = "cases: small hives with 0..2 damages, damaged headers, short and raw bytes; every answer and error of every operation (offsets beyond 2^32-1 count as that number) is written down by this 64-bit little-endian program and, for every case, by a 32-bit little-endian build run natively; for one case in a hundred also by the crate interpreted (Miri) for a 32-bit big-endian machine, in thorough a 64-bit big-endian one too; overflow checks on everywhere. Enumerated: two small hives that contain every kind of field x 26 values around 2^31, 2^32 and their fractions. Non-trivial: more than 12 answers.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 2 } else { 3 };
        let weird = prop_oneof![
            3 => prop::sample::select(SPECIAL.to_vec()).prop_map(gen::How::Set),
            1 => (-40i32..0).prop_map(|x| gen::How::Set(x as u32)),
            1 => (-40i32..40).prop_map(|x| gen::How::Set(x as u32 ^ 0x8000_0000)),
            1 => any::<i8>().prop_map(gen::How::End),
        ];
        let aimed = (p13::damaged(TreeOpt { keys: 3, vals: 2, big: false, bulk: 0 }, n), any::<u16>(), any::<u32>(), weird).prop_map(|(mut c, kind, i, how)| {
            c.d = vec![Dmg::Field { kind, i, how }];
            c
        });
        prop_oneof![
            5 => p18::strategy(TreeOpt { keys: 4, vals: 3, big: false, bulk: 0 }, n),
            4 => aimed.prop_map(Case::Hive),
            1 => p18::strategy(TreeOpt { keys: 2, vals: 2, big: true, bulk: 0 }, n),
        ]
        .prop_map(small)
        .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 30_000 } else { 150_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        SAMPLED.store(true, SeqCst);
        let mut out = vec![];
        let q = vec![p13::gen_q::Q::Key(2, 0x1b)];
        for h in minis() {
            let b = build(&h);
            let mut kinds: Vec<FK> = b.fields.iter().filter(|f| f.len > 0).map(|f| f.kind).collect();
            kinds.sort_unstable();
            kinds.dedup();
            out.push(Case::Hive(p13::Case { h: h.clone(), d: vec![], q: q.clone() }));
            for k in 0..kinds.len() as u16 {
                for s in SPECIAL.iter() {
                    out.push(Case::Hive(p13::Case { h: h.clone(), d: vec![Dmg::Field { kind: k, i: 0, how: gen::How::Set(*s) }], q: q.clone() }));
                }
            }
        }
        for at in (0..48).step_by(4).chain([508]) {
            for val in [0u32, 1, 4096, 0xffff_ffff, 0xffff_f000, 0x8000_0000] {
                out.push(Case::Head { h: HiveS::single(), at, val, fix: val % 2 == 0 });
            }
        }
        out
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let (bytes, q) = c.bytes();
        compare(&bytes, &q, obs)
    }
    fn raw(&self, r: &crate::rawfuzz::Raw, obs: &mut Obs) -> Option<Result<(), String>> {
        SAMPLED.store(true, SeqCst);
        Some(compare(&r.bytes, &r.q, obs))
    }
    fn max_shrink(&self) -> usize {
        60
    }
}

/// Interpreters are slow: keep the bytes few.
fn small(mut c: Case) -> Case {
    let cut = |h: &mut HiveS| {
        h.lay.trailing %= 64;
        h.lay.gap = 0;
        h.lay.fat = h.lay.fat.filter(|f| f.1 < 0x1_0000);
        h.lay.bins /= 4;
        h.keys.truncate(5);
        for k in &mut h.keys {
            k.name.u.truncate(12);
            k.bulk = None;
            for v in &mut k.vals {
                v.name.u.truncate(12);
                match &mut v.dat {
                    Dat::Fill(n, _) => *n = (*n).min(16350),
                    Dat::Txt { n, .. } => *n = (*n).min(8190),
                    _ => (),
                }
            }
        }
    };
    match &mut c {
        Case::Hive(x) => {
            cut(&mut x.h);
            x.q.truncate(2);
        }
        Case::Head { h, .. } => cut(h),
        _ => (),
    }
    c
}

fn compare(bytes: &[u8], q: &[String], obs: &mut Obs) -> Result<(), String> {
    let o = native(bytes, q, false)?;
    let want = (format!("S {:016x} {}", o.shared.hash, o.shared.lines), format!("A {:016x} {}", o.alloc.hash, o.alloc.lines));
    let req = remote::request(false, bytes, q);
    let lot = hash64(&req) >> 7;
    for x in others() {
        let s = &x.spec;
        if lot % x.every != 0 && SAMPLED.load(SeqCst) && !SUSPECT.load(SeqCst) {
            continue;
        }
        let a = remote::ask(s, &req).map_err(|e| format!("{}: {e}", s.name))?;
        obs.checks += o.shared.lines + o.alloc.lines;
        obs.label(&format!("answered-by-{}", s.name));
        let (sl, al) = remote::split(&a);
        if sl != want.0 || al != want.1 {
            SUSPECT.fetch_or(x.every > 1, SeqCst);
            let t = remote::ask(s, &remote::request(true, bytes, q)).map_err(|e| format!("{}: {e}", s.name))?;
            let (x, y) = remote::texts(&t);
            let o = native(bytes, q, true)?;
            let d = if sl != want.0 { first_diff(&o.shared.text.unwrap(), x) } else { first_diff(&o.alloc.text.unwrap(), y) };
            return Err(format!("64-bit little-endian and {} disagree: {d}", s.name));
        }
    }
    obs.nontrivial = o.shared.lines > 12;
    Ok(())
}
