//! Feature sets and build profiles: six builds of the crate answer the same questions.
use crate::gen::{self, TreeOpt};
use crate::model::*;
use crate::props::p13;
use crate::remote::{self, Spec};
use crate::runner::*;
use crate::transcript::first_diff;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct P18;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Hive(p13::Case),
    /// the first bytes of a hive, then these
    Raw { keep: u16, tail: Vec<u8> },
    /// a header field (position, value) with or without a repaired checksum
    Head { h: HiveS, at: u16, val: u32, fix: bool },
}

impl Case {
    pub fn bytes(&self) -> (Vec<u8>, Vec<String>) {
        match self {
            Case::Hive(c) => {
                let b = build(&c.h);
                let mut bytes = b.bytes.clone();
                gen::apply(&mut bytes, &b, &c.d);
                (bytes, c.q.iter().filter_map(|q| q.text(&b.nodes)).collect())
            }
            Case::Raw { keep, tail } => {
                let mut b = build(&p13::showcase(3)).bytes;
                b.truncate(*keep as usize * 2);
                b.extend_from_slice(tail);
                (b, vec!["alpha".into()])
            }
            Case::Head { h, at, val, fix } => {
                let mut b = build(h).bytes;
                let at = *at as usize % 1020;
                crate::util::put32(&mut b, at, *val);
                if *fix {
                    fix_checksum(&mut b);
                }
                (b, vec!["a".into()])
            }
        }
    }
}

pub fn strategy(o: TreeOpt, dmg: usize) -> BoxedStrategy<Case> {
    let special = prop_oneof![
        2 => prop::sample::select(vec![0u32, 1, 2, 3, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0xffff_f000, 0xffff_efff, 4096, 8192, 4095, 20]),
        1 => any::<u32>(),
    ];
    let field = prop_oneof![3 => (0u16..13).prop_map(|i| i * 4), 1 => Just(508u16), 1 => 0u16..1020];
    prop_oneof![
        30 => p13::damaged(o, dmg).prop_map(Case::Hive),
        1 => (any::<u16>(), vec(any::<u8>(), 0..40)).prop_map(|(keep, tail)| Case::Raw { keep, tail }),
        2 => (gen::hive(TreeOpt { keys: 2, vals: 1, big: false, bulk: 0 }), field, special, any::<bool>()).prop_map(|(h, at, val, fix)| Case::Head { h, at, val, fix }),
    ]
    .boxed()
}

pub const BUILDS: [&str; 6] = ["std-checked", "std-plain", "alloc-checked", "alloc-plain", "none-checked", "none-plain"];

pub fn specs() -> Vec<Spec> {
    let dir = root().join("build");
    BUILDS
        .iter()
        .map(|b| Spec {
            name: b.to_string(),
            argv: vec![dir.join(format!("probe-{b}")).display().to_string()],
            env: vec![],
            cwd: dir.display().to_string(),
            recycle: 0,
        })
        .collect()
}

pub fn compare(specs: &[Spec], bytes: &[u8], q: &[String], obs: &mut Obs) -> Result<(), String> {
    let req = remote::request(false, bytes, q);
    let mut ans = vec![];
    for s in specs {
        ans.push(remote::ask(s, &req).map_err(|e| format!("build {}: {e}", s.name))?);
    }
    let (s0, a0) = remote::split(&ans[0]);
    let lines = |s: &str| s.rsplit(' ').next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    obs.checks += lines(s0) * (specs.len() as u64 - 1);
    for (i, a) in ans.iter().enumerate().skip(1) {
        let (s, al) = remote::split(a);
        let ad = al != "A -" && al != a0;
        if s != s0 || ad {
            let r = remote::request(true, bytes, q);
            let t0 = remote::ask(&specs[0], &r)?;
            let t1 = remote::ask(&specs[i], &r)?;
            let (x0, y0) = remote::texts(&t0);
            let (x1, y1) = remote::texts(&t1);
            let d = if s != s0 { first_diff(x0, x1) } else { first_diff(y0, y1) };
            return Err(format!("{} and {} disagree: {d}", specs[0].name, specs[i].name));
        }
    }
    obs.nontrivial = lines(s0) > 12;
    Ok(())
}

impl Prop for P18 {
    type Case = Case;
    const ID: &'static str = "P18";
    const RULE: &'static str = "cases: hives with 0..3 damages (every kind of field), names asked for, damaged headers, cut-off and raw bytes; each is given to six builds (std / alloc / neither, each with and without overflow checks and debug assertions), which write down every answer, error and message of every operation; the answers all builds offer must be identical, those of std and alloc as well. Enumerated: each kind of field x 60 special values. A panic counts as an answer of its own. Non-trivial: more than 12 answers.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 3 } else { 5 };
        prop_oneof![
            5 => strategy(TreeOpt { keys: 8, vals: 4, big: false, bulk: 30 }, n),
            2 => strategy(TreeOpt { keys: 5, vals: 4, big: true, bulk: 0 }, n),
        ]
        .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 50_000 } else { 1_000_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let mut v: Vec<Case> = p13::P13.fixed(Tier::Quick).into_iter().map(Case::Hive).collect();
        for keep in (0..60).chain(2040..2060) {
            v.push(Case::Raw { keep, tail: vec![] });
        }
        for at in (0..48).step_by(4).chain([508]) {
            for val in [0u32, 1, 2, 3, 6, 4096, 8192, 0xffff_ffff, 0xffff_f000, 0x8000_0000] {
                for fix in [false, true] {
                    v.push(Case::Head { h: HiveS::single(), at, val, fix });
                }
            }
        }
        v
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let (bytes, q) = c.bytes();
        obs.label(match c {
            Case::Hive(c) if c.d.is_empty() => "intact",
            Case::Hive(_) => "damaged",
            Case::Raw { .. } => "raw",
            Case::Head { .. } => "header",
        });
        compare(&specs(), &bytes, &q, obs)
    }
    fn raw(&self, r: &crate::rawfuzz::Raw, obs: &mut Obs) -> Option<Result<(), String>> {
        Some(compare(&specs(), &r.bytes, &r.q, obs))
    }
    fn max_shrink(&self) -> usize {
        800
    }
}
