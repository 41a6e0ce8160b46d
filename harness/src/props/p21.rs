//! The readhive program, run on files.
use crate::gen::{self, TreeOpt};
use crate::model::*;
use crate::props::{p03, p13};
use crate::runner::*;
use crate::util::*;
use nt_hive::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub struct P21;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// well-formed, expected dump from the stored tree
    Tree(HiveS),
    /// damaged, expected dump or failure from walking it with the library
    Damaged(p13::Case),
    /// not a hive
    Bytes(Vec<u8>),
    Cut(HiveS, u32),
    /// a header field
    Head(u16, u32, bool),
    /// the test hive of the repository
    TestHive,
}

/// Keeps to what a dump can decode: integers of the right size.
fn sane(mut h: HiveS) -> HiveS {
    for k in &mut h.keys {
        for v in &mut k.vals {
            let want = match v.typ {
                4 | 5 => 4,
                11 => 8,
                _ => continue,
            };
            let mut b = v.dat.bytes();
            b.resize(want, 7);
            v.dat = Dat::B(b);
        }
    }
    h
}

const TYPES: [&str; 12] = [
    "RegNone", "RegSZ", "RegExpandSZ", "RegBinary", "RegDWord", "RegDWordBigEndian", "RegLink", "RegMultiSZ", "RegResourceList", "RegFullResourceDescriptor",
    "RegResourceRequirementsList", "RegQWord",
];

fn pad(out: &mut String, level: usize) {
    for _ in 0..level {
        out.push_str("  ");
    }
}

fn latin_or_wide(latin: bool, b: &[u8]) -> String {
    if latin {
        b.iter().map(|&c| c as char).collect()
    } else {
        lossy16(&units_of(b))
    }
}
fn units_of(b: &[u8]) -> Vec<u16> {
    b.chunks_exact(2).map(|c| le16(c, 0)).collect()
}
fn multi(u: &[u16]) -> Vec<String> {
    let mut out = vec![];
    let mut rest = u;
    loop {
        let n = rest.iter().position(|&x| x == 0).unwrap_or(rest.len());
        if n == 0 {
            return out;
        }
        out.push(lossy16(&rest[..n]));
        rest = &rest[(n + 1).min(rest.len())..];
    }
}

fn put_value(out: &mut String, level: usize, name: &str, typ: usize, size: usize, data: &[u8]) {
    pad(out, level);
    let name = if name.is_empty() { "(Default)" } else { name };
    out.push_str(&format!("  ○ {name} - {} - {}\n", TYPES[typ], size));
    pad(out, level);
    out.push_str("    ");
    let u = units_of(data);
    match typ {
        1 | 2 => out.push_str(&lossy16(&u[..u.iter().position(|&x| x == 0).unwrap_or(u.len())])),
        3 if data.len() > SEG => out.push_str("BIG DATA"),
        3 => out.push_str(&format!("{data:?}")),
        4 => out.push_str(&le32(data, 0).to_string()),
        5 => out.push_str(&le32(data, 0).swap_bytes().to_string()),
        7 => out.push_str(&format!("{:?}", multi(&u))),
        11 => out.push_str(&(le32(data, 0) as u64 | (le32(data, 4) as u64) << 32).to_string()),
        _ => (),
    }
    out.push('\n');
}

fn dump(nodes: &[TNode], of: usize, level: usize, out: &mut String) {
    for &k in &nodes[of].kids {
        let n = &nodes[k];
        pad(out, level);
        out.push_str(&format!("● {}\n", latin_or_wide(n.latin, &n.name)));
        if let Some(c) = &n.class {
            pad(out, level);
            out.push_str(&format!("  Class Name: {}\n", latin_or_wide(false, c)));
        }
        for v in &n.vals {
            put_value(out, level, &latin_or_wide(v.latin, &v.name), v.typ as usize, v.data.len(), &v.data);
        }
        dump(nodes, k, level + 1, out);
    }
}

/// What the dump of a damaged hive must be, by the library: the text so far and the first error.
struct Walk {
    out: String,
    keys: usize,
}
enum Stop {
    Error(NtHiveError),
    /// too much to follow (cyclic lists)
    Limit,
}
impl From<NtHiveError> for Stop {
    fn from(e: NtHiveError) -> Stop {
        Stop::Error(e)
    }
}
fn text_of(n: &NtHiveNameString<'_>) -> String {
    match n {
        NtHiveNameString::Latin1(b) => latin_or_wide(true, b),
        NtHiveNameString::Utf16LE(b) => latin_or_wide(false, b),
    }
}
/// The data up to the first unreadable segment: a string that ends before it can be dumped.
fn readable(d: KeyValueData<'_, &[u8]>) -> Vec<u8> {
    match d {
        KeyValueData::Small(b) => b.to_vec(),
        KeyValueData::Big(it) => it.map_while(|r| r.ok()).flatten().copied().collect(),
    }
}
impl Walk {
    fn key(&mut self, k: &KeyNode<'_, &[u8]>, level: usize) -> std::result::Result<(), Stop> {
        let Some(subs) = k.subkeys() else { return Ok(()) };
        for s in subs? {
            self.keys += 1;
            if self.keys > 400 || level > 60 || self.out.len() > 4_000_000 {
                return Err(Stop::Limit);
            }
            let s = s?;
            pad(&mut self.out, level);
            let n = text_of(&s.name()?);
            self.out.push_str(&format!("● {n}\n"));
            if let Some(c) = s.class_name() {
                let c = text_of(&c?);
                pad(&mut self.out, level);
                self.out.push_str(&format!("  Class Name: {c}\n"));
            }
            if let Some(vs) = s.values() {
                for v in vs? {
                    let v = v?;
                    self.keys += 1;
                    if self.keys > 4000 || self.out.len() > 4_000_000 {
                        return Err(Stop::Limit);
                    }
                    let n = text_of(&v.name()?);
                    let t = v.data_type()? as u32 as usize;
                    // a value that is not looked at may be damaged
                    let data = match t {
                        1 | 2 => {
                            v.string_data()?;
                            readable(v.data()?)
                        }
                        4 | 5 => {
                            v.dword_data()?;
                            v.data()?.into_vec()?
                        }
                        11 => {
                            v.qword_data()?;
                            v.data()?.into_vec()?
                        }
                        7 => {
                            for s in v.multi_string_data()? {
                                s?;
                            }
                            readable(v.data()?)
                        }
                        3 => match v.data()? {
                            KeyValueData::Small(b) => b.to_vec(),
                            KeyValueData::Big(_) => vec![0; (v.data_size() as usize).min(SEG + 1)],
                        },
                        _ => vec![0; (v.data_size() as usize).min(SEG + 1)],
                    };
                    put_value(&mut self.out, level, &n, t, v.data_size() as usize, &data);
                }
            }
            self.key(&s, level + 1)?;
        }
        Ok(())
    }
}

fn walk(b: &[u8]) -> (String, std::result::Result<(), Stop>) {
    let mut w = Walk { out: String::new(), keys: 0 };
    let mut go = || -> std::result::Result<(), Stop> {
        let h = Hive::new(b)?;
        let r = h.root_key_node()?;
        w.out = text_of(&r.name()?) + "\n";
        w.key(&r, 0)
    };
    let r = go();
    (w.out, r)
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
}

fn run(b: Option<&[u8]>) -> std::result::Result<Ran, String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = root().join("build/p21");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("{}-{}.hive", std::process::id(), N.fetch_add(1, SeqCst)));
    if let Some(b) = b {
        std::fs::write(&path, b).map_err(|e| e.to_string())?;
    }
    let o = Command::new(root().join("build/readhive/debug/readhive")).arg(&path).stdin(Stdio::null()).env("RUST_BACKTRACE", "0").output();
    if b.is_some() {
        let _ = std::fs::remove_file(&path);
    }
    let o = o.map_err(|e| format!("cannot run readhive: {e}"))?;
    Ok(Ran {
        code: o.status.code(),
        signal: o.status.signal(),
        out: String::from_utf8(o.stdout).map_err(|_| "the output is not UTF-8".to_string())?,
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    })
}

/// Lines as (indentation, words): what the output says, whatever its punctuation.
fn loose(s: &str) -> Vec<(usize, Vec<String>)> {
    s.lines()
        .map(|l| {
            let t = l.trim_start_matches(' ');
            (l.len() - t.len(), t.split_whitespace().filter(|w| !matches!(*w, "●" | "○" | "-" | "*" | "+" | ":")).map(|w| w.to_string()).collect())
        })
        .collect()
}
fn same(want: &str, got: &str) -> bool {
    want == got || {
        let (a, b) = (loose(want), loose(got));
        // the same nesting in other widths will do
        let rank = |v: &[(usize, Vec<String>)]| {
            let mut w: Vec<usize> = v.iter().map(|x| x.0).collect();
            w.sort_unstable();
            w.dedup();
            v.iter().map(|x| w.binary_search(&x.0).unwrap_or(0)).collect::<Vec<_>>()
        };
        a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.1 == y.1) && rank(&a) == rank(&b)
    }
}
fn diff(want: &str, got: &str) -> String {
    let (mut a, mut b) = (want.lines(), got.lines());
    let mut n = 1;
    loop {
        match (a.next(), b.next()) {
            (None, None) => return "line ends".into(),
            (x, y) if x == y => n += 1,
            (x, y) => return format!("line {n}: expected {:?}, printed {:?}", trunc(x.unwrap_or("(end)"), 200), trunc(y.unwrap_or("(end)"), 200)),
        }
    }
}

fn must_succeed(want: &str, b: &[u8]) -> std::result::Result<(), String> {
    let r = run(Some(b))?;
    if r.code != Some(0) {
        return Err(format!("readhive fails on a readable hive: exit {:?}, signal {:?}, {}", r.code, r.signal, trunc(&r.err, 300)));
    }
    if !same(want, &r.out) {
        return Err(format!("readhive prints something else than the hive holds: {}", diff(want, &r.out)));
    }
    Ok(())
}
fn must_fail(why: &str, b: Option<&[u8]>) -> std::result::Result<Ran, String> {
    let r = run(b)?;
    if r.code == Some(0) {
        return Err(format!("readhive succeeds although {why}"));
    }
    if r.signal.is_some() || r.code == Some(101) || r.err.contains("panicked at") {
        return Err(format!("readhive crashes where {why}: exit {:?}, signal {:?}, {}", r.code, r.signal, trunc(&r.err, 300)));
    }
    if r.err.trim().is_empty() && r.out.trim().is_empty() {
        return Err(format!("readhive fails without a message where {why}"));
    }
    Ok(r)
}

/// In a process that leaves no core file.
fn crashes(name: &str, b: &[u8]) -> bool {
    use std::os::unix::process::CommandExt;
    let dir = root().join("build/p21");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{name}.hive"));
    std::fs::write(&path, b).unwrap();
    let mut c = Command::new(root().join("build/readhive/debug/readhive"));
    c.arg(&path).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
            libc::setrlimit(libc::RLIMIT_CPU, &libc::rlimit { rlim_cur: 20, rlim_max: 20 });
            Ok(())
        })
    };
    match c.status() {
        Ok(s) => s.signal().is_some() || s.code() == Some(101),
        Err(_) => true,
    }
}

/// The recorded finding: everything up to the name of the root key is readable, that name is not.
fn root_name_unreadable(b: &[u8]) -> bool {
    Hive::new(b).is_ok_and(|h| h.root_key_node().is_ok_and(|r| r.name().is_err()))
}

impl Prop for P21 {
    type Case = Case;
    const ID: &'static str = "P21";
    const RULE: &'static str = "cases: well-formed hives (expected dump written from the generated tree), damaged ones (expected dump, or failure with the text so far, from walking the bytes with the library), cut-off, bad-header and arbitrary files, the repository's test hive and a missing file, each given to the built readhive program; success, output (order, nesting, names, types, sizes, data), failure with a message, no crash. Punctuation and width of indentation are not compared. Non-trivial: the program printed at least 4 lines or had to fail.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let keys = if tier == Tier::Quick { 12 } else { 30 };
        prop_oneof![
            5 => gen::hive(TreeOpt { keys, vals: 5, big: false, bulk: 20 }).prop_map(|h| Case::Tree(sane(h))),
            2 => gen::hive(TreeOpt { keys: 4, vals: 4, big: true, bulk: 0 }).prop_map(|h| Case::Tree(sane(h))),
            6 => p13::damaged(TreeOpt { keys: 8, vals: 4, big: false, bulk: 10 }, 2).prop_map(|mut c| { c.h = sane(c.h); Case::Damaged(c) }),
            1 => p13::damaged(TreeOpt { keys: 4, vals: 3, big: true, bulk: 0 }, 2).prop_map(|mut c| { c.h = sane(c.h); Case::Damaged(c) }),
            1 => p13::damaged(TreeOpt { keys: 4, vals: 5, big: false, bulk: 0 }, 0).prop_map(Case::Damaged),
            1 => proptest::collection::vec(any::<u8>(), 0..300).prop_map(Case::Bytes),
            1 => (gen::hive(TreeOpt { keys: 3, vals: 2, big: false, bulk: 0 }), any::<u32>()).prop_map(|(h, n)| Case::Cut(h, n)),
            1 => ((0u16..13).prop_map(|i| i * 4), any::<u32>(), any::<bool>()).prop_map(|(a, v, f)| Case::Head(a, v, f)),
        ]
        .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 40_000 } else { 300_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let mut v = vec![Case::TestHive, Case::Bytes(vec![])];
        v.push(Case::Tree(p03::chain(300)));
        v.push(Case::Tree(p03::chain(512)));
        v.push(Case::Tree(p03::wide(5000, 1, true, vec![(0, 300), (1, 7), (2, 1)])));
        v.push(Case::Tree(p03::wide(3000, 2, false, vec![(1, 1)])));
        v.push(Case::Tree(p03::wide(70_000, 1, true, vec![(0, 65_000), (1, 7), (2, 1)])));
        v.push(Case::Tree(p03::wide(65_535, 1, false, vec![(0, 1)])));
        // more values than 16 bits count, long names, long strings
        let mut h = HiveS::single();
        h.keys.push(KeyS::named("many"));
        h.keys[1].bulk_vals = 70_000;
        h.keys.push(KeyS::named("long"));
        for n in [255u32, 16383, 32767, 40_000] {
            let name = |w: bool| Nm { u: (0..n).map(|i| if w && i % 7 == 3 { 0x444 } else { 0x61 + (i % 23) as u16 }).collect(), w };
            let mut k = KeyS::named("");
            k.name = name(n == 16383);
            k.parent = 2;
            k.class = Some(name(true).u);
            h.keys.push(k);
            for (typ, edits) in [(1u32, vec![]), (2, vec![(n - 1, 0)]), (7, vec![(n / 2, 0), (n - 2, 0), (n - 1, 0)])] {
                h.keys[2].vals.push(ValS { name: name(typ == 2), typ, dat: Dat::Txt { n: n * 3, seed: n, edits, odd: false }, inline: false, surplus: 0 });
            }
        }
        v.push(Case::Tree(sane(h)));
        v.push(Case::Tree(sane(p13::showcase(3))));
        // every type in every size class
        let mut h = HiveS::single();
        h.keys.push(KeyS::named("types"));
        for typ in 0..12 {
            for n in [0u32, 1, 2, 3, 4, 5, 8, 9, 40, 16344, 16345, 33000] {
                h.keys[1].vals.push(ValS { name: Nm::s(&format!("v{typ}.{n}")), typ, dat: Dat::Fill(n, n), inline: n % 2 == 0, surplus: 0 });
            }
        }
        for d in [Dat::B(utf16le(&[0x41, 0, 0x42, 0, 0, 0x43])), Dat::B(vec![]), Dat::B(vec![0, 0]), Dat::Txt { n: 8200, seed: 1, edits: vec![(8171, 0xD83D), (8172, 0xDE00), (8180, 0)], odd: true }] {
            for typ in [1, 2, 7] {
                h.keys[1].vals.push(ValS { name: Nm::s(""), typ, dat: d.clone(), inline: false, surplus: 1 });
            }
        }
        // root values are not part of the dump
        h.keys[0].vals.push(ValS { name: Nm::s("rootvalue"), typ: 4, dat: Dat::B(vec![1]), inline: true, surplus: 0 });
        v.push(Case::Tree(sane(h)));
        let mut all: Vec<Case> = p13::P13.fixed(Tier::Quick).into_iter().step_by(7).map(Case::Damaged).collect();
        v.append(&mut all);
        for at in (0..48).step_by(4).chain([508]) {
            for val in [0u32, 1, 2, 4096, 0xffff_ffff] {
                for fix in [false, true] {
                    v.push(Case::Head(at, val, fix));
                }
            }
        }
        v
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> std::result::Result<(), String> {
        obs.checks += 1;
        let by_walk = |b: &[u8], obs: &mut Obs| -> std::result::Result<(), String> {
            let (want, r) = walk(b);
            match r {
                Ok(()) => {
                    obs.label("dumped");
                    obs.nontrivial = want.lines().count() >= 4;
                    must_succeed(&want, b)
                }
                Err(Stop::Limit) => {
                    obs.label("too-large-or-cyclic-not-run");
                    Ok(())
                }
                Err(Stop::Error(e)) => {
                    if root_name_unreadable(b) {
                        obs.label("unreadable-root-name-recorded-finding");
                        let r = run(Some(b))?;
                        return if r.code == Some(0) { Err("readhive succeeds although the root key's name is unreadable".into()) } else { Ok(()) };
                    }
                    obs.label("must-fail");
                    obs.nontrivial = true;
                    must_fail(&format!("the library reports {e}"), Some(b))?;
                    Ok(())
                }
            }
        };
        match c {
            Case::Tree(h) => {
                let b = build(h);
                let mut want = latin_or_wide(b.nodes[0].latin, &b.nodes[0].name) + "\n";
                dump(&b.nodes, 0, 0, &mut want);
                obs.label("well-formed");
                obs.nontrivial = want.lines().count() >= 4;
                must_succeed(&want, &b.bytes)
            }
            Case::Damaged(d) => {
                let b = build(&d.h);
                let mut bytes = b.bytes.clone();
                gen::apply(&mut bytes, &b, &d.d);
                by_walk(&bytes, obs)
            }
            Case::Bytes(v) => {
                obs.label("not-a-hive");
                obs.nontrivial = true;
                must_fail("the file is no hive", Some(v))?;
                // and a file that is not there
                must_fail("there is no such file", None)?;
                Ok(())
            }
            Case::Cut(h, n) => {
                let b = build(h);
                let n = *n as usize % b.bytes.len();
                by_walk(&b.bytes[..n], obs)
            }
            Case::Head(at, val, fix) => {
                let mut b = build(&p13::showcase(3)).bytes;
                put32(&mut b, *at as usize, *val);
                if *fix {
                    fix_checksum(&mut b);
                }
                by_walk(&b, obs)
            }
            Case::TestHive => {
                let b = std::fs::read("/repo/testdata/testhive").map_err(|e| e.to_string())?;
                obs.label("test-hive");
                let mut w = Walk { out: String::new(), keys: 0 };
                let h = Hive::new(&b[..]).map_err(|e| e.to_string())?;
                let r = h.root_key_node().map_err(|e| e.to_string())?;
                w.out = r.name().map_err(|e| e.to_string())?.to_string_lossy() + "\n";
                // larger than the walk follows: compare the beginning
                let complete = w.key(&r, 0).is_ok();
                let ran = run(Some(&b))?;
                if ran.code != Some(0) {
                    return Err(format!("readhive fails on the test hive: {}", trunc(&ran.err, 300)));
                }
                let n = if complete { ran.out.len().max(w.out.len()) } else { w.out.len() };
                let got: String = ran.out.chars().take(n).collect();
                let got = if complete { ran.out.clone() } else { got[..w.out.len().min(got.len())].to_string() };
                obs.nontrivial = true;
                if !same(&w.out, &got) && complete {
                    return Err(format!("readhive prints something else than the test hive holds: {}", diff(&w.out, &got)));
                }
                if !complete && !ran.out.starts_with(&w.out) {
                    return Err(format!("readhive prints something else than the test hive holds: {}", diff(&w.out, &ran.out)));
                }
                Ok(())
            }
        }
    }
    fn known(&self) -> Vec<(String, bool)> {
        let mut rootname = build(&HiveS::single());
        let f = *rootname.fields.iter().find(|f| f.kind == FK::NkNameLen).unwrap();
        put16(&mut rootname.bytes, f.pos, 0xffff);
        vec![
            ("cyclic-key-graph: readhive on a hive whose root's subkey list names the root itself recurses until the stack overflows".into(), crashes("selfloop", &crate::props::p15::selfloop())),
            ("unreadable-root-name: readhive panics (unwrap) instead of reporting an error on a hive whose root key's name cannot be read".into(), crashes("rootname", &rootname.bytes)),
        ]
    }
    fn max_shrink(&self) -> usize {
        800
    }
}
