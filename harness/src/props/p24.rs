//! The work of reading many things grows with their number, not faster. Every bound is taken from the same
//! operation on a small input of the same shape.
use crate::fuel::{self, Fuel, FuelMut};
use crate::heap::measure;
use crate::model::*;
use crate::pages::Paged;
use crate::props::p03;
use crate::runner::*;
use crate::steps;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hint::black_box;
use zerocopy::SplitByteSlice;

pub struct P24;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shape {
    /// a key with n subkeys
    Subkeys { style: u8, ri: bool, parts: Vec<(u8, u16)> },
    /// a key with n values
    Values,
    /// a value of n segments, with a NUL every `line` units
    Data { typ: u32, line: u32 },
    /// n keys, each below the other
    Chain { ri: bool },
    /// a path of n components that are empty (backslashes only)
    Slashes,
    /// a path of n components, the first of which does not exist
    Missing,
    /// names of n units
    Name { w: bool },
    /// n pages of file
    File,
    /// a key with n subkeys that have two values and a subkey each
    Tree { ri: bool, parts: Vec<(u8, u16)> },
    /// n index root entries that all name the same leaf of 3 keys
    Shared,
    /// a value of n units, with a NUL every `line` units
    Text { typ: u32, line: u32 },
    /// a path of n components, all of which exist (a key that is its own subkey's subkey)
    Deep { upper: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub shape: Shape,
    pub n: u32,
    pub shuffle: bool,
    /// amounts to skip by
    pub skip: u32,
    /// count instructions as well
    pub steps: bool,
    /// compare processor time as well
    #[serde(default)]
    pub time: bool,
    /// names and texts repeat these units (empty: varied units)
    #[serde(default)]
    pub cycle: Vec<u16>,
}

const SMALL: u32 = 16;

/// Units that texts and names repeat.
const CYCLES: &[&[u16]] = &[
    &[0x61], &[0x41], &[0x20], &[0x5c], &[0xe9], &[0xff], &[0xb5], &[0x130], &[0xdf], &[0xfffd], &[0xfeff], &[0xd800], &[0xdc00], &[0xffff],
    &[0xd83d, 0xde00], &[0xde00, 0xd83d], &[0x61, 0xfffd], &[0x61, 0], &[0], &[0x1f80], &[0x3c3],
];

fn cycled(c: &Case, n: u32) -> Option<Vec<u16>> {
    (!c.cycle.is_empty()).then(|| c.cycle.iter().copied().cycle().take(n as usize).collect())
}

/// A hive and how many things of the kind in question it holds.
fn make(c: &Case, n: u32) -> (Vec<u8>, u64) {
    let mut h = HiveS::single();
    let mut units = n as u64;
    match &c.shape {
        Shape::Subkeys { style, ri, parts } => h = p03::wide(n, *style, *ri, parts.clone()),
        Shape::Tree { ri, parts } => {
            h.keys[0].list = ListS { ri: *ri, parts: parts.clone(), empty: false };
            for i in 0..n {
                let mut k = KeyS::named(&format!("k{i:05}"));
                for v in ["a", "bb"] {
                    k.vals.push(ValS { name: Nm::s(v), typ: 1, dat: Dat::B(vec![0x41, 0, 0x42, 0, 0, 0]), inline: false, surplus: 0 });
                }
                h.keys.push(k);
                let mut k = KeyS::named("sub");
                k.parent = 2 * i as u16 + 1;
                h.keys.push(k);
            }
        }
        Shape::Values => h.keys[0].bulk_vals = n,
        Shape::Data { typ, line } | Shape::Text { typ, line } => {
            let len = if matches!(c.shape, Shape::Text { .. }) { 2 * n } else { n * SEG as u32 - 7 };
            let edits = if *line == 0 { vec![] } else { (1..len / 2 / line).map(|i| (i * line, 0u16)).collect() };
            let dat = match cycled(c, len / 2) {
                Some(u) => Dat::B(u.iter().flat_map(|u| u.to_le_bytes()).collect()),
                None => Dat::Txt { n: len / 2, seed: 3, edits, odd: false },
            };
            h.keys[0].vals.push(ValS { name: Nm::s("v"), typ: *typ, dat, inline: false, surplus: 0 });
        }
        Shape::Chain { ri } => {
            h = p03::chain(n as usize);
            for k in &mut h.keys {
                k.list.ri = *ri;
            }
        }
        Shape::Slashes | Shape::Missing | Shape::Deep { .. } => h = p03::chain(3),
        Shape::Name { w } => {
            let u: Vec<u16> = cycled(c, n).unwrap_or_else(|| (0..n).map(|i| 0x61 + (i % 26) as u16).collect());
            let u: Vec<u16> = if *w { u } else { u.iter().map(|u| u & 0xff).collect() };
            h.keys[0].name = Nm { u: u.clone(), w: *w };
            h.keys[0].class = Some(u.clone());
            h.keys[0].vals.push(ValS { name: Nm { u, w: *w }, typ: 3, dat: Dat::B(vec![1; 9]), inline: false, surplus: 0 });
        }
        Shape::File => {
            h.keys[0].vals.push(ValS { name: Nm::s("v"), typ: 3, dat: Dat::Fill(9, 1), inline: false, surplus: 0 });
            h.lay.fat = Some((1, n * 4096));
        }
        Shape::Shared => h = p03::wide(3 * n, 0, true, vec![(1, 3)]),
    }
    h.lay.shuffle = c.shuffle;
    let mut b = build(&h);
    let root = &b.nodes[0];
    match &c.shape {
        Shape::Subkeys { .. } | Shape::Tree { .. } => units += root.leaves.len() as u64,
        Shape::Deep { .. } => {
            let at = |i: usize| BASE + b.nodes[i].cell as usize + 4 + 28;
            let list = crate::util::le32(&b.bytes, at(0));
            crate::util::put32(&mut b.bytes, at(1), list);
        }
        Shape::Shared => {
            let items: Vec<usize> = b.fields.iter().filter(|f| f.kind == FK::RiItem).map(|f| f.pos).collect();
            let first = crate::util::le32(&b.bytes, items[0]);
            for p in items {
                crate::util::put32(&mut b.bytes, p, first);
            }
        }
        _ => (),
    }
    (b.bytes, units)
}

/// What is measured: the name of the operation and how to run it.
type Run<'a, 'h, B> = (&'static str, Box<dyn Fn(&KeyNode<'h, B>) + 'a>);

fn walk<B: SplitByteSlice + Clone>(k: &KeyNode<'_, B>) {
    let mut todo = vec![k.clone()];
    while let Some(k) = todo.pop() {
        black_box(k.name().is_ok());
        if let Some(Ok(it)) = k.values() {
            for v in it.flatten() {
                black_box((v.name().is_ok(), v.data_type().is_ok(), v.data().is_ok(), v.string_data().is_ok()));
            }
        }
        if let Some(Ok(it)) = k.subkeys() {
            todo.extend(it.flatten());
        }
    }
}

fn ops<'a, 'h: 'a, B: SplitByteSlice + Clone + 'h>(c: &'a Case, n: u32, path: &'a str, name: &'a str) -> Vec<Run<'a, 'h, B>> {
    let mut v: Vec<Run<'a, 'h, B>> = vec![];
    macro_rules! op {
        ($what:literal, |$k:ident| $e:expr) => {
            v.push(($what, Box::new(move |$k: &KeyNode<'h, B>| { let _ = black_box($e); })));
        };
    }
    let skip = (c.skip as u64 * n as u64 >> 32) as usize;
    match &c.shape {
        Shape::Subkeys { .. } | Shape::Tree { .. } | Shape::Shared => {
            op!("stepping through the subkeys", |k| k.subkeys().map(|r| r.map(|it| it.fold(0, |a, r| a + r.is_ok() as usize))));
            op!("counting the subkeys", |k| k.subkeys().map(|r| r.map(|it| it.count())));
            op!("the last subkey", |k| k.subkeys().map(|r| r.map(|it| it.last().is_some())));
            op!("one of the subkeys", |k| k.subkeys().map(|r| r.map(|mut it| it.nth(skip).is_some())));
            op!("every second subkey", |k| k.subkeys().map(|r| r.map(|it| it.step_by(2).fold(0, |a, r| a + r.is_ok() as usize))));
            op!("the names of the subkeys", |k| k.subkeys().map(|r| r.map(|it| it.flatten().fold(0, |a, k| a + k.name().map(|n| n.len()).unwrap_or(0)))));
            op!("how many subkeys there are", |k| k.subkeys().map(|r| r.map(|it| match it {
                SubKeyNodes::Leaf(it) => it.size_hint().0,
                SubKeyNodes::IndexRoot(it) => it.size_hint().0,
            })));
            if !matches!(c.shape, Shape::Shared) {
                op!("walking the tree", |k| walk(k));
                op!("looking up an absent subkey", |k| k.subkey("zzzzzzzzz").is_some());
                op!("looking up an absent path", |k| k.subpath("zzzzzzzzz\\x").is_some());
            }
        }
        Shape::Values => {
            op!("stepping through the values", |k| k.values().map(|r| r.map(|it| it.fold(0, |a, r| a + r.is_ok() as usize))));
            op!("counting the values", |k| k.values().map(|r| r.map(|it| it.count())));
            op!("the last value", |k| k.values().map(|r| r.map(|it| it.last().is_some())));
            op!("one of the values", |k| k.values().map(|r| r.map(|mut it| it.nth(skip).is_some())));
            op!("every second value", |k| k.values().map(|r| r.map(|it| it.step_by(2).fold(0, |a, r| a + r.is_ok() as usize))));
            op!("looking up an absent value", |k| k.value("not there").is_some());
            op!("the names of the values", |k| k.values().map(|r| r.map(|it| it.flatten().fold(0, |a, v| a + v.name().map(|n| n.len()).unwrap_or(0)))));
        }
        Shape::Data { .. } | Shape::Text { .. } => {
            fn d<'h, B: SplitByteSlice + Clone, R>(k: &KeyNode<'h, B>, f: impl FnOnce(&KeyValue<'h, B>) -> R) -> Option<R> {
                k.values().and_then(|r| r.ok()).and_then(|mut it| it.next()).and_then(|r| r.ok()).map(|v| f(&v))
            }
            fn segs<'h, B: SplitByteSlice + Clone>(v: &KeyValue<'h, B>) -> Option<BigDataSlices<'h, B>> {
                match v.data() {
                    Ok(KeyValueData::Big(it)) => Some(it),
                    _ => None,
                }
            }
            op!("stepping through the segments", |k| d(k, |v| segs(v).map(|it| it.fold(0, |a, r| a + r.is_ok() as usize))));
            op!("counting the segments", |k| d(k, |v| segs(v).map(|it| it.count())));
            op!("the last segment", |k| d(k, |v| segs(v).map(|it| it.last().is_some())));
            op!("one of the segments", |k| d(k, |v| segs(v).map(|mut it| it.nth(skip).is_some())));
            op!("every second segment", |k| d(k, |v| segs(v).map(|it| it.step_by(2).fold(0, |a, r| a + r.is_ok() as usize))));
            op!("collecting the data", |k| d(k, |v| v.data().and_then(|d| d.into_vec()).map(|v| v.len())));
            op!("decoding the string", |k| d(k, |v| v.string_data().map(|s| s.len())));
            op!("decoding the strings", |k| d(k, |v| v.multi_string_data().map(|it| it.fold(0, |a, r| a + r.map(|s| s.len()).unwrap_or(0)))));
            op!("the last string", |k| d(k, |v| v.multi_string_data().map(|it| it.last().is_some())));
            op!("the first string", |k| d(k, |v| v.multi_string_data().map(|mut it| it.next().is_some())));
        }
        Shape::Chain { .. } => {
            op!("following a path", |k| k.subpath(path).is_some());
            op!("walking the tree", |k| walk(k));
        }
        Shape::Slashes | Shape::Missing | Shape::Deep { .. } => {
            op!("following a path", |k| k.subpath(path).is_some());
        }
        Shape::Name { .. } => {
            op!("reading a name", |k| (k.name().map(|n| n.len()), k.class_name().map(|r| r.map(|n| n.len()))));
            op!("comparing names", |k| k.name().map(|n| (n.cmp(&n), n == name, n.partial_cmp(name), name.partial_cmp(&n))));
            op!("displaying a name", |k| k.name().map(|n| n.to_string().len()));
            op!("converting a name", |k| k.name().map(|n| (n.to_string_checked().is_some(), n.to_string_lossy().len())));
            op!("looking up a value by its name", |k| k.value(name).is_some());
        }
        Shape::File => {
            op!("reading a key and its value", |k| walk(k));
        }
    }
    v
}

/// What one operation costs.
#[derive(Clone, Copy, Debug, Default)]
struct Cost {
    reads: u64,
    requests: u64,
    requested: u64,
}

fn path_of(c: &Case, n: u32) -> String {
    match c.shape {
        Shape::Chain { .. } => vec!["d"; n as usize].join("\\"),
        Shape::Slashes => "\\".repeat(n as usize),
        Shape::Deep { upper } => vec![if upper { "D" } else { "d" }; n as usize].join("\\"),
        Shape::Missing => vec!["q"; n as usize].join("\\"),
        _ => String::new(),
    }
}
fn name_of(c: &Case, n: u32) -> String {
    if let (Some(u), Shape::Name { w }) = (cycled(c, n), &c.shape) {
        // the same but for case
        let u = u.iter().map(|u| if *w { *u } else { u & 0xff });
        return char::decode_utf16(u).map(|r| r.map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).unwrap_or('\u{fffd}')).collect();
    }
    (0..n).map(|i| (0x41 + (i % 26) as u8) as char).collect()
}

/// `reads`: how many reads to allow the operation.
fn costs(c: &Case, bytes: &[u8], n: u32, reads: impl Fn(&'static str) -> u64) -> Result<Vec<(&'static str, Cost)>, String> {
    let (path, name) = (path_of(c, n), name_of(c, n));
    let h = Hive::without_validation(Fuel(bytes)).map_err(|e| format!("{HARNESS_BUG}: {e:?}"))?;
    let mut v = vec![];
    for (what, f) in ops(c, n, &path, &name) {
        let k = h.root_key_node().map_err(|e| format!("{HARNESS_BUG}: {e:?}"))?;
        fuel::reset(reads(what));
        let (_, u) = measure(|| f(&k));
        v.push((what, Cost { reads: fuel::used(), requests: u.calls, requested: u.total }));
    }
    fuel::reset(reads("opening"));
    black_box(Hive::new(Fuel(bytes)).map(|h| h.root_key_node().is_ok()).is_ok());
    v.push(("opening", Cost { reads: fuel::used(), ..Cost::default() }));
    // graphs with shared parts are no trees: nothing is promised for clearing these
    if !matches!(c.shape, Shape::Shared | Shape::Deep { .. }) {
        let mut copy = bytes.to_vec();
        if let Ok(mut h) = Hive::without_validation(FuelMut(&mut copy)) {
            fuel::reset(reads("clearing the volatile counts"));
            black_box(h.clear_volatile_subkeys().is_ok());
            v.push(("clearing the volatile counts", Cost { reads: fuel::used(), ..Cost::default() }));
        }
    }
    fuel::reset(u64::MAX);
    Ok(v)
}

/// Processor time that this thread has used, in seconds.
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// Which operations do not depend on the number at all.
fn fixed_cost(c: &Case, what: &str) -> bool {
    what == "opening" || matches!((&c.shape, what), (Shape::File, _)) || (c.shape == Shape::Slashes && what.starts_with("clear"))
}

impl Prop for P24 {
    type Case = Case;
    const ID: &'static str = "P24";
    const RULE: &'static str = "cases: n things of one kind (subkeys in every list representation, values, segments of data, nested keys, path components, units of a name, pages of file; n up to 20000, enumerated up to 131072) and each operation that goes through them: stepping, counting, skipping, last, every second, walking, lookup of values, paths, collecting and decoding data, clearing. Four measures (reads through a counting buffer, requests to the heap, bytes requested, for enumerated cases machine instructions), each at most 4 times what 16 things of the same kind cost per thing. Opening must not depend on the size of the file, also in pages touched. Non-trivial: at least 64 things.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let max = if tier == Tier::Quick { 6000 } else { 40_000 };
        let part = (0u8..3, prop_oneof![4 => 1u16..6, 2 => 6u16..80, 1 => 80u16..4000, 1 => any::<u16>()]);
        let parts = || vec(part.clone(), 1..5);
        let shape = prop_oneof![
            5 => (0u8..8, any::<bool>(), parts()).prop_map(|(style, ri, parts)| (Shape::Subkeys { style, ri, parts }, 1)),
            2 => Just((Shape::Values, 1)),
            2 => (prop_oneof![Just(1u32), Just(3), Just(7), Just(7)], prop_oneof![Just(0u32), 2u32..50, 50u32..40_000]).prop_map(|(typ, line)| (Shape::Data { typ, line }, 60)),
            1 => any::<bool>().prop_map(|ri| (Shape::Chain { ri }, 6)),
            2 => (prop_oneof![Just(1u32), Just(7), Just(7)], 0u32..200).prop_map(|(typ, line)| (Shape::Text { typ, line }, 1)),
            1 => any::<bool>().prop_map(|upper| (Shape::Deep { upper }, 1)),
            1 => Just((Shape::Slashes, 1)),
            1 => Just((Shape::Missing, 1)),
            1 => any::<bool>().prop_map(|w| (Shape::Name { w }, 1)),
            1 => Just((Shape::File, 4)),
            2 => (any::<bool>(), parts()).prop_map(|(ri, parts)| (Shape::Tree { ri, parts }, 3)),
            1 => Just((Shape::Shared, 3)),
        ];
        (shape, prop_oneof![5 => 1u32..400, 2 => 400u32..max], any::<bool>(), any::<u32>(), (any::<bool>(), vec(prop_oneof![2 => Just(0u16), 4 => crate::gen::unit_any(), 1 => any::<u16>(), 2 => proptest::sample::select(CYCLES).prop_map(|c| c[0])], 1..4)))
            .prop_map(|((shape, div), n, shuffle, skip, cycle)| Case { shape, n: (n / div).max(1), shuffle, skip, steps: false, time: false, cycle: if cycle.0 { cycle.1 } else { vec![] } })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 12_000 } else { 150_000 }
    }
    fn fixed(&self, tier: Tier) -> Vec<Case> {
        let mut v = vec![];
        let mut cycles = vec![];
        for (i, c) in CYCLES.iter().enumerate() {
            let mut add = |shape: Shape, n: u32, steps: bool| cycles.push(Case { shape, n, shuffle: false, skip: 0xc000_0000, steps, time: !steps, cycle: c.to_vec() });
            let odd = i as u32 % 2;
            add(Shape::Text { typ: 1 + odd, line: 0 }, 300_000, false);
            add(Shape::Text { typ: 7, line: 0 }, 300_000, false);
            add(Shape::Name { w: true }, 32_767, false);
            if i % 4 == 1 || tier == Tier::Thorough {
                add(Shape::Name { w: true }, 1500, true);
            }
            if c.iter().all(|u| *u < 0x100) {
                add(Shape::Name { w: false }, 65_535, false);
                if i % 4 == 0 || tier == Tier::Thorough {
                    add(Shape::Name { w: false }, 1500, true);
                }
            }
            if tier == Tier::Thorough {
                add(Shape::Text { typ: 2 - odd, line: 0 }, 6000, true);
                add(Shape::Text { typ: 7, line: 0 }, 6000, true);
                add(Shape::Text { typ: 2 - odd, line: 0 }, 2_000_000, false);
            }
        }
        let mut add = |shape: Shape, n: u32, steps: bool| v.push(Case { shape, n, shuffle: n % 2 == 1, skip: 0xc000_0000, steps, time: !steps, cycle: vec![] });
        let sub = |ri, parts: Vec<(u8, u16)>| Shape::Subkeys { style: 0, ri, parts };
        for n in [32_767u32, 65_535] {
            add(sub(false, vec![(n as u8 % 3, 1)]), n, false);
        }
        for (n, parts) in [(65_536u32, vec![(0u8, 65_535u16)]), (131_072, vec![(2, 65_535), (1, 1)]), (40_000, vec![(2, 1)]), (60_001, vec![(1, 1), (2, 30_000), (1, 1)]), (131_072, vec![(1, 2)])] {
            add(sub(true, parts), n, false);
        }
        add(Shape::Values, 100_000, false);
        for (typ, line) in [(1, 0), (3, 0), (7, 3), (7, 5000), (7, 100_000)] {
            add(Shape::Data { typ, line }, 700, false);
        }
        add(Shape::Chain { ri: true }, 1500, false);
        add(Shape::Chain { ri: false }, 1500, false);
        add(Shape::Slashes, 2_000_000, false);
        add(Shape::Missing, 1_000_000, false);
        for n in [60_000, 200_000] {
            add(Shape::Deep { upper: n > 100_000 }, n, false);
        }
        for line in [0, 1, 2, 3, 9, 1000] {
            add(Shape::Text { typ: 7, line }, 8172, false);
            add(Shape::Text { typ: 7, line }, 100_000, false);
            add(Shape::Text { typ: 1 + line % 2, line }, 1_000_000, false);
        }
        add(Shape::File, 50_000, false);
        add(Shape::Shared, 20_000, false);
        add(Shape::Name { w: true }, 32_767, false);
        add(Shape::Tree { ri: true, parts: vec![(0, 3), (2, 100)] }, 10_001, false);
        // with instructions
        let k = if tier == Tier::Quick { 1 } else { 3 };
        add(sub(true, vec![(1, 7), (0, 2)]), 200 * k, true);
        add(sub(false, vec![(2, 1)]), 200 * k, true);
        add(Shape::Values, 200 * k, true);
        add(Shape::Chain { ri: true }, 100 * k, true);
        for line in [0, 3] {
            add(Shape::Text { typ: 7, line }, 1500 * k, true);
            add(Shape::Text { typ: 1, line }, 1500 * k, true);
        }
        add(Shape::Deep { upper: true }, 200 * k, true);
        add(Shape::Slashes, 2000 * k, true);
        add(Shape::Missing, 1000 * k, true);
        add(Shape::Name { w: true }, 800 * k, true);
        add(Shape::Name { w: false }, 800 * k, true);
        v.extend(cycles);
        v
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let (bytes, units) = make(c, c.n);
        let (few, few_units) = make(c, SMALL);
        // per-thing cost on the small input, times the number of things; small inputs also pay for them all
        let grow = |what: &str, s: u64| if fixed_cost(c, what) { 4 * s + 64 } else { (4 * s * units.max(few_units)).div_ceil(few_units) + 256 };
        let small = costs(c, &few, SMALL, |_| u64::MAX)?;
        let find = |what: &str| small.iter().find(|s| s.0 == what).map(|s| s.1).unwrap_or_default();
        let many = costs(c, &bytes, c.n, |what| grow(what, find(what).reads) + 1)?;
        for (what, m) in &many {
            let s = find(what);
            // text and data: a multiple of what is returned, however small the pieces are
            let memory = match c.shape {
                Shape::Data { .. } => 200 * c.n as u64 * SEG as u64,
                Shape::Text { .. } => 400 * c.n as u64,
                _ => grow(what, s.requested),
            } + 65_536;
            for (kind, m, few, bound) in [("reads through the buffer", m.reads, s.reads, grow(what, s.reads)), ("requests to the heap", m.requests, s.requests, grow(what, s.requests)), ("bytes of memory requested", m.requested, s.requested, memory)] {
                obs.checks += 1;
                if m > bound {
                    return Err(format!("{what}: {m} {kind} for {} things ({:?}), more than {bound}; {few} for {SMALL}", c.n, c.shape));
                }
            }
        }
        if c.time {
            let time = |bytes: &[u8], n: u32, i: usize, reps: u32| -> f64 {
                let (path, name) = (path_of(c, n), name_of(c, n));
                let Some(h) = Hive::without_validation(bytes).ok() else { return 0.0 };
                let Some(k) = h.root_key_node().ok() else { return 0.0 };
                let o = ops(c, n, &path, &name);
                let t = cpu();
                for _ in 0..reps {
                    (o[i].1)(&k);
                }
                (cpu() - t) / reps as f64
            };
            let names: Vec<&str> = ops::<&[u8]>(c, c.n, "", "").iter().map(|o| o.0).collect();
            let slack = if matches!(c.shape, Shape::Name { .. }) { 0.1 } else { 0.5 };
            for (i, what) in names.into_iter().enumerate() {
                let mut last = (0.0, 0.0);
                // other processes may disturb any single measurement
                let slow = (0..3).all(|_| {
                    let few = (0..5).map(|_| time(&few, SMALL, i, 40)).fold(0.0, f64::max);
                    let many = time(&bytes, c.n, i, 1);
                    last = (few, many);
                    many > 40.0 * few * units as f64 / few_units as f64 + slack
                });
                obs.checks += 1;
                obs.label("timed");
                if std::env::var("NTV_STATS").is_ok() {
                    eprintln!("TIME {:?} {what}: {:.2} us for {SMALL}, {:.0} us for {}, ratio per thing {:.2}", c.shape, last.0 * 1e6, last.1 * 1e6, c.n, last.1 / last.0 * few_units as f64 / units as f64);
                }
                if slow {
                    return Err(format!("{what}: {:.3} s of processor time for {} things ({:?}), but only {:.6} s for {SMALL}", last.1, c.n, c.shape, last.0));
                }
            }
        }
        if c.shape == Shape::File {
            if let Some(p) = Paged::new(&bytes) {
                p.arm();
                let ok = Hive::new(p.bytes()).is_ok();
                let t = p.touched();
                obs.checks += 1;
                if !ok || t.len() > 2 {
                    return Err(format!("opening a hive of {} pages reads {} of them (accepted: {ok})", bytes.len() / 4096, t.len()));
                }
            }
        }
        if c.steps {
            let count = |bytes: &[u8], n: u32, i: usize, cap: u64| -> Option<u64> {
                let (path, name) = (path_of(c, n), name_of(c, n));
                let h = Hive::without_validation(bytes).ok()?;
                let k = h.root_key_node().ok()?;
                let o = ops(c, n, &path, &name);
                steps::count(cap, || (o[i].1)(&k))
            };
            let names: Vec<&str> = ops::<&[u8]>(c, c.n, "", "").iter().map(|o| o.0).collect();
            for (i, what) in names.into_iter().enumerate() {
                let Some(s) = count(&few, SMALL, i, 400_000) else {
                    obs.label("instructions-not-counted");
                    continue;
                };
                let bound = (4 * s * units).div_ceil(few_units) + 20_000;
                match count(&bytes, c.n, i, bound + 1) {
                    None => obs.label("instructions-not-counted"),
                    Some(m) => {
                        obs.checks += 1;
                        obs.label("instructions-counted");
                        if std::env::var("NTV_STATS").is_ok() {
                            eprintln!("STEPS {:?} {what}: {s} for {SMALL}, {m} for {}, bound {bound}", c.shape, c.n);
                        }
                        if m > bound {
                            return Err(format!("{what}: more than {bound} instructions for {} things ({:?}); {s} for {SMALL}", c.n, c.shape));
                        }
                    }
                }
            }
        }
        obs.label(&format!("{:?}", c.shape).split([' ', '{']).next().unwrap_or("").to_string());
        obs.nontrivial = c.n >= 64;
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["instructions are counted only where a process may trace its own child (label instructions-counted)".into()]
    }
}
