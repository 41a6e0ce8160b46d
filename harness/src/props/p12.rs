//! Iterator operations against the vector obtained by stepping.
use crate::cosim::CALL_BUDGET;
use crate::fuel::{self, Fuel};
use crate::gen::{self, How, TreeOpt};
use crate::model::*;
use crate::runner::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct P12;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum N {
    /// what remains, plus this
    Rel(i8),
    Abs(u16),
    /// near usize::MAX / d, or a power of two
    Huge(u8, i8),
}
impl N {
    fn get(&self, rem: usize) -> usize {
        match self {
            N::Rel(d) => (rem as i64 + *d as i64).max(0) as usize,
            N::Abs(n) => *n as usize,
            N::Huge(k, d) => {
                let base = match k % 12 {
                    0 | 1 => usize::MAX,
                    2 => usize::MAX / 4,
                    3 => usize::MAX / 8,
                    4 => usize::MAX / SEG,
                    5 => usize::MAX / 2,
                    6 => 1 << 62,
                    7 => 1 << 61,
                    8 => 1 << 63,
                    9 => u32::MAX as usize,
                    10 => u32::MAX as usize / SEG,
                    _ => 1 << 30,
                };
                base.saturating_add_signed(*d as isize)
            }
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Next,
    Steps(u8),
    Nth(N),
    Hint,
    Count,
    Last,
    /// continue with a clone, keeping the original
    Clone,
    /// go to another handle
    Switch(u8),
    StepBy(N),
    Skip(N),
    Take(N),
    Rest,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub h: HiveS,
    /// (kind, which, how) of damaged items
    pub d: Vec<(u8, u32, How)>,
    pub ops: Vec<Op>,
}

pub fn op() -> BoxedStrategy<Op> {
    let n = prop_oneof![
        4 => (-3i8..4).prop_map(N::Rel),
        4 => (0u16..4).prop_map(N::Abs),
        1 => (0u16..70).prop_map(N::Abs),
        3 => (any::<u8>(), -3i8..4).prop_map(|(k, d)| N::Huge(k, d)),
    ];
    prop_oneof![
        5 => Just(Op::Next),
        2 => (0u8..12).prop_map(Op::Steps),
        6 => n.clone().prop_map(Op::Nth),
        3 => Just(Op::Hint),
        2 => Just(Op::Count),
        2 => Just(Op::Last),
        2 => Just(Op::Clone),
        2 => any::<u8>().prop_map(Op::Switch),
        1 => n.clone().prop_map(Op::StepBy),
        1 => n.clone().prop_map(Op::Skip),
        1 => n.prop_map(Op::Take),
        1 => Just(Op::Rest),
    ]
    .boxed()
}

/// What an element is, comparable.
#[derive(Clone, Debug, PartialEq)]
pub enum Id {
    At(usize, usize),
    Txt(String),
    Nameless(String),
    Err(NtHiveError),
}
fn key_id<B: zerocopy::SplitByteSlice>(r: Result<KeyNode<'_, B>>) -> Id {
    match r {
        Err(e) => Id::Err(e),
        Ok(k) => match k.name() {
            Ok(n) => Id::At(super::p04::name_at(&n), n.len()),
            Err(e) => Id::Nameless(format!("{e:?}")),
        },
    }
}
fn val_id<B: zerocopy::SplitByteSlice>(r: Result<KeyValue<'_, B>>) -> Id {
    match r {
        Err(e) => Id::Err(e),
        Ok(v) => match v.name() {
            Ok(n) => Id::At(super::p04::name_at(&n), v.data_size() as usize),
            Err(e) => Id::Nameless(format!("{e:?}")),
        },
    }
}

fn drive<I: Iterator + Clone>(what: &str, it: I, id: fn(I::Item) -> Id, len: Option<fn(&I) -> usize>, ops: &[Op], obs: &mut Obs) -> Result<(), String> {
    // the reference: stepping
    let mut all: Vec<Id> = vec![];
    {
        let mut s = it.clone();
        loop {
            fuel::reset(CALL_BUDGET);
            match s.next() {
                None => break,
                Some(x) => all.push(id(x)),
            }
            let longest = LONGEST.with(|l| l.get());
            if all.len() > longest {
                if longest < 2_000_000 {
                    return Ok(());
                }
                return Err(format!("{what}: stepping does not end"));
            }
        }
        for k in 0..3 {
            if let Some(x) = s.next() {
                return Err(format!("{what}: next() after the end ({} elements) gives {:?} (call {k})", all.len(), id(x)));
            }
        }
    }
    if all.iter().any(|x| matches!(x, Id::Err(_))) {
        obs.label("with-error-elements");
    }
    obs.label(what);
    if all.len() >= 2 {
        obs.nontrivial = true;
    }
    let mut pool: Vec<(I, usize)> = vec![(it, 0)];
    let mut cur = 0usize;
    let mut trail: Vec<String> = vec![];
    for op in ops.iter().chain([&Op::Hint, &Op::Rest, &Op::Nth(N::Abs(0)), &Op::Next]) {
        fuel::reset(CALL_BUDGET);
        obs.checks += 1;
        let np = pool.len();
        let (i, pos) = &mut pool[cur];
        let rem = all.len() - *pos;
        let rest = &all[*pos..];
        trail.push(format!("{op:?}@{pos}"));
        let fail = |got: String, want: String| -> Result<(), String> {
            Err(format!("{what}, {} elements, {rem} left: after {}: got {}, expected {}", all.len(), trail.join(" "), crate::util::trunc(&got, 300), crate::util::trunc(&want, 300)))
        };
        match op {
            Op::Next => {
                let g = i.next().map(id);
                if g.as_ref() != rest.first() {
                    fail(format!("{g:?}"), format!("{:?}", rest.first()))?;
                }
                *pos += 1.min(rem);
            }
            Op::Steps(k) => {
                for j in 0..*k as usize {
                    let g = i.next().map(id);
                    if g.as_ref() != rest.get(j) {
                        fail(format!("{g:?}"), format!("{:?}", rest.get(j)))?;
                    }
                }
                *pos += rem.min(*k as usize);
            }
            Op::Nth(n) => {
                let n = n.get(rem);
                let g = i.nth(n).map(id);
                if g.as_ref() != rest.get(n) {
                    fail(format!("nth({n}) = {g:?}"), format!("{:?}", rest.get(n)))?;
                }
                obs.label(if n >= rem { "nth-past-the-end" } else { "nth-inside" });
                *pos += rem.min(n.saturating_add(1));
            }
            Op::Hint => {
                let (lo, hi) = i.size_hint();
                if let Some(len) = len {
                    if (lo, hi) != (rem, Some(rem)) || len(i) != rem {
                        fail(format!("size_hint() = {:?}, len() = {}", (lo, hi), len(i)), format!("{rem}"))?;
                    }
                }
                if lo > rem || hi.is_some_and(|h| h < rem) {
                    fail(format!("size_hint() = {:?}", (lo, hi)), format!("{rem}"))?;
                }
            }
            Op::Count => {
                let n = i.clone().count();
                if n != rem {
                    fail(format!("count() = {n}"), format!("{rem}"))?;
                }
            }
            Op::Last => {
                let g = i.clone().last().map(id);
                if g.as_ref() != rest.last() {
                    fail(format!("last() = {g:?}"), format!("{:?}", rest.last()))?;
                }
            }
            Op::Clone => {
                if np < 8 {
                    let c = (i.clone(), *pos);
                    pool.push(c);
                    cur = np;
                }
            }
            Op::Switch(k) => cur = *k as usize % np,
            Op::StepBy(n) => {
                let n = n.get(rem).clamp(1, usize::MAX - 1);
                let g: Vec<Id> = i.clone().step_by(n).map(id).collect();
                let w: Vec<Id> = rest.iter().step_by(n).cloned().collect();
                if g != w {
                    fail(format!("step_by({n}): {g:?}"), format!("{w:?}"))?;
                }
            }
            Op::Skip(n) => {
                let n = n.get(rem);
                let g: Vec<Id> = i.clone().skip(n).map(id).collect();
                if g[..] != rest[n.min(rem)..] {
                    fail(format!("skip({n}): {} elements", g.len()), format!("{}", rem - n.min(rem)))?;
                }
                let c = i.clone().skip(n).count();
                if c != rem - n.min(rem) {
                    fail(format!("skip({n}).count() = {c}"), format!("{}", rem - n.min(rem)))?;
                }
            }
            Op::Take(n) => {
                let n = n.get(rem);
                let g: Vec<Id> = i.by_ref().take(n).map(id).collect();
                if g[..] != rest[..n.min(rem)] {
                    fail(format!("take({n}): {} elements", g.len()), format!("{}", n.min(rem)))?;
                }
                *pos += n.min(rem);
            }
            Op::Rest => {
                let g = i.clone().fold(vec![], |mut a, x| {
                    a.push(id(x));
                    a
                });
                if g[..] != *rest {
                    fail(format!("{} elements {g:?}", g.len()), format!("{rem} elements {rest:?}"))?;
                }
            }
        }
    }
    Ok(())
}

const KINDS: [FK; 15] = [
    FK::LeafItem, FK::LeafItem, FK::ValsItem, FK::ValsItem, FK::DbItem, FK::DbItem, FK::RiItem, FK::LeafSig, FK::LeafCount, FK::NkSig, FK::VkSig, FK::SegCell, FK::NkCell, FK::VkCell, FK::VkSize,
];

impl Prop for P12 {
    type Case = Case;
    const ID: &'static str = "P12";
    const RULE: &'static str = "cases: keys with 0..60 subkeys in random lists (leaves, index roots), up to 12 values, big data of up to 6 segments with surplus segments, multi-strings; list items, entries and segments damaged; sequences of up to 24 next/nth/size_hint/len/count/last/clone/step_by/skip/take/fold operations over a pool of clones with small, exact, one-off and huge arguments, on every iterator of the hive. Oracle: the vector obtained by stepping. Non-trivial: an iterator of at least 2 elements.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let bigdat = prop_oneof![
            3 => (1u32..6, 0u32..5).prop_map(|(k, d)| Dat::Fill(k * SEG as u32 + d - 2, k)),
            2 => (16345u32..90_000).prop_map(|n| Dat::Fill(n, 1)),
            2 => (8173u32..20000, any::<u32>(), vec((any::<u32>(), Just(0u16)), 0..8)).prop_map(|(n, seed, edits)| Dat::Txt { n, seed, edits, odd: false }),
            2 => gen::text_bytes(),
            2 => gen::small_dat(),
        ];
        let val = (gen::val_name(), prop_oneof![2 => Just(7u32), 1 => Just(3u32)], bigdat, any::<bool>(), 0u16..4)
            .prop_map(|(name, typ, dat, inline, surplus)| ValS { name, typ, dat, inline, surplus });
        let vals = (vec(val, 1..5), vec(gen::val(false), 0..10), gen::lay()).prop_map(|(mut v, w, lay)| {
            v.extend(w);
            let mut h = HiveS::single();
            h.keys[0].vals = v;
            h.lay = lay;
            h
        });
        let tree = gen::hive(TreeOpt { keys: 14, vals: 4, big: false, bulk: 60 });
        let dm = (any::<u8>(), any::<u32>(), gen::how());
        (prop_oneof![3 => gen::siblings(60), 3 => tree, 2 => vals], prop_oneof![2 => Just(vec![]), 3 => vec(dm, 1..5)], vec(op(), 1..25))
            .prop_map(|(h, d, ops)| Case { h, d, ops })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 400_000 } else { 4_000_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let mut out = vec![];
        let args = [N::Abs(0), N::Abs(1), N::Abs(2), N::Rel(-2), N::Rel(-1), N::Rel(0), N::Rel(1)];
        let args: Vec<N> = args.into_iter().chain((0..12).flat_map(|k| [-1i8, 0, 1].map(|d| N::Huge(k, d)))).collect();
        let shape = |n: u32, ri: bool, kind: u8| {
            let mut h = HiveS::single();
            h.keys[0].list = ListS { ri, parts: vec![(kind, 3), (kind + 1, 1), (kind + 2, 4)], empty: true };
            if n > 0 {
                h.keys[0].bulk = Some((n, 1));
            }
            h.keys[0].empty_vals = true;
            h.keys[0].vals = (0..n % 9)
                .map(|i| ValS {
                    name: Nm::s(&format!("v{i}")),
                    typ: 7,
                    dat: if i % 3 == 0 { Dat::Fill(SEG as u32 * (i / 3 + 1) + 1 - i % 2, i) } else { Dat::Txt { n: 20, seed: i, edits: vec![(i, 0), (9, 0), (15, 0)], odd: false } },
                    inline: false,
                    surplus: (i % 3) as u16,
                })
                .collect();
            h
        };
        // every single operation with every argument from every early position
        for n in [0u32, 1, 2, 3, 7, 8] {
            for (ri, kind) in [(false, 0), (false, 2), (true, 0)] {
                for pre in 0..=(n + 1).min(5) {
                    for a in &args {
                        let mut ops = vec![Op::Steps(pre as u8), Op::Clone, Op::Nth(a.clone()), Op::Hint, Op::Count, Op::Last, Op::Next, Op::Next];
                        ops.extend([Op::Switch(0), Op::Skip(a.clone()), Op::StepBy(a.clone()), Op::Take(a.clone()), Op::Hint]);
                        out.push(Case { h: shape(n, ri, kind), d: vec![], ops });
                    }
                }
            }
        }
        for n in [5000u32, 65535] {
            for ri in [false, true] {
                let ops = vec![Op::Hint, Op::Count, Op::Last, Op::Nth(N::Abs(4000)), Op::Hint, Op::Nth(N::Rel(-2)), Op::Hint, Op::Next, Op::Next];
                out.push(Case { h: shape(n, ri, 0), d: vec![], ops });
            }
        }
        // more than 16 bits count: values, keys of an index root, segments
        let ops = |n: u32| {
            let mut v = vec![Op::Hint, Op::Count, Op::Last, Op::Clone, Op::Nth(N::Abs(255)), Op::Hint, Op::Nth(N::Abs(65000)), Op::Hint, Op::Nth(N::Rel(-3)), Op::Hint, Op::Last, Op::Next, Op::Next, Op::Next];
            v.extend([Op::Switch(0), Op::Hint, Op::Skip(N::Abs((n - 10).min(65535) as u16)), Op::StepBy(N::Abs(30000)), Op::Nth(N::Abs(65534)), Op::Hint, Op::Take(N::Rel(-1)), Op::Hint, Op::Next, Op::Next]);
            v
        };
        for n in [65534u32, 65535, 65536, 65537, 70_000, 131_073] {
            let mut h = HiveS::single();
            h.keys[0].bulk_vals = n;
            out.push(Case { h, d: vec![], ops: ops(n) });
            out.push(Case { h: super::p03::wide(n, 1, true, vec![(0, 65000), (1, 300)]), d: vec![], ops: ops(n) });
        }
        for n in [9u32, 17, 255, 256, 257, 4096, 32768, 65534, 65535] {
            for less in [0u32, 1] {
                let mut h = HiveS::single();
                let dat = Dat::Fill(2 * SEG as u32, n);
                h.keys[0].vals = vec![ValS { name: Nm::s("x"), typ: 3, dat, inline: false, surplus: (n as u16 - 2).saturating_add(less as u16) }];
                out.push(Case { h, d: vec![(14, 0, How::Set(n * SEG as u32 - less * 3))], ops: ops(n.max(11)) });
            }
        }
        out
    }
    fn max_shrink(&self) -> usize {
        3000
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let b = build(&c.h);
        let mut bytes = b.bytes.clone();
        for (k, i, how) in &c.d {
            // the first kind from here on that occurs
            let ks = (0..KINDS.len()).map(|j| KINDS[(*k as usize + j) % KINDS.len()]);
            for k in ks {
                let of: Vec<&Field> = b.fields.iter().filter(|f| f.kind == k && f.len > 0).collect();
                if !of.is_empty() {
                    gen::apply_how(&mut bytes, &b, of[*i as usize % of.len()], how);
                    break;
                }
            }
        }
        check_bytes(&bytes, &c.ops, 2_000_000, obs)
    }
    fn raw(&self, r: &crate::rawfuzz::Raw, obs: &mut Obs) -> Option<Result<(), String>> {
        let ops = crate::rawfuzz::sample(&vec(op(), 1..25).boxed(), r.seed);
        Some(check_bytes(&r.bytes, &ops, 3000, obs))
    }
}

thread_local! {
    /// iterators longer than this are left alone (they go round in circles)
    static LONGEST: std::cell::Cell<usize> = const { std::cell::Cell::new(2_000_000) };
}

fn check_bytes(bytes: &[u8], ops: &[Op], longest: usize, obs: &mut Obs) -> Result<(), String> {
    LONGEST.with(|l| l.set(longest));
    fuel::reset(u64::MAX);
    let h = Hive::without_validation(Fuel(bytes)).map_err(|e| format!("{e:?}"))?;
    let Ok(root) = h.root_key_node() else { return Ok(()) };
    let mut todo = vec![root];
    let mut done = 0;
    while let Some(k) = todo.pop() {
        done += 1;
        if done > 12 {
            break;
        }
        fuel::reset(u64::MAX);
        if let Some(Ok(it)) = k.subkeys() {
            let mut kids: Vec<_> = it.clone().filter_map(|x| x.ok()).take(6).collect();
            kids.reverse();
            drive("SubKeyNodes", it.clone(), key_id, None, ops, obs)?;
            match it {
                SubKeyNodes::Leaf(l) => drive("LeafKeyNodes", l, key_id, Some(|i| i.len()), ops, obs)?,
                SubKeyNodes::IndexRoot(r) => drive("IndexRootKeyNodes", r, key_id, None, ops, obs)?,
            }
            todo.extend(kids);
        }
        fuel::reset(u64::MAX);
        if let Some(Ok(it)) = k.values() {
            drive("KeyValues", it.clone(), val_id, Some(|i| i.len()), ops, obs)?;
            for v in it.filter_map(|x| x.ok()).take(8) {
                fuel::reset(u64::MAX);
                if let Ok(KeyValueData::Big(s)) = v.data() {
                    drive(
                        "BigDataSlices",
                        s,
                        |r| match r {
                            Ok(b) => Id::At(b.as_ptr() as usize, b.len()),
                            Err(e) => Id::Err(e),
                        },
                        Some(|i| i.len()),
                        ops,
                        obs,
                    )?;
                }
                fuel::reset(u64::MAX);
                if let Ok(s) = v.multi_string_data() {
                    drive(
                        "RegMultiSZStrings",
                        s,
                        |r| match r {
                            Ok(s) => Id::Txt(s),
                            Err(e) => Id::Err(e),
                        },
                        None,
                        ops,
                        obs,
                    )?;
                }
            }
        }
    }
    Ok(())
}
