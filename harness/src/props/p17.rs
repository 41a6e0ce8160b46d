//! Histories of operations on one open hive, in several kinds of buffers. Every answer is compared
//! with the answer the same question gets as the first one on a freshly opened hive.
use crate::fuel::Fuel;
use crate::gen::{self, TreeOpt};
use crate::model::*;
use crate::props::{p13, p13::gen_q::Q};
use crate::runner::*;
use crate::transcript::{self, Outs};
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Ref, RefCell, RefMut};
use std::rc::Rc;
use zerocopy::SplitByteSlice;

pub struct P17;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub c: p13::Case,
    pub ops: Vec<(Op, u16, u16)>,
    /// address alignment of the bytes, kind of buffer
    pub align: u8,
    pub kind: u8,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Root,
    Validate,
    // on a key
    KeyAll,
    KeyName,
    KeyClass,
    Subkey,
    Subpath,
    Value,
    OpenSubkeys,
    OpenValues,
    CloneKey,
    DropKey,
    EqKeys,
    // on an iterator over keys, values, segments, strings
    Next,
    Nth,
    Hint,
    Count,
    Last,
    CloneIter,
    DropIter,
    // on a value
    ValAll,
    ValName,
    ValData,
    ValString,
    OpenSegs,
    OpenStrings,
    CloneVal,
    DropVal,
    EqVals,
}
const OPS: [Op; 29] = [
    Op::Root, Op::Validate, Op::KeyAll, Op::KeyName, Op::KeyClass, Op::Subkey, Op::Subpath, Op::Value, Op::OpenSubkeys, Op::OpenValues, Op::CloneKey,
    Op::DropKey, Op::EqKeys, Op::Next, Op::Nth, Op::Hint, Op::Count, Op::Last, Op::CloneIter, Op::DropIter, Op::ValAll, Op::ValName, Op::ValData,
    Op::ValString, Op::OpenSegs, Op::OpenStrings, Op::CloneVal, Op::DropVal, Op::EqVals,
];

fn op() -> BoxedStrategy<(Op, u16, u16)> {
    (
        prop_oneof![
            2 => prop::sample::select(OPS.to_vec()),
            1 => Just(Op::Next),
            1 => prop::sample::select(vec![Op::OpenSubkeys, Op::OpenValues, Op::Subkey, Op::Value]),
            1 => prop::sample::select(vec![Op::EqKeys, Op::EqVals, Op::KeyAll, Op::ValAll]),
        ],
        any::<u16>(),
        any::<u16>(),
    )
        .boxed()
}

/// Buffers whose handles can be cloned.
pub trait Buf: SplitByteSlice {
    fn key<'h>(_: &KeyNode<'h, Self>) -> Option<KeyNode<'h, Self>> {
        None
    }
    fn val<'h>(_: &KeyValue<'h, Self>) -> Option<KeyValue<'h, Self>> {
        None
    }
    fn iter<'h>(_: &It<'h, Self>) -> Option<It<'h, Self>> {
        None
    }
}
macro_rules! cloning {
    ($t:ty) => {
        impl Buf for $t {
            fn key<'h>(k: &KeyNode<'h, Self>) -> Option<KeyNode<'h, Self>> {
                Some(k.clone())
            }
            fn val<'h>(k: &KeyValue<'h, Self>) -> Option<KeyValue<'h, Self>> {
                Some(k.clone())
            }
            fn iter<'h>(k: &It<'h, Self>) -> Option<It<'h, Self>> {
                Some(match k {
                    It::Keys(i) => It::Keys(i.clone()),
                    It::Vals(i) => It::Vals(i.clone()),
                    It::Segs(i) => It::Segs(i.clone()),
                    It::Strs(i) => It::Strs(i.clone()),
                })
            }
        }
    };
}
cloning!(&[u8]);
cloning!(Fuel<'_>);
impl Buf for &mut [u8] {}
impl Buf for Ref<'_, [u8]> {}
impl Buf for RefMut<'_, [u8]> {}

pub enum It<'h, B: SplitByteSlice> {
    Keys(SubKeyNodes<'h, B>),
    Vals(KeyValues<'h, B>),
    Segs(BigDataSlices<'h, B>),
    Strs(RegMultiSZStrings<'h, B>),
}

/// Where a handle or iterator came from.
#[derive(Debug)]
pub enum Prov {
    Root,
    Look(Rc<Prov>, String),
    Path(Rc<Prov>, String),
    ValLook(Rc<Prov>, String),
    /// from this iterator, after these steps
    From(Rc<Prov>, Vec<usize>),
    Keys(Rc<Prov>),
    Vals(Rc<Prov>),
    Segs(Rc<Prov>),
    Strs(Rc<Prov>),
}

enum Any<'h, B: SplitByteSlice> {
    Key(KeyNode<'h, B>),
    Val(KeyValue<'h, B>),
    It(It<'h, B>),
}

/// One step of an iterator: by next() or nth(); the answer and a new handle.
fn step<'h, B: SplitByteSlice>(it: &mut It<'h, B>, n: usize) -> (String, Option<Any<'h, B>>) {
    fn go<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
        if n == usize::MAX {
            it.next()
        } else {
            it.nth(n)
        }
    }
    let e = |e: NtHiveError| transcript::err(&e, false);
    match it {
        It::Keys(i) => match go(i, n) {
            None => ("none".into(), None),
            Some(Err(x)) => (e(x), None),
            Some(Ok(k)) => (transcript::name(k.name(), false), Some(Any::Key(k))),
        },
        It::Vals(i) => match go(i, n) {
            None => ("none".into(), None),
            Some(Err(x)) => (e(x), None),
            Some(Ok(k)) => (transcript::name(k.name(), false), Some(Any::Val(k))),
        },
        It::Segs(i) => match go(i, n) {
            None => ("none".into(), None),
            Some(Err(x)) => (e(x), None),
            Some(Ok(b)) => (format!("{} {:?}", b.len(), crate::util::hash64(b)), None),
        },
        It::Strs(i) => match go(i, n) {
            None => ("none".into(), None),
            Some(Err(x)) => (e(x), None),
            Some(Ok(b)) => (format!("{b:?}"), None),
        },
    }
}

fn hint<B: SplitByteSlice>(it: &It<'_, B>) -> String {
    format!(
        "{:?}",
        match it {
            It::Keys(i) => i.size_hint(),
            It::Vals(i) => i.size_hint(),
            It::Segs(i) => i.size_hint(),
            It::Strs(i) => i.size_hint(),
        }
    )
}
/// Consumes the iterator.
fn finish<B: SplitByteSlice>(it: It<'_, B>, last: bool) -> String {
    const CAP: usize = 5000;
    if !last {
        return match it {
            It::Keys(i) => i.take(CAP).count(),
            It::Vals(i) => i.count(),
            It::Segs(i) => i.count(),
            It::Strs(i) => i.take(CAP).count(),
        }
        .to_string();
    }
    let e = |e: NtHiveError| transcript::err(&e, false);
    match it {
        It::Keys(i) => i.last().map(|r| r.map(|k| transcript::name(k.name(), false)).unwrap_or_else(e)),
        It::Vals(i) => i.last().map(|r| r.map(|k| transcript::name(k.name(), false)).unwrap_or_else(e)),
        It::Segs(i) => i.last().map(|r| r.map(|b| format!("{} {:?}", b.len(), crate::util::hash64(b))).unwrap_or_else(e)),
        It::Strs(i) => i.take(CAP).last().map(|r| r.map(|b| format!("{b:?}")).unwrap_or_else(e)),
    }
    .unwrap_or_else(|| "none".into())
}

fn open_keys<'h, B: SplitByteSlice>(k: &KeyNode<'h, B>) -> (String, Option<Any<'h, B>>) {
    match k.subkeys() {
        None => ("none".into(), None),
        Some(Err(e)) => (transcript::err(&e, false), None),
        Some(Ok(i)) => {
            let i = It::Keys(i);
            (hint(&i), Some(Any::It(i)))
        }
    }
}
fn open_vals<'h, B: SplitByteSlice>(k: &KeyNode<'h, B>) -> (String, Option<Any<'h, B>>) {
    match k.values() {
        None => ("none".into(), None),
        Some(Err(e)) => (transcript::err(&e, false), None),
        Some(Ok(i)) => {
            let i = It::Vals(i);
            (hint(&i), Some(Any::It(i)))
        }
    }
}
fn open_segs<'h, B: SplitByteSlice>(v: &KeyValue<'h, B>) -> (String, Option<Any<'h, B>>) {
    match v.data() {
        Err(e) => (transcript::err(&e, false), None),
        Ok(KeyValueData::Small(b)) => (format!("small {b:?}"), None),
        Ok(KeyValueData::Big(i)) => {
            let i = It::Segs(i);
            (hint(&i), Some(Any::It(i)))
        }
    }
}
fn open_strs<'h, B: SplitByteSlice>(v: &KeyValue<'h, B>) -> (String, Option<Any<'h, B>>) {
    match v.multi_string_data() {
        Err(e) => (transcript::err(&e, false), None),
        Ok(i) => {
            let i = It::Strs(i);
            (hint(&i), Some(Any::It(i)))
        }
    }
}
fn look<'h, B: SplitByteSlice>(r: Option<Result<KeyNode<'h, B>>>) -> (String, Option<Any<'h, B>>) {
    match r {
        None => ("none".into(), None),
        Some(Err(e)) => (transcript::err(&e, false), None),
        Some(Ok(k)) => (transcript::name(k.name(), false), Some(Any::Key(k))),
    }
}
fn vlook<'h, B: SplitByteSlice>(r: Option<Result<KeyValue<'h, B>>>) -> (String, Option<Any<'h, B>>) {
    match r {
        None => ("none".into(), None),
        Some(Err(e)) => (transcript::err(&e, false), None),
        Some(Ok(k)) => (format!("{} {}", transcript::name(k.name(), false), k.data_size()), Some(Any::Val(k))),
    }
}

/// Follows a provenance; the answer of its last operation and what it gave.
fn derive<'h, B: SplitByteSlice>(h: &'h Hive<B>, p: &Prov) -> (String, Option<Any<'h, B>>) {
    let lost = || ("lost".to_string(), None);
    let key = |p: &Prov| match derive(h, p).1 {
        Some(Any::Key(k)) => Some(k),
        _ => None,
    };
    let val = |p: &Prov| match derive(h, p).1 {
        Some(Any::Val(k)) => Some(k),
        _ => None,
    };
    match p {
        Prov::Root => look(Some(h.root_key_node())),
        Prov::Look(p, s) => key(p).map(|k| look(k.subkey(s))).unwrap_or_else(lost),
        Prov::Path(p, s) => key(p).map(|k| look(k.subpath(s))).unwrap_or_else(lost),
        Prov::ValLook(p, s) => key(p).map(|k| vlook(k.value(s))).unwrap_or_else(lost),
        Prov::Keys(p) => key(p).map(|k| open_keys(&k)).unwrap_or_else(lost),
        Prov::Vals(p) => key(p).map(|k| open_vals(&k)).unwrap_or_else(lost),
        Prov::Segs(p) => val(p).map(|k| open_segs(&k)).unwrap_or_else(lost),
        Prov::Strs(p) => val(p).map(|k| open_strs(&k)).unwrap_or_else(lost),
        Prov::From(p, steps) => match derive(h, p).1 {
            Some(Any::It(mut i)) => {
                let mut r = lost();
                for n in steps {
                    r = step(&mut i, *n);
                }
                r
            }
            _ => lost(),
        },
    }
}
/// The iterator after these steps, from the start.
fn derive_it<'h, B: SplitByteSlice>(h: &'h Hive<B>, p: &Prov, steps: &[usize]) -> Option<It<'h, B>> {
    match derive(h, p).1 {
        Some(Any::It(mut i)) => {
            for n in steps {
                step(&mut i, *n);
            }
            Some(i)
        }
        _ => None,
    }
}

fn key_all<B: SplitByteSlice>(k: &KeyNode<'_, B>, q: &[String]) -> String {
    let mut o = Outs::new(false, false);
    let mut left = 12;
    transcript::key(k, q, 0, &mut left, &mut o);
    format!("{:x} {:x} {}", o.shared.hash, o.alloc.hash, o.shared.lines)
}
fn val_all<B: SplitByteSlice>(v: &KeyValue<'_, B>, q: &[String]) -> String {
    let mut o = Outs::new(false, false);
    transcript::value(v, q, &mut o);
    format!("{:x} {:x} {}", o.shared.hash, o.alloc.hash, o.shared.lines)
}
fn vstr<B: SplitByteSlice>(v: &KeyValue<'_, B>) -> String {
    match v.string_data() {
        Ok(s) => format!("{s:?}"),
        Err(e) => transcript::err(&e, false),
    }
}
fn class<B: SplitByteSlice>(k: &KeyNode<'_, B>) -> String {
    k.class_name().map(|c| transcript::name(c, false)).unwrap_or_else(|| "none".into())
}
fn verdict<B: SplitByteSlice>(h: &Hive<B>) -> String {
    format!("{:?} {}.{}", h.validate(), h.major_version(), h.minor_version())
}

/// Where the record is: the address of its name.
fn place(n: Result<NtHiveNameString<'_>>, base: usize) -> Option<usize> {
    match n {
        Ok(NtHiveNameString::Latin1(b)) | Ok(NtHiveNameString::Utf16LE(b)) => Some((b.as_ptr() as usize).wrapping_sub(base)),
        Err(_) => None,
    }
}

const POOL: usize = 8;

/// Runs the history on `h`; `other` is a second hive with the same bytes.
#[allow(clippy::too_many_arguments)]
fn run<B: Buf>(h: &Hive<B>, other: &Hive<B>, base: usize, fresh: &[u8], ops: &[(Op, u16, u16)], q: &[String], obs: &mut Obs) -> std::result::Result<(), String> {
    let mut keys: Vec<(KeyNode<'_, B>, Rc<Prov>)> = vec![];
    let mut vals: Vec<(KeyValue<'_, B>, Rc<Prov>)> = vec![];
    let mut its: Vec<(It<'_, B>, Rc<Prov>, Vec<usize>)> = vec![];
    let root = Rc::new(Prov::Root);
    if let Ok(k) = h.root_key_node() {
        keys.push((k, root.clone()));
    }
    let pick = |i: u16, n: usize| if n == 0 { None } else { Some(i as usize % n) };
    let text = |i: u16| if q.is_empty() { String::new() } else { q[i as usize % q.len()].clone() };
    for (no, (op, a, b)) in ops.iter().enumerate() {
        // the same question, first thing on a new hive
        let f = Hive::without_validation(fresh).map_err(|e| format!("cannot open the same bytes again: {e:?}"))?;
        let fkey = |p: &Prov| match derive(&f, p).1 {
            Some(Any::Key(k)) => Ok(k),
            _ => Err(format!("operation {no}: a key that was there is not found on a new hive: {p:?}")),
        };
        let fval = |p: &Prov| match derive(&f, p).1 {
            Some(Any::Val(k)) => Ok(k),
            _ => Err(format!("operation {no}: a value that was there is not found on a new hive: {p:?}")),
        };
        let fit = |p: &Prov, s: &[usize]| derive_it(&f, p, s).ok_or_else(|| format!("operation {no}: an iterator cannot be had again: {p:?}"));
        let (got, want, what): (String, String, String);
        // what this operation adds to the pools
        let mut new: Option<(Any<'_, B>, Rc<Prov>)> = None;
        match op {
            Op::Root => {
                let r = look(Some(h.root_key_node()));
                (got, want, what) = (r.0, derive(&f, &root).0, "root_key_node".into());
                new = r.1.map(|k| (k, root.clone()));
            }
            Op::Validate => (got, want, what) = (verdict(h), verdict(&f), "validate".into()),
            Op::KeyAll | Op::KeyName | Op::KeyClass | Op::Subkey | Op::Subpath | Op::Value | Op::OpenSubkeys | Op::OpenValues => {
                let Some(i) = pick(*a, keys.len()) else { continue };
                let (k, p) = (&keys[i].0, keys[i].1.clone());
                let fk = fkey(&p)?;
                what = format!("{op:?} of {p:?}");
                match op {
                    Op::KeyAll => (got, want) = (key_all(k, q), key_all(&fk, q)),
                    Op::KeyName => (got, want) = (transcript::name(k.name(), false), transcript::name(fk.name(), false)),
                    Op::KeyClass => (got, want) = (class(k), class(&fk)),
                    _ => {
                        let s = text(*b);
                        let (r, p) = match op {
                            Op::Subkey => (look(k.subkey(&s)), Prov::Look(p, s)),
                            Op::Subpath => {
                                let s = if b & 0x100 == 0 { format!("{s}\\\\{}", text(*b / 7)) } else { s };
                                (look(k.subpath(&s)), Prov::Path(p, s))
                            }
                            Op::Value => (vlook(k.value(&s)), Prov::ValLook(p, s)),
                            Op::OpenSubkeys => (open_keys(k), Prov::Keys(p)),
                            _ => (open_vals(k), Prov::Vals(p)),
                        };
                        (got, want) = (r.0, derive(&f, &p).0);
                        new = r.1.map(|n| (n, Rc::new(p)));
                    }
                }
            }
            Op::CloneKey => {
                let Some(i) = pick(*a, keys.len()) else { continue };
                if let Some(k) = B::key(&keys[i].0) {
                    if k != keys[i].0 {
                        return Err(format!("operation {no}: a clone of a key differs from it"));
                    }
                    let p = keys[i].1.clone();
                    keys.push((k, p));
                }
                continue;
            }
            Op::DropKey => {
                if let Some(i) = pick(*a, keys.len()) {
                    keys.swap_remove(i);
                }
                continue;
            }
            Op::EqKeys => {
                let (Some(i), Some(j)) = (pick(*a, keys.len()), pick(*b, keys.len())) else { continue };
                let (x, y) = (&keys[i].0, &keys[j].0);
                if let (Some(m), Some(n)) = (place(x.name(), base), place(y.name(), base)) {
                    (got, want) = (format!("{} {}", x == y, x != y), format!("{} {}", m == n, m != n));
                    what = format!("equality of {:?} and {:?}", keys[i].1, keys[j].1);
                    obs.label(if m == n { "equal-handles" } else { "unequal-handles" });
                } else {
                    continue;
                }
                if let Some(Any::Key(z)) = derive(other, &keys[i].1).1 {
                    if z == *x || *x == z {
                        return Err(format!("operation {no}: keys of two different hives are equal"));
                    }
                }
            }
            Op::CloneVal => {
                let Some(i) = pick(*a, vals.len()) else { continue };
                if let Some(k) = B::val(&vals[i].0) {
                    if k != vals[i].0 {
                        return Err(format!("operation {no}: a clone of a value differs from it"));
                    }
                    let p = vals[i].1.clone();
                    vals.push((k, p));
                }
                continue;
            }
            Op::DropVal => {
                if let Some(i) = pick(*a, vals.len()) {
                    vals.swap_remove(i);
                }
                continue;
            }
            Op::EqVals => {
                let (Some(i), Some(j)) = (pick(*a, vals.len()), pick(*b, vals.len())) else { continue };
                let (x, y) = (&vals[i].0, &vals[j].0);
                if let (Some(m), Some(n)) = (place(x.name(), base), place(y.name(), base)) {
                    (got, want) = (format!("{} {}", x == y, x != y), format!("{} {}", m == n, m != n));
                    what = format!("equality of {:?} and {:?}", vals[i].1, vals[j].1);
                    obs.label(if m == n { "equal-handles" } else { "unequal-handles" });
                } else {
                    continue;
                }
                if let Some(Any::Val(z)) = derive(other, &vals[i].1).1 {
                    if z == *x || *x == z {
                        return Err(format!("operation {no}: values of two different hives are equal"));
                    }
                }
            }
            Op::Next | Op::Nth => {
                let Some(i) = pick(*a, its.len()) else { continue };
                let n = if *op == Op::Next {
                    usize::MAX
                } else {
                    [0usize, 1, 2, 3, 5, 1000][*b as usize % 6]
                };
                let (it, p, steps) = &mut its[i];
                steps.push(n);
                let r = step(it, n);
                let p = Prov::From(p.clone(), steps.clone());
                what = format!("{op:?} of {p:?}");
                (got, want) = (r.0, derive(&f, &p).0);
                new = r.1.map(|n| (n, Rc::new(p)));
            }
            Op::Hint => {
                let Some(i) = pick(*a, its.len()) else { continue };
                let (it, p, steps) = &its[i];
                what = format!("size_hint of {p:?} after {steps:?}");
                (got, want) = (hint(it), hint(&fit(p, steps)?));
            }
            Op::Count | Op::Last => {
                let Some(i) = pick(*a, its.len()) else { continue };
                let (it, p, steps) = match B::iter(&its[i].0) {
                    Some(c) => (c, its[i].1.clone(), its[i].2.clone()),
                    None => its.swap_remove(i),
                };
                what = format!("{op:?} of {p:?} after {steps:?}");
                (got, want) = (finish(it, *op == Op::Last), finish(fit(&p, &steps)?, *op == Op::Last));
            }
            Op::CloneIter => {
                let Some(i) = pick(*a, its.len()) else { continue };
                if let Some(c) = B::iter(&its[i].0) {
                    let (p, s) = (its[i].1.clone(), its[i].2.clone());
                    its.push((c, p, s));
                }
                continue;
            }
            Op::DropIter => {
                if let Some(i) = pick(*a, its.len()) {
                    its.swap_remove(i);
                }
                continue;
            }
            Op::ValAll | Op::ValName | Op::ValData | Op::ValString | Op::OpenSegs | Op::OpenStrings => {
                let Some(i) = pick(*a, vals.len()) else { continue };
                let (v, p) = (&vals[i].0, vals[i].1.clone());
                let fv = fval(&p)?;
                what = format!("{op:?} of {p:?}");
                match op {
                    Op::ValAll => (got, want) = (val_all(v, q), val_all(&fv, q)),
                    Op::ValName => (got, want) = (transcript::name(v.name(), false), transcript::name(fv.name(), false)),
                    Op::ValData => {
                        let d = |v: &std::result::Result<Vec<u8>, NtHiveError>| match v {
                            Ok(b) => format!("{} {:?}", b.len(), crate::util::hash64(b)),
                            Err(e) => transcript::err(e, false),
                        };
                        (got, want) = (d(&v.data().and_then(|d| d.into_vec())), d(&fv.data().and_then(|d| d.into_vec())));
                    }
                    Op::ValString => (got, want) = (vstr(v), vstr(&fv)),
                    _ => {
                        let (r, p) = if *op == Op::OpenSegs { (open_segs(v), Prov::Segs(p)) } else { (open_strs(v), Prov::Strs(p)) };
                        (got, want) = (r.0, derive(&f, &p).0);
                        new = r.1.map(|n| (n, Rc::new(p)));
                    }
                }
            }
        }
        obs.checks += 1;
        if got != want {
            return Err(format!("operation {no}: {what} answers {got} after this history, but {want} on a newly opened hive"));
        }
        match new {
            None => (),
            Some((Any::Key(k), p)) => {
                if keys.len() >= POOL {
                    keys.remove(0);
                }
                keys.push((k, p))
            }
            Some((Any::Val(k), p)) => {
                if vals.len() >= POOL {
                    vals.remove(0);
                }
                vals.push((k, p))
            }
            Some((Any::It(k), p)) => {
                if its.len() >= POOL {
                    its.remove(0);
                }
                its.push((k, p, vec![]))
            }
        }
        obs.add("operations", 1);
    }
    Ok(())
}

impl Prop for P17 {
    type Case = Case;
    const ID: &'static str = "P17";
    const RULE: &'static str = "cases: a hive with 0..2 damages and a history of up to 90 operations (opening, validating, reading, looking up, iterating, skipping, cloning, dropping and comparing handles and iterators of keys, values, segments and strings, interleaved) on one open hive, in a shared, exclusive or run-time-borrowed buffer at any alignment; every answer is compared with the answer of a newly opened hive (shared slice) to the same question, reached only by the steps that lead to it; handles are equal exactly when their records lie at the same place, and never across two hives, not even ones open on the same bytes. Non-trivial: at least 10 operations were answered.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let n = if tier == Tier::Quick { 90 } else { 300 };
        let big = TreeOpt { keys: 4, vals: 4, big: true, bulk: 0 };
        let small = TreeOpt { keys: 10, vals: 4, big: false, bulk: 12 };
        let c = |o, d| (p13::damaged(o, d), vec(p13::gen_q::q(), 2..6)).prop_map(|(mut c, q)| { c.q = q; c }).boxed();
        (prop_oneof![5 => c(small, 2), 3 => c(small, 0), 2 => c(big, 1)], vec(op(), 5..n), any::<u8>(), 0u8..5)
            .prop_map(|(c, ops, align, kind)| Case { c, ops, align, kind })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 300_000 } else { 4_000_000 }
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> std::result::Result<(), String> {
        let b = build(&c.c.h);
        let mut bytes = b.bytes.clone();
        gen::apply(&mut bytes, &b, &c.c.d);
        let q: Vec<String> = c.c.q.iter().filter_map(|q: &Q| q.text(&b.nodes)).collect();
        if !c.c.d.is_empty() {
            obs.label("damaged");
        }
        check_bytes(&bytes, &c.ops, &q, c.align, c.kind, obs)
    }
    fn raw(&self, r: &crate::rawfuzz::Raw, obs: &mut Obs) -> Option<std::result::Result<(), String>> {
        let ops = crate::rawfuzz::sample(&vec(op(), 5..90).boxed(), r.seed);
        Some(check_bytes(&r.bytes, &ops, &r.q, (r.seed >> 16) as u8, (r.seed >> 24) as u8, obs))
    }
    fn max_shrink(&self) -> usize {
        3000
    }
}

fn check_bytes(bytes: &[u8], ops: &[(Op, u16, u16)], q: &[String], align: u8, kind: u8, obs: &mut Obs) -> std::result::Result<(), String> {
    let at = align as usize % 16;
    let place = |pad: usize| {
        let mut v = vec![0u8; pad];
        v.extend_from_slice(bytes);
        v
    };
    let (mut x, mut y) = (place(at), place(at / 3));
    let fresh = bytes;
    let before = obs.checks;
    macro_rules! go {
        ($name:expr, $x:expr, $y:expr, $base:expr) => {{
            obs.label($name);
            let base = $base;
            match (Hive::without_validation($x), Hive::without_validation($y)) {
                (Ok(h), Ok(o)) => run(&h, &o, base, fresh, ops, q, obs).map_err(|e| format!("{} buffer: {e}", $name))?,
                (Err(e), _) | (_, Err(e)) => {
                    let f = Hive::without_validation(fresh).map(|_| ()).map_err(|e| format!("{e:?}"));
                    if f != Err(format!("{e:?}")) {
                        return Err(format!("{} buffer: opening fails with {e:?}, but gives {f:?} with a shared slice", $name));
                    }
                }
            }
        }};
    }
    match kind % 5 {
        // the other hive may be open on the very same bytes
        0 => go!("shared", &x[at..], if align & 16 == 0 { &y[at / 3..] } else { &x[at..] }, x[at..].as_ptr() as usize),
        1 => go!("counting", Fuel(&x[at..]), Fuel(if align & 16 == 0 { &y[at / 3..] } else { &x[at..] }), x[at..].as_ptr() as usize),
        2 => {
            let p = x[at..].as_ptr() as usize;
            go!("exclusive", &mut x[at..], &mut y[at / 3..], p)
        }
        3 => {
            let p = x[at..].as_ptr() as usize;
            let (x, y) = (RefCell::new(x), RefCell::new(y));
            go!("run-time-borrowed", Ref::map(x.borrow(), |v| &v[at..]), Ref::map(y.borrow(), |v| &v[at / 3..]), p);
        }
        _ => {
            let p = x[at..].as_ptr() as usize;
            let (x, y) = (RefCell::new(x), RefCell::new(y));
            go!("run-time-borrowed-exclusive", RefMut::map(x.borrow_mut(), |v| &mut v[at..]), RefMut::map(y.borrow_mut(), |v| &mut v[at / 3..]), p);
        }
    }
    obs.nontrivial = obs.checks - before >= 10;
    Ok(())
}
