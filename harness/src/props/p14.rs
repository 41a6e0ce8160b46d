//! Damage that certainly makes one structure unreadable: everything else answers as before.
use crate::cosim::CALL_BUDGET;
use crate::fuel::{self, Fuel};
use crate::gen::{self, TreeOpt};
use crate::model::*;
use crate::props::p04::{key_at, name_at};
use crate::props::p13::showcase;
use crate::runner::*;
use crate::treesim::{err, name_eq};
use crate::util::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

pub struct P14;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub h: HiveS,
    /// (kind of field modulo, which, variant, random bits)
    pub d: Vec<(u16, u32, u8, u32)>,
}


#[derive(Default)]
struct Bad {
    key: HashSet<usize>,
    name: HashSet<usize>,
    class: HashSet<usize>,
    vals: HashSet<usize>,
    subs: HashSet<usize>,
    val: HashSet<(usize, usize)>,
    vname: HashSet<(usize, usize)>,
    vdata: HashSet<(usize, usize)>,
    vtype: HashSet<(usize, usize)>,
    seg: HashSet<(usize, usize, usize)>,
    leaf: HashSet<(usize, usize)>,
    item: HashSet<(usize, usize)>,
    /// renamed: the parent's list may be out of order
    renamed: HashSet<usize>,
    size: HashMap<(usize, usize), u32>,
}

/// Makes the structure the field belongs to unreadable (or changes its content) and records what that
/// means. None if this field cannot be damaged with certain effect.
fn damage(b: &mut [u8], built: &mut Built, f: Field, variant: u8, bits: u32, bad: &mut Bad) -> Option<()> {
    let n = f.node as usize;
    let j = f.val as usize;
    let old = gen::get_field(b, &f);
    let end = built.data_size as u32;
    let cell_size = || match variant % 5 {
        0 => old.wrapping_neg(),
        1 => 0,
        2 => old.wrapping_sub(4),
        3 => 0x8000_0008,
        _ => (1 + bits % 4000) * 8,
    };
    let off = |none_ok: bool| match variant % 6 {
        0 => 0x7fff_fff0,
        1 => end,
        2 => end - 2,
        3 => 0xffff_fffe,
        4 if none_ok => NONE,
        _ => end + bits % 0x1000_0000,
    };
    let sig2 = |valid: &[&[u8; 2]]| -> u32 {
        let c = [*b"nk", *b"vk", *b"db", *b"sk", *b"\0\0", *b"\xff\xff", *b"NK", *b"lF", *b"RI", *b"kn", *b"hb"];
        let mut k = variant as usize;
        loop {
            let s = c[k % c.len()];
            if !valid.contains(&&s) {
                return u16::from_le_bytes(s) as u32;
            }
            k += 1;
        }
    };
    // bytes available behind `pos` in the cell that starts at data offset `cell`
    let avail = |cell: u32, pos: usize| {
        let at = BASE + cell as usize;
        (at + le32(b, at).wrapping_neg() as usize).saturating_sub(pos)
    };
    let new = match f.kind {
        FK::NkCell | FK::NkSig => {
            bad.key.insert(n);
            if f.kind == FK::NkCell { cell_size() } else { sig2(&[b"nk"]) }
        }
        FK::NkNameLen => {
            let a = avail(built.nodes[n].cell, BASE + built.nodes[n].cell as usize + 80);
            if a >= 0xffff {
                return None;
            }
            bad.name.insert(n);
            if variant % 2 == 0 { a as u32 + 1 } else { a as u32 + 1 + bits % (0xffff - a as u32) }
        }
        FK::NkName => {
            let t = &mut built.nodes[n];
            let k = bits as usize % f.len;
            b[f.pos + k] ^= 1 | variant;
            t.name[k] ^= 1 | variant;
            t.units = if t.latin { units_of_latin1(&t.name) } else { units_of_utf16le(&t.name) };
            bad.renamed.insert(t.parent);
            return Some(());
        }
        FK::NkClassOff => {
            built.nodes[n].class.as_ref()?;
            bad.class.insert(n);
            off(false)
        }
        FK::NkClassLen => {
            built.nodes[n].class.as_ref()?;
            let cell = le32(b, BASE + built.nodes[n].cell as usize + 4 + 48);
            if bad.class.contains(&n) {
                return None;
            }
            let a = avail(cell, BASE + cell as usize + 4);
            if a >= 0xffff {
                return None;
            }
            bad.class.insert(n);
            if variant % 2 == 0 { a as u32 + 1 } else { 0xffff }
        }
        FK::ClassCell => {
            bad.class.insert(n);
            cell_size()
        }
        FK::NkValOff => {
            if !built.nodes[n].has_vals {
                return None;
            }
            bad.vals.insert(n);
            off(false)
        }
        FK::ValsCell => {
            bad.vals.insert(n);
            cell_size()
        }
        FK::NkValCount => {
            if !built.nodes[n].has_vals {
                return None;
            }
            bad.vals.insert(n);
            [0xffff_ffff, 0x3fff_ffff, 0x4000_0000 + bits % 0x1000_0000, end][variant as usize % 4]
        }
        FK::ValsItem => {
            bad.val.insert((n, j));
            off(true)
        }
        FK::VkCell | FK::VkSig => {
            bad.val.insert((n, j));
            if f.kind == FK::VkCell { cell_size() } else { sig2(&[b"vk"]) }
        }
        FK::VkNameLen => {
            let c = built.nodes[n].vals[j].cell;
            let a = avail(c, BASE + c as usize + 24);
            if a >= 0xffff {
                return None;
            }
            bad.vname.insert((n, j));
            if variant % 2 == 0 { a as u32 + 1 } else { 0xffff }
        }
        FK::VkName => {
            let v = &mut built.nodes[n].vals[j];
            let k = bits as usize % f.len;
            b[f.pos + k] ^= 1 | variant;
            v.name[k] ^= 1 | variant;
            v.units = if v.latin { units_of_latin1(&v.name) } else { units_of_utf16le(&v.name) };
            return Some(());
        }
        FK::VkFlags => {
            let v = &mut built.nodes[n].vals[j];
            v.latin = !v.latin;
            v.units = if v.latin { units_of_latin1(&v.name) } else { units_of_utf16le(&v.name) };
            old ^ 1
        }
        FK::VkType => {
            if variant % 2 == 0 {
                bad.vtype.insert((n, j));
                12 + bits % 0x7fff_0000
            } else {
                built.nodes[n].vals[j].typ = bits % 12;
                bad.vtype.remove(&(n, j));
                bits % 12
            }
        }
        FK::VkSize => {
            if built.nodes[n].vals[j].form != Form::Inline {
                return None;
            }
            bad.vdata.insert((n, j));
            let s = if variant % 2 == 0 { 5 } else { 5 + bits % 0x7fff_fff0 };
            bad.size.insert((n, j), s);
            0x8000_0000 | s
        }
        FK::VkOff => {
            bad.vdata.insert((n, j));
            off(true)
        }
        FK::DataCell | FK::DbCell | FK::DbListCell => {
            bad.vdata.insert((n, j));
            cell_size()
        }
        FK::DbSig => {
            bad.vdata.insert((n, j));
            sig2(&[b"db"])
        }
        FK::DbListOff => {
            bad.vdata.insert((n, j));
            off(true)
        }
        FK::DbCount => {
            let segs = built.nodes[n].vals[j].data.len().div_ceil(SEG) as u32;
            bad.vdata.insert((n, j));
            [0, segs - 1, 0xffff, bits % segs][variant as usize % 4]
        }
        FK::DbItem => {
            bad.seg.insert((n, j, f.ix as usize));
            off(true)
        }
        FK::SegCell => {
            bad.seg.insert((n, j, f.ix as usize));
            cell_size()
        }
        FK::DataBytes => {
            let k = bits as usize % f.len;
            b[f.pos + k] ^= 1 | variant;
            built.nodes[n].vals[j].data[f.ix as usize * SEG + k] ^= 1 | variant;
            return Some(());
        }
        FK::NkSubOff => {
            if !built.nodes[n].has_list {
                return None;
            }
            bad.subs.insert(n);
            off(false)
        }
        FK::ListCell => {
            bad.subs.insert(n);
            cell_size()
        }
        FK::ListSig => {
            bad.subs.insert(n);
            sig2(&[b"lf", b"lh", b"li", b"ri"])
        }
        FK::ListCount => {
            // a count that fits in its cell would merely shorten or lengthen the list
            let at = f.pos - 6;
            let size = le32(b, at).wrapping_neg() as usize;
            if size > 60_000 || bad.subs.contains(&n) {
                return None;
            }
            bad.subs.insert(n);
            let isz = if matches!(&b[f.pos - 2..f.pos], b"lf" | b"lh") { 8 } else { 4 };
            if variant % 2 == 0 { ((size - 8) / isz + 1) as u32 } else { 0xffff }
        }
        FK::RiItem => {
            bad.leaf.insert((n, f.ix as usize));
            off(true)
        }
        FK::LeafCell => {
            bad.leaf.insert((n, f.ix as usize));
            cell_size()
        }
        FK::LeafSig => {
            bad.leaf.insert((n, f.ix as usize));
            if variant % 4 == 3 { u16::from_le_bytes(*b"ri") as u32 } else { sig2(&[b"lf", b"lh", b"li"]) }
        }
        FK::LeafCount => {
            let size = le32(b, f.pos - 6).wrapping_neg() as usize;
            if size > 60_000 || bad.leaf.contains(&(n, f.ix as usize)) {
                return None;
            }
            bad.leaf.insert((n, f.ix as usize));
            if variant % 2 == 0 { 0 } else { 0xffff }
        }
        FK::LeafItem => {
            bad.item.insert((n, f.ix as usize));
            off(true)
        }
        FK::Header | FK::NkFlags | FK::NkVol | FK::NkSubCount => return None,
    };
    gen::set_field(b, &f, new);
    Some(())
}

struct W<'a> {
    t: &'a [TNode],
    bad: &'a Bad,
    base: usize,
    obs: &'a mut Obs,
    live: usize,
}

impl W<'_> {
    fn key(&mut self, k: &KeyNode<'_, Fuel<'_>>, i: usize) -> Result<(), String> {
        let (t, bad) = (self.t, self.bad);
        let w = &t[i];
        let p = format!("key #{i}");
        fuel::reset(CALL_BUDGET);
        self.obs.checks += 1;
        self.live += 1;
        let must_err = |what: &str, e: bool| if e { Ok(()) } else { Err(format!("{p}: {what} succeeded although that structure is unreadable")) };
        if bad.name.contains(&i) {
            must_err("name()", k.name().is_err())?;
        } else {
            name_eq(&p, &err(&format!("{p}: name()"), k.name())?, w.latin, &w.name)?;
        }
        match (k.class_name(), &w.class) {
            (None, None) => (),
            (Some(c), Some(_)) if bad.class.contains(&i) => must_err("class_name()", c.is_err())?,
            (Some(c), Some(x)) => name_eq(&p, &err(&format!("{p}: class_name()"), c)?, false, x)?,
            (g, _) => return Err(format!("{p}: class_name() is_some = {}", g.is_some())),
        }
        self.values(k, i, &p)?;
        self.subkeys(k, i, &p)
    }

    fn values(&mut self, k: &KeyNode<'_, Fuel<'_>>, i: usize, p: &str) -> Result<(), String> {
        let (t, bad) = (self.t, self.bad);
        let w = &t[i];
        fuel::reset(CALL_BUDGET);
        let it = match k.values() {
            None if !w.has_vals => return Ok(()),
            None => return Err(format!("{p}: values() = None")),
            Some(Err(_)) if bad.vals.contains(&i) => {
                return match k.value("x") {
                    Some(Err(_)) => Ok(()),
                    _ => Err(format!("{p}: value() answers from an unreadable list")),
                }
            }
            Some(Ok(_)) if bad.vals.contains(&i) => return Err(format!("{p}: values() succeeded although the list is unreadable")),
            Some(r) => err(&format!("{p}: values()"), r)?,
        };
        let mut at = vec![];
        let mut n = 0;
        for v in it {
            if n >= w.vals.len() {
                return Err(format!("{p}: more than {} values", w.vals.len()));
            }
            match v {
                Err(e) => {
                    if !bad.val.contains(&(i, n)) {
                        return Err(format!("{p}: value {n}: {e:?}, but only other structures are damaged"));
                    }
                    at.push(None);
                }
                Ok(v) => {
                    if bad.val.contains(&(i, n)) {
                        return Err(format!("{p}: value {n} is returned although its record is unreadable"));
                    }
                    self.value(&v, i, n, &format!("{p} value {n}"))?;
                    at.push(Some(()));
                }
            }
            n += 1;
        }
        if n != w.vals.len() {
            return Err(format!("{p}: {n} entries enumerated, {} stored", w.vals.len()));
        }
        // lookups
        let mut names: Vec<Vec<u16>> = w.vals.iter().map(|v| v.units.clone()).collect();
        names.push(vec![0x7a, 0x7a, 0x7a, 0x7a, 0x31]);
        for u in names.into_iter().take(12) {
            let Some(q) = gen::to_str(&u) else { continue };
            let f = fold(&u);
            let mut want: Option<Result<usize, ()>> = None;
            for (j, v) in w.vals.iter().enumerate() {
                if bad.val.contains(&(i, j)) || bad.vname.contains(&(i, j)) {
                    want = Some(Err(()));
                    break;
                }
                if fold(&v.units) == f {
                    want = Some(Ok(j));
                    break;
                }
            }
            fuel::reset(CALL_BUDGET);
            self.obs.checks += 1;
            let ok = match (k.value(&q), &want) {
                (None, None) => true,
                (Some(Err(_)), Some(Err(()))) => true,
                (Some(Ok(g)), Some(Ok(j))) => {
                    g.name().map(|x| name_at(&x)).map_err(|e| format!("{p}: value({q:?}): name: {e:?}"))? == self.base + BASE + w.vals[*j].cell as usize + 24
                }
                _ => false,
            };
            if !ok {
                return Err(format!("{p}: value({q:?}) does not give entry {want:?}"));
            }
        }
        Ok(())
    }

    fn value(&mut self, v: &KeyValue<'_, Fuel<'_>>, i: usize, j: usize, p: &str) -> Result<(), String> {
        let (t, bad) = (self.t, self.bad);
        let w = &t[i].vals[j];
        let id = (i, j);
        self.live += 1;
        fuel::reset(CALL_BUDGET);
        self.obs.checks += 1;
        let must_err = |what: &str, e: bool| if e { Ok(()) } else { Err(format!("{p}: {what} succeeded although that structure is unreadable")) };
        if bad.vname.contains(&id) {
            must_err("name()", v.name().is_err())?;
        } else {
            name_eq(p, &err(&format!("{p}: name()"), v.name())?, w.latin, &w.name)?;
        }
        let size = bad.size.get(&id).copied().unwrap_or(w.data.len() as u32);
        if v.data_size() != size {
            return Err(format!("{p}: data_size() = {}, stored {size}", v.data_size()));
        }
        let typ = if bad.vtype.contains(&id) || w.typ > 11 {
            must_err("data_type()", v.data_type().is_err())?;
            None
        } else {
            let ty = err(&format!("{p}: data_type()"), v.data_type())?;
            if ty as u32 != w.typ {
                return Err(format!("{p}: data_type() = {ty:?}, stored {}", w.typ));
            }
            Some(w.typ)
        };
        if bad.vdata.contains(&id) {
            must_err("data()", v.data().is_err())?;
            must_err("dword_data()", v.dword_data().is_err())?;
            must_err("qword_data()", v.qword_data().is_err())?;
            must_err("string_data()", v.string_data().is_err())?;
            return must_err("multi_string_data()", v.multi_string_data().is_err());
        }
        let mut seg_bad = None;
        match err(&format!("{p}: data()"), v.data())? {
            KeyValueData::Small(b) => {
                if b != &w.data[..] {
                    return Err(format!("{p}: data differs"));
                }
            }
            KeyValueData::Big(it) => {
                let mut s = 0;
                for x in it {
                    let part = w.data.chunks(SEG).nth(s);
                    match (x, bad.seg.contains(&(i, j, s))) {
                        (Err(_), true) => {
                            seg_bad.get_or_insert(s);
                        }
                        (Ok(x), false) if Some(x) == part => (),
                        (x, b) => return Err(format!("{p}: segment {s}: {:?} (segment damaged: {b})", x.map(|x| x.len()))),
                    }
                    s += 1;
                }
                if s != w.data.len().div_ceil(SEG) {
                    return Err(format!("{p}: {s} segments"));
                }
            }
        }
        must_err("into_vec()", seg_bad.is_none() || v.data().and_then(|d| d.into_vec()).is_err())?;
        let units = units_of_utf16le(&w.data);
        let end = units.iter().position(|u| *u == 0).unwrap_or(units.len());
        match (v.string_data(), typ) {
            (Ok(s), Some(1 | 2)) => {
                if s != lossy16(&units[..end]) || seg_bad.is_some_and(|k| k * SEG / 2 <= end && k * SEG < w.data.len() && end == units.len()) {
                    return Err(format!("{p}: string_data() gives {} chars", s.chars().count()));
                }
            }
            (Err(e), Some(1 | 2)) => {
                if seg_bad.is_none() {
                    return Err(format!("{p}: string_data(): {e:?}"));
                }
            }
            (r, _) => must_err("string_data()", r.is_err())?,
        }
        match (v.multi_string_data(), typ) {
            (Ok(it), Some(7)) => {
                let mut want = units.split(|u| *u == 0).take_while(|s| !s.is_empty()).map(lossy16);
                for s in it {
                    match s {
                        Ok(s) => {
                            if Some(&s) != want.next().as_ref() {
                                return Err(format!("{p}: multi_string_data() gives {:?}", trunc(&s, 50)));
                            }
                        }
                        Err(e) if seg_bad.is_none() => return Err(format!("{p}: multi_string_data(): {e:?}")),
                        // what follows an unreadable segment is not specified
                        Err(_) => break,
                    }
                }
            }
            (r, x) => must_err("multi_string_data()", x != Some(7) && r.is_err())?,
        }
        let d = (typ == Some(4) && w.data.len() == 4).then(|| u32::from_le_bytes(w.data[..4].try_into().unwrap()));
        let d = if typ == Some(5) && w.data.len() == 4 { Some(u32::from_be_bytes(w.data[..4].try_into().unwrap())) } else { d };
        let q = (typ == Some(11) && w.data.len() == 8).then(|| u64::from_le_bytes(w.data[..8].try_into().unwrap()));
        if v.dword_data().ok() != d || v.qword_data().ok() != q {
            return Err(format!("{p}: integers {:?} {:?}, expected {d:?} {q:?}", v.dword_data(), v.qword_data()));
        }
        Ok(())
    }

    fn subkeys(&mut self, k: &KeyNode<'_, Fuel<'_>>, i: usize, p: &str) -> Result<(), String> {
        let (t, bad) = (self.t, self.bad);
        let w = &t[i];
        fuel::reset(CALL_BUDGET);
        let mut it = match k.subkeys() {
            None if !w.has_list => return Ok(()),
            None => return Err(format!("{p}: subkeys() = None")),
            Some(Err(_)) if bad.subs.contains(&i) => {
                return match k.subkey("x") {
                    Some(Err(_)) => Ok(()),
                    _ => Err(format!("{p}: subkey() answers from an unreadable list")),
                }
            }
            Some(Ok(_)) if bad.subs.contains(&i) => return Err(format!("{p}: subkeys() succeeded although the list is unreadable")),
            Some(r) => err(&format!("{p}: subkeys()"), r)?,
        };
        // the expected entries: (key or error), leaf by leaf
        let mut errs: Vec<NtHiveError> = vec![];
        let mut live = vec![];
        let dead_leaf = |l: usize| w.is_ri && bad.leaf.contains(&(i, l));
        let dead_kid = |q: usize| bad.item.contains(&(i, q)) || bad.key.contains(&w.kids[q]);
        for (l, (at, len)) in w.leaves.iter().enumerate() {
            if dead_leaf(l) {
                match it.next() {
                    Some(Err(e)) => errs.push(e),
                    g => return Err(format!("{p}: unreadable leaf {l}: {}", if g.is_none() { "enumeration ends" } else { "a key is returned" })),
                }
                continue;
            }
            for q in *at..at + len {
                fuel::reset(CALL_BUDGET);
                match (it.next(), dead_kid(q)) {
                    (Some(Err(e)), true) => errs.push(e),
                    (Some(Ok(c)), false) => {
                        if bad.name.contains(&w.kids[q]) {
                            errs.extend(c.name().err());
                        } else if key_at(&c)? != self.base + BASE + t[w.kids[q]].cell as usize + 80 {
                            return Err(format!("{p}: entry {q} is another key"));
                        }
                        live.push((q, l, c));
                    }
                    (Some(Err(e)), false) => return Err(format!("{p}: entry {q}: {e:?}, but only other structures are damaged")),
                    (Some(Ok(_)), true) => return Err(format!("{p}: entry {q} is returned although it is unreadable")),
                    (None, _) => return Err(format!("{p}: enumeration ends at entry {q} of {}", w.kids.len())),
                }
            }
        }
        if it.next().is_some() {
            return Err(format!("{p}: more entries than stored"));
        }
        // lookups
        let renamed = bad.renamed.contains(&i);
        let step = live.len() / 20 + 1;
        let bad_at: Vec<(usize, usize)> = w
            .leaves
            .iter()
            .enumerate()
            .flat_map(|(l, (at, len))| (*at..at + len).map(move |q| (q, l)))
            .filter(|(q, l)| dead_leaf(*l) || dead_kid(*q) || bad.name.contains(&w.kids[*q]))
            .collect();
        for (n, (q, l, c)) in live.iter().enumerate() {
            let kid = w.kids[*q];
            if n % step != 0 && n + 1 != live.len() || bad.name.contains(&kid) {
                continue;
            }
            let Some(name) = gen::to_str(&t[kid].units) else { continue };
            fuel::reset(CALL_BUDGET);
            self.obs.checks += 1;
            // entries that no binary search for this one has to look at: on the far side of the middle
            let far = bad_at.iter().all(|(bq, bl)| {
                if w.is_ri {
                    w.leaves.len() >= 4 && 2 * bl.abs_diff(*l) > w.leaves.len() + 1
                } else {
                    2 * bq.abs_diff(*q) > w.kids.len() + 1
                }
            });
            match k.subkey(&name) {
                Some(Ok(g)) if renamed => {
                    let gn = g.name().map_err(|e| format!("{p}: subkey({name:?}): {e:?}"))?;
                    if gn != *name {
                        return Err(format!("{p}: subkey({name:?}) returns {gn:?}"));
                    }
                }
                Some(Ok(g)) => {
                    if g != *c || key_at(&g)? != key_at(c)? {
                        return Err(format!("{p}: subkey({name:?}) returns another key ({:?})", g.name()));
                    }
                }
                None if renamed => (),
                None => return Err(format!("{p}: subkey({name:?}) reports absence although entry {q} is intact")),
                Some(Err(e)) => {
                    if !errs.contains(&e) {
                        return Err(format!("{p}: subkey({name:?}): {e:?}, but the unreadable entries of this list give {errs:?}"));
                    }
                    if far && !renamed {
                        return Err(format!("{p}: subkey({name:?}) (entry {q} of {}): {e:?} although only entries {bad_at:?} beyond the middle are damaged", w.kids.len()));
                    }
                    self.obs.label("lookup-meets-damage");
                }
            }
        }
        for (q, _, c) in live {
            self.key(&c, w.kids[q])?;
        }
        Ok(())
    }
}

impl Prop for P14 {
    type Case = Case;
    const ID: &'static str = "P14";
    const RULE: &'static str = "cases: random hives (all list kinds, value forms, big data) with 1..3 targeted damages, each certain to make one known structure unreadable (cell freed, misaligned, too large or of size zero; offset out of range; wrong signature; count or length too large; unknown type) or to change only one name or data; enumerated: every field of four hives with all kinds of structures x 6 variants. Oracle: the undamaged tree with exactly the victim's answers replaced by errors. Non-trivial: a structure was damaged and at least 3 other keys or values were read and found unchanged.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let d = (any::<u16>(), any::<u32>(), any::<u8>(), any::<u32>());
        let big = gen::hive(TreeOpt { keys: 6, vals: 4, big: true, bulk: 0 });
        let small = gen::hive(TreeOpt { keys: 10, vals: 5, big: false, bulk: 40 });
        (prop_oneof![2 => big, 5 => small, 3 => gen::siblings(40)], vec(d, 1..4))
            .prop_map(|(mut h, d)| {
                h.lay.trailing = 0;
                Case { h, d }
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 240_000 } else { 3_000_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let mut out = vec![];
        for seed in 0..4u64 {
            let mut h = showcase(seed);
            if seed >= 2 {
                h.keys[0].list = ListS { ri: false, parts: vec![(seed as u8, 1)], empty: false };
            }
            let b = build(&h);
            let mut kinds: Vec<FK> = b.fields.iter().filter(|f| f.len > 0).map(|f| f.kind).collect();
            kinds.sort_unstable();
            kinds.dedup();
            for (k, kind) in kinds.iter().enumerate() {
                let n = b.fields.iter().filter(|f| f.kind == *kind && f.len > 0).count();
                for i in 0..n.min(30) as u32 {
                    for v in 0..6u8 {
                        out.push(Case { h: h.clone(), d: vec![(k as u16, i, v, i * 7919 + v as u32)] });
                    }
                }
            }
        }
        // near the ends of very long lists, and very deep down
        for h in super::p13::far_shapes() {
            let b = build(&h);
            let mut kinds: Vec<FK> = b.fields.iter().filter(|f| f.len > 0).map(|f| f.kind).collect();
            kinds.sort_unstable();
            kinds.dedup();
            for (k, kind) in kinds.iter().enumerate() {
                let n = b.fields.iter().filter(|f| f.kind == *kind && f.len > 0).count() as u32;
                if n > 500 {
                    out.push(Case { h: h.clone(), d: vec![(k as u16, n - 1, 0, 1)] });
                    out.push(Case { h: h.clone(), d: vec![(k as u16, n - 400, 1, 7919)] });
                }
            }
        }
        out
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let mut b = build(&c.h);
        let mut bytes = b.bytes.clone();
        let mut kinds: Vec<FK> = b.fields.iter().filter(|f| f.len > 0).map(|f| f.kind).collect();
        kinds.sort_unstable();
        kinds.dedup();
        let mut bad = Bad::default();
        let mut hit = 0;
        let mut used: HashSet<usize> = HashSet::new();
        for (k, i, v, bits) in &c.d {
            let k = kinds[*k as usize % kinds.len()];
            let of: Vec<Field> = b.fields.iter().filter(|f| f.kind == k && f.len > 0).copied().collect();
            let f = of[*i as usize % of.len()];
            // each field once; a later damage must not undo an earlier one
            if !used.insert(f.pos) {
                continue;
            }
            if damage(&mut bytes, &mut b, f, *v, *bits, &mut bad).is_some() {
                obs.label(&format!("damaged-{k:?}"));
                hit += 1;
            }
        }
        fuel::reset(u64::MAX);
        let hive = Hive::without_validation(Fuel(&bytes)).map_err(|e| format!("{e:?}"))?;
        let root = match hive.root_key_node() {
            Err(_) if bad.key.contains(&0) => return Ok(()),
            Ok(_) if bad.key.contains(&0) => return Err("root_key_node() succeeded although the root record is unreadable".into()),
            r => err("root_key_node()", r)?,
        };
        let mut w = W { t: &b.nodes, bad: &bad, base: bytes.as_ptr() as usize, obs, live: 0 };
        w.key(&root, 0)?;
        let live = w.live;
        obs.nontrivial = hit > 0 && live >= 4;
        Ok(())
    }
}
