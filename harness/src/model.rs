//! Abstract hives (what a hive stores) and how to lay them out as bytes.
use crate::util::*;
use serde::{Deserialize, Serialize};

/// A name as UTF-16 units; stored as Latin-1 where possible unless `w` asks for the wide encoding.
#[derive(Clone, Serialize, Deserialize, PartialEq, Eq, Hash, Default)]
pub struct Nm {
    pub u: Vec<u16>,
    pub w: bool,
}
impl std::fmt::Debug for Nm {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{:?}", if self.latin() { "L" } else { "W" }, lossy16(&self.u))?;
        if checked16(&self.u).is_none() {
            write!(f, "{:x?}", self.u)?;
        }
        Ok(())
    }
}
impl Nm {
    pub fn s(s: &str) -> Nm {
        Nm { u: s.encode_utf16().collect(), w: false }
    }
    pub fn latin(&self) -> bool {
        !self.w && self.u.iter().all(|&x| x <= 0xff)
    }
    pub fn bytes(&self) -> Vec<u8> {
        if self.latin() {
            self.u.iter().map(|&x| x as u8).collect()
        } else {
            utf16le(&self.u)
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dat {
    /// these bytes
    B(Vec<u8>),
    /// pseudo-random bytes
    Fill(u32, u32),
    /// UTF-16 text of `n` units without NULs, then single units overwritten, then an odd byte or not
    Txt { n: u32, seed: u32, edits: Vec<(u32, u16)>, odd: bool },
}
impl Dat {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Dat::B(b) => b.clone(),
            Dat::Fill(n, seed) => {
                let mut v = vec![0; *n as usize];
                Prng(*seed as u64 + 77).fill(&mut v);
                v
            }
            Dat::Txt { n, seed, edits, odd } => {
                let mut p = Prng(*seed as u64 + 99);
                let mut u: Vec<u16> = (0..*n).map(|_| 0x21 + (p.next() % 0x5e) as u16).collect();
                for (i, x) in edits {
                    if *n > 0 {
                        let i = *i as usize % *n as usize;
                        u[i] = *x;
                    }
                }
                let mut b = utf16le(&u);
                if *odd {
                    b.push(0x41);
                }
                b
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ValS {
    pub name: Nm,
    pub typ: u32,
    pub dat: Dat,
    /// store up to 4 bytes inside the record
    pub inline: bool,
    /// extra (unused) segments at the end of a big-data segment list
    pub surplus: u16,
}

/// How the subkeys are indexed. `ri`: index root over leaves of the given kinds and sizes (cycled).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ListS {
    pub ri: bool,
    pub parts: Vec<(u8, u16)>,
    /// a key without subkeys gets an empty list instead of none
    pub empty: bool,
}
impl Default for ListS {
    fn default() -> Self {
        ListS { ri: false, parts: vec![(1, 1)], empty: false }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct KeyS {
    /// index (modulo own index) of the parent; ignored for the root, which is entry 0
    pub parent: u16,
    pub name: Nm,
    pub class: Option<Vec<u16>>,
    pub vals: Vec<ValS>,
    /// a key without values gets an empty value list instead of none
    pub empty_vals: bool,
    pub list: ListS,
    pub vol: u32,
    pub flags: u16,
    /// (count, style): this many additional childless subkeys
    pub bulk: Option<(u32, u8)>,
    /// this many additional values
    pub bulk_vals: u32,
}
impl KeyS {
    pub fn named(s: &str) -> KeyS {
        KeyS {
            parent: 0,
            name: Nm::s(s),
            class: None,
            vals: vec![],
            empty_vals: false,
            list: ListS::default(),
            vol: 0,
            flags: 0,
            bulk: None,
            bulk_vals: 0,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LayS {
    pub seed: u64,
    pub shuffle: bool,
    /// 0..=255: chance of a free cell before each cell
    pub gap: u8,
    /// up to this many extra 8-byte units at the end of a cell
    pub slack: u8,
    /// 0..=255: chance of starting a new bin after a cell
    pub bins: u8,
    pub minor: u32,
    pub trailing: u16,
    /// junk or zeros in bytes that mean nothing
    pub junk: bool,
    /// one cell of at least this size: (which, bytes)
    #[serde(default)]
    pub fat: Option<(u16, u32)>,
}
impl Default for LayS {
    fn default() -> Self {
        LayS { seed: 1, shuffle: false, gap: 0, slack: 0, bins: 0, minor: 5, trailing: 0, junk: false, fat: None }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HiveS {
    pub keys: Vec<KeyS>,
    pub lay: LayS,
}
impl HiveS {
    pub fn single() -> HiveS {
        HiveS { keys: vec![KeyS::named("root")], lay: LayS::default() }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum FK {
    Header,
    NkCell,
    NkSig,
    NkFlags,
    NkVol,
    NkSubCount,
    NkSubOff,
    NkValCount,
    NkValOff,
    NkClassOff,
    NkClassLen,
    NkNameLen,
    NkName,
    ClassCell,
    /// the list a key points to (leaf or index root)
    ListCell,
    ListSig,
    ListCount,
    /// leaf under an index root
    LeafCell,
    LeafSig,
    LeafCount,
    /// index root item -> leaf
    RiItem,
    /// leaf item -> key
    LeafItem,
    ValsCell,
    ValsItem,
    VkCell,
    VkSig,
    VkNameLen,
    VkSize,
    VkOff,
    VkType,
    VkFlags,
    VkName,
    DataCell,
    DataBytes,
    DbCell,
    DbSig,
    DbCount,
    DbListOff,
    DbListCell,
    DbItem,
    SegCell,
}

pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, Debug)]
pub struct Field {
    /// absolute position in the file
    pub pos: usize,
    pub len: usize,
    pub kind: FK,
    pub node: u32,
    /// value index in the node, or NONE
    pub val: u32,
    /// item / leaf / segment index
    pub ix: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    Inline,
    Cell,
    Big,
}

pub struct TVal {
    pub latin: bool,
    pub name: Vec<u8>,
    pub units: Vec<u16>,
    pub typ: u32,
    pub data: Vec<u8>,
    pub form: Form,
    /// data-relative offset of the vk cell
    pub cell: u32,
}
pub struct TNode {
    pub latin: bool,
    pub name: Vec<u8>,
    pub units: Vec<u16>,
    pub class: Option<Vec<u8>>,
    pub vals: Vec<TVal>,
    pub kids: Vec<usize>,
    pub parent: usize,
    pub depth: usize,
    pub cell: u32,
    pub vol: u32,
    /// (first kid index, count) of every leaf
    pub leaves: Vec<(usize, usize)>,
    pub is_ri: bool,
    pub has_list: bool,
    pub has_vals: bool,
}

pub struct Built {
    pub bytes: Vec<u8>,
    pub fields: Vec<Field>,
    /// (position, length) of bytes that carry no part of the tree
    pub unused: Vec<(usize, usize)>,
    pub nodes: Vec<TNode>,
    /// offsets of all cells (data-relative)
    pub cells: Vec<u32>,
    pub data_size: usize,
}

pub const BASE: usize = 4096;
pub const SEG: usize = 16344;

struct C {
    b: Vec<u8>,
    refs: Vec<(u32, usize)>,
    fields: Vec<(u32, u32, FK, u32, u32)>,
    unused: Vec<(u32, u32)>,
    node: u32,
    val: u32,
    kind: FK,
    ix: u32,
}

struct B {
    cells: Vec<C>,
}
impl B {
    fn cell(&mut self, kind: FK, node: usize, val: u32, ix: u32, b: Vec<u8>) -> usize {
        self.cells.push(C { b, refs: vec![], fields: vec![], unused: vec![], node: node as u32, val, kind, ix });
        self.cells.len() - 1
    }
    fn f(&mut self, c: usize, pos: usize, len: usize, k: FK, ix: u32) {
        let v = self.cells[c].val;
        self.cells[c].fields.push((pos as u32, len as u32, k, v, ix));
    }
    fn r(&mut self, c: usize, pos: usize, to: usize) {
        self.cells[c].refs.push((pos as u32, to));
    }
}

pub fn bulk_name(i: u32, style: u8) -> Nm {
    match style % 8 {
        0 => Nm::s(&format!("{i:05}")),
        1 => {
            // mixed case, mixed length, not in numeric order
            let h = Prng(i as u64).next();
            let mut s = String::new();
            let mut x = (i as u64) * 2 + 1;
            while x > 0 {
                let c = (b'a' + (x % 26) as u8) as char;
                s.push(if h >> (s.len() % 60) & 1 == 1 { c.to_ascii_uppercase() } else { c });
                x /= 26;
            }
            s.push('_');
            Nm::s(&s)
        }
        2 => {
            let mut n = Nm::s(&format!("{i:x}"));
            n.w = true;
            n.u.insert(0, 0x0431);
            n
        }
        3 => {
            let mut n = Nm::s(&format!("k{i}"));
            n.w = i % 3 == 0;
            n
        }
        4 => {
            // letters beyond ASCII in both encodings
            let mut n = Nm::s(&format!("\u{e4}{i:x}\u{d8}"));
            n.w = i % 2 == 0;
            n
        }
        5 => {
            // what differs comes late
            let mut n = Nm::s(&format!("{}{i:05}", "Long name ".repeat(30)));
            n.w = i % 5 == 0;
            n
        }
        6 => {
            // surrogate pairs, and names from both sides of the surrogates
            let mut n = Nm::s(&format!("{}{i}", ['\u{1f600}', '\u{d7ff}', '\u{ff5e}', '\u{10ffff}', 'z'][i as usize % 5]));
            n.w = true;
            n
        }
        _ => Nm::s(&format!("{}{}", [".", " ", "{", "~", "(x) ", "1.", "$"][i as usize % 7], i / 7)),
    }
}

fn fix_key_name(n: &Nm) -> Nm {
    let mut n = n.clone();
    for u in &mut n.u {
        if *u == b'\\' as u16 {
            *u = b'/' as u16;
        }
    }
    if n.u.is_empty() {
        n.u.push(b'k' as u16);
    }
    n.u.truncate(if n.latin() { 65535 } else { 32767 });
    n
}

const SIGS: [&[u8; 2]; 3] = [b"lf", b"lh", b"li"];

fn lh_hash(units: &[u16]) -> u32 {
    units.iter().fold(0u32, |h, &u| h.wrapping_mul(37).wrapping_add(up(u) as u32))
}

/// The abstract tree: keys with resolved, unique, sorted children.
pub fn tree(h: &HiveS) -> Vec<TNode> {
    tree_opt(h, true)
}

pub fn tree_opt(h: &HiveS, sorted: bool) -> Vec<TNode> {
    let n = h.keys.len().max(1);
    let mut nodes: Vec<TNode> = vec![];
    let default = [KeyS::named("root")];
    let keys: &[KeyS] = if h.keys.is_empty() { &default } else { &h.keys };
    let mk = |name: Nm, parent: usize, depth: usize| TNode {
        latin: name.latin(),
        name: name.bytes(),
        units: name.u,
        class: None,
        vals: vec![],
        kids: vec![],
        parent,
        depth,
        cell: 0,
        vol: 0,
        leaves: vec![],
        is_ri: false,
        has_list: false,
        has_vals: false,
    };
    let mut seen: Vec<std::collections::HashSet<Vec<u16>>> = vec![Default::default(); n];
    for (i, k) in keys.iter().enumerate() {
        let parent = if i == 0 { 0 } else { k.parent as usize % i };
        let mut name = fix_key_name(&k.name);
        if i > 0 {
            let mut t = 0;
            while !seen[parent].insert(fold(&name.u)) {
                t += 1;
                name.u.truncate(29990);
                name.u.extend(format!("{t}").encode_utf16());
            }
        }
        let depth = if i == 0 { 0 } else { nodes[parent].depth + 1 };
        let mut t = mk(name, parent, depth);
        t.class = k.class.as_ref().map(|c| utf16le(&c[..c.len().min(32767)]));
        t.vol = k.vol;
        t.vals = k
            .vals
            .iter()
            .map(|v| {
                let mut name = v.name.clone();
                name.u.truncate(if name.latin() { 65535 } else { 32767 });
                let data = v.dat.bytes();
                let form = if data.len() <= 4 && (v.inline || data.is_empty()) {
                    Form::Inline
                } else if data.len() <= SEG {
                    Form::Cell
                } else {
                    Form::Big
                };
                TVal { latin: name.latin(), name: name.bytes(), units: name.u, typ: v.typ, data, form, cell: 0 }
            })
            .collect();
        for j in 0..k.bulk_vals {
            let name = Nm::s(&format!("bv{j}"));
            t.vals.push(TVal {
                latin: true,
                name: name.bytes(),
                units: name.u,
                typ: 4,
                data: j.to_le_bytes().to_vec(),
                form: Form::Inline,
                cell: 0,
            });
        }
        nodes.push(t);
        if i > 0 {
            nodes[parent].kids.push(i);
        }
    }
    for (i, k) in keys.iter().enumerate() {
        if let Some((cnt, style)) = k.bulk {
            for j in 0..cnt {
                let name = bulk_name(j, style);
                if seen[i].insert(fold(&name.u)) {
                    let d = nodes[i].depth + 1;
                    let id = nodes.len();
                    nodes.push(mk(name, i, d));
                    nodes[i].kids.push(id);
                }
            }
        }
    }
    let folds: Vec<Vec<u16>> = nodes.iter().map(|t| fold(&t.units)).collect();
    if sorted {
        for t in &mut nodes {
            t.kids.sort_by(|a, b| folds[*a].cmp(&folds[*b]));
        }
    }
    // lists
    let dl = ListS::default();
    for i in 0..nodes.len() {
        let l = keys.get(i).map(|k| &k.list).unwrap_or(&dl);
        let nk = nodes[i].kids.len();
        nodes[i].has_list = nk > 0 || l.empty;
        nodes[i].is_ri = (l.ri || nk > 0xffff) && nodes[i].has_list;
        if nodes[i].is_ri {
            let (mut at, mut p) = (0, 0);
            while at < nk {
                let len = l.parts.get(p % l.parts.len().max(1)).map(|x| x.1 as usize).unwrap_or(1).clamp(1, nk - at);
                nodes[i].leaves.push((at, len));
                at += len;
                p += 1;
            }
            if nodes[i].leaves.len() > 0xffff {
                // too many for an index root: one leaf per 1000
                nodes[i].leaves.clear();
                let mut at = 0;
                while at < nk {
                    let len = 1000.min(nk - at);
                    nodes[i].leaves.push((at, len));
                    at += len;
                }
            }
        } else if nodes[i].has_list {
            nodes[i].leaves.push((0, nk));
        }
        nodes[i].has_vals = !nodes[i].vals.is_empty() || keys.get(i).map(|k| k.empty_vals).unwrap_or(false);
    }
    nodes
}

pub fn build(h: &HiveS) -> Built {
    build_tree(h, tree(h))
}

pub fn build_tree(h: &HiveS, mut nodes: Vec<TNode>) -> Built {
    let lay = &h.lay;
    let mut rng = Prng(lay.seed ^ 0x5eed);
    let junk = |rng: &mut Prng, b: &mut [u8]| {
        if lay.junk {
            rng.fill(b)
        }
    };
    let mut b = B { cells: vec![] };
    let dk = KeyS::named("x");
    // One nk cell per node first, so that references are simple.
    for (i, t) in nodes.iter().enumerate() {
        let k = h.keys.get(i).unwrap_or(&dk);
        let mut c = vec![0u8; 76 + t.name.len()];
        c[0..2].copy_from_slice(b"nk");
        let mut flags = k.flags & !0x20;
        if t.latin {
            flags |= 0x20;
        }
        if i == 0 {
            flags |= 0x0c;
        }
        put16(&mut c, 2, flags);
        junk(&mut rng, &mut c[4..16]);
        put32(&mut c, 20, t.kids.len() as u32);
        put32(&mut c, 24, t.vol);
        put32(&mut c, 28, NONE);
        put32(&mut c, 32, NONE);
        put32(&mut c, 36, t.vals.len() as u32);
        put32(&mut c, 40, NONE);
        put32(&mut c, 44, NONE);
        put32(&mut c, 48, NONE);
        junk(&mut rng, &mut c[32..36]);
        junk(&mut rng, &mut c[44..48]);
        junk(&mut rng, &mut c[52..72]);
        put16(&mut c, 72, t.name.len() as u16);
        put16(&mut c, 74, t.class.as_ref().map(|c| c.len() as u16).unwrap_or(0));
        c[76..].copy_from_slice(&t.name);
        let id = b.cell(FK::NkCell, i, NONE, 0, c);
        debug_assert_eq!(id, i);
        for (p, l, k) in [
            (0, 2, FK::NkSig),
            (2, 2, FK::NkFlags),
            (24, 4, FK::NkVol),
            (20, 4, FK::NkSubCount),
            (28, 4, FK::NkSubOff),
            (36, 4, FK::NkValCount),
            (40, 4, FK::NkValOff),
            (48, 4, FK::NkClassOff),
            (74, 2, FK::NkClassLen),
            (72, 2, FK::NkNameLen),
        ] {
            b.f(id, p, l, k, 0);
        }
        b.f(id, 76, t.name.len(), FK::NkName, 0);
        b.cells[id].unused = vec![(4, 12), (24, 4), (32, 4), (44, 4), (52, 20)];
        if i > 0 {
            b.r(id, 16, t.parent);
        }
    }
    for i in 0..nodes.len() {
        let k = h.keys.get(i).unwrap_or(&dk);
        if let Some(cl) = nodes[i].class.clone() {
            let c = b.cell(FK::ClassCell, i, NONE, 0, cl);
            b.r(i, 48, c);
        }
        // subkeys
        if nodes[i].has_list {
            let mut leafs = vec![];
            let leaves = nodes[i].leaves.clone();
            let is_ri = nodes[i].is_ri;
            for (li, (at, len)) in leaves.iter().enumerate() {
                let kind = k.list.parts.get(li % k.list.parts.len().max(1)).map(|x| x.0).unwrap_or(1) as usize % 3;
                let isz = if kind == 2 { 4 } else { 8 };
                let mut c = vec![0u8; 4 + len * isz];
                c[0..2].copy_from_slice(SIGS[kind]);
                put16(&mut c, 2, *len as u16);
                for j in 0..*len {
                    let kid = nodes[i].kids[at + j];
                    let p = 4 + j * isz;
                    if kind == 0 {
                        for (q, u) in nodes[kid].units.iter().take(4).enumerate() {
                            c[p + 4 + q] = *u as u8;
                        }
                    } else if kind == 1 {
                        let hsh = lh_hash(&nodes[kid].units);
                        put32(&mut c, p + 4, hsh);
                    }
                }
                let (ck, sk, nk) = if is_ri {
                    (FK::LeafCell, FK::LeafSig, FK::LeafCount)
                } else {
                    (FK::ListCell, FK::ListSig, FK::ListCount)
                };
                let id = b.cell(ck, i, NONE, li as u32, c);
                b.f(id, 0, 2, sk, li as u32);
                b.f(id, 2, 2, nk, li as u32);
                for j in 0..*len {
                    let kid = nodes[i].kids[at + j];
                    let p = 4 + j * isz;
                    b.r(id, p, kid);
                    b.f(id, p, 4, FK::LeafItem, (at + j) as u32);
                    if isz == 8 {
                        b.cells[id].unused.push((p as u32 + 4, 4));
                    }
                }
                leafs.push(id);
            }
            if is_ri {
                let mut c = vec![0u8; 4 + 4 * leafs.len()];
                c[0..2].copy_from_slice(b"ri");
                put16(&mut c, 2, leafs.len() as u16);
                let id = b.cell(FK::ListCell, i, NONE, 0, c);
                b.f(id, 0, 2, FK::ListSig, 0);
                b.f(id, 2, 2, FK::ListCount, 0);
                for (j, l) in leafs.iter().enumerate() {
                    b.r(id, 4 + 4 * j, *l);
                    b.f(id, 4 + 4 * j, 4, FK::RiItem, j as u32);
                }
                b.r(i, 28, id);
            } else {
                b.r(i, 28, leafs[0]);
            }
        }
        // values
        if nodes[i].has_vals {
            let nv = nodes[i].vals.len();
            let lst = b.cell(FK::ValsCell, i, NONE, 0, vec![0u8; 4 * nv]);
            b.r(i, 40, lst);
            for j in 0..nv {
                let v = &nodes[i].vals[j];
                let mut c = vec![0u8; 20 + v.name.len()];
                c[0..2].copy_from_slice(b"vk");
                put16(&mut c, 2, v.name.len() as u16);
                let size = v.data.len() as u32;
                put32(&mut c, 4, if v.form == Form::Inline { size | 0x8000_0000 } else { size });
                put32(&mut c, 12, v.typ);
                put16(&mut c, 16, if v.latin { 1 } else { 0 });
                junk(&mut rng, &mut c[18..20]);
                c[20..].copy_from_slice(&v.name);
                let form = v.form;
                let data = v.data.clone();
                if form == Form::Inline {
                    junk(&mut rng, &mut c[8..12]);
                    c[8..8 + data.len()].copy_from_slice(&data);
                }
                let namelen = v.name.len();
                let id = b.cell(FK::VkCell, i, j as u32, 0, c);
                b.cells[id].unused.push((18, 2));
                for (p, l, k) in [
                    (0, 2, FK::VkSig),
                    (2, 2, FK::VkNameLen),
                    (4, 4, FK::VkSize),
                    (12, 4, FK::VkType),
                    (16, 2, FK::VkFlags),
                ] {
                    b.f(id, p, l, k, 0);
                }
                b.f(id, 20, namelen, FK::VkName, 0);
                b.r(lst, 4 * j, id);
                b.cells[lst].fields.push((4 * j as u32, 4, FK::ValsItem, j as u32, j as u32));
                match form {
                    Form::Inline => {
                        b.f(id, 8, data.len(), FK::DataBytes, 0);
                        if data.len() < 4 {
                            b.cells[id].unused.push((8 + data.len() as u32, 4 - data.len() as u32));
                        }
                    }
                    Form::Cell => {
                        b.f(id, 8, 4, FK::VkOff, 0);
                        let n = data.len();
                        let d = b.cell(FK::DataCell, i, j as u32, 0, data);
                        b.f(d, 0, n, FK::DataBytes, 0);
                        b.r(id, 8, d);
                    }
                    Form::Big => {
                        b.f(id, 8, 4, FK::VkOff, 0);
                        let surplus = k.vals.get(j).map(|v| v.surplus).unwrap_or(0) as usize;
                        let nseg = data.len().div_ceil(SEG);
                        let mut c = vec![0u8; 8];
                        c[0..2].copy_from_slice(b"db");
                        put16(&mut c, 2, (nseg + surplus) as u16);
                        let db = b.cell(FK::DbCell, i, j as u32, 0, c);
                        b.f(db, 0, 2, FK::DbSig, 0);
                        b.f(db, 2, 2, FK::DbCount, 0);
                        b.f(db, 4, 4, FK::DbListOff, 0);
                        b.r(id, 8, db);
                        let sl = b.cell(FK::DbListCell, i, j as u32, 0, vec![0u8; 4 * (nseg + surplus)]);
                        b.r(db, 4, sl);
                        let mut last = 0;
                        for s in 0..nseg {
                            let part = data[s * SEG..data.len().min((s + 1) * SEG)].to_vec();
                            let n = part.len();
                            let sc = b.cell(FK::SegCell, i, j as u32, s as u32, part);
                            b.f(sc, 0, n, FK::DataBytes, s as u32);
                            b.r(sl, 4 * s, sc);
                            b.f(sl, 4 * s, 4, FK::DbItem, s as u32);
                            last = sc;
                        }
                        for s in nseg..nseg + surplus {
                            b.r(sl, 4 * s, last);
                        }
                    }
                }
            }
        }
    }
    // order
    let mut order: Vec<usize> = (0..b.cells.len()).collect();
    if lay.shuffle {
        for i in (1..order.len()).rev() {
            order.swap(i, rng.below(i as u64 + 1) as usize);
        }
    }
    // place
    let mut data: Vec<u8> = vec![];
    let mut unused: Vec<(usize, usize)> = vec![];
    let mut offs = vec![0u32; b.cells.len()];
    let mut bin_start = 0usize;
    let open_bin = |data: &mut Vec<u8>, unused: &mut Vec<(usize, usize)>, rng: &mut Prng| {
        let at = data.len();
        let mut hb = [0u8; 32];
        hb[0..4].copy_from_slice(b"hbin");
        put32(&mut hb, 4, at as u32);
        if lay.junk {
            rng.fill(&mut hb[12..32]);
        }
        data.extend_from_slice(&hb);
        unused.push((BASE + at + 12, 20));
        at
    };
    let free = |data: &mut Vec<u8>, unused: &mut Vec<(usize, usize)>, rng: &mut Prng, n: usize| {
        let at = data.len();
        data.resize(at + n, 0);
        put32(data, at, n as u32);
        if lay.junk {
            rng.fill(&mut data[at + 4..]);
        }
        unused.push((BASE + at + 4, n - 4));
    };
    let close_bin = |data: &mut Vec<u8>, unused: &mut Vec<(usize, usize)>, rng: &mut Prng, start: usize| {
        let pad = (4096 - data.len() % 4096) % 4096;
        if pad > 0 {
            free(data, unused, rng, pad);
        }
        let size = (data.len() - start) as u32;
        put32(data, start + 8, size);
    };
    open_bin(&mut data, &mut unused, &mut rng);
    for (oi, &ci) in order.iter().enumerate() {
        if lay.gap > 0 && rng.below(256) < lay.gap as u64 {
            let n = 8 + 8 * rng.below(8) as usize;
            free(&mut data, &mut unused, &mut rng, n);
        }
        let c = &b.cells[ci];
        let mut total = (4 + c.b.len()).next_multiple_of(8);
        if lay.slack > 0 {
            total += 8 * rng.below(lay.slack as u64 + 1) as usize;
        }
        if let Some((i, n)) = lay.fat {
            if i as usize % order.len() == oi {
                total = total.max((n as usize).next_multiple_of(8));
            }
        }
        let at = data.len();
        offs[ci] = at as u32;
        data.resize(at + total, 0);
        put32(&mut data, at, (total as u32).wrapping_neg());
        data[at + 4..at + 4 + c.b.len()].copy_from_slice(&c.b);
        let sl = at + 4 + c.b.len();
        if sl < at + total {
            if lay.junk {
                rng.fill(&mut data[sl..at + total]);
            }
            unused.push((BASE + sl, at + total - sl));
        }
        if lay.bins > 0 && oi + 1 < order.len() && rng.below(256) < lay.bins as u64 {
            close_bin(&mut data, &mut unused, &mut rng, bin_start);
            bin_start = open_bin(&mut data, &mut unused, &mut rng);
        }
    }
    close_bin(&mut data, &mut unused, &mut rng, bin_start);
    // references and fields
    let mut fields = vec![];
    for (ci, c) in b.cells.iter().enumerate() {
        let at = offs[ci] as usize;
        fields.push(Field { pos: BASE + at, len: 4, kind: c.kind, node: c.node, val: c.val, ix: c.ix });
        for (p, to) in &c.refs {
            put32(&mut data, at + 4 + *p as usize, offs[*to]);
        }
        for (p, l, k, v, ix) in &c.fields {
            fields.push(Field { pos: BASE + at + 4 + *p as usize, len: *l as usize, kind: *k, node: c.node, val: *v, ix: *ix });
        }
        for (p, l) in &c.unused {
            unused.push((BASE + at + 4 + *p as usize, *l as usize));
        }
        match c.kind {
            FK::NkCell => nodes[c.node as usize].cell = offs[ci],
            FK::VkCell => nodes[c.node as usize].vals[c.val as usize].cell = offs[ci],
            _ => (),
        }
    }
    // header
    let any_big = nodes.iter().any(|t| t.vals.iter().any(|v| v.form == Form::Big));
    let minor = if any_big { lay.minor.max(4) } else { lay.minor.max(3) };
    let mut bytes = vec![0u8; BASE];
    bytes[0..4].copy_from_slice(b"regf");
    let seq = rng.next() as u32;
    put32(&mut bytes, 4, seq);
    put32(&mut bytes, 8, seq);
    junk(&mut rng, &mut bytes[12..20]);
    put32(&mut bytes, 20, 1);
    put32(&mut bytes, 24, minor);
    put32(&mut bytes, 28, 0);
    put32(&mut bytes, 32, 1);
    put32(&mut bytes, 36, nodes[0].cell);
    put32(&mut bytes, 40, data.len() as u32);
    put32(&mut bytes, 44, 1);
    junk(&mut rng, &mut bytes[48..508]);
    junk(&mut rng, &mut bytes[512..4096]);
    unused.push((12, 8));
    unused.push((48, 460));
    unused.push((512, 3584));
    let sum = xor_checksum(&bytes);
    put32(&mut bytes, 508, sum);
    fields.push(Field { pos: 36, len: 4, kind: FK::Header, node: 0, val: NONE, ix: 0 });
    let data_size = data.len();
    bytes.extend_from_slice(&data);
    if lay.trailing > 0 {
        let at = bytes.len();
        bytes.resize(at + lay.trailing as usize, 0);
        junk(&mut rng, &mut bytes[at..]);
        unused.push((at, lay.trailing as usize));
    }
    let mut cells: Vec<u32> = offs.clone();
    cells.sort_unstable();
    Built { bytes, fields, unused, nodes, cells, data_size }
}

/// Recomputes the header checksum.
pub fn fix_checksum(b: &mut [u8]) {
    if b.len() >= 512 {
        let s = xor_checksum(b);
        put32(b, 508, s);
    }
}
