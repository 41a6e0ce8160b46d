//! The same tree stored in two ways gives the same answers.
use crate::gen::{self, TreeOpt};
use crate::model::*;
use crate::props::{p03, p13, p13::gen_q::Q};
use crate::runner::*;
use crate::transcript::{self, first_diff, Outs};
use crate::util::*;
use nt_hive::Hive;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct P16;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub h: HiveS,
    /// the other hive: layout, list representations (cycled over the keys), flags and storage forms
    pub lay: LayS,
    pub lists: Vec<ListS>,
    pub flip: u64,
    /// what goes into the bytes that carry no part of the tree, in the first and the second hive
    pub fill: (Fill, Fill),
    pub q: Vec<Q>,
    /// the second hive's cells start this many pages into its data
    #[serde(default)]
    pub far: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fill {
    AsBuilt,
    Byte(u8),
    Random(u64),
    /// bytes copied from other parts of the same file: cells in free space, names in slack, permuted hints
    Copied(u64),
    /// hash and hint fields take the values that belong to the names asked for
    Hints(u64),
}

fn fill() -> BoxedStrategy<Fill> {
    prop_oneof![
        2 => Just(Fill::AsBuilt),
        2 => prop::sample::select(vec![0u8, 0xff, 0x20, 0x41, 1]).prop_map(Fill::Byte),
        3 => any::<u64>().prop_map(Fill::Random),
        4 => any::<u64>().prop_map(Fill::Copied),
        2 => any::<u64>().prop_map(Fill::Hints),
    ]
    .boxed()
}

fn hash37(u: &[u16]) -> u32 {
    u.iter().fold(0u32, |h, &u| h.wrapping_mul(37).wrapping_add(up(u) as u32))
}

/// Overwrites everything that carries no part of the tree.
pub fn scramble(bytes: &mut [u8], unused: &[(usize, usize)], f: &Fill, q: &[Vec<u16>]) {
    let copy = bytes.to_vec();
    let mut p = Prng(match f {
        Fill::Random(s) | Fill::Copied(s) | Fill::Hints(s) => *s,
        _ => 0,
    });
    let hints: Vec<&(usize, usize)> = unused.iter().filter(|u| u.1 == 4).collect();
    for (at, len) in unused {
        let t = &mut bytes[*at..*at + *len];
        match f {
            Fill::AsBuilt => (),
            Fill::Byte(x) => t.fill(*x),
            Fill::Random(_) => p.fill(t),
            Fill::Copied(_) if *len == 4 && p.below(2) == 0 => {
                let from = hints[p.below(hints.len() as u64) as usize].0;
                t.copy_from_slice(&copy[from..from + 4]);
            }
            Fill::Copied(_) => {
                // aligned with the target, so that copied cells could pass for cells
                let n = copy.len() - BASE - len.min(&(copy.len() - BASE));
                let mut from = if n == 0 { BASE } else { BASE + p.below(n as u64) as usize };
                from = from - from % 8 + at % 8;
                for (i, x) in t.iter_mut().enumerate() {
                    *x = copy[(from + i) % copy.len()];
                }
            }
            Fill::Hints(_) => {
                if *len == 4 && !q.is_empty() {
                    let u = &q[p.below(q.len() as u64) as usize];
                    let mut b = [0u8; 4];
                    if p.below(2) == 0 {
                        b = hash37(u).to_le_bytes();
                    } else {
                        for (x, u) in b.iter_mut().zip(u) {
                            *x = *u as u8;
                        }
                    }
                    t.copy_from_slice(&b);
                }
            }
        }
    }
    fix_checksum(bytes);
}

impl Case {
    pub fn second(&self) -> HiveS {
        let mut h = self.h.clone();
        h.lay = self.lay.clone();
        let mut p = Prng(self.flip);
        for (i, k) in h.keys.iter_mut().enumerate() {
            if !self.lists.is_empty() {
                k.list = self.lists[i % self.lists.len()].clone();
            }
            k.flags ^= p.next() as u16;
            k.empty_vals ^= p.below(4) == 0;
            for v in &mut k.vals {
                v.inline ^= p.below(2) == 0;
                v.surplus = p.below(3) as u16;
            }
        }
        h
    }
}

fn ask(bytes: &[u8], q: &[String], text: bool) -> Result<Outs, String> {
    let mut o = Outs::new(text, true);
    o.max_keys = 3000;
    o.max_lookups = 12;
    let h = Hive::new(bytes).map_err(|e| format!("valid hive refused: {e:?}"))?;
    transcript::hive(&h, q, &mut o);
    Ok(o)
}

/// Memory of which only the touched pages exist.
pub(crate) struct Sparse(*mut u8, usize);
impl Sparse {
    pub(crate) fn new(n: usize) -> Sparse {
        // the address space is limited (see runner) and shared with the other threads: wait for them
        for _ in 0..6000 {
            // SAFETY: a fresh private mapping
            let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
            if p != libc::MAP_FAILED {
                return Sparse(p as *mut u8, n);
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
        panic!("mmap of {n} bytes");
    }
    pub(crate) fn bytes_mut(&mut self) -> &mut [u8] {
        // SAFETY: as for bytes
        unsafe { std::slice::from_raw_parts_mut(self.0, self.1) }
    }
    pub(crate) fn bytes(&self) -> &[u8] {
        // SAFETY: mapped below, for as long as self lives
        unsafe { std::slice::from_raw_parts(self.0, self.1) }
    }
}
impl Drop for Sparse {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut _, self.1) };
    }
}

/// The same hive with all its cells moved by `by` bytes.
fn moved(b: &[u8], fields: &[Field], by: usize) -> Result<Sparse, String> {
    let n = b.len() + by;
    let mut s = Sparse::new(n);
    let t = s.bytes_mut();
    t[..BASE].copy_from_slice(&b[..BASE]);
    t[BASE + by..].copy_from_slice(&b[BASE..]);
    let mut add = |at: usize| {
        let v = le32(t, at);
        if v != NONE {
            put32(t, at, v.wrapping_add(by as u32));
        }
    };
    add(36);
    add(40);
    use FK::*;
    for f in fields {
        let inline = f.kind == VkOff && le32(b, f.pos - 4) & 0x8000_0000 != 0;
        if f.len == 4 && !inline && matches!(f.kind, NkSubOff | NkValOff | NkClassOff | RiItem | LeafItem | ValsItem | VkOff | DbListOff | DbItem) {
            add(f.pos + by);
        }
    }
    fix_checksum(&mut t[..BASE]);
    Ok(s)
}

impl Prop for P16 {
    type Case = Case;
    const ID: &'static str = "P16";
    const RULE: &'static str = "cases: a random tree built twice, with independent cell order, gaps, slack, bins, list representations (kinds, index roots and their partition, empty list or none), storage form of small data, surplus segments, unused flags, and with everything that carries no part of the tree (free cells, slack, timestamps, security and parent-hint fields, hashes and name hints, header padding, volatile counts, trailing bytes) filled with constants, random bytes, bytes copied from the rest of the file, or the hints of the names asked for; the transcripts of all answers (without offsets and list kinds) must be equal. Enumerated: 20..2600 siblings in pairs of representations, every cell of a hive in turn with up to 16 MB of slack, all cells moved up to 4 GB into the file. Non-trivial: the tree has at least 4 keys and values and the two files differ.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let keys = if tier == Tier::Quick { 14 } else { 30 };
        let one = |h: BoxedStrategy<HiveS>| {
            (h, gen::lay(), vec(gen::list(), 0..4), any::<u64>(), (fill(), fill()), vec(p13::gen_q::q(), 1..6))
                .prop_map(|(h, lay, lists, flip, fill, q)| Case { h, lay, lists, flip, fill, q, far: 0 })
                .boxed()
        };
        prop_oneof![
            6 => one(gen::hive(TreeOpt { keys, vals: 4, big: false, bulk: 60 })),
            3 => one(gen::siblings(40)),
            1 => one(gen::hive(TreeOpt { keys: 4, vals: 4, big: true, bulk: 0 })),
        ]
        .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 250_000 } else { 4_000_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let shapes: [(bool, Vec<(u8, u16)>); 6] =
            [(false, vec![(0, 1)]), (false, vec![(1, 1)]), (false, vec![(2, 1)]), (true, vec![(1, 600), (0, 3), (2, 1)]), (true, vec![(2, 1)]), (true, vec![(0, 7), (1, 2)])];
        let mut out = vec![];
        for (i, n) in [20u32, 100, 700, 2600].into_iter().enumerate() {
            for (j, s) in shapes.iter().enumerate() {
                let t = &shapes[(j + 1) % shapes.len()];
                let mut lay = LayS { seed: 9 + j as u64, shuffle: true, gap: 30, slack: 2, bins: 9, minor: 6, trailing: 99, junk: true, fat: None };
                lay.minor = 3 + j as u32;
                out.push(Case {
                    h: p03::wide(n, i as u8 + j as u8, s.0, s.1.clone()),
                    lay,
                    lists: vec![ListS { ri: t.0, parts: t.1.clone(), empty: true }],
                    flip: 5,
                    fill: (Fill::Copied(j as u64), Fill::Hints(3)),
                    q: (0..10).map(|k| Q::Key(k * (n as u16 / 10).max(1) + 1, k as u64)).collect(),
                    far: 0,
                });
            }
        }
        let case = |fat, far| Case {
            h: p13::showcase(1),
            lay: LayS { seed: 3, shuffle: true, gap: 30, junk: true, fat, ..LayS::default() },
            lists: vec![ListS { ri: true, parts: vec![(0, 2), (1, 1), (2, 3)], empty: true }],
            flip: 6,
            fill: (Fill::AsBuilt, Fill::AsBuilt),
            q: (0..20).map(|k| Q::Key(k, k as u64)).collect(),
            far,
        };
        // every cell in turn much larger than its content
        let n = build(&case(None, 0).second()).cells.len() as u16;
        for i in 0..n {
            for size in [0x1008u32, 0x8000, 0x8008, 0x1_0000, 0x1_0008, 0x10_0000, 0x10_0008] {
                out.push(case(Some((i, size)), 0));
            }
            if i % 4 == 0 {
                out.push(case(Some((i, 0x100_0008)), 0));
            }
        }
        // cells far into the file (the pages before them exist, but are never touched)
        for far in [0x10u32, 0x1000, 0x8000, 0x7_fffe, 0x7_ffff, 0x8_0000, 0xc_0000, 0xf_f000] {
            out.push(case(None, far));
        }
        out
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let a = build(&c.h);
        let b = build(&c.second());
        let qu: Vec<Vec<u16>> = c.q.iter().map(|q| q.units(&a.nodes)).collect();
        let q: Vec<String> = qu.iter().map(|u| gen::text(u)).collect();
        let (mut x, mut y) = (a.bytes, b.bytes);
        scramble(&mut x, &a.unused, &c.fill.0, &qu);
        scramble(&mut y, &b.unused, &c.fill.1, &qu);
        let far;
        let y: &[u8] = if c.far > 0 {
            obs.label("far-into-the-file");
            far = moved(&y, &b.fields, c.far as usize * 4096)?;
            far.bytes()
        } else {
            &y
        };
        if c.lay.fat.is_some() {
            obs.label("cell-with-much-slack");
        }
        let (o, p) = (ask(&x, &q, false)?, ask(y, &q, false)?);
        obs.checks += o.shared.lines + o.alloc.lines;
        if o.shared.hash != p.shared.hash || o.alloc.hash != p.alloc.hash {
            let (o, p) = (ask(&x, &q, true)?, ask(y, &q, true)?);
            let (s, t) = (o.shared.text.unwrap(), p.shared.text.unwrap());
            let d = if s != t { first_diff(&s, &t) } else { first_diff(&o.alloc.text.unwrap(), &p.alloc.text.unwrap()) };
            return Err(format!("two hives that store the same tree disagree: {d}"));
        }
        obs.nontrivial = x[..] != *y && a.nodes.len() + a.nodes.iter().map(|n| n.vals.len()).sum::<usize>() >= 4;
        for f in [&c.fill.0, &c.fill.1] {
            obs.label(match f {
                Fill::AsBuilt => "as-built",
                Fill::Byte(_) => "constant",
                Fill::Random(_) => "random",
                Fill::Copied(_) => "copied-from-elsewhere",
                Fill::Hints(_) => "misleading-hints",
            });
        }
        if a.nodes.iter().zip(&b.nodes).any(|(s, t)| s.is_ri != t.is_ri) {
            obs.label("leaf-against-index-root");
        }
        if a.nodes.iter().zip(&b.nodes).any(|(s, t)| s.has_list != t.has_list) {
            obs.label("empty-list-against-none");
        }
        Ok(())
    }
}
