use crate::fuel::{self, Fuel};
use crate::gen::{self, TreeOpt};
use crate::model::*;
use crate::props::p13::{self, damaged};
use crate::runner::*;
use crate::util::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zerocopy::SplitByteSlice;

pub struct P01;

/// A cell of a hive put together without regard for well-formedness.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Soup {
    pub kind: u8,
    pub to: Vec<u16>,
    pub n: u16,
    pub size: u32,
    pub odd: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Damaged(p13::Case, u64),
    Soup { cells: Vec<Soup>, raw: Vec<u8>, seed: u64 },
    Raw { head: Vec<(u16, u32)>, body: Vec<u8>, len: u32, seed: u64 },
    /// few calls with very much to do, or very long arguments
    Scale { what: u8, n: u32 },
}

/// Calls that must come back although they are about `n` things (a stack overflow is what is looked for here).
fn scale(what: u8, n: u32, obs: &mut Obs) -> Result<(), String> {
    let mut h = HiveS::single();
    let mut long = |typ: u32, dat: Dat| h.keys[0].vals.push(ValS { name: Nm::s("v"), typ, dat, inline: false, surplus: 1 });
    match what {
        // a bottomless tree: a\\a\\a...
        0 => h.keys.push(KeyS::named("a")),
        1 => h.keys[0].bulk_vals = n,
        2 => h = super::p03::chain(n as usize),
        3 => {
            long(1, Dat::Txt { n, seed: 1, edits: vec![], odd: true });
            long(7, Dat::Txt { n, seed: 2, edits: (1..n / 2).map(|i| (2 * i, 0)).collect(), odd: false });
            long(7, Dat::Txt { n, seed: 2, edits: vec![(0, 0)], odd: false });
            long(3, Dat::Fill(2 * n, 3));
        }
        _ => h = super::p03::wide(n, 1, what & 1 == 1, vec![(what, 300)]),
    }
    let b = build(&h);
    let mut bytes = b.bytes;
    if what == 0 {
        let at = |i: usize| BASE + b.nodes[i].cell as usize + 4 + 28;
        let list = le32(&bytes, at(0));
        put32(&mut bytes, at(1), list);
    }
    let hive = Hive::new(&bytes[..]).map_err(|e| format!("{e:?}"))?;
    let root = hive.root_key_node().map_err(|e| format!("{e:?}"))?;
    let mut names: Vec<String> = vec![];
    for c in ["a", "x", "\\", "a\\", "x\\", "\\a", "\u{10400}", "d\\"] {
        names.push(c.repeat(n as usize));
        names.push(c.repeat(n as usize) + "a");
    }
    names.extend([b.nodes.last().map(|t| gen::text(&t.units)).unwrap_or_default(), "bv0".into(), format!("bv{}", n.saturating_sub(1)), String::new()]);
    for q in &names {
        obs.checks += 3;
        let _ = root.subpath(q);
        let _ = root.subkey(q);
        let _ = root.value(q);
        for name in [NtHiveNameString::Latin1(q.as_bytes()), NtHiveNameString::Utf16LE(q.as_bytes())] {
            let _ = (name == *q.as_str(), q.as_str() == name, name.cmp(&name), name.to_string_lossy(), name.to_string_checked(), format!("{name}"));
        }
    }
    macro_rules! all {
        ($i:expr) => {{
            let i = $i;
            let _ = (i.clone().count(), i.clone().last(), i.clone().nth(n as usize - 1), i.clone().skip(n as usize / 2).step_by(3).count(), i.size_hint());
            i
        }};
    }
    if let Some(Ok(i)) = root.subkeys() {
        obs.checks += all!(i).map(|k| k.map(|k| k.name().map(|n| n.len()))).count() as u64;
    }
    if let Some(Ok(i)) = root.values() {
        obs.checks += all!(i.clone()).map(|k| k.map(|k| k.name().map(|n| n.len()))).count() as u64;
        for v in i.filter_map(|v| v.ok()).take(8) {
            let _ = v.string_data();
            if let Ok(i) = v.multi_string_data() {
                all!(i.clone());
                obs.checks += i.count() as u64;
            }
            if let Ok(d) = v.data() {
                if let KeyValueData::Big(i) = d.clone() {
                    all!(i);
                }
                let _ = d.into_vec();
            }
        }
    }
    let mut k = root;
    let mut depth = 0;
    while let Some(Ok(x)) = k.subkeys().and_then(|i| i.ok()).and_then(|mut i| i.next()) {
        k = x;
        depth += 1;
        if depth > n {
            break;
        }
    }
    obs.nontrivial = true;
    obs.label("scale");
    Ok(())
}

pub fn soup_bytes(cells: &[Soup], raw: &[u8]) -> Vec<u8> {
    // contents first, then addresses
    let n = cells.len().max(1);
    let mut bodies: Vec<(Vec<u8>, Vec<(usize, usize)>)> = vec![];
    for c in cells {
        let t = |i: usize| c.to.get(i % c.to.len().max(1)).copied().unwrap_or(0) as usize % n;
        let mut refs = vec![];
        let body = match c.kind % 10 {
            0 | 1 => {
                let nl = c.n as usize % 12;
                let mut b = vec![0u8; 76 + nl];
                b[0..2].copy_from_slice(b"nk");
                put16(&mut b, 2, c.odd as u16);
                for (p, bit) in [(28usize, 1u16), (40, 2), (48, 4)] {
                    if c.n & bit != 0 {
                        refs.push((p, t(p)));
                    } else {
                        put32(&mut b, p, NONE);
                    }
                }
                put32(&mut b, 36, c.size % 8);
                put16(&mut b, 72, nl as u16);
                put16(&mut b, 74, (c.odd >> 16) as u16 % 30);
                for i in 0..nl {
                    b[76 + i] = b'a' + (c.odd as u8).wrapping_mul(i as u8 + 1) % 4;
                }
                b
            }
            2 => {
                let nl = c.n as usize % 8;
                let mut b = vec![0u8; 20 + nl];
                b[0..2].copy_from_slice(b"vk");
                put16(&mut b, 2, nl as u16);
                put32(&mut b, 4, c.size);
                refs.push((8, t(0)));
                put32(&mut b, 12, c.odd % 14);
                put16(&mut b, 16, c.odd as u16 >> 8);
                b
            }
            k @ (3 | 4 | 5 | 6) => {
                let isz = if k == 3 || k == 4 { 8 } else { 4 };
                let cnt = c.to.len();
                let mut b = vec![0u8; 4 + cnt * isz];
                b[0..2].copy_from_slice([b"lf", b"lh", b"li", b"ri"][k as usize - 3]);
                put16(&mut b, 2, if c.odd % 8 == 0 { c.n } else { cnt as u16 });
                for i in 0..cnt {
                    refs.push((4 + i * isz, t(i)));
                }
                b
            }
            7 => {
                let mut b = vec![0u8; 8];
                b[0..2].copy_from_slice(b"db");
                put16(&mut b, 2, if c.odd % 3 == 0 { c.n } else { c.to.len() as u16 });
                refs.push((4, t(0)));
                b
            }
            8 => {
                let b = vec![0u8; 4 * c.to.len()];
                for i in 0..c.to.len() {
                    refs.push((4 * i, t(i)));
                }
                b
            }
            _ => vec![(c.n & 0xff) as u8; (c.size % 40000) as usize],
        };
        bodies.push((body, refs));
    }
    let mut at = 32usize;
    let mut offs = vec![];
    for (b, _) in &bodies {
        offs.push(at);
        at += (4 + b.len()).next_multiple_of(8);
    }
    let mut out = vec![0u8; BASE + at];
    for (i, (b, refs)) in bodies.iter().enumerate() {
        let total = (4 + b.len()).next_multiple_of(8) as u32;
        put32(&mut out, BASE + offs[i], total.wrapping_neg());
        out[BASE + offs[i] + 4..BASE + offs[i] + 4 + b.len()].copy_from_slice(b);
        for (p, to) in refs {
            put32(&mut out, BASE + offs[i] + 4 + p, offs.get(*to).copied().unwrap_or(0) as u32);
        }
    }
    out.extend_from_slice(raw);
    let pad = (4096 - out.len() % 4096) % 4096;
    let l = out.len() + pad;
    out.resize(l, 0);
    header(&mut out);
    put32(&mut out, 36, offs.first().copied().unwrap_or(32) as u32);
    fix_checksum(&mut out);
    out
}

/// A valid header for whatever follows.
pub fn header(b: &mut [u8]) {
    b[0..4].copy_from_slice(b"regf");
    put32(b, 20, 1);
    put32(b, 24, 5);
    put32(b, 32, 1);
    put32(b, 36, 32);
    let n = (b.len() - BASE) / 4096 * 4096;
    put32(b, 40, n as u32);
    put32(b, 44, 1);
}

fn soup() -> BoxedStrategy<Vec<Soup>> {
    let cell = (
        prop_oneof![3 => Just(0u8), 1 => Just(2u8), 6 => 0u8..10],
        vec(prop_oneof![3 => 0u16..12, 1 => any::<u16>()], 1..8),
        prop_oneof![2 => any::<u16>(), 3 => 0u16..12],
        prop_oneof![3 => 0u32..20, 2 => Just(0x8000_0004u32), 2 => prop::sample::select(vec![16345u32, 32688, 32689, 16344, 0x7fff_ffff, 0x8000_0005]), 1 => any::<u32>()],
        any::<u32>(),
    )
        .prop_map(|(kind, to, n, size, odd)| Soup { kind, to, n, size, odd });
    vec(cell, 1..24)
        .prop_map(|mut v| {
            v[0].kind = 0;
            v[0].n |= 3;
            v
        })
        .boxed()
}

fn inside(all: (usize, usize), b: &[u8]) {
    let s = b.as_ptr() as usize;
    if s < all.0 || s + b.len() > all.1 {
        panic!("NTV-VIOLATION: a slice outside the caller's bytes was handed out");
    }
}

struct Ex {
    rng: Prng,
    all: (usize, usize),
    left: i64,
    calls: u64,
    errs: u64,
    max_depth: usize,
    nk: Vec<String>,
}

impl Ex {
    fn call(&mut self) {
        self.calls += 1;
        self.left -= 1;
        fuel::reset(crate::cosim::CALL_BUDGET);
    }
    fn err(&mut self, e: &NtHiveError) {
        self.errs += 1;
        let _ = e.to_string();
        let _ = format!("{e:?}");
    }
    fn name(&mut self, r: Result<NtHiveNameString<'_>>) {
        match r {
            Ok(n) => {
                match &n {
                    NtHiveNameString::Latin1(b) | NtHiveNameString::Utf16LE(b) => inside(self.all, b),
                }
                let l = n.to_string_lossy();
                let _ = n.to_string_checked();
                let _ = format!("{n} {n:>7} {n:?}");
                let _ = (n.len(), n.is_empty(), n == *l.as_str(), *l.as_str() == n, n.partial_cmp(l.as_str()), n.cmp(&n));
                if self.nk.len() < 64 {
                    self.nk.push(l);
                } else {
                    let i = self.rng.below(64) as usize;
                    self.nk[i] = l;
                }
            }
            Err(e) => self.err(&e),
        }
    }
    fn arg(&mut self) -> usize {
        match self.rng.below(8) {
            0 => usize::MAX,
            1 => usize::MAX / 4 + 1,
            2 => usize::MAX / 8,
            3 => usize::MAX / 16344 + 1,
            4 => (self.rng.next() >> (self.rng.next() % 64)) as usize,
            _ => self.rng.below(6) as usize,
        }
    }
    fn query(&mut self) -> String {
        match self.rng.below(6) {
            0 => String::new(),
            1 => "\\".repeat(self.rng.below(4) as usize),
            2 => (0..self.rng.below(6)).map(|_| char::from_u32((self.rng.next() >> self.rng.below(60)) as u32 % 0x11_0000).unwrap_or('\\')).collect(),
            _ if self.nk.is_empty() => "a".into(),
            3 => {
                let i = self.rng.below(self.nk.len() as u64) as usize;
                let j = self.rng.below(self.nk.len() as u64) as usize;
                format!("{}\\{}", self.nk[i], self.nk[j])
            }
            _ => self.nk[self.rng.below(self.nk.len() as u64) as usize].clone(),
        }
    }
    /// Any mixture of stepping and skipping; `f` looks at the items.
    fn drive<I: Iterator + Clone>(&mut self, mut it: I, heavy: bool, f: &mut dyn FnMut(&mut Self, I::Item)) {
        let mut steps = 0;
        let mut nones = 0;
        while steps < 60 && self.left > 0 {
            steps += 1;
            self.call();
            let _ = it.size_hint();
            let x = match self.rng.below(10) {
                0 => {
                    let n = self.arg();
                    let small = n < 50_000;
                    // the default `nth` of an index root iterator walks the list
                    if heavy || small { it.nth(n) } else { it.next() }
                }
                1 if heavy => {
                    let _ = it.clone().count();
                    it.next()
                }
                2 if heavy => {
                    let l = it.clone().last();
                    if let Some(l) = l {
                        f(self, l);
                    }
                    it.next()
                }
                3 => {
                    it = it.clone();
                    it.next()
                }
                _ => it.next(),
            };
            match x {
                Some(x) => f(self, x),
                None => {
                    nones += 1;
                    if nones > 2 {
                        break;
                    }
                }
            }
        }
    }
    fn value<B: SplitByteSlice + Clone>(&mut self, v: &KeyValue<'_, B>) {
        self.call();
        self.name(v.name());
        let _ = v.data_type().map_err(|e| self.err(&e));
        let _ = v.data_size();
        match v.data() {
            Ok(KeyValueData::Small(b)) => {
                inside(self.all, b);
                let _ = KeyValueData::<B>::Small(b).into_vec();
            }
            Ok(KeyValueData::Big(it)) => {
                let all = self.all;
                self.drive(it, true, &mut |s, x| match x {
                    Ok(b) => inside(all, b),
                    Err(e) => s.err(&e),
                });
                self.call();
                if v.data_size() < 3_000_000 {
                    let _ = v.data().and_then(|d| d.into_vec()).map_err(|e| self.err(&e));
                }
            }
            Err(e) => self.err(&e),
        }
        self.call();
        let _ = v.dword_data().map_err(|e| self.err(&e));
        let _ = v.qword_data().map_err(|e| self.err(&e));
        if v.data_size() < 3_000_000 {
            self.call();
            let _ = v.string_data().map_err(|e| self.err(&e));
            self.call();
            match v.multi_string_data() {
                Ok(it) => self.drive(it, v.data_size() < 100_000, &mut |s, x| {
                    let _ = x.map_err(|e| s.err(&e));
                }),
                Err(e) => self.err(&e),
            }
        }
    }
    fn node<B: SplitByteSlice + Clone>(&mut self, n: &KeyNode<'_, B>, depth: usize) {
        if self.left <= 0 || depth > self.max_depth {
            return;
        }
        self.call();
        self.name(n.name());
        if let Some(c) = n.class_name() {
            self.name(c);
        }
        let _ = *n == n.clone();
        self.call();
        match n.values() {
            None => (),
            Some(Err(e)) => self.err(&e),
            Some(Ok(it)) => self.drive(it, true, &mut |s, x| match x {
                Ok(v) => s.value(&v),
                Err(e) => s.err(&e),
            }),
        }
        for _ in 0..2 {
            let q = self.query();
            self.call();
            match n.value(&q) {
                Some(Ok(v)) => self.value(&v),
                Some(Err(e)) => self.err(&e),
                None => (),
            }
            self.call();
            if let Some(Err(e)) = n.subkey(&q) {
                self.err(&e)
            }
            self.call();
            match n.subpath(&q) {
                Some(Ok(k)) => self.name(k.name()),
                Some(Err(e)) => self.err(&e),
                None => (),
            }
        }
        self.call();
        match n.subkeys() {
            None => (),
            Some(Err(e)) => self.err(&e),
            Some(Ok(SubKeyNodes::Leaf(it))) => self.drive(it, true, &mut |s, x| match x {
                Ok(k) => s.node(&k, depth + 1),
                Err(e) => s.err(&e),
            }),
            Some(Ok(it)) => self.drive(it, false, &mut |s, x| match x {
                Ok(k) => s.node(&k, depth + 1),
                Err(e) => s.err(&e),
            }),
        }
    }
}

/// Calls everything there is to call. Panics are the failure signal.
pub fn exercise<B: SplitByteSlice + Clone>(open: Result<Hive<B>>, all: (usize, usize), seed: u64, calls: i64) -> (u64, u64) {
    let mut ex = Ex { rng: Prng(seed), all, left: calls, calls: 0, errs: 0, max_depth: 40, nk: vec![] };
    ex.call();
    match open {
        Err(e) => ex.err(&e),
        Ok(h) => {
            let _ = h.validate().map_err(|e| ex.err(&e));
            let _ = HiveMinorVersion::n(h.minor_version());
            let _ = h.major_version();
            ex.call();
            match h.root_key_node() {
                Ok(n) => {
                    ex.node(&n, 0);
                    // some deeper walk along single paths
                    ex.max_depth = 400;
                    ex.node(&n, 0);
                }
                Err(e) => ex.err(&e),
            }
        }
    }
    (ex.calls, ex.errs)
}

pub fn case_bytes(c: &Case) -> (Vec<u8>, u64) {
    match c {
        Case::Damaged(c, s) => {
            let b = build(&c.h);
            let mut bytes = b.bytes.clone();
            gen::apply(&mut bytes, &b, &c.d);
            fix_checksum(&mut bytes);
            (bytes, *s)
        }
        Case::Soup { cells, raw, seed } => (soup_bytes(cells, raw), *seed),
        Case::Raw { head, body, len, seed } => {
            let mut b = vec![0u8; BASE];
            b.extend_from_slice(body);
            header(&mut b);
            for (p, v) in head {
                let p = *p as usize % (BASE - 3);
                put32(&mut b, p, *v);
            }
            if seed % 2 == 0 {
                fix_checksum(&mut b);
            }
            b.truncate(*len as usize);
            (b, *seed)
        }
        Case::Scale { .. } => (vec![], 0),
    }
}

impl Prop for P01 {
    type Case = Case;
    const ID: &'static str = "P01";
    const RULE: &'static str = "cases: well-formed hives with up to 8 damages, hives assembled from arbitrary cells pointing at each other (cycles, aliases, wrong counts and sizes), arbitrary headers and bodies of arbitrary length; on each, up to 3000 calls covering every public read operation with arbitrary arguments, in both opening modes. Non-trivial: at least 20 calls were made and the root key was reachable or opening was refused. Thorough adds a coverage-guided libFuzzer campaign over the same exerciser.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let small = TreeOpt { keys: 8, vals: 4, big: false, bulk: 40 };
        let big = TreeOpt { keys: 5, vals: 4, big: true, bulk: 0 };
        prop_oneof![
            4 => (damaged(small, 8), any::<u64>()).prop_map(|(c, s)| Case::Damaged(c, s)),
            2 => (damaged(big, 6), any::<u64>()).prop_map(|(c, s)| Case::Damaged(c, s)),
            6 => (soup(), vec(any::<u8>(), 0..40), any::<u64>()).prop_map(|(cells, raw, seed)| Case::Soup { cells, raw, seed }),
            1 => (vec((prop_oneof![3 => 0u16..48, 1 => any::<u16>()], prop_oneof![Just(0u32), Just(32), Just(u32::MAX), any::<u32>()]), 0..4), vec(any::<u8>(), 0..200),
                  prop_oneof![2 => 4090u32..4500, 1 => 0u32..5000], any::<u64>())
                .prop_map(|(head, body, len, seed)| Case::Raw { head, body, len, seed }),
        ]
        .boxed()
    }
    fn raw(&self, r: &crate::rawfuzz::Raw, obs: &mut Obs) -> Option<Result<(), String>> {
        let bytes = r.bytes.clone().into_boxed_slice();
        let s = bytes.as_ptr() as usize;
        let all = (s, s + bytes.len());
        let (c1, _) = exercise(Hive::without_validation(Fuel(&bytes)), all, r.seed, 1000);
        let (c2, _) = exercise(Hive::new(Fuel(&bytes)), all, !r.seed, 200);
        obs.checks += c1 + c2;
        Some(Ok(()))
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 200_000 } else { 3_000_000 }
    }
    fn fixed(&self, tier: Tier) -> Vec<Case> {
        let mut v = vec![];
        for len in [0u32, 1, 3, 4, 511, 512, 4095, 4096, 4097, 4099, 4100] {
            v.push(Case::Raw { head: vec![], body: vec![0; 64], len, seed: 2 });
        }
        for p in (0..48u16).step_by(4) {
            for x in [0u32, 1, u32::MAX] {
                for seed in [2, 3] {
                    v.push(Case::Raw { head: vec![(p, x)], body: vec![0xff; 128], len: 4224, seed });
                }
            }
        }
        let q = tier == Tier::Quick;
        for (what, n) in [(0u8, if q { 2_000_000u32 } else { 20_000_000 }), (1, if q { 1_000_000 } else { 8_000_000 }), (2, if q { 4_000 } else { 60_000 }), (3, if q { 3_000_000 } else { 30_000_000 }), (4, 65535), (5, if q { 131_072 } else { 2_000_000 })] {
            v.push(Case::Scale { what, n });
        }
        v
    }
    fn tight(&self, c: &Case) -> bool {
        matches!(c, Case::Scale { .. })
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        if let Case::Scale { what, n } = c {
            return scale(*what, *n, obs);
        }
        let (bytes, seed) = case_bytes(c);
        let bytes = bytes.into_boxed_slice();
        let s = bytes.as_ptr() as usize;
        let all = (s, s + bytes.len());
        let (c1, e1) = exercise(Hive::without_validation(Fuel(&bytes)), all, seed, 2500);
        let (c2, e2) = exercise(Hive::new(Fuel(&bytes)), all, !seed, 500);
        obs.checks += c1 + c2;
        obs.add("calls", c1 + c2);
        obs.add("errors", e1 + e2);
        obs.label(match c {
            Case::Damaged(..) => "damaged-hive",
            Case::Soup { .. } => "cell-soup",
            Case::Raw { .. } => "raw",
            Case::Scale { .. } => "scale",
        });
        obs.nontrivial = c1 + c2 >= 20 || matches!(c, Case::Raw { .. });
        Ok(())
    }
}
