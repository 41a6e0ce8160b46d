//! Runs the real reader and the reference reader side by side and compares every answer.
use crate::fuel;
use crate::refp::*;
use crate::runner::Obs;
use crate::util::*;
use nt_hive::*;
use std::collections::HashSet;
use zerocopy::SplitByteSlice;

pub type Chk = Result<(), String>;

/// Byte-access budget of one API call.
pub const CALL_BUDGET: u64 = 8_000_000;

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

pub fn acc_str(a: &[Acc]) -> String {
    trunc(&format!("{a:?}"), 600)
}

/// The reported numbers must be in the message.
pub fn message_ok(e: &NtHiveError) -> Chk {
    let m = e.to_string().to_lowercase();
    let has = |n: u64| m.contains(&format!("{n}")) || m.contains(&format!("{n:x}"));
    let mut nums: Vec<u64> = vec![];
    use NtHiveError::*;
    match e {
        InvalidChecksum { expected, actual }
        | UnsupportedClusteringFactor { expected, actual }
        | UnsupportedFileFormat { expected, actual }
        | UnsupportedFileType { expected, actual } => nums.extend([*expected as u64, *actual as u64]),
        InvalidDataSize { offset, expected, actual }
        | InvalidHeaderSize { offset, expected, actual }
        | InvalidSizeField { offset, expected, actual } => nums.extend([*offset as u64, *expected as u64, *actual as u64]),
        InvalidFourByteSignature { offset, actual, .. } => {
            nums.push(*offset as u64);
            nums.extend(actual.iter().map(|b| *b as u64));
        }
        InvalidTwoByteSignature { offset, actual, .. } => {
            nums.push(*offset as u64);
            if !m.contains(&String::from_utf8_lossy(actual).to_lowercase().to_string()) {
                nums.extend(actual.iter().map(|b| *b as u64));
            }
        }
        InvalidKeyValueDataType { expected, actual } => {
            for t in expected.iter().chain([actual]) {
                if !m.contains(&format!("{t:?}").to_lowercase()) {
                    bail!("message {m:?} does not name type {t:?} of {e:?}");
                }
            }
        }
        InvalidSizeFieldAlignment { offset, size, expected_alignment } => {
            nums.extend([*offset as u64, *size as u64, *expected_alignment as u64])
        }
        SequenceNumberMismatch { primary, secondary } => nums.extend([*primary as u64, *secondary as u64]),
        UnallocatedCell { offset, size } => nums.extend([*offset as u64, size.unsigned_abs() as u64]),
        UnsupportedKeyValueDataType { offset, actual } => nums.extend([*offset as u64, *actual as u64]),
        UnsupportedVersion { major, minor } => nums.extend([*major as u64, *minor as u64]),
    }
    for n in nums {
        if !has(n) {
            bail!("message {m:?} does not contain {n} of {e:?}");
        }
    }
    Ok(())
}

pub struct Sim<'r, 'a> {
    pub r: &'r RefHive<'a>,
    /// address of the first byte of the buffer
    pub base: usize,
    pub obs: &'r mut Obs,
    pub max_depth: usize,
    pub max_nodes: usize,
    /// look up names found while walking
    pub lookups: bool,
    /// look up at most this many of a key's subkeys
    pub lookup_cap: usize,
    /// additional names to look up in every key visited
    pub extra_names: Vec<String>,
    pub seen: HashSet<usize>,
}

impl<'r, 'a> Sim<'r, 'a> {
    pub fn new(r: &'r RefHive<'a>, base: usize, obs: &'r mut Obs) -> Self {
        Sim { r, base, obs, max_depth: 600, max_nodes: 3000, lookups: true, lookup_cap: 40, extra_names: vec![], seen: HashSet::new() }
    }

    fn call(&mut self) {
        self.obs.checks += 1;
        fuel::reset(CALL_BUDGET);
    }

    pub fn err(&mut self, what: &str, e: &NtHiveError, acc: &[Acc]) -> Chk {
        self.obs.label("errors-compared");
        if !accepts(acc, e) {
            bail!("{what}: reported {e:?}, but the faults of the bytes are {}", acc_str(acc));
        }
        message_ok(e)
    }

    pub fn slice(&mut self, what: &str, b: &[u8], pos: usize, len: usize) -> Chk {
        if b.len() != len {
            bail!("{what}: {} bytes returned instead of {len}", b.len());
        }
        if len > 0 && b.as_ptr() as usize != self.base + pos {
            bail!("{what}: bytes at file position {:#x} returned instead of {pos:#x}", (b.as_ptr() as usize).wrapping_sub(self.base));
        }
        let start = (b.as_ptr() as usize).wrapping_sub(self.base);
        if start > self.r.all.len() || start + b.len() > self.r.all.len() {
            bail!("{what}: slice outside the hive bytes");
        }
        Ok(())
    }

    pub fn name(&mut self, what: &str, got: Result<NtHiveNameString<'_>>, want: R<RName>) -> Chk {
        match (got, want) {
            (Ok(g), Ok(w)) => {
                let (latin, b) = match &g {
                    NtHiveNameString::Latin1(b) => (true, *b),
                    NtHiveNameString::Utf16LE(b) => (false, *b),
                };
                if latin != w.latin {
                    bail!("{what}: name encoding latin={latin}, stored latin={}", w.latin);
                }
                self.slice(what, b, w.pos, w.len)
            }
            (Err(e), Err(a)) => self.err(what, &e, &a),
            (Ok(g), Err(a)) => bail!("{what}: returned {g:?}, but it cannot be read: {}", acc_str(&a)),
            (Err(e), Ok(_)) => bail!("{what}: error {e:?} although nothing is damaged"),
        }
    }

    pub fn hive<B: SplitByteSlice>(&mut self, h: &Hive<B>) -> Chk {
        self.call();
        match (h.root_key_node(), self.r.root()) {
            (Ok(n), Ok(w)) => self.node("", &n, w, 0),
            (Err(e), Err(a)) => self.err("root_key_node", &e, &a),
            (Ok(_), Err(a)) => bail!("root_key_node: succeeded in spite of {}", acc_str(&a)),
            (Err(e), Ok(_)) => bail!("root_key_node: error {e:?} although nothing is damaged"),
        }
    }

    /// The record a key handle denotes, identified through the address of its name bytes is not
    /// possible for unreadable names, so handles are compared through `==` with the enumerated one.
    pub fn node<B: SplitByteSlice>(&mut self, path: &str, n: &KeyNode<'_, B>, w: RNode, depth: usize) -> Chk {
        if !self.seen.insert(w.s) {
            return Ok(());
        }
        self.obs.label("keys-walked");
        self.call();
        self.name(&format!("{path}: name()"), n.name(), self.r.key_name(w))?;
        self.call();
        match (n.class_name(), self.r.class(w)) {
            (None, None) => (),
            (Some(g), Some(x)) => self.name(&format!("{path}: class_name()"), g, x)?,
            (g, x) => bail!("{path}: class_name() is_some={}, stored={}", g.is_some(), x.is_some()),
        }
        self.values(path, n, w)?;
        self.subkeys(path, n, w, depth)
    }

    fn values<B: SplitByteSlice>(&mut self, path: &str, n: &KeyNode<'_, B>, w: RNode) -> Chk {
        self.call();
        let want = self.r.values(w);
        let mut names = vec![];
        match (n.values(), want) {
            (None, None) => (),
            (Some(Err(e)), Some(Err(a))) => self.err(&format!("{path}: values()"), &e, &a)?,
            (Some(Ok(mut it)), Some(Ok(list))) => {
                for (i, x) in list.iter().enumerate() {
                    self.call();
                    let p = if i < 2000 { format!("{path}[value {i}]") } else { "value".into() };
                    match (it.next(), x) {
                        (None, _) => bail!("{p}: enumeration ends after {i} of {} values", list.len()),
                        (Some(Ok(v)), Ok(x)) => {
                            if let Ok(nm) = self.r.val_name(*x) {
                                names.push(checked16(&self.r.units(nm)));
                            }
                            self.value(&p, &v, *x)?
                        }
                        (Some(Err(e)), Err(a)) => self.err(&p, &e, a)?,
                        (Some(Ok(_)), Err(a)) => bail!("{p}: a value was returned in spite of {}", acc_str(a)),
                        (Some(Err(e)), Ok(_)) => bail!("{p}: error {e:?} although nothing is damaged"),
                    }
                }
                self.call();
                if it.next().is_some() {
                    bail!("{path}: more than the {} stored values enumerated", list.len());
                }
            }
            (g, x) => bail!("{path}: values() gave {}, expected {}", kind(&g), kind2(&x)),
        }
        if self.lookups {
            let cap = self.lookup_cap;
            let mut qs: Vec<String> = names.into_iter().flatten().take(cap).collect();
            qs.extend(self.extra_names.iter().cloned());
            for q in qs {
                self.value_lookup(path, n, w, &q)?;
            }
        }
        Ok(())
    }

    pub fn value_lookup<B: SplitByteSlice>(&mut self, path: &str, n: &KeyNode<'_, B>, w: RNode, q: &str) -> Chk {
        let what = format!("{path}: value({q:?})");
        let fq = fold(&q.encode_utf16().collect::<Vec<_>>());
        self.call();
        let got = n.value(q);
        self.obs.label("value-lookups");
        let list = match self.r.values(w) {
            None => {
                if got.is_some() {
                    bail!("{what}: key without values gave a result");
                }
                return Ok(());
            }
            Some(Err(a)) => {
                return match got {
                    Some(Err(e)) => self.err(&what, &e, &a),
                    Some(Ok(_)) => bail!("{what}: found a value in an unreadable list"),
                    None => bail!("{what}: absence reported for an unreadable list: {}", acc_str(&a)),
                }
            }
            Some(Ok(l)) => l,
        };
        for x in list {
            let a = match x {
                Err(a) => a,
                Ok(v) => match self.r.val_name(v) {
                    Err(a) => a,
                    Ok(nm) => {
                        if fold(&self.r.units(nm)) != fq {
                            continue;
                        }
                        return match got {
                            Some(Ok(g)) => {
                                self.obs.label("value-lookup-hits");
                                self.value_is(&what, &g, v)
                            }
                            Some(Err(e)) => bail!("{what}: error {e:?} although a readable match comes first"),
                            None => bail!("{what}: not found although it is stored"),
                        };
                    }
                },
            };
            return match got {
                Some(Err(e)) => self.err(&what, &e, &a),
                Some(Ok(_)) => bail!("{what}: a value was returned although an unreadable one comes first: {}", acc_str(&a)),
                None => bail!("{what}: absence reported although an unreadable value was met: {}", acc_str(&a)),
            };
        }
        match got {
            None => Ok(()),
            Some(Ok(g)) => bail!("{what}: no such value stored, but got {:?}", g.name()),
            Some(Err(e)) => bail!("{what}: error {e:?} although nothing is damaged"),
        }
    }

    /// The value handle denotes this record (judged by where its name bytes are, or its header).
    pub fn value_is<B: SplitByteSlice>(&mut self, what: &str, g: &KeyValue<'_, B>, v: RVal) -> Chk {
        self.name(what, g.name(), self.r.val_name(v))?;
        if g.data_size() != self.r.val_size(v) {
            bail!("{what}: a different value record was returned");
        }
        let (mut ok, mut p) = (true, 0);
        if let Ok(x) = g.name() {
            let b = match x {
                NtHiveNameString::Latin1(b) | NtHiveNameString::Utf16LE(b) => b,
            };
            p = b.as_ptr() as usize - self.base;
            ok = p == 4096 + v.s + 20;
        }
        if !ok {
            bail!("{what}: the record at {:#x} was returned instead of the one at {:#x}", p.wrapping_sub(20), 4096 + v.s);
        }
        Ok(())
    }

    pub fn value<B: SplitByteSlice>(&mut self, p: &str, v: &KeyValue<'_, B>, x: RVal) -> Chk {
        self.obs.label("values-walked");
        self.call();
        self.name(&format!("{p}: name()"), v.name(), self.r.val_name(x))?;
        self.call();
        match (v.data_type(), self.r.val_type(x)) {
            (Ok(a), Ok(b)) if a == b => (),
            (Err(e), Err(a)) => self.err(&format!("{p}: data_type()"), &e, &a)?,
            (g, x) => bail!("{p}: data_type() = {g:?}, expected {x:?}"),
        }
        if v.data_size() != self.r.val_size(x) {
            bail!("{p}: data_size() = {}, stored {}", v.data_size(), self.r.val_size(x));
        }
        self.data(p, v, x)?;
        self.ints(p, v, x)?;
        self.strings(p, v, x)
    }

    pub fn data<B: SplitByteSlice>(&mut self, p: &str, v: &KeyValue<'_, B>, x: RVal) -> Chk {
        self.call();
        let want = self.r.data(x);
        let what = format!("{p}: data()");
        match (v.data(), want) {
            (Err(e), Err(a)) => self.err(&what, &e, &a),
            (Ok(KeyValueData::Small(b)), Ok(RData::EmptyOr(_))) if b.is_empty() => Ok(()),
            (Err(e), Ok(RData::EmptyOr(a))) => self.err(&what, &e, &a),
            (Ok(KeyValueData::Small(b)), Ok(RData::Small(pos, len))) => {
                self.slice(&what, b, pos, len)?;
                self.call();
                match v.data().and_then(|d| d.into_vec()) {
                    Ok(vec) if vec == self.r.at(pos, len) => Ok(()),
                    o => bail!("{p}: into_vec() = {:?} differs from the data", o.map(|v| v.len())),
                }
            }
            (Ok(KeyValueData::Big(it)), Ok(RData::Big(segs))) => {
                self.obs.label("big-data");
                let mut it = it;
                let mut all: Option<Vec<u8>> = Some(vec![]);
                let mut first: Option<Vec<Acc>> = None;
                for (i, s) in segs.iter().enumerate() {
                    self.call();
                    match (it.next(), s) {
                        (Some(Ok(b)), Ok((pos, len))) => {
                            self.slice(&format!("{p}: segment {i}"), b, *pos, *len)?;
                            if let Some(a) = all.as_mut() {
                                a.extend_from_slice(b)
                            }
                        }
                        (Some(Err(e)), Err(a)) => {
                            self.err(&format!("{p}: segment {i}"), &e, a)?;
                            all = None;
                            first.get_or_insert(a.clone());
                        }
                        (None, _) => bail!("{p}: data ends after {i} of {} segments", segs.len()),
                        (Some(g), w) => bail!("{p}: segment {i}: got {:?}, expected {w:?}", g.map(|b| b.len())),
                    }
                }
                self.call();
                if it.next().is_some() {
                    bail!("{p}: more than {} segments", segs.len());
                }
                self.call();
                match (v.data().and_then(|d| d.into_vec()), all) {
                    (Ok(g), Some(w)) if g == w => Ok(()),
                    (Err(e), None) => self.err(&format!("{p}: into_vec()"), &e, &first.unwrap()),
                    (g, w) => bail!("{p}: into_vec() gave {:?}, expected {:?} bytes", g.map(|v| v.len()), w.map(|v| v.len())),
                }
            }
            (g, w) => bail!("{what}: {}, expected {w:?}", match g {
                Ok(KeyValueData::Small(b)) => format!("small data of {} bytes", b.len()),
                Ok(KeyValueData::Big(_)) => "big data".into(),
                Err(e) => format!("{e:?}"),
            }),
        }
    }

    pub fn ints<B: SplitByteSlice>(&mut self, p: &str, v: &KeyValue<'_, B>, x: RVal) -> Chk {
        for n in [4, 8] {
            self.call();
            let got = if n == 4 { v.dword_data().map(|x| x as u64) } else { v.qword_data() };
            let what = format!("{p}: {}", if n == 4 { "dword_data()" } else { "qword_data()" });
            match (got, self.r.int(x, n)) {
                (Ok(a), Ok(b)) if a == b => {
                    self.obs.label("integers-read");
                }
                (Err(e), Err(a)) => self.err(&what, &e, &a)?,
                (Ok(a), Ok(b)) => bail!("{what} = {a:#x}, stored {b:#x}"),
                (Ok(a), Err(f)) => bail!("{what} = {a:#x} in spite of {}", acc_str(&f)),
                (Err(e), Ok(_)) => bail!("{what}: error {e:?} although nothing is wrong"),
            }
        }
        Ok(())
    }

    pub fn strings<B: SplitByteSlice>(&mut self, p: &str, v: &KeyValue<'_, B>, x: RVal) -> Chk {
        self.call();
        let (want, acc) = self.r.string(x);
        match (v.string_data(), want) {
            (Ok(a), Some(b)) => {
                if a != b {
                    bail!("{p}: string_data() = {:?}, expected {:?}", trunc(&a, 200), trunc(&b, 200));
                }
                self.obs.label("strings-read");
            }
            (Err(e), _) => {
                if acc.is_empty() {
                    bail!("{p}: string_data(): error {e:?} although nothing is wrong");
                }
                self.err(&format!("{p}: string_data()"), &e, &acc)?
            }
            (Ok(a), None) => bail!("{p}: string_data() = {:?} in spite of {}", trunc(&a, 100), acc_str(&acc)),
        }
        self.call();
        match (v.multi_string_data(), self.r.multi(x)) {
            (Err(e), Err(a)) => self.err(&format!("{p}: multi_string_data()"), &e, &a)?,
            (Err(e), Ok(m)) => {
                if m.whole_fault.is_empty() {
                    bail!("{p}: multi_string_data(): error {e:?} although nothing is wrong");
                }
                self.err(&format!("{p}: multi_string_data()"), &e, &m.whole_fault)?
            }
            (Ok(_), Err(a)) => bail!("{p}: multi_string_data() succeeded in spite of {}", acc_str(&a)),
            (Ok(mut it), Ok(m)) => {
                self.obs.label("multi-strings-read");
                for (i, w) in m.strings.iter().enumerate() {
                    self.call();
                    match it.next() {
                        Some(Ok(g)) if &g == w => (),
                        g => bail!("{p}: multi string {i} = {}, expected {:?}", trunc(&format!("{g:?}"), 200), trunc(w, 200)),
                    }
                }
                self.call();
                match (it.next(), m.fault) {
                    (None, None) => {
                        self.call();
                        if let Some(x) = it.next() {
                            bail!("{p}: multi strings go on after the end with {}", trunc(&format!("{x:?}"), 100));
                        }
                    }
                    (Some(Err(e)), Some(a)) => self.err(&format!("{p}: multi string"), &e, &a)?,
                    (g, w) => bail!("{p}: after {} strings: got {}, expected {:?}", m.strings.len(), trunc(&format!("{g:?}"), 100), w),
                }
            }
        }
        Ok(())
    }

    fn subkeys<B: SplitByteSlice>(&mut self, path: &str, n: &KeyNode<'_, B>, w: RNode, depth: usize) -> Chk {
        self.call();
        let want = self.r.subkeys(w);
        let mut kids = vec![];
        let mut names = vec![];
        match (n.subkeys(), want) {
            (None, None) => (),
            (Some(Err(e)), Some(Err(a))) => self.err(&format!("{path}: subkeys()"), &e, &a)?,
            (Some(Ok(mut it)), Some(Ok(list))) => {
                for (i, x) in list.iter().enumerate() {
                    self.call();
                    match (it.next(), x) {
                        (None, _) => bail!("{path}: enumeration ends after {i} of {} subkeys", list.len()),
                        (Some(Ok(k)), Ok(x)) => {
                            let nm = self.r.key_name(*x);
                            if let Ok(nm) = &nm {
                                names.push((i, checked16(&self.r.units(*nm))));
                            }
                            // identity: the name bytes must be those of the listed record
                            self.call();
                            self.name(&format!("{path}[subkey {i}]: name()"), k.name(), nm)?;
                            kids.push((k, *x));
                        }
                        (Some(Err(e)), Err(a)) => self.err(&format!("{path}[subkey {i}]"), &e, a)?,
                        (Some(Ok(_)), Err(a)) => bail!("{path}[subkey {i}]: a key was returned in spite of {}", acc_str(a)),
                        (Some(Err(e)), Ok(_)) => bail!("{path}[subkey {i}]: error {e:?} although nothing is damaged"),
                    }
                }
                self.call();
                if it.next().is_some() {
                    bail!("{path}: more than the {} stored subkeys enumerated", list.len());
                }
                self.obs.label("subkey-lists");
            }
            (g, x) => bail!("{path}: subkeys() gave {}, expected {}", kind(&g), kind2(&x)),
        }
        if self.lookups {
            let step = names.len() / self.lookup_cap.max(1) + 1;
            let mut qs: Vec<String> = names.iter().enumerate().filter(|(j, _)| j % step == 0 || j + 1 == names.len()).filter_map(|(_, x)| x.1.clone()).collect();
            qs.extend(self.extra_names.iter().cloned());
            let info = LookupInfo::new(self.r, w);
            for q in qs {
                self.call();
                let got = n.subkey(&q);
                self.lookup(path, &q, got, &info, w, |a, b| a == b, &kids)?;
            }
        }
        if depth < self.max_depth {
            for (i, (k, x)) in kids.iter().enumerate() {
                if self.seen.len() >= self.max_nodes {
                    self.obs.label("walk-cut");
                    break;
                }
                let p = if depth < 12 { format!("{path}\\{i}") } else { format!("(depth {depth})\\{i}") };
                self.node(&p, k, *x, depth + 1)?;
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    pub fn lookup<'h, B: SplitByteSlice>(
        &mut self,
        path: &str,
        q: &str,
        got: Option<Result<KeyNode<'h, B>>>,
        info: &LookupInfo,
        _w: RNode,
        eq: impl Fn(&KeyNode<'h, B>, &KeyNode<'h, B>) -> bool,
        kids: &[(KeyNode<'h, B>, RNode)],
    ) -> Chk {
        let what = format!("{path}: subkey({q:?})");
        self.obs.label("subkey-lookups");
        match info.expect(q) {
            Look::Error(a) => match got {
                Some(Err(e)) => self.err(&what, &e, &a),
                Some(Ok(_)) => bail!("{what}: a key was returned from an unreadable list"),
                None => bail!("{what}: absence reported for an unreadable list: {}", acc_str(&a)),
            },
            Look::Set { hits, none_ok, faults } => match got {
                None if none_ok => Ok(()),
                None => bail!("{what}: not found although it is stored"),
                Some(Err(e)) => {
                    if faults.is_empty() {
                        bail!("{what}: error {e:?} although nothing is damaged");
                    }
                    self.err(&what, &e, &faults)
                }
                Some(Ok(g)) => {
                    self.obs.label("subkey-lookup-hits");
                    let found = kids.iter().find(|(k, _)| eq(k, &g)).map(|x| x.1);
                    match found {
                        Some(x) if hits.contains(&x) => {
                            self.call();
                            self.name(&what, g.name(), self.r.key_name(x))
                        }
                        Some(_) => bail!("{what}: returned the key named {:?}", g.name()),
                        None => bail!("{what}: returned a key ({:?}) that enumeration does not show", g.name()),
                    }
                }
            },
        }
    }
}

fn kind<T>(g: &Option<Result<T>>) -> String {
    match g {
        None => "nothing".into(),
        Some(Ok(_)) => "a list".into(),
        Some(Err(e)) => format!("{e:?}"),
    }
}
fn kind2<T>(g: &Option<R<T>>) -> String {
    match g {
        None => "nothing".into(),
        Some(Ok(_)) => "a list".into(),
        Some(Err(e)) => acc_str(e),
    }
}

pub enum Look {
    Error(Vec<Acc>),
    Set { hits: Vec<RNode>, none_ok: bool, faults: Vec<Acc> },
}

/// What lookups in one key may answer.
pub struct LookupInfo {
    list: Option<R<(Vec<(Vec<u16>, RNode)>, Vec<Acc>, bool)>>,
}
impl LookupInfo {
    pub fn new(r: &RefHive<'_>, w: RNode) -> Self {
        let list = r.subkeys(w).map(|l| {
            l.map(|entries| {
                let mut names = vec![];
                let mut faults = vec![];
                for x in entries {
                    match x {
                        Err(a) => faults.extend(a),
                        Ok(n) => match r.key_name(n) {
                            Err(a) => faults.extend(a),
                            Ok(nm) => names.push((fold(&r.units(nm)), n)),
                        },
                    }
                }
                let sorted = names.windows(2).all(|p| p[0].0 <= p[1].0);
                (names, faults, sorted)
            })
        });
        LookupInfo { list }
    }
    pub fn expect(&self, q: &str) -> Look {
        match &self.list {
            None => Look::Set { hits: vec![], none_ok: true, faults: vec![] },
            Some(Err(a)) => Look::Error(a.clone()),
            Some(Ok((names, faults, sorted))) => {
                let fq = fold(&q.encode_utf16().collect::<Vec<_>>());
                let hits: Vec<RNode> = if *sorted {
                    let i = names.partition_point(|x| x.0 < fq);
                    names[i..].iter().take_while(|x| x.0 == fq).map(|x| x.1).collect()
                } else {
                    names.iter().filter(|x| x.0 == fq).map(|x| x.1).collect()
                };
                Look::Set { none_ok: hits.is_empty() || !*sorted, hits, faults: faults.clone() }
            }
        }
    }
    pub fn sorted_clean(&self) -> bool {
        matches!(&self.list, Some(Ok((_, f, true))) if f.is_empty())
    }
}
