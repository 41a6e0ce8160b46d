//! Independent reference reader over raw hive bytes. Every operation yields the expected answer or
//! the set of errors that are true of the bytes (any one of them is accepted).
use crate::util::*;
use nt_hive::{KeyValueDataType, NtHiveError};

#[derive(Clone, Debug, PartialEq)]
pub enum Acc {
    Exact(NtHiveError),
    /// any error located at this offset
    AnyAt(usize),
}
pub type R<T> = Result<T, Vec<Acc>>;

pub fn offset_of_err(e: &NtHiveError) -> Option<usize> {
    use NtHiveError::*;
    match e {
        InvalidDataSize { offset, .. }
        | InvalidFourByteSignature { offset, .. }
        | InvalidHeaderSize { offset, .. }
        | InvalidSizeField { offset, .. }
        | InvalidSizeFieldAlignment { offset, .. }
        | InvalidTwoByteSignature { offset, .. }
        | UnallocatedCell { offset, .. }
        | UnsupportedKeyValueDataType { offset, .. } => Some(*offset),
        _ => None,
    }
}

fn same(a: &NtHiveError, b: &NtHiveError) -> bool {
    if let (
        NtHiveError::InvalidKeyValueDataType { expected: e1, actual: a1 },
        NtHiveError::InvalidKeyValueDataType { expected: e2, actual: a2 },
    ) = (a, b)
    {
        return a1 == a2 && e1.len() == e2.len() && e1.iter().all(|x| e2.contains(x));
    }
    a == b
}

pub fn accepts(acc: &[Acc], e: &NtHiveError) -> bool {
    acc.iter().any(|a| match a {
        Acc::Exact(x) => same(x, e),
        Acc::AnyAt(o) => offset_of_err(e) == Some(*o),
    })
}

fn ex<T>(e: NtHiveError) -> R<T> {
    Err(vec![Acc::Exact(e)])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RName {
    pub latin: bool,
    /// absolute file position
    pub pos: usize,
    pub len: usize,
}

/// A key record: data-relative content range of its cell.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RNode {
    pub s: usize,
    pub e: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct RVal {
    pub s: usize,
    pub e: usize,
}
#[derive(Clone, Debug)]
pub enum RData {
    /// absolute position, length
    Small(usize, usize),
    Big(Vec<R<(usize, usize)>>),
    /// zero-length data of an absent cell: empty or any error at the given offset
    EmptyOr(Vec<Acc>),
}

pub struct RefHive<'a> {
    pub all: &'a [u8],
}

const B: usize = 4096;

pub const SZ: &[KeyValueDataType] = &[KeyValueDataType::RegSZ, KeyValueDataType::RegExpandSZ];
pub const MSZ: &[KeyValueDataType] = &[KeyValueDataType::RegMultiSZ];
pub const DW: &[KeyValueDataType] = &[KeyValueDataType::RegDWord, KeyValueDataType::RegDWordBigEndian];
pub const QW: &[KeyValueDataType] = &[KeyValueDataType::RegQWord];

pub const TYPES: [KeyValueDataType; 12] = [
    KeyValueDataType::RegNone,
    KeyValueDataType::RegSZ,
    KeyValueDataType::RegExpandSZ,
    KeyValueDataType::RegBinary,
    KeyValueDataType::RegDWord,
    KeyValueDataType::RegDWordBigEndian,
    KeyValueDataType::RegLink,
    KeyValueDataType::RegMultiSZ,
    KeyValueDataType::RegResourceList,
    KeyValueDataType::RegFullResourceDescriptor,
    KeyValueDataType::RegResourceRequirementsList,
    KeyValueDataType::RegQWord,
];

impl<'a> RefHive<'a> {
    pub fn new(all: &'a [u8]) -> Self {
        RefHive { all }
    }
    fn d(&self) -> &'a [u8] {
        &self.all[B..]
    }
    pub fn u32(&self, p: usize) -> u32 {
        le32(self.d(), p)
    }
    pub fn u16(&self, p: usize) -> u16 {
        le16(self.d(), p)
    }
    pub fn at(&self, pos: usize, len: usize) -> &'a [u8] {
        &self.all[pos..pos + len]
    }

    /// Content range of the cell at a data offset.
    pub fn cell(&self, off: u32) -> R<(usize, usize)> {
        let len = self.d().len();
        let o = off as usize;
        if o + 4 > len {
            return ex(NtHiveError::InvalidHeaderSize { offset: B + o, expected: 4, actual: len.saturating_sub(o) });
        }
        let size = self.u32(o) as i32;
        if size == 0 {
            return Err(vec![Acc::AnyAt(B + o)]);
        }
        // a cell may be at fault in several ways
        let mut bad = vec![];
        if size > 0 {
            bad.push(Acc::Exact(NtHiveError::UnallocatedCell { offset: B + o, size }));
        }
        let size = size.unsigned_abs() as usize;
        if size % 8 != 0 {
            bad.push(Acc::Exact(NtHiveError::InvalidSizeFieldAlignment { offset: B + o, size, expected_alignment: 8 }));
        }
        if size > len - o {
            bad.push(Acc::Exact(NtHiveError::InvalidSizeField { offset: B + o, expected: size.saturating_sub(4), actual: len - o - 4 }));
        }
        if size < 4 {
            bad.push(Acc::Exact(NtHiveError::InvalidSizeField { offset: B + o, expected: 4, actual: size }));
        }
        if !bad.is_empty() {
            return Err(bad);
        }
        Ok((o + 4, o + size))
    }

    fn rec(&self, off: u32, hdr: usize, sig: &'static [u8; 2]) -> R<(usize, usize)> {
        let (s, e) = self.cell(off)?;
        if e - s < hdr {
            return ex(NtHiveError::InvalidHeaderSize { offset: B + s, expected: hdr, actual: e - s });
        }
        let a = [self.d()[s], self.d()[s + 1]];
        if &a != sig {
            return ex(NtHiveError::InvalidTwoByteSignature { offset: B + s, expected: sig, actual: a });
        }
        Ok((s, e))
    }

    pub fn root(&self) -> R<RNode> {
        self.node(le32(self.all, 36))
    }
    pub fn node(&self, off: u32) -> R<RNode> {
        let (s, e) = self.rec(off, 76, b"nk")?;
        Ok(RNode { s, e })
    }
    fn val(&self, off: u32) -> R<RVal> {
        let (s, e) = self.rec(off, 20, b"vk")?;
        Ok(RVal { s, e })
    }

    pub fn key_name(&self, n: RNode) -> R<RName> {
        let l = self.u16(n.s + 72) as usize;
        if l > n.e - n.s - 76 {
            return ex(NtHiveError::InvalidSizeField { offset: B + n.s + 72, expected: l, actual: n.e - n.s - 76 });
        }
        Ok(RName { latin: self.u16(n.s + 2) & 0x20 != 0, pos: B + n.s + 76, len: l })
    }

    pub fn class(&self, n: RNode) -> Option<R<RName>> {
        let off = self.u32(n.s + 48);
        if off == u32::MAX {
            return None;
        }
        Some((|| {
            let l = self.u16(n.s + 74) as usize;
            let (s, e) = self.cell(off)?;
            if l > e - s {
                return ex(NtHiveError::InvalidSizeField { offset: B + n.s + 74, expected: l, actual: e - s });
            }
            Ok(RName { latin: false, pos: B + s, len: l })
        })())
    }

    /// One leaf: the key offsets it lists.
    fn leaf(&self, off: u32, under_root: bool) -> R<(bool, Vec<u32>)> {
        let (s, e) = self.cell(off)?;
        if e - s < 4 {
            return ex(NtHiveError::InvalidHeaderSize { offset: B + s, expected: 4, actual: e - s });
        }
        let sig = [self.d()[s], self.d()[s + 1]];
        let (isz, ri) = match &sig {
            b"lf" | b"lh" => (8, false),
            b"li" => (4, false),
            b"ri" if !under_root => (4, true),
            _ => {
                let expected: &'static [u8] = if under_root { b"lf|lh|li" } else { b"lf|lh|li|ri" };
                return ex(NtHiveError::InvalidTwoByteSignature { offset: B + s, expected, actual: sig });
            }
        };
        let cnt = self.u16(s + 2) as usize;
        if under_root && cnt == 0 {
            return ex(NtHiveError::InvalidSizeField { offset: B + s + 2, expected: 1, actual: 0 });
        }
        if cnt * isz > e - s - 4 {
            return ex(NtHiveError::InvalidSizeField { offset: B + s + 2, expected: cnt * isz, actual: e - s - 4 });
        }
        Ok((ri, (0..cnt).map(|i| self.u32(s + 4 + i * isz)).collect()))
    }

    pub fn subkeys(&self, n: RNode) -> Option<R<Vec<R<RNode>>>> {
        self.subkeys_x(n).map(|r| r.map(|x| x.1))
    }
    /// (is an index root, entries)
    pub fn subkeys_x(&self, n: RNode) -> Option<R<(bool, Vec<R<RNode>>)>> {
        let off = self.u32(n.s + 28);
        if off == u32::MAX {
            return None;
        }
        Some((|| {
            let (ri, items) = self.leaf(off, false)?;
            let mut out = vec![];
            if ri {
                for o in items {
                    match self.leaf(o, true) {
                        Ok((_, l)) => out.extend(l.into_iter().map(|k| self.node(k))),
                        Err(e) => out.push(Err(e)),
                    }
                }
            } else {
                out.extend(items.into_iter().map(|k| self.node(k)));
            }
            Ok((ri, out))
        })())
    }

    /// Data-relative ranges of the list structures that enumerate this key's subkeys.
    pub fn list_extents(&self, n: RNode) -> Vec<(usize, usize)> {
        let mut v = vec![];
        let off = self.u32(n.s + 28);
        if off == u32::MAX {
            return v;
        }
        let one = |off: u32, under: bool, v: &mut Vec<(usize, usize)>| -> Vec<u32> {
            if (off as usize) < self.d().len() {
                v.push((off as usize, off as usize + 8));
            }
            let Ok((s, e)) = self.cell(off) else { return vec![] };
            v.push((s - 4, e.min(s + 4)));
            match self.leaf(off, under) {
                Ok((ri, items)) => {
                    let isz = if ri || &self.d()[s..s + 2] == b"li" { 4 } else { 8 };
                    for i in 0..items.len() {
                        v.push((s + 4 + i * isz, s + 8 + i * isz));
                    }
                    if ri {
                        items
                    } else {
                        // the key cells' own headers, readable or not
                        v.extend(items.iter().map(|o| (*o as usize, *o as usize + 6)));
                        vec![]
                    }
                }
                Err(_) => vec![],
            }
        };
        for o in one(off, false, &mut v) {
            one(o, true, &mut v);
        }
        v
    }

    pub fn values(&self, n: RNode) -> Option<R<Vec<R<RVal>>>> {
        let off = self.u32(n.s + 40);
        if off == u32::MAX {
            return None;
        }
        Some((|| {
            let cnt = self.u32(n.s + 36) as u64;
            let (s, e) = self.cell(off)?;
            if cnt * 4 > (e - s) as u64 {
                return ex(NtHiveError::InvalidSizeField { offset: B + n.s + 36, expected: (cnt * 4) as usize, actual: e - s });
            }
            Ok((0..cnt as usize).map(|i| self.val(self.u32(s + 4 * i))).collect())
        })())
    }

    pub fn val_name(&self, v: RVal) -> R<RName> {
        let l = self.u16(v.s + 2) as usize;
        if l > v.e - v.s - 20 {
            return ex(NtHiveError::InvalidSizeField { offset: B + v.s + 2, expected: l, actual: v.e - v.s - 20 });
        }
        Ok(RName { latin: self.u16(v.s + 16) & 1 != 0, pos: B + v.s + 20, len: l })
    }
    pub fn val_type(&self, v: RVal) -> R<KeyValueDataType> {
        let c = self.u32(v.s + 12);
        match TYPES.get(c as usize) {
            Some(t) => Ok(*t),
            None => ex(NtHiveError::UnsupportedKeyValueDataType { offset: B + v.s + 12, actual: c }),
        }
    }
    pub fn val_size(&self, v: RVal) -> u32 {
        self.u32(v.s + 4) & 0x7fff_ffff
    }

    pub fn data(&self, v: RVal) -> R<RData> {
        let raw = self.u32(v.s + 4);
        let size = (raw & 0x7fff_ffff) as usize;
        let off = self.u32(v.s + 8);
        if raw & 0x8000_0000 != 0 {
            if size > 4 {
                let offset = B + v.s + 4;
                return Err(vec![
                    Acc::Exact(NtHiveError::InvalidSizeField { offset, expected: 4, actual: size }),
                    Acc::Exact(NtHiveError::InvalidSizeField { offset, expected: size, actual: 4 }),
                ]);
            }
            return Ok(RData::Small(B + v.s + 8, size));
        }
        let cell = self.cell(off);
        if size == 0 && off == u32::MAX {
            return Ok(RData::EmptyOr(cell.unwrap_err()));
        }
        let (s, e) = cell?;
        if size <= crate::model::SEG {
            if e - s < size {
                return ex(NtHiveError::InvalidDataSize { offset: B + s, expected: size, actual: e - s });
            }
            return Ok(RData::Small(B + s, size));
        }
        // big data
        if e - s < 8 {
            return ex(NtHiveError::InvalidHeaderSize { offset: B + s, expected: 8, actual: e - s });
        }
        let sig = [self.d()[s], self.d()[s + 1]];
        let mut bad = vec![];
        if &sig != b"db" {
            return ex(NtHiveError::InvalidTwoByteSignature { offset: B + s, expected: b"db", actual: sig });
        }
        let cnt = self.u16(s + 2) as usize;
        let max = cnt * crate::model::SEG;
        if size > max {
            let offset = B + v.s + 4;
            bad.push(Acc::Exact(NtHiveError::InvalidSizeField { offset, expected: max, actual: size }));
            bad.push(Acc::Exact(NtHiveError::InvalidSizeField { offset, expected: size, actual: max }));
        }
        let mut items = vec![];
        match self.cell(self.u32(s + 4)) {
            Err(a) => bad.extend(a),
            Ok((ls, le)) => {
                if cnt * 4 > le - ls {
                    bad.push(Acc::Exact(NtHiveError::InvalidSizeField { offset: B + s + 2, expected: cnt * 4, actual: le - ls }));
                } else {
                    items = (0..cnt).map(|i| self.u32(ls + 4 * i)).collect();
                }
            }
        }
        if !bad.is_empty() {
            return Err(bad);
        }
        let mut left = size;
        let mut segs = vec![];
        for o in items {
            if left == 0 {
                break;
            }
            let want = left.min(crate::model::SEG);
            left -= want;
            segs.push((|| {
                let (cs, ce) = self.cell(o)?;
                if ce - cs < want {
                    return ex(NtHiveError::InvalidDataSize { offset: B + cs, expected: want, actual: ce - cs });
                }
                Ok((B + cs, want))
            })());
        }
        Ok(RData::Big(segs))
    }

    pub fn units(&self, n: RName) -> Vec<u16> {
        let b = self.at(n.pos, n.len);
        if n.latin {
            units_of_latin1(b)
        } else {
            units_of_utf16le(b)
        }
    }

    fn type_gate(&self, v: RVal, allowed: &'static [KeyValueDataType]) -> R<KeyValueDataType> {
        let t = self.val_type(v)?;
        if allowed.contains(&t) {
            Ok(t)
        } else {
            ex(NtHiveError::InvalidKeyValueDataType { expected: allowed, actual: t })
        }
    }

    /// u32/u64 value of an integer read.
    pub fn int(&self, v: RVal, n: usize) -> R<u64> {
        let mut bad = vec![];
        let t = match self.type_gate(v, if n == 4 { DW } else { QW }) {
            Ok(t) => Some(t),
            Err(a) => {
                bad.extend(a);
                None
            }
        };
        let size = self.val_size(v) as usize;
        let mut bytes = None;
        match self.data(v) {
            Err(a) => bad.extend(a),
            Ok(RData::EmptyOr(a)) => {
                bad.extend(a);
                let o = B + v.s + 4;
                bad.push(Acc::AnyAt(o));
                bad.push(Acc::AnyAt(o + 4));
                bad.push(Acc::Exact(NtHiveError::InvalidDataSize { offset: B + self.u32(v.s + 8) as usize, expected: n, actual: 0 }));
            }
            Ok(RData::Small(p, l)) => {
                if l != n {
                    bad.push(Acc::Exact(NtHiveError::InvalidDataSize { offset: p, expected: n, actual: l }));
                } else {
                    bytes = Some(self.at(p, l));
                }
            }
            Ok(RData::Big(_)) => {
                let o = B + self.u32(v.s + 8) as usize;
                for offset in [o, o + 4] {
                    bad.push(Acc::Exact(NtHiveError::InvalidDataSize { offset, expected: n, actual: size }));
                }
            }
        }
        // A size that does not fit is an equally true fault when the data itself is unreadable.
        if let (true, Some(t), Some(b)) = (bad.is_empty(), t, bytes) {
            let mut x = 0u64;
            for i in 0..n {
                let byte = if t == KeyValueDataType::RegDWordBigEndian { b[i] } else { b[n - 1 - i] };
                x = x << 8 | byte as u64;
            }
            return Ok(x);
        }
        Err(bad)
    }

    /// Whole data as bytes; `Err((readable prefix, faults))` if a segment is unreadable.
    fn whole(&self, v: RVal) -> R<(Vec<u8>, Option<Vec<Acc>>)> {
        match self.data(v)? {
            RData::Small(p, l) => Ok((self.at(p, l).to_vec(), None)),
            RData::EmptyOr(a) => Ok((vec![], Some(a))),
            RData::Big(segs) => {
                let mut out = vec![];
                for s in segs {
                    match s {
                        Ok((p, l)) => out.extend_from_slice(self.at(p, l)),
                        Err(a) => return Ok((out, Some(a))),
                    }
                }
                Ok((out, None))
            }
        }
    }

    /// Expected string, and faults that may be reported instead.
    pub fn string(&self, v: RVal) -> (Option<String>, Vec<Acc>) {
        let mut bad = vec![];
        if let Err(a) = self.type_gate(v, SZ) {
            bad.extend(a);
        }
        match self.whole(v) {
            Err(a) => bad.extend(a),
            Ok((b, fault)) => {
                if bad.is_empty() {
                    let u = units_of_utf16le(&b);
                    let z = u.iter().position(|&x| x == 0);
                    let s = lossy16(&u[..z.unwrap_or(u.len())]);
                    return match fault {
                        None => (Some(s), vec![]),
                        // Fault behind the terminating NUL: the text is complete, or the fault is reported.
                        Some(a) if z.is_some() || b.is_empty() && matches!(self.data(v), Ok(RData::EmptyOr(_))) => (Some(s), a),
                        Some(a) => (None, a),
                    };
                }
                if let Some(a) = fault {
                    bad.extend(a);
                }
            }
        }
        (None, bad)
    }

    /// Expected strings; then (if any) the fault that ends them. `complete`: the fault lies behind the end.
    pub fn multi(&self, v: RVal) -> R<MultiR> {
        let mut bad = vec![];
        if let Err(a) = self.type_gate(v, MSZ) {
            bad.extend(a);
        }
        match self.whole(v) {
            Err(a) => bad.extend(a),
            Ok((b, fault)) => {
                if bad.is_empty() {
                    if let (Some(a), true) = (&fault, matches!(self.data(v), Ok(RData::EmptyOr(_)))) {
                        return Ok(MultiR { strings: vec![], fault: None, whole_fault: a.clone() });
                    }
                    let u = units_of_utf16le(&b);
                    let mut strings = vec![];
                    let mut rest = &u[..];
                    let mut complete = false;
                    loop {
                        match rest.iter().position(|&x| x == 0) {
                            Some(0) => {
                                complete = true;
                                break;
                            }
                            Some(i) => {
                                strings.push(lossy16(&rest[..i]));
                                rest = &rest[i + 1..];
                            }
                            None => {
                                if fault.is_none() && !rest.is_empty() {
                                    strings.push(lossy16(rest));
                                }
                                break;
                            }
                        }
                    }
                    return Ok(MultiR { strings, fault: if complete { None } else { fault }, whole_fault: vec![] });
                }
                if let Some(a) = fault {
                    bad.extend(a);
                }
            }
        }
        Err(bad)
    }
}

pub struct MultiR {
    pub strings: Vec<String>,
    pub fault: Option<Vec<Acc>>,
    /// faults that may be reported by the call instead
    pub whole_fault: Vec<Acc>,
}
