//! Opening: an independent predicate over the header bytes decides which buffers must open.
use crate::cosim::message_ok;
use crate::runner::*;
use crate::util::*;
use nt_hive::{Hive, HiveMinorVersion, NtHiveError};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct P02;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sum {
    /// the right checksum
    Right,
    /// what a plain XOR gives, without the two exceptions
    Plain,
    Xor(u32),
    Set(u32),
    /// left as it was before the edits
    Stale,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub seed: u64,
    /// (offset, value, bytes) little-endian overwrites within the base block
    pub set: Vec<(u16, u32, u8)>,
    /// adjust one meaningless dword so that the plain XOR of the first 508 bytes is this
    pub target: Option<u32>,
    pub sum: Sum,
    /// bits flipped last
    pub flip: Vec<u16>,
    /// bytes after the base block
    pub tail: u32,
    /// keep only this many bytes in all
    pub cut: Option<u32>,
    pub align: u8,
    /// this many more (untouched) bytes
    #[serde(default)]
    pub far: u64,
}

const B: usize = 4096;

pub fn bytes_of(c: &Case) -> Vec<u8> {
    let mut p = Prng(c.seed);
    let mut b = vec![0u8; B];
    if c.seed % 4 != 0 {
        p.fill(&mut b);
    }
    b[0..4].copy_from_slice(b"regf");
    let seq = p.next() as u32;
    put32(&mut b, 4, seq);
    put32(&mut b, 8, seq);
    put32(&mut b, 20, 1);
    put32(&mut b, 24, 3 + (p.next() % 4) as u32);
    put32(&mut b, 28, 0);
    put32(&mut b, 32, 1);
    put32(&mut b, 36, 32);
    put32(&mut b, 40, c.tail / 4096 * 4096);
    put32(&mut b, 44, 1);
    let s = xor_checksum(&b);
    put32(&mut b, 508, s);
    for (off, v, n) in &c.set {
        for i in 0..(*n).clamp(1, 4) as usize {
            let o = *off as usize + i;
            if o < B {
                b[o] = (v >> (8 * i)) as u8;
            }
        }
    }
    let plain = |b: &[u8]| b[..508].chunks(4).fold(0u32, |a, d| a ^ u32::from_le_bytes([d[0], d[1], d[2], d[3]]));
    if let Some(t) = c.target {
        // dword inside the file name
        let x = plain(&b) ^ t ^ le32(&b, 64);
        put32(&mut b, 64, x);
    }
    match c.sum {
        Sum::Right => {
            let s = xor_checksum(&b);
            put32(&mut b, 508, s)
        }
        Sum::Plain => {
            let s = plain(&b);
            put32(&mut b, 508, s)
        }
        Sum::Xor(x) => {
            let s = xor_checksum(&b) ^ x;
            put32(&mut b, 508, s)
        }
        Sum::Set(x) => put32(&mut b, 508, x),
        Sum::Stale => (),
    }
    for f in &c.flip {
        let f = *f as usize % (B * 8);
        b[f / 8] ^= 1 << (f % 8);
    }
    b.resize(B + c.tail as usize, 0);
    if let Some(n) = c.cut {
        b.truncate(n as usize);
    }
    b
}

/// The set of checks that fail, as the errors that truthfully describe them.
fn faults(b: &[u8]) -> Vec<NtHiveError> {
    let mut f = vec![];
    if b.len() < B {
        return vec![NtHiveError::InvalidHeaderSize { offset: 0, expected: B, actual: b.len() }];
    }
    let d = |o| le32(b, o);
    if &b[0..4] != b"regf" {
        f.push(NtHiveError::InvalidFourByteSignature { offset: 0, expected: b"regf", actual: [b[0], b[1], b[2], b[3]] });
    }
    if d(4) != d(8) {
        f.push(NtHiveError::SequenceNumberMismatch { primary: d(4), secondary: d(8) });
    }
    if d(20) != 1 || d(24) < 3 {
        f.push(NtHiveError::UnsupportedVersion { major: d(20), minor: d(24) });
    }
    if d(28) != 0 {
        f.push(NtHiveError::UnsupportedFileType { expected: 0, actual: d(28) });
    }
    if d(32) != 1 {
        f.push(NtHiveError::UnsupportedFileFormat { expected: 1, actual: d(32) });
    }
    let ds = d(40) as usize;
    if ds % 4096 != 0 {
        f.push(NtHiveError::InvalidSizeFieldAlignment { offset: 40, size: ds, expected_alignment: 4096 });
    }
    if ds > b.len() - B {
        f.push(NtHiveError::InvalidSizeField { offset: 40, expected: ds, actual: b.len() - B });
    }
    if d(44) != 1 {
        f.push(NtHiveError::UnsupportedClusteringFactor { expected: 1, actual: d(44) });
    }
    let mut x = 0u32;
    for i in 0..127 {
        x ^= d(4 * i);
    }
    let x = if x == 0 { 1 } else if x == 0xffff_ffff { 0xffff_fffe } else { x };
    if x != d(508) {
        f.push(NtHiveError::InvalidChecksum { expected: d(508), actual: x });
        f.push(NtHiveError::InvalidChecksum { expected: x, actual: d(508) });
    }
    f
}

fn special(off: u16) -> Vec<u32> {
    let mut v = vec![0u32, 1, 2, 3, 4, 5, 6, 7, 8, 0xff, 0x100, 0x101, 0x8000, 0xffff, 0x1_0000, 0x1_0001, 0x0100_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    if off == 40 {
        v.extend([4095, 4096, 4097, 8191, 8192, 8193, 12288, 12800, 16384, 4096 + 512, 4096 + 2048, 0x7fff_f000, 0x8000_1000, 0xffff_f000, 0xffff_e000]);
    }
    if off == 0 {
        for s in [b"regf", b"REGF", b"hbin", b"ref\0", b"fger", b"egfr", b"regd"] {
            v.push(u32::from_le_bytes(*s));
        }
    }
    v
}
const OFFS: [u16; 11] = [0, 4, 8, 20, 24, 28, 32, 36, 40, 44, 508];

impl Prop for P02 {
    type Case = Case;
    const ID: &'static str = "P02";
    const RULE: &'static str = "cases: valid base blocks with random filler, then fields overwritten with special or random values, checksum right / plain XOR / off / stale / with the XOR forced to 0, 1, all ones, all ones minus 1, bits flipped, tails of 0..5 pages and buffers cut short, any alignment; enumerated: every header field x special values x checksum right or stale, and every one of the 32768 header bits flipped with right and stale checksum. Non-trivial: at most one check fails (so a verdict hangs on a single check), or the checksum is one of the exceptional values.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let field = prop::sample::select(OFFS.to_vec()).prop_flat_map(|o| {
            (Just(o), prop_oneof![3 => prop::sample::select(special(o)), 1 => any::<u32>(), 1 => 0u32..20000], Just(4u8))
        });
        let byte = (0u16..4096, any::<u32>(), 1u8..5);
        let set = prop_oneof![
            3 => Just(vec![]),
            5 => vec(field.clone(), 1..2),
            2 => vec(field, 2..4),
            2 => vec(byte, 1..3),
        ];
        let target = prop_oneof![5 => Just(None), 4 => prop::sample::select(vec![0u32, 1, u32::MAX, u32::MAX - 1, 2, 0x8000_0000]).prop_map(Some)];
        let sum = prop_oneof![
            7 => Just(Sum::Right),
            2 => Just(Sum::Plain),
            1 => (0u32..32).prop_map(|b| Sum::Xor(1 << b)),
            1 => prop::sample::select(vec![0u32, 1, u32::MAX, u32::MAX - 1]).prop_map(Sum::Set),
            1 => Just(Sum::Stale),
        ];
        let tail = prop_oneof![3 => prop::sample::select(vec![0u32, 4096, 8192, 4095, 4097, 1]), 2 => 0u32..20480];
        let cut = prop_oneof![12 => Just(None), 1 => (0u32..4096).prop_map(Some), 1 => prop::sample::select(vec![0u32, 1, 4, 508, 512, 4092, 4095, 4096, 4097]).prop_map(Some)];
        (any::<u64>(), set, target, sum, prop_oneof![6 => Just(vec![]), 1 => vec(any::<u16>(), 1..3)], tail, cut, 0u8..16)
            .prop_map(|(seed, set, target, sum, flip, tail, cut, align)| Case { seed, set, target, sum, flip, tail, cut, align, far: 0 })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 5_000_000 } else { 20_000_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        let mut out = vec![];
        let base = Case { seed: 5, set: vec![], target: None, sum: Sum::Right, flip: vec![], tail: 8192, cut: None, align: 0, far: 0 };
        for o in OFFS {
            for v in special(o) {
                for (sum, target) in [(Sum::Right, None), (Sum::Stale, None), (Sum::Plain, Some(0)), (Sum::Right, Some(0)), (Sum::Plain, Some(u32::MAX)), (Sum::Right, Some(u32::MAX))] {
                    for tail in [8192, 0] {
                        out.push(Case { set: vec![(o, v, 4)], sum: sum.clone(), target, tail, ..base.clone() });
                    }
                }
            }
        }
        for bit in 0..(B * 8) as u16 {
            // the flip is made before (right checksum) or after the checksum is computed (stale)
            out.push(Case { flip: vec![bit], ..base.clone() });
            if (bit as usize) < 508 * 8 {
                let pos = bit / 8;
                let was = bytes_of(&base)[pos as usize];
                out.push(Case { set: vec![(pos, (was ^ (1 << (bit % 8))) as u32, 1)], ..base.clone() });
            }
        }
        // more data than 32 bits can count, and data sizes around what is there
        for far in [1u64 << 31, (1 << 32) - 8192, (1 << 32) - 4096, (1 << 32) - 4095, 1 << 32, (1 << 32) + 1, (1 << 32) + 4096] {
            let there = far + 8192;
            for s in [0u64, 4096, 8192, 0x8000_0000, 0x8000_1000, 0xffff_e000, 0xffff_f000, there, there - 4096, there + 4096, there - 4095] {
                for sum in [Sum::Right, Sum::Stale] {
                    out.push(Case { set: vec![(40, (s / 4096 * 4096) as u32, 4)], far, sum, ..base.clone() });
                }
            }
        }
        for n in 0..=4100u32 {
            out.push(Case { cut: Some(n), set: vec![(40, 0, 4)], ..base.clone() });
        }
        for tail in 0..600u32 {
            out.push(Case { tail: tail * 27, ..base.clone() });
        }
        out
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let raw = bytes_of(c);
        let a = c.align as usize % 16;
        let mut store = vec![0u8; raw.len() + 64];
        let at = (16 - store.as_ptr() as usize % 16) % 16 + a;
        store[at..at + raw.len()].copy_from_slice(&raw);
        let mut sparse = (c.far > 0).then(|| super::p16::Sparse::new(raw.len() + c.far as usize));
        let b = match &mut sparse {
            Some(s) => {
                obs.label("2-to-4-GB");
                s.bytes_mut()[..raw.len()].copy_from_slice(&raw);
                s.bytes()
            }
            None => &store[at..at + raw.len()],
        };
        let f = faults(b);
        let full = b.len() >= B;
        let kinds = f.len() - f.iter().filter(|e| matches!(e, NtHiveError::InvalidChecksum { .. })).count() / 2;
        obs.label(&format!("failing-checks-{}", kinds.min(4)));
        let x = full && matches!(le32(b, 508), 0 | 1 | u32::MAX | 0xffff_fffe);
        if x {
            obs.label("exceptional-checksum");
        }
        obs.nontrivial = kinds <= 1 || x;
        let judge = |what: &str, r: Result<(), NtHiveError>| -> Result<(), String> {
            match r {
                Ok(()) if f.is_empty() => Ok(()),
                Ok(()) => Err(format!("{what} succeeded although: {f:?}")),
                Err(e) if f.contains(&e) => message_ok(&e),
                Err(e) => Err(format!("{what} reported {e:?}; the failing checks are {f:?}")),
            }
        };
        obs.checks += 3;
        let opened = Hive::new(b);
        judge("Hive::new", opened.as_ref().map(|_| ()).map_err(|e| e.clone()))?;
        match Hive::without_validation(b) {
            Err(e) => {
                if full {
                    return Err(format!("without_validation refused a full base block: {e:?}"));
                }
                if !f.contains(&e) {
                    return Err(format!("without_validation reported {e:?}, expected {f:?}"));
                }
            }
            Ok(h) => {
                if !full {
                    return Err(format!("without_validation accepted {} bytes", b.len()));
                }
                judge("validate()", h.validate())?;
                judge("validate() again", h.validate())?;
                for h in std::iter::once(&h).chain(opened.as_ref().ok()) {
                    if h.major_version() != le32(b, 20) || h.minor_version() != le32(b, 24) {
                        return Err(format!("reported version {}.{}, header says {}.{}", h.major_version(), h.minor_version(), le32(b, 20), le32(b, 24)));
                    }
                }
                let names = [
                    HiveMinorVersion::WindowsNT3_1Beta,
                    HiveMinorVersion::WindowsNT3_1,
                    HiveMinorVersion::WindowsNT3_5,
                    HiveMinorVersion::WindowsNT4,
                    HiveMinorVersion::WindowsXPBeta,
                    HiveMinorVersion::WindowsXP,
                    HiveMinorVersion::WindowsVista,
                ];
                let m = h.minor_version();
                if HiveMinorVersion::n(m) != names.get(m as usize).copied() {
                    return Err(format!("minor version {m} is named {:?}", HiveMinorVersion::n(m)));
                }
            }
        }
        // exclusive buffers get the same verdict
        let mut w = raw.clone();
        drop(opened);
        let r = match &mut sparse {
            Some(s) => Hive::new(s.bytes_mut()).map(|_| ()),
            None => Hive::new(&mut w[..]).map(|_| ()),
        };
        judge("Hive::new(&mut [u8])", r)
    }
}

