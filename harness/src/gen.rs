#![allow(dead_code)]
//! proptest strategies.
use crate::model::*;
use crate::util::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn unit_ascii() -> impl Strategy<Value = u16> {
    prop_oneof![
        8 => (b'a'..=b'f').prop_map(|c| c as u16),
        4 => (b'A'..=b'F').prop_map(|c| c as u16),
        3 => (b'0'..=b'3').prop_map(|c| c as u16),
        // around the boundary between the upper and lower case letters
        3 => prop::sample::select(vec![b'_' as u16, b'^' as u16, b'[' as u16, b'`' as u16, b'{' as u16, b'z' as u16, b'Z' as u16, b'@' as u16]),
        2 => 0x20u16..0x7f,
    ]
}

pub fn unit_any() -> impl Strategy<Value = u16> {
    let cased = case_table().cased.clone();
    prop_oneof![
        10 => unit_ascii(),
        4 => 0x80u16..0x100,
        2 => prop::sample::select(vec![0xffu16, 0xb5, 0x178, 0x39c, 0x3bc, 0xe0, 0xc0, 0xdf, 0xf7, 0xd7, 0x130, 0x131, 0x149, 0x1e9e]),
        5 => prop::sample::select(cased),
        2 => any::<u16>(),
        1 => prop::sample::select(vec![0u16, 1, 0xffff, 0xfffe, 0xfffd, 0xd7ff, 0xe000, 0xff21, 0xff41]),
    ]
}

/// Units that may include surrogates, paired or not.
pub fn units(max: usize) -> BoxedStrategy<Vec<u16>> {
    let piece = prop_oneof![
        14 => unit_any().prop_map(|u| vec![u]),
        2 => (0xD800u16..0xDC00, 0xDC00u16..0xE000).prop_map(|(a, b)| vec![a, b]),
        1 => (0xD800u16..0xDC00).prop_map(|a| vec![a]),
        1 => (0xDC00u16..0xE000).prop_map(|a| vec![a]),
    ];
    vec(piece, 0..max).prop_map(|v| v.concat()).boxed()
}

/// Units that form a valid string.
pub fn valid_units(max: usize) -> BoxedStrategy<Vec<u16>> {
    let piece = prop_oneof![
        10 => unit_any().prop_filter_map("surrogate", |u| if (0xD800..0xE000).contains(&u) { None } else { Some(vec![u]) }),
        1 => (0xD800u16..0xD804, 0xDC00u16..0xDC50).prop_map(|(a, b)| vec![a, b]),
    ];
    vec(piece, 0..max).prop_map(|v| v.concat()).boxed()
}

/// Lengths around the powers of two and the limits Windows has for names.
pub const LENS: [usize; 44] = [
    15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 259, 260, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16382, 16383,
    16384, 16385, 20000, 32766, 32767, 32768, 32769, 40000, 65533, 65534, 65535,
];
pub fn long_len() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => prop::sample::select(LENS[..24].to_vec()),
        2 => prop::sample::select(LENS[24..31].to_vec()),
        1 => prop::sample::select(LENS[31..].to_vec()),
    ]
    .boxed()
}

/// Names that mean something elsewhere: a registry has no reserved ones.
pub const WORDS: [&str; 64] = [
    "(Default)", "(default)", "Default", "@", ".", "..", "...", "*", "?", "%", "%1", "%s", "{}", "{0}", "\0", "\0\0", "a\0", "a\0b", " ", "a ", " a", "\t", "\r\n", "/", "a/b", ":", "a:b",
    "\"", "'", "~", "#", "$", "$$$PROTO.HIV", "-", "--", "+", "=", ",", ";", "|", "&", "<", ">", "nul", "con", "NULL", "None", "nk", "vk", "CMI-CreateHive{0}", "ROOT", "CurrentControlSet",
    "HKEY_LOCAL_MACHINE", "SymbolicLinkValue", "0", "00", "-1", "4294967295", "key10", "key9", "\u{feff}", "\u{fffd}", "stra\u{df}e", "STRASSE",
];
pub fn word() -> BoxedStrategy<Vec<u16>> {
    prop::sample::select(WORDS.to_vec()).prop_map(|w| w.encode_utf16().collect()).boxed()
}

pub fn name() -> BoxedStrategy<Nm> {
    let body = prop_oneof![
        12 => word(),
        150 => vec(unit_ascii(), 1..6),
        // tiny alphabet: many prefix pairs and near misses
        75 => vec(prop::sample::select(vec![b'a' as u16, b'A' as u16, b'_' as u16, b'b' as u16]), 1..5),
        90 => valid_units(6).prop_map(|v| if v.is_empty() { vec![0x61] } else { v }),
        30 => units(5).prop_map(|v| if v.is_empty() { vec![0x61] } else { v }),
        15 => (1usize..260, unit_any()).prop_map(|(n, u)| vec![u; n]),
        1 => (long_len(), unit_any(), units(4)).prop_map(|(n, u, t)| {
            let mut v = vec![u; n];
            let at = n.saturating_sub(t.len());
            v.truncate(at);
            v.extend(t);
            v
        }),
    ];
    (body, prop::bool::weighted(0.25)).prop_map(|(u, w)| Nm { u, w }).boxed()
}

pub fn val_name() -> BoxedStrategy<Nm> {
    prop_oneof![
        6 => name(),
        1 => Just(Nm { u: vec![], w: false }),
        1 => Just(Nm { u: vec![], w: true }),
    ]
    .boxed()
}

pub fn data_len() -> BoxedStrategy<u32> {
    prop_oneof![
        8 => 0u32..12,
        4 => 0u32..200,
        2 => 200u32..4200,
        1 => prop::sample::select(vec![16336u32, 16340, 16343, 16344, 16345, 16346, 16348, 16352]),
        1 => (1u32..5, 0u32..5).prop_map(|(k, d)| k * SEG as u32 + d - 2),
        1 => 16344u32..70000,
    ]
    .boxed()
}

pub fn small_dat() -> BoxedStrategy<Dat> {
    prop_oneof![
        4 => vec(any::<u8>(), 0..10).prop_map(Dat::B),
        2 => vec(any::<u8>(), 4..=4).prop_map(Dat::B),
        2 => vec(any::<u8>(), 8..=8).prop_map(Dat::B),
        3 => text_bytes(),
        1 => (0u32..300, any::<u32>()).prop_map(|(n, s)| Dat::Fill(n, s)),
    ]
    .boxed()
}

/// UTF-16 text bytes with NULs, surrogates and maybe an odd byte.
pub fn text_bytes() -> BoxedStrategy<Dat> {
    let piece = prop_oneof![
        6 => unit_any().prop_map(|u| vec![u]),
        3 => Just(vec![0u16]),
        1 => Just(vec![0u16, 0]),
        2 => (0xD800u16..0xDC00, 0xDC00u16..0xE000).prop_map(|(a, b)| vec![a, b]),
        1 => (0xD800u16..0xE000).prop_map(|a| vec![a]),
    ];
    (vec(piece, 0..10), prop::option::weighted(0.2, any::<u8>()))
        .prop_map(|(v, odd)| {
            let mut b = utf16le(&v.concat());
            b.extend(odd);
            Dat::B(b)
        })
        .boxed()
}

/// Long text whose interesting units sit at segment boundaries.
pub fn big_text() -> BoxedStrategy<Dat> {
    let seg_units = (SEG / 2) as u32;
    let edit = (1u32..4, 0u32..8, prop_oneof![
        3 => Just(0u16),
        3 => 0xD800u16..0xDC00,
        3 => 0xDC00u16..0xE000,
        1 => unit_any(),
    ])
        .prop_map(move |(seg, d, u)| (seg * seg_units + d - 4, u));
    let pair = (1u32..4, 0u32..6).prop_map(move |(seg, d)| {
        let p = seg * seg_units + d - 4;
        vec![(p, 0xD801u16), (p + 1, 0xDC37u16)]
    });
    let e = prop_oneof![3 => edit.prop_map(|e| vec![e]), 2 => pair];
    (
        prop_oneof![
            3 => (1u32..4, 0u32..6).prop_map(move |(k, d)| k * seg_units + d - 2),
            2 => 8173u32..30000,
        ],
        any::<u32>(),
        vec(e, 0..6),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(n, seed, edits, odd)| Dat::Txt { n, seed, edits: edits.concat(), odd })
        .boxed()
}

pub fn dat(big: bool) -> BoxedStrategy<Dat> {
    if big {
        prop_oneof![
            20 => small_dat(),
            4 => (data_len(), any::<u32>()).prop_map(|(n, s)| Dat::Fill(n, s)),
            1 => big_text(),
        ]
        .boxed()
    } else {
        small_dat()
    }
}

pub fn vtype() -> BoxedStrategy<u32> {
    prop_oneof![
        12 => 0u32..12,
        3 => prop::sample::select(vec![1u32, 2, 4, 5, 7, 11]),
    ]
    .boxed()
}

pub fn val(big: bool) -> BoxedStrategy<ValS> {
    (val_name(), vtype(), dat(big), prop::bool::weighted(0.7), prop_oneof![6 => Just(0u16), 1 => 0u16..4])
        .prop_map(|(name, typ, dat, inline, surplus)| ValS { name, typ, dat, inline, surplus })
        .boxed()
}

pub fn list() -> BoxedStrategy<ListS> {
    let part = (0u8..3, prop_oneof![4 => 1u16..4, 2 => 1u16..12, 1 => 12u16..600]);
    (any::<bool>(), vec(part, 1..5), prop::bool::weighted(0.2)).prop_map(|(ri, parts, empty)| ListS { ri, parts, empty }).boxed()
}

#[derive(Clone, Copy)]
pub struct TreeOpt {
    pub keys: usize,
    pub vals: usize,
    pub big: bool,
    pub bulk: u32,
}

pub fn key(o: TreeOpt) -> BoxedStrategy<KeyS> {
    let bulk = if o.bulk > 0 {
        prop::option::weighted(0.06, (1u32..o.bulk, 0u8..8)).boxed()
    } else {
        Just(None).boxed()
    };
    (
        // small numbers: bushy, large: deep (modulo own index)
        prop_oneof![3 => 0u16..3, 3 => any::<u16>(), 2 => Just(u16::MAX)],
        name(),
        prop::option::weighted(0.2, prop_oneof![150 => units(5), 1 => (long_len(), unit_any()).prop_map(|(n, u)| vec![u; n])]),
        vec(val(o.big), 0..o.vals.max(1)),
        prop::bool::weighted(0.2),
        list(),
        (prop_oneof![2 => Just(0u32), 1 => any::<u32>()], prop_oneof![3 => Just(0u16), 1 => any::<u16>()]),
        bulk,
    )
        .prop_map(|(parent, name, class, vals, empty_vals, list, (vol, flags), bulk)| KeyS {
            parent,
            name,
            class,
            vals,
            empty_vals,
            list,
            vol,
            flags,
            bulk,
            bulk_vals: 0,
        })
        .boxed()
}

pub fn lay() -> BoxedStrategy<LayS> {
    (
        any::<u64>(),
        any::<bool>(),
        prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
        prop_oneof![2 => Just(0u8), 1 => 0u8..5],
        prop_oneof![2 => Just(0u8), 1 => 0u8..60],
        prop_oneof![6 => 3u32..7, 1 => 7u32..1000],
        prop_oneof![4 => Just(0u16), 1 => 0u16..5000],
        prop::bool::weighted(0.7),
        prop_oneof![
            150 => Just(None),
            1 => (any::<u16>(), prop::sample::select(vec![0x7f00u32, 0x8008, 0xff00, 0x1_0000, 0x1_0008, 0x2_0008, 0x10_0008])).prop_map(Some),
        ],
    )
        .prop_map(|(seed, shuffle, gap, slack, bins, minor, trailing, junk, fat)| LayS { seed, shuffle, gap, slack, bins, minor, trailing, junk, fat })
        .boxed()
}

pub fn hive(o: TreeOpt) -> BoxedStrategy<HiveS> {
    (vec(key(o), 1..o.keys.max(2)), lay()).prop_map(|(keys, lay)| HiveS { keys, lay }).boxed()
}

/// A key with many explicit siblings of random names.
pub fn siblings(max: usize) -> BoxedStrategy<HiveS> {
    let prefix = prop_oneof![150 => Just(None), 1 => (long_len(), unit_any()).prop_map(Some)];
    (vec(name(), 1..max), list(), lay(), vec(0u8..3, 0..3), prefix)
        .prop_map(|(mut names, list, lay, sub, prefix)| {
            // names that differ only far behind
            if let Some((n, u)) = prefix {
                names.truncate(if n > 2000 { 6 } else { 40 });
                for x in &mut names {
                    x.u.splice(0..0, vec![u; n]);
                }
            }
            let mut keys = vec![KeyS::named("root")];
            keys[0].list = list;
            for n in names {
                let mut k = KeyS::named("x");
                k.name = n;
                keys.push(k);
            }
            for s in sub {
                let mut k = KeyS::named("sub");
                k.parent = s as u16 + 1;
                keys.push(k);
            }
            HiveS { keys, lay }
        })
        .boxed()
}

// ---------------------------------------------------------------- damage

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dmg {
    /// the i-th field (modulo) of the k-th kind present (modulo), changed
    Field { kind: u16, i: u32, how: How },
    /// one byte of the data
    Byte { pos: u32, xor: u8 },
    /// keep this fraction (of 65536) of the bytes after the header
    Trunc(u16),
    /// overwrite `len` bytes with bytes from elsewhere in the file
    Copy { from: u32, to: u32, len: u8 },
    /// a double word of the base block other than the root's offset; the data size only grows
    Head { at: u16, val: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Set(u32),
    Xor(u32),
    Add(i32),
    /// negated (for cell sizes: free the cell)
    Neg,
    /// points to the i-th cell
    Cell(u16),
    /// points near the end of the data
    End(i8),
    /// current value times 8 bytes too large etc.
    Mul(u8),
}

pub fn how() -> BoxedStrategy<How> {
    prop_oneof![
        4 => prop::sample::select(vec![0u32, 1, 2, 3, 4, 7, 8, 12, 16, 0x20, 0x7f, 0xff, 0x100, 0x7fff, 0x8000, 0xffff,
            0x4000, 0x3fd8, 0x3fd9, 0x8000_0000, 0x8000_0004, 0x8000_0005, 0x7fff_ffff, 0xffff_ffff, 0xffff_fffe, 0xffff_fff8,
            0xffff_f000, 0xffff_effc, 0x4000_0000, 0x4000_0001, 0xc000_0000, 0x6b6e, 0x6b76, 0x666c, 0x686c, 0x696c, 0x6972, 0x6264]).prop_map(How::Set),
        2 => (0u32..32).prop_map(|b| How::Xor(1 << b)),
        2 => any::<u32>().prop_map(How::Xor),
        4 => (-16i32..17).prop_map(How::Add),
        1 => (-300i32..300).prop_map(How::Add),
        2 => Just(How::Neg),
        3 => any::<u16>().prop_map(How::Cell),
        2 => any::<i8>().prop_map(How::End),
        1 => any::<u8>().prop_map(How::Mul),
    ]
    .boxed()
}

pub fn dmg() -> BoxedStrategy<Dmg> {
    prop_oneof![
        12 => (any::<u16>(), any::<u32>(), how()).prop_map(|(kind, i, how)| Dmg::Field { kind, i, how }),
        3 => (any::<u32>(), 1u8..=255).prop_map(|(pos, xor)| Dmg::Byte { pos, xor }),
        1 => any::<u16>().prop_map(Dmg::Trunc),
        1 => (any::<u32>(), any::<u32>(), 1u8..64).prop_map(|(from, to, len)| Dmg::Copy { from, to, len }),
    ]
    .boxed()
}

pub fn get_field(b: &[u8], f: &Field) -> u32 {
    let mut v = 0u32;
    for i in (0..f.len.min(4)).rev() {
        v = v << 8 | b[f.pos + i] as u32;
    }
    v
}
pub fn set_field(b: &mut [u8], f: &Field, v: u32) {
    for i in 0..f.len.min(4) {
        b[f.pos + i] = (v >> (8 * i)) as u8;
    }
}

pub fn apply_how(b: &mut [u8], built: &Built, f: &Field, how: &How) -> bool {
    if f.len == 0 || f.pos + f.len > b.len() {
        return false;
    }
    let old = get_field(b, f);
    let new = match how {
        How::Set(x) => *x,
        How::Xor(x) => old ^ x,
        How::Add(d) => old.wrapping_add(*d as u32),
        How::Neg => old.wrapping_neg(),
        How::Cell(i) => built.cells[*i as usize % built.cells.len()],
        How::End(d) => (built.bytes.len() as i64 - BASE as i64 + *d as i64) as u32,
        How::Mul(m) => old.wrapping_mul(*m as u32),
    };
    set_field(b, f, new);
    get_field(b, f) != old
}

/// Applies the damages; true if some byte changed. Returns the kinds hit.
pub fn apply(b: &mut Vec<u8>, built: &Built, ds: &[Dmg]) -> Vec<FK> {
    let mut hit = vec![];
    let mut kinds: Vec<FK> = built.fields.iter().filter(|f| f.len > 0).map(|f| f.kind).collect();
    kinds.sort_unstable();
    kinds.dedup();
    for d in ds {
        match d {
            Dmg::Field { kind, i, how } => {
                let k = kinds[*kind as usize % kinds.len()];
                let of: Vec<&Field> = built.fields.iter().filter(|f| f.kind == k && f.len > 0).collect();
                let f = of[*i as usize % of.len()];
                if apply_how(b, built, f, how) {
                    hit.push(k);
                }
            }
            Dmg::Byte { pos, xor } => {
                if b.len() > BASE {
                    let p = BASE + *pos as usize % (b.len() - BASE);
                    b[p] ^= xor;
                    hit.push(FK::DataBytes);
                }
            }
            Dmg::Trunc(f) => {
                let n = (b.len() - BASE) * *f as usize / 65536;
                b.truncate(BASE + n);
                hit.push(FK::Header);
            }
            Dmg::Copy { from, to, len } => {
                let n = *len as usize;
                if b.len() > BASE + 2 * n {
                    let s = BASE + *from as usize % (b.len() - BASE - n);
                    let t = BASE + *to as usize % (b.len() - BASE - n);
                    let tmp = b[s..s + n].to_vec();
                    b[t..t + n].copy_from_slice(&tmp);
                    hit.push(FK::DataBytes);
                }
            }
            Dmg::Head { at, val } => {
                let p = *at as usize % (BASE / 4) * 4;
                let v = if p == 40 { (*val).max(built.data_size as u32) } else { *val };
                if p != 36 {
                    b[p..p + 4].copy_from_slice(&v.to_le_bytes());
                    hit.push(FK::Header);
                }
            }
        }
    }
    hit
}

/// A str with some letters changed to another form that is equal ignoring case.
pub fn recase(s: &[u16], mut bits: u64) -> Vec<u16> {
    s.iter()
        .map(|&u| {
            let v = variants(u);
            let i = (bits & 3) as usize;
            bits = bits.rotate_right(2) ^ 0x5;
            v[i % v.len()]
        })
        .collect()
}

/// A neighbour of a name: shorter, longer, one unit off, or decorated in a way that other systems see through.
pub fn near(s: &[u16], how: u8) -> Vec<u16> {
    let mut v = s.to_vec();
    let c = |c: char| c as u16;
    match how % 36 {
        0 => {
            v.pop();
        }
        1 => v.push(b'a' as u16),
        2 => v.push(0),
        3 => {
            if let Some(l) = v.last_mut() {
                *l = l.wrapping_add(1)
            }
        }
        4 => {
            if let Some(l) = v.last_mut() {
                *l = l.wrapping_sub(1)
            }
        }
        5 => {
            if !v.is_empty() {
                v.remove(0);
            }
        }
        6 => v.push(c(' ')),
        7 => v.insert(0, c(' ')),
        8 => v.push(c('.')),
        9 => v.push(c('*')),
        10 => v = vec![c('*')],
        11 => v.push(c('?')),
        12 => {
            v.insert(0, c('"'));
            v.push(c('"'));
        }
        13 => v.push(c('\r')),
        14 => v.push(c('\n')),
        15 => v.push(c('\t')),
        16 => v.push(c('/')),
        17 => v.insert(0, c('/')),
        18 => v.insert(0, 0xfeff),
        19 => v.push(0x200b),
        20 => v.push(0x301),
        21 => v.extend([0, 0]),
        22 => v.insert(0, 0),
        23 => v.extend(s),
        24 => v.reverse(),
        25 => {
            if let Some(l) = v.last().copied() {
                v.push(l)
            }
        }
        26 => {
            let n = v.len();
            if n > 1 {
                v.swap(n - 2, n - 1)
            }
        }
        // full width and back
        27 => v.iter_mut().for_each(|u| {
            if (0x21..0x7f).contains(u) {
                *u += 0xfee0
            } else if (0xff01..0xff5f).contains(u) {
                *u -= 0xfee0
            }
        }),
        // byte order
        28 => v.iter_mut().for_each(|u| *u = u.swap_bytes()),
        // the low bytes, and others in their place
        29 => v.iter_mut().for_each(|u| *u &= 0xff),
        30 => v.iter_mut().for_each(|u| *u |= 0x100),
        31 => v.iter_mut().for_each(|u| *u &= 0x7f),
        32 => {
            let n = v.len();
            v.truncate(n / 2)
        }
        33 => v.iter_mut().for_each(|u| *u ^= if (0x40..0x80).contains(u) { 0x20 } else { 0 }),
        34 => v.clear(),
        _ => {
            if let Some(f) = v.first_mut() {
                *f = f.wrapping_add(1)
            }
        }
    }
    v
}

/// The text of a name, unpaired surrogates replaced.
pub fn text(u: &[u16]) -> String {
    lossy16(u)
}
pub fn to_str(u: &[u16]) -> Option<String> {
    checked16(u)
}
