//! Small deterministic helpers: PRNG for fillers/layouts (a pure function of the case), case table.
use std::sync::OnceLock;

/// splitmix64; only ever seeded from a generated case.
#[derive(Clone)]
pub struct Prng(pub u64);
impl Prng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for b in out {
            *b = self.next() as u8;
        }
    }
}

/// Simple (one-to-one) uppercase mapping of the BMP, from Java 17's `Character.toUpperCase(char)`
/// (Unicode 13 UnicodeData.txt), independent of the table in nt-hive. See data/Upper.java.
pub struct CaseTable {
    pub upper: Vec<u16>,
    /// all units that have case variants, i.e. that share their uppercase form with another unit
    pub cased: Vec<u16>,
    /// for every uppercase form: all units that map to it (including itself)
    pub class: std::collections::HashMap<u16, Vec<u16>>,
}

pub fn case_table() -> &'static CaseTable {
    static T: OnceLock<CaseTable> = OnceLock::new();
    T.get_or_init(|| {
        let mut upper: Vec<u16> = (0..=0xffffu32).map(|x| x as u16).collect();
        for line in include_str!("../data/upper_unicode13.txt").lines() {
            let mut it = line.split_whitespace();
            let a = u16::from_str_radix(it.next().unwrap(), 16).unwrap();
            let b = u16::from_str_radix(it.next().unwrap(), 16).unwrap();
            upper[a as usize] = b;
        }
        let mut class: std::collections::HashMap<u16, Vec<u16>> = Default::default();
        for u in 0..=0xffffu32 {
            class.entry(upper[u as usize]).or_default().push(u as u16);
        }
        class.retain(|_, v| v.len() > 1);
        let mut cased: Vec<u16> = class.values().flatten().copied().collect();
        cased.sort_unstable();
        CaseTable { upper, cased, class }
    })
}

pub fn up(u: u16) -> u16 {
    case_table().upper[u as usize]
}

pub fn fold(units: &[u16]) -> Vec<u16> {
    units.iter().map(|&u| up(u)).collect()
}

/// All units equal to `u` ignoring case (at least `u` itself).
pub fn variants(u: u16) -> Vec<u16> {
    let t = case_table();
    match t.class.get(&t.upper[u as usize]) {
        Some(v) => v.clone(),
        None => vec![u],
    }
}

pub fn units_of_latin1(b: &[u8]) -> Vec<u16> {
    b.iter().map(|&x| x as u16).collect()
}

pub fn units_of_utf16le(b: &[u8]) -> Vec<u16> {
    b.chunks_exact(2).map(|c| c[0] as u16 | (c[1] as u16) << 8).collect()
}

pub fn utf16le(units: &[u16]) -> Vec<u8> {
    units.iter().flat_map(|u| [*u as u8, (*u >> 8) as u8]).collect()
}

/// Independent UTF-16 decoder: Ok(char) or Err(()) per undecodable unit.
pub fn decode16(units: &[u16]) -> Vec<Result<char, u16>> {
    let mut out = vec![];
    let mut i = 0;
    while i < units.len() {
        let u = units[i] as u32;
        if (0xD800..0xDC00).contains(&u) && i + 1 < units.len() && (0xDC00..0xE000).contains(&(units[i + 1] as u32)) {
            let c = 0x10000 + ((u - 0xD800) << 10) + (units[i + 1] as u32 - 0xDC00);
            out.push(Ok(char::from_u32(c).unwrap()));
            i += 2;
        } else if (0xD800..0xE000).contains(&u) {
            out.push(Err(units[i]));
            i += 1;
        } else {
            out.push(Ok(char::from_u32(u).unwrap()));
            i += 1;
        }
    }
    out
}

pub fn lossy16(units: &[u16]) -> String {
    decode16(units).into_iter().map(|r| r.unwrap_or('\u{FFFD}')).collect()
}

pub fn checked16(units: &[u16]) -> Option<String> {
    decode16(units).into_iter().map(|r| r.ok()).collect()
}

pub fn le32(b: &[u8], off: usize) -> u32 {
    b[off] as u32 | (b[off + 1] as u32) << 8 | (b[off + 2] as u32) << 16 | (b[off + 3] as u32) << 24
}
pub fn le16(b: &[u8], off: usize) -> u16 {
    b[off] as u16 | (b[off + 1] as u16) << 8
}
pub fn put32(b: &mut [u8], off: usize, v: u32) {
    b[off] = v as u8;
    b[off + 1] = (v >> 8) as u8;
    b[off + 2] = (v >> 16) as u8;
    b[off + 3] = (v >> 24) as u8;
}
pub fn put16(b: &mut [u8], off: usize, v: u16) {
    b[off] = v as u8;
    b[off + 1] = (v >> 8) as u8;
}

pub fn xor_checksum(header: &[u8]) -> u32 {
    let mut c = 0u32;
    for i in 0..127 {
        c ^= le32(header, i * 4);
    }
    match c {
        0 => 1,
        0xffff_ffff => 0xffff_fffe,
        x => x,
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

pub fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 29)
}
