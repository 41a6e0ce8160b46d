//! Writes down every answer the public API gives on a hive. Shared by the harness and by the probe
//! programs (built with other feature sets, profiles and targets); needs no other module.
#![allow(dead_code)]
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec::Vec;
use core::fmt::Write;
use nt_hive::*;
use zerocopy::SplitByteSlice;

const HUGE: [usize; 3] = [usize::MAX, usize::MAX / 4 + 2, usize::MAX / 8 + 2];

/// Collects lines: always a hash, on request the text.
pub struct Out {
    pub hash: u64,
    pub lines: u64,
    pub text: Option<String>,
    /// leave out what depends on where and in which list form things are stored
    pub strip: bool,
}
impl Out {
    pub fn new(text: bool, strip: bool) -> Out {
        Out { hash: 0xcbf2_9ce4_8422_2325, lines: 0, text: if text { Some(String::new()) } else { None }, strip }
    }
    pub fn line(&mut self, s: &str) {
        self.hash = mix(self.hash, s.as_bytes());
        self.lines += 1;
        if let Some(t) = &mut self.text {
            t.push_str(s);
            t.push('\n');
        }
    }
}

pub struct Outs {
    /// what every feature set offers
    pub shared: Out,
    /// what needs allocation
    pub alloc: Out,
    pub max_depth: usize,
    pub max_keys: usize,
    pub max_lookups: usize,
}
impl Outs {
    pub fn new(text: bool, strip: bool) -> Outs {
        Outs { shared: Out::new(text, strip), alloc: Out::new(text, strip), max_depth: 40, max_keys: 400, max_lookups: 6 }
    }
}

/// File offsets beyond 2^32-1 cannot be told on a 32-bit machine: both sides saturate there.
pub fn clamp(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut word = String::new();
    for c in s.chars().chain(['\u{0}']) {
        if c.is_ascii_alphanumeric() {
            word.push(c);
            continue;
        }
        let v = match word.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).map(|v| (v, "0xffffffff")),
            None => word.parse::<u64>().map(|v| (v, "4294967295")),
        };
        match v {
            Ok((v, max)) if v > u32::MAX as u64 => out.push_str(max),
            _ => out.push_str(&word),
        }
        word.clear();
        if c != '\u{0}' {
            out.push(c);
        }
    }
    out
}

/// Removes `offset: N` fields.
pub fn strip_offsets(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("offset: ") {
        out.push_str(&rest[..i]);
        rest = rest[i + 8..].trim_start_matches(|c: char| c.is_ascii_digit());
    }
    out.push_str(rest);
    out
}

pub fn err(e: &NtHiveError, strip: bool) -> String {
    if strip {
        strip_offsets(&format!("E {e:?}"))
    } else {
        clamp(&format!("E {e:?} | {e}"))
    }
}

/// Interpreters run this as well: eight bytes at a time.
fn mix(mut h: u64, b: &[u8]) -> u64 {
    let mut c = b.chunks_exact(8);
    for x in c.by_ref() {
        let mut w = [0u8; 8];
        w.copy_from_slice(x);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    for x in c.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x1_0000_0000_01b3);
    }
    (h ^ b.len() as u64).wrapping_mul(0x1_0000_0000_01b3)
}

fn hex(s: &mut String, b: &[u8]) {
    for x in b {
        s.push(b"0123456789abcdef"[*x as usize >> 4] as char);
        s.push(b"0123456789abcdef"[*x as usize & 15] as char);
    }
}

fn bytes(b: &[u8]) -> String {
    let mut s = String::with_capacity(80);
    if b.len() <= 32 {
        hex(&mut s, b);
    } else {
        hex(&mut s, &b[..4]);
        s.push_str("..");
        hex(&mut s, &b[b.len() - 4..]);
        let _ = write!(s, " {} bytes {:016x}", b.len(), mix(1, b));
    }
    s
}

pub fn name(r: Result<NtHiveNameString<'_>>, strip: bool) -> String {
    match r {
        Ok(NtHiveNameString::Latin1(b)) => format!("L{}", bytes(b)),
        Ok(NtHiveNameString::Utf16LE(b)) => format!("W{}", bytes(b)),
        Err(e) => err(&e, strip),
    }
}

#[cfg(feature = "alloc")]
fn text(s: &str) -> String {
    bytes(s.as_bytes())
}

pub fn hive<B: SplitByteSlice>(h: &Hive<B>, q: &[String], o: &mut Outs) {
    let st = o.shared.strip;
    o.shared.line(&match h.validate() {
        Ok(()) => "valid".into(),
        Err(e) => err(&e, st),
    });
    if !st {
        o.shared.line(&format!("version {}.{}", h.major_version(), h.minor_version()));
    }
    match h.root_key_node() {
        Err(e) => o.shared.line(&err(&e, st)),
        Ok(n) => {
            let mut left = o.max_keys;
            key(&n, q, 0, &mut left, o);
            for (i, x) in q.iter().enumerate() {
                let y = &q[(i + 1) % q.len()];
                let path = format!("{x}\\{y}");
                lookup("path", n.subpath(&path), o);
                lookup("path", n.subpath(&format!("\\{x}\\\\")), o);
            }
        }
    }
}

/// Runs the clearing pass; the buffer is compared by the caller.
pub fn clearing<B: zerocopy::SplitByteSliceMut>(r: Result<Hive<B>>, o: &mut Outs) {
    let r = r.and_then(|mut h| h.clear_volatile_subkeys());
    let s = match r {
        Ok(()) => "cleared".into(),
        Err(e) => err(&e, false),
    };
    o.shared.line(&format!("clearing {s}"));
}
/// How many accesses a clearing pass may need (a damaged hive may have cyclic lists).
pub const CLEARING_BUDGET: u64 = 6000;
pub fn cleared_bytes(b: &[u8], o: &mut Outs) {
    o.shared.line(&format!("after clearing {}", bytes(b)));
}

fn lookup<B: SplitByteSlice>(what: &str, r: Option<Result<KeyNode<'_, B>>>, o: &mut Outs) {
    let st = o.shared.strip;
    let s = match r {
        None => "none".to_string(),
        Some(Err(e)) => err(&e, st),
        Some(Ok(k)) => name(k.name(), st),
    };
    o.shared.line(&format!("{what} -> {s}"));
}

pub fn key<B: SplitByteSlice>(n: &KeyNode<'_, B>, q: &[String], depth: usize, left: &mut usize, o: &mut Outs) {
    let st = o.shared.strip;
    if *left == 0 || depth > o.max_depth {
        o.shared.line("limit");
        return;
    }
    *left -= 1;
    o.shared.line(&format!("key {depth} {}", name(n.name(), st)));
    if let Ok(nm) = n.name() {
        names(&nm, q, o);
    }
    match n.class_name() {
        None => o.shared.line("no class"),
        Some(c) => o.shared.line(&format!("class {}", name(c, st))),
    }
    match n.values() {
        None if !st => o.shared.line("no values"),
        None => (),
        Some(Err(e)) => o.shared.line(&err(&e, st)),
        Some(Ok(it)) if st && it.size_hint().0 == 0 => (),
        Some(Ok(mut it)) => {
            o.shared.line(&format!("values {:?}", it.size_hint()));
            let mut k = 0;
            while let Some(v) = it.next() {
                match v {
                    Err(e) => o.shared.line(&err(&e, st)),
                    Ok(v) => value(&v, q, o),
                }
                k += 1;
                if k > 3000 {
                    break;
                }
            }
            // the other ways to step
            if let Some(Ok(mut it)) = n.values() {
                if let Some(r) = it.nth(1) {
                    o.shared.line(&format!("nth(1) {:?}", r.map(|v| v.data_size()).map_err(|e| err(&e, st))));
                }
            }
            for k in HUGE {
                if let Some(Ok(mut it)) = n.values() {
                    let r = it.nth(k).is_none();
                    o.shared.line(&format!("nth(huge) none {r} then {:?}", it.size_hint()));
                }
            }
            if let Some(Ok(it)) = n.values() {
                if let Some(r) = it.last() {
                    o.shared.line(&format!("last {:?}", r.map(|v| v.data_size()).map_err(|e| err(&e, st))));
                }
            }
        }
    }
    let cap = o.max_lookups;
    for x in q.iter().take(cap) {
        lookup("subkey", n.subkey(x), o);
        let s = match n.value(x) {
            None => "none".to_string(),
            Some(Err(e)) => err(&e, st),
            Some(Ok(v)) => format!("{} {}", name(v.name(), st), v.data_size()),
        };
        o.shared.line(&format!("value -> {s}"));
    }
    match n.subkeys() {
        None if !st => o.shared.line("no subkeys"),
        None => (),
        Some(Err(e)) => o.shared.line(&err(&e, st)),
        Some(Ok(mut it)) => {
            if !st {
                let kind = match &it {
                    SubKeyNodes::IndexRoot(_) => "ri",
                    SubKeyNodes::Leaf(_) => "leaf",
                };
                o.shared.line(&format!("{kind} {:?}", it.size_hint()));
            }
            let mut k = 0;
            while let Some(c) = it.next() {
                match c {
                    Err(e) => o.shared.line(&err(&e, st)),
                    Ok(c) => {
                        if k < 2 {
                            if let Some(s) = plain(&c) {
                                // a key is found under its own name
                                let r = n.subkey(&s);
                                o.shared.line(&format!("own name -> {:?}", r.map(|r| r.map(|x| x == c).map_err(|e| err(&e, st)))));
                            }
                        }
                        key(&c, q, depth + 1, left, o);
                    }
                }
                k += 1;
                if *left == 0 {
                    break;
                }
            }
            if let Some(Ok(mut it)) = n.subkeys() {
                if let Some(r) = it.nth(2) {
                    o.shared.line(&format!("nth(2) {}", r.map(|k| name(k.name(), st)).unwrap_or_else(|e| err(&e, st))));
                }
            }
            for k in HUGE {
                if let Some(Ok(SubKeyNodes::Leaf(mut it))) = n.subkeys() {
                    let r = it.nth(k).is_none();
                    if !st {
                        o.shared.line(&format!("nth(huge) none {r} then {:?}", it.size_hint()));
                    }
                }
            }
            if *left > 0 {
                if let Some(Ok(it)) = n.subkeys() {
                    if let Some(r) = it.last() {
                        o.shared.line(&format!("last {}", r.map(|k| name(k.name(), st)).unwrap_or_else(|e| err(&e, st))));
                    }
                }
            }
        }
    }
}

/// The name as text, without the crate's own conversions.
fn plain<B: SplitByteSlice>(k: &KeyNode<'_, B>) -> Option<String> {
    match k.name().ok()? {
        NtHiveNameString::Latin1(b) => Some(b.iter().map(|&x| x as char).collect()),
        NtHiveNameString::Utf16LE(b) => String::from_utf16(&b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<_>>()).ok(),
    }
}

fn names(nm: &NtHiveNameString<'_>, q: &[String], o: &mut Outs) {
    let mut s = String::new();
    let _ = write!(s, "{nm}");
    o.shared.line(&format!("shown {}", bytes(s.as_bytes())));
    for x in q.iter().take(o.max_lookups) {
        o.shared.line(&format!("cmp {:?} {:?} {}", nm.partial_cmp(x.as_str()), x.as_str().partial_cmp(nm), *nm == x.as_str()));
    }
    o.shared.line(&format!("self {:?} {}", nm.cmp(nm), *nm == nm.clone()));
    #[cfg(feature = "alloc")]
    {
        let a = nm.to_string_checked().map(|s| text(&s));
        o.alloc.line(&format!("checked {a:?} lossy {}", text(&nm.to_string_lossy())));
    }
}

pub fn value<B: SplitByteSlice>(v: &KeyValue<'_, B>, q: &[String], o: &mut Outs) {
    let st = o.shared.strip;
    let t = match v.data_type() {
        Ok(t) => format!("{t:?}"),
        Err(e) => err(&e, st),
    };
    o.shared.line(&format!("value {} size {} type {t}", name(v.name(), st), v.data_size()));
    if let Ok(nm) = v.name() {
        names(&nm, q, o);
    }
    match v.data() {
        Err(e) => o.shared.line(&err(&e, st)),
        Ok(KeyValueData::Small(b)) => o.shared.line(&format!("small {}", bytes(b))),
        Ok(KeyValueData::Big(it)) => {
            o.shared.line(&format!("big {:?}", it.size_hint()));
            for s in it.take(2000) {
                match s {
                    Err(e) => o.shared.line(&err(&e, st)),
                    Ok(s) => o.shared.line(&bytes(s)),
                }
            }
            if let Ok(KeyValueData::Big(it)) = v.data() {
                o.shared.line(&format!("last {:?}", it.last().map(|r| r.map(bytes).map_err(|e| err(&e, st)))));
            }
            for k in HUGE {
                if let Ok(KeyValueData::Big(mut it)) = v.data() {
                    let r = it.nth(k).is_none();
                    o.shared.line(&format!("nth(huge) none {r} then {:?}", it.size_hint()));
                }
            }
            if let Ok(KeyValueData::Big(mut it)) = v.data() {
                o.shared.line(&format!("nth {:?}", it.nth(1).map(|r| r.map(bytes).map_err(|e| err(&e, st)))));
            }
        }
    }
    o.shared.line(&format!("dword {:?}", v.dword_data().map_err(|e| err(&e, st))));
    o.shared.line(&format!("qword {:?}", v.qword_data().map_err(|e| err(&e, st))));
    #[cfg(feature = "alloc")]
    {
        let a = match v.data().and_then(|d| d.into_vec()) {
            Ok(b) => bytes(&b),
            Err(e) => err(&e, st),
        };
        o.alloc.line(&format!("vec {a}"));
        let a = match v.string_data() {
            Ok(s) => text(&s),
            Err(e) => err(&e, st),
        };
        o.alloc.line(&format!("string {a}"));
        match v.multi_string_data() {
            Err(e) => o.alloc.line(&err(&e, st)),
            Ok(it) => {
                for s in it.take(5000) {
                    match s {
                        Ok(s) => o.alloc.line(&format!("multi {}", text(&s))),
                        Err(e) => o.alloc.line(&format!("multi {}", err(&e, st))),
                    }
                }
            }
        }
    }
}

/// First difference of two texts.
pub fn first_diff(a: &str, b: &str) -> String {
    let (mut x, mut y) = (a.lines(), b.lines());
    let mut k = 0;
    loop {
        match (x.next(), y.next()) {
            (None, None) => return "same text".into(),
            (p, r) if p == r => k += 1,
            (p, r) => {
                let cut = |s: Option<&str>| s.map(|s| s.chars().take(400).collect::<String>()).unwrap_or_else(|| "(end)".into());
                return format!("answer {k}: {} / {}", cut(p), cut(r));
            }
        }
    }
}
