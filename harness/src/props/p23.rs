//! Memory: reading takes none from the heap and hands out views into the caller's buffer; what returns owned data
//! takes memory in proportion to that data and keeps none.
use crate::heap::{measure, Use};
use crate::model::*;
use crate::props::p13::{self, Case};
use crate::runner::*;
use nt_hive::*;
use proptest::prelude::*;
use std::fmt::Write;

pub struct P23;

/// Counts what is written, keeps nothing.
struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.wrapping_add(s.len() as u64);
        Ok(())
    }
}

struct Meter<'a> {
    buf: &'a [u8],
    quiet: u64,
    owned: u64,
    errors: u64,
}

impl Meter<'_> {
    /// An operation that has no business with the heap.
    fn quiet<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
        let (r, u) = measure(f);
        self.quiet += 1;
        if u.calls != 0 || u.left != 0 {
            return Err(format!("{what} takes memory from the heap: {} requests, {} bytes at most, {} bytes kept", u.calls, u.peak, u.left));
        }
        Ok(r)
    }
    /// One that returns owned data made of `n` bytes.
    fn owned<R>(&mut self, what: &str, n: usize, f: impl FnOnce() -> R) -> Result<(R, Use), String> {
        let (r, u) = measure(f);
        self.owned += 1;
        let most = 16 * n as u64 + 4096;
        if u.peak > most {
            return Err(format!("{what} on {n} bytes of data holds {} bytes of memory (bound {most})", u.peak));
        }
        Ok((r, u))
    }
    fn within(&self, what: &str, s: &[u8]) -> Result<(), String> {
        if s.is_empty() {
            return Ok(());
        }
        let (a, b) = (self.buf.as_ptr() as usize, self.buf.as_ptr() as usize + self.buf.len());
        let (p, q) = (s.as_ptr() as usize, s.as_ptr() as usize + s.len());
        if p < a || q > b {
            return Err(format!("{what} of {} bytes is not a view into the caller's buffer", s.len()));
        }
        Ok(())
    }
    fn err(&mut self, e: &NtHiveError) -> Result<(), String> {
        self.errors += 1;
        self.quiet("displaying an error", || {
            let mut s = Sink(0);
            let _ = write!(s, "{e}");
        })?;
        self.quiet("cloning and comparing an error", || e.clone() == *e)?;
        Ok(())
    }
    /// Owned text must be all that is left, and go when it is dropped.
    fn text(&mut self, what: &str, n: usize, f: impl FnOnce() -> Option<String>) -> Result<(), String> {
        let (cap, _) = {
            let (s, u) = self.owned(what, n, f)?;
            let cap = s.as_ref().map(|s| s.capacity()).unwrap_or(0);
            if u.left != cap as i64 {
                return Err(format!("{what} leaves {} bytes of memory behind besides the text returned", u.left - cap as i64));
            }
            (cap, drop(s))
        };
        if cap as u64 > 16 * n as u64 + 4096 {
            return Err(format!("{what} on {n} bytes returns {cap} bytes of memory"));
        }
        Ok(())
    }
    fn name(&mut self, r: Result<NtHiveNameString<'_>, NtHiveError>, q: &[String]) -> Result<(), String> {
        let nm = match r {
            Ok(n) => n,
            Err(e) => return self.err(&e),
        };
        let b = match &nm {
            NtHiveNameString::Latin1(b) | NtHiveNameString::Utf16LE(b) => *b,
        };
        self.within("a name", b)?;
        self.quiet("displaying a name", || {
            let mut s = Sink(0);
            let _ = write!(s, "{nm} {nm:>20}");
        })?;
        for x in q {
            let x = x.as_str();
            self.quiet("comparing a name with text", || (nm == x, x == nm, nm.partial_cmp(x), x.partial_cmp(&nm)))?;
        }
        self.quiet("comparing names", || (nm.cmp(&nm), nm == nm.clone(), nm.len(), nm.is_empty()))?;
        self.text("to_string_checked", b.len(), || nm.to_string_checked())?;
        self.text("to_string_lossy", b.len(), || Some(nm.to_string_lossy()))
    }
    fn value<B: zerocopy::SplitByteSlice + Clone>(&mut self, v: &KeyValue<'_, B>, q: &[String]) -> Result<(), String> {
        let r = self.quiet("KeyValue::name", || v.name())?;
        self.name(r, q)?;
        let r = self.quiet("KeyValue::data_type", || v.data_type())?;
        if let Err(e) = &r {
            self.err(e)?;
        }
        self.quiet("KeyValue::data_size", || v.data_size())?;
        for r in [self.quiet("KeyValue::dword_data", || v.dword_data().map(|_| ()))?, self.quiet("KeyValue::qword_data", || v.qword_data().map(|_| ()))?] {
            if let Err(e) = r {
                self.err(&e)?;
            }
        }
        let d = self.quiet("KeyValue::data", || v.data())?;
        // what there is to be returned; nothing if the data cannot be reached
        let mut n = 0;
        match &d {
            Err(e) => self.err(e)?,
            Ok(KeyValueData::Small(b)) => {
                n = b.len();
                self.within("data", b)?;
            }
            Ok(KeyValueData::Big(it)) => {
                n = v.data_size() as usize;
                let mut it = self.quiet("cloning segments", || it.clone())?;
                self.quiet("segments: size_hint, count, last", || (it.size_hint(), it.clone().count(), it.clone().last().is_some()))?;
                for _ in 0..70_000 {
                    match self.quiet("reading a segment", || it.next())? {
                        None => break,
                        Some(Err(e)) => self.err(&e)?,
                        Some(Ok(s)) => self.within("a segment", s)?,
                    }
                }
            }
        }
        if let Ok(d) = d {
            let (r, u) = self.owned("into_vec", n, || d.into_vec())?;
            let cap = r.as_ref().map(|v| v.capacity()).unwrap_or(0);
            if u.left != cap as i64 {
                return Err(format!("into_vec leaves {} bytes of memory behind besides the data returned", u.left - cap as i64));
            }
        }
        self.text("string_data", n, || v.string_data().ok())?;
        if let Ok(mut it) = self.owned("multi_string_data", n, || v.multi_string_data())?.0 {
            for _ in 0..400 {
                let mut end = false;
                self.text("reading a string of several", n, || match it.next() {
                    None => {
                        end = true;
                        None
                    }
                    Some(r) => r.ok(),
                })?;
                if end {
                    break;
                }
            }
        }
        Ok(())
    }
    fn key<B: zerocopy::SplitByteSlice + Clone>(&mut self, k: &KeyNode<'_, B>, q: &[String], depth: usize, left: &mut usize) -> Result<(), String> {
        if *left == 0 || depth > 40 {
            return Ok(());
        }
        *left -= 1;
        let r = self.quiet("KeyNode::name", || k.name())?;
        self.name(r, q)?;
        if let Some(r) = self.quiet("KeyNode::class_name", || k.class_name())? {
            self.name(r, &[])?;
        }
        for (i, x) in q.iter().enumerate() {
            if let Some(Err(e)) = self.quiet("KeyNode::subkey", || k.subkey(x))? {
                self.err(&e)?;
            }
            if let Some(Err(e)) = self.quiet("KeyNode::value", || k.value(x))? {
                self.err(&e)?;
            }
            let p = format!("{x}\\\\{}\\", q[(i + 1) % q.len()]);
            if let Some(Err(e)) = self.quiet("KeyNode::subpath", || k.subpath(&p))? {
                self.err(&e)?;
            }
        }
        match self.quiet("KeyNode::values", || k.values())? {
            None => (),
            Some(Err(e)) => self.err(&e)?,
            Some(Ok(mut it)) => {
                self.quiet("values: size_hint, count, last, nth", || (it.size_hint(), it.clone().count(), it.clone().last().is_some(), it.clone().nth(2).is_some()))?;
                for i in 0..70_000 {
                    match self.quiet("the next value", || it.next())? {
                        None => break,
                        Some(Err(e)) => self.err(&e)?,
                        Some(Ok(v)) => {
                            if i < 400 {
                                self.value(&v, q)?
                            }
                        }
                    }
                }
            }
        }
        match self.quiet("KeyNode::subkeys", || k.subkeys())? {
            None => (),
            Some(Err(e)) => self.err(&e)?,
            Some(Ok(mut it)) => {
                self.quiet("subkeys: size_hint, last, nth", || (it.size_hint(), it.clone().last().is_some(), it.clone().nth(2).is_some()))?;
                // damaged lists can be cyclic and have no end
                for i in 0..2000 {
                    match self.quiet("the next subkey", || it.next())? {
                        None => break,
                        Some(Err(e)) => self.err(&e)?,
                        Some(Ok(c)) => {
                            if i < 4 {
                                self.quiet("comparing key nodes", || c == *k)?;
                            }
                            self.key(&c, q, depth + 1, left)?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn judge(bytes: Vec<u8>, q: Vec<String>, obs: &mut Obs) -> Result<(), String> {
    let mut m = Meter { buf: &bytes, quiet: 0, owned: 0, errors: 0 };
    let mut opened = false;
    for validate in [true, false] {
        let r = m.quiet("opening a hive", || if validate { Hive::new(&bytes[..]) } else { Hive::without_validation(&bytes[..]) })?;
        let h = match r {
            Ok(h) => h,
            Err(e) => {
                m.err(&e)?;
                continue;
            }
        };
        if let Err(e) = m.quiet("validate", || h.validate())? {
            m.err(&e)?;
        }
        m.quiet("the version", || (h.major_version(), h.minor_version()))?;
        if opened {
            continue;
        }
        opened = true;
        match m.quiet("root_key_node", || h.root_key_node())? {
            Err(e) => m.err(&e)?,
            Ok(k) => {
                let mut left = 200;
                m.key(&k, &q, 0, &mut left)?;
                for x in &q {
                    let p = format!("\\{x}\\{x}");
                    m.quiet("KeyNode::subpath", || k.subpath(&p).is_some())?;
                }
            }
        }
        m.quiet("dropping a hive", || drop(h))?;
    }
    obs.checks += m.quiet + m.owned;
    obs.add("quiet-calls", m.quiet);
    obs.add("owned-results", m.owned);
    obs.add("errors", m.errors);
    obs.nontrivial = m.owned >= 4 && m.quiet >= 30;
    Ok(())
}

impl Prop for P23 {
    type Case = Case;
    const ID: &'static str = "P23";
    const RULE: &'static str = "cases: random hives (all list kinds, value forms, big data, long names) x 0..4 damages aimed at every kind of field; enumerated: long lists, long names, data of many segments. The heap use of every single call on everything reachable is counted: none for opening, walking, lookups, comparisons, displaying names and errors, raw data and numbers; for calls returning owned data at most 16 times the bytes concerned + 4 KiB at a time, and nothing kept besides the result. Names and data must lie in the caller's buffer. Non-trivial: at least 30 calls without heap and 4 owned results judged.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let big = crate::gen::TreeOpt { keys: 6, vals: 4, big: true, bulk: 0 };
        let small = crate::gen::TreeOpt { keys: 8, vals: 4, big: false, bulk: 40 };
        let n = if tier == Tier::Quick { 3 } else { 5 };
        let long = crate::gen::long_len().prop_map(|l| Nm { u: (0..l.min(32_767)).map(|i| 0x61 + (i % 26) as u16).collect(), w: l % 2 == 0 });
        let long = (long, p13::damaged(small, 1)).prop_map(|(nm, mut c)| {
            if let Some(k) = c.h.keys.last_mut() {
                k.name = nm.clone();
                k.class = Some(nm.u.clone());
                for v in &mut k.vals {
                    v.name = nm.clone();
                }
            }
            c
        });
        let text = (crate::gen::big_text(), prop_oneof![Just(1u32), Just(2), Just(7)]).prop_map(|(dat, typ)| {
            let mut h = HiveS::single();
            h.keys[0].vals.push(ValS { name: Nm::s("v"), typ, dat, inline: false, surplus: 0 });
            Case { h, d: vec![], q: vec![] }
        });
        prop_oneof![10 => p13::damaged(small, n), 4 => p13::damaged(big, n), 1 => long, 2 => text].boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 200_000 } else { 2_000_000 }
    }
    fn fixed(&self, _tier: Tier) -> Vec<Case> {
        use crate::props::p03;
        let lit = |s: &str| p13::gen_q::Q::Lit(s.encode_utf16().collect());
        let q = vec![lit("00010"), lit("x"), lit("\u{e9}\u{20ac}"), lit(&"y".repeat(3000))];
        let mut v: Vec<Case> = p03::big_shapes(false).into_iter().chain(p03::long_names()).map(|h| Case { h, d: vec![], q: q.clone() }).collect();
        for s in 0..4 {
            v.push(Case { h: p13::showcase(s), d: vec![], q: q.clone() });
        }
        for (n, typ) in [(16_345u32, 1u32), (100_000, 7), (3_000_000, 3), (4_000_001, 1), (2_500_000, 7)] {
            let mut h = HiveS::single();
            for dat in [Dat::Fill(n, 7), Dat::Fill(n, 8)] {
                h.keys[0].vals.push(ValS { name: Nm::s("v"), typ, dat, inline: false, surplus: 0 });
            }
            v.push(Case { h, d: vec![], q: vec![] });
        }
        v
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let b = build(&c.h);
        let mut bytes = b.bytes.clone();
        for k in crate::gen::apply(&mut bytes, &b, &c.d) {
            obs.label(&format!("damaged-{k:?}"));
        }
        // clearing needs a graph without cycles (finding of P15): only on sound hives
        if c.d.is_empty() {
            let mut copy = bytes.clone();
            if let Ok(mut h) = Hive::without_validation(&mut copy[..]) {
                let (r, u) = measure(|| h.clear_volatile_subkeys());
                obs.checks += 1;
                if u.calls != 0 {
                    return Err(format!("clear_volatile_subkeys takes memory from the heap: {u:?}, result {r:?}"));
                }
            }
        }
        judge(bytes, c.q.iter().filter_map(|q| q.text(&b.nodes)).collect(), obs)
    }
    fn raw(&self, r: &crate::rawfuzz::Raw, obs: &mut Obs) -> Option<Result<(), String>> {
        Some(judge(r.bytes.clone(), r.q.clone(), obs))
    }
}
