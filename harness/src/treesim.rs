//! Compares what the reader shows with the abstract tree the hive was built from.
use crate::cosim::Chk;
use crate::fuel;
use crate::model::*;
use crate::runner::Obs;
use nt_hive::*;
use zerocopy::SplitByteSlice;

macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

pub fn name_eq(what: &str, g: &NtHiveNameString<'_>, latin: bool, bytes: &[u8]) -> Chk {
    let (gl, gb) = match g {
        NtHiveNameString::Latin1(b) => (true, *b),
        NtHiveNameString::Utf16LE(b) => (false, *b),
    };
    if gl != latin || gb != bytes {
        bail!("{what}: got {g:?}, stored latin={latin} {bytes:?}");
    }
    Ok(())
}

#[derive(Clone, Copy, Default)]
pub struct Opt {
    pub values: bool,
    pub data: bool,
}

pub fn err<T, E: std::fmt::Debug>(what: &str, r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{what}: unexpected error {e:?}"))
}

pub fn tree<B: SplitByteSlice>(h: &Hive<B>, t: &[TNode], o: Opt, obs: &mut Obs) -> Chk {
    fuel::reset(crate::cosim::CALL_BUDGET);
    let root = err("root_key_node()", h.root_key_node())?;
    let mut count = 0;
    node(&root, t, 0, o, obs, &mut count)?;
    obs.add("keys-walked", count as u64);
    if count != t.len() {
        bail!("{count} keys walked, {} stored", t.len());
    }
    Ok(())
}

pub fn node<B: SplitByteSlice>(n: &KeyNode<'_, B>, t: &[TNode], i: usize, o: Opt, obs: &mut Obs, count: &mut usize) -> Chk {
    let w = &t[i];
    *count += 1;
    obs.checks += 1;
    fuel::reset(crate::cosim::CALL_BUDGET);
    let p = format!("key #{i}");
    name_eq(&p, &err(&p, n.name())?, w.latin, &w.name)?;
    match (n.class_name(), &w.class) {
        (None, None) => (),
        (Some(g), Some(c)) => name_eq(&format!("{p} class"), &err(&p, g)?, false, c)?,
        (g, c) => bail!("{p}: class_name {:?}, stored {c:?}", g.map(|x| x.map(|y| format!("{y:?}")))),
    }
    if o.values {
        let mut got = 0;
        if let Some(it) = n.values() {
            for v in err(&p, it)? {
                let v = err(&format!("{p} value {got}"), v)?;
                if got >= w.vals.len() {
                    bail!("{p}: more than {} values", w.vals.len());
                }
                value(&format!("{p} value {got}"), &v, &w.vals[got], o, obs)?;
                got += 1;
            }
        }
        if got != w.vals.len() {
            bail!("{p}: {got} values enumerated, {} stored", w.vals.len());
        }
    }
    fuel::reset(crate::cosim::CALL_BUDGET);
    let mut got = 0;
    if let Some(it) = n.subkeys() {
        let mut it = err(&p, it)?;
        loop {
            fuel::reset(crate::cosim::CALL_BUDGET);
            let Some(k) = it.next() else { break };
            let k = err(&format!("{p} subkey {got}"), k)?;
            if got >= w.kids.len() {
                bail!("{p}: more than {} subkeys", w.kids.len());
            }
            node(&k, t, w.kids[got], o, obs, count)?;
            got += 1;
        }
    }
    if got != w.kids.len() {
        bail!("{p}: {got} subkeys enumerated, {} stored", w.kids.len());
    }
    Ok(())
}

pub fn value<B: SplitByteSlice>(p: &str, v: &KeyValue<'_, B>, w: &TVal, o: Opt, obs: &mut Obs) -> Chk {
    obs.checks += 1;
    fuel::reset(crate::cosim::CALL_BUDGET);
    name_eq(p, &err(p, v.name())?, w.latin, &w.name)?;
    if v.data_size() as usize != w.data.len() {
        bail!("{p}: data_size() = {}, stored {}", v.data_size(), w.data.len());
    }
    if o.data {
        data(p, v, &w.data, obs)?;
    }
    Ok(())
}

pub fn data<B: SplitByteSlice>(p: &str, v: &KeyValue<'_, B>, want: &[u8], obs: &mut Obs) -> Chk {
    obs.checks += 1;
    match err(p, v.data())? {
        KeyValueData::Small(b) => {
            if want.len() > SEG {
                bail!("{p}: {} bytes returned as small data", want.len());
            }
            if b != want {
                bail!("{p}: data differs ({} bytes returned, {} stored)", b.len(), want.len());
            }
        }
        KeyValueData::Big(it) => {
            if want.len() <= SEG {
                bail!("{p}: {} bytes returned as big data", want.len());
            }
            let mut at = 0;
            for s in it {
                let s = err(p, s)?;
                let n = (want.len() - at).min(SEG);
                if n == 0 || s.len() != n {
                    bail!("{p}: segment at {at} has {} bytes, expected {n}", s.len());
                }
                if s != &want[at..at + n] {
                    bail!("{p}: segment at {at} differs from the data");
                }
                at += n;
            }
            if at != want.len() {
                bail!("{p}: segments give {at} of {} bytes", want.len());
            }
            obs.label("big-data");
        }
    }
    let vec = err(p, v.data().and_then(|d| d.into_vec()))?;
    if vec != want {
        bail!("{p}: into_vec() differs from the data");
    }
    Ok(())
}
