//! Clearing volatile subkey counts: the whole buffer after the pass is predicted byte by byte.
use crate::cosim::{acc_str, Sim, CALL_BUDGET};
use crate::fuel::{self, FuelMut};
use crate::gen::{self, Dmg, TreeOpt};
use crate::model::*;
use crate::props::p03;
use crate::refp::*;
use crate::runner::*;
use crate::util::*;
use nt_hive::Hive;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

pub struct P15;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub h: HiveS,
    /// volatile counts are drawn from this seed for every key
    pub vol: u32,
    pub d: Vec<Dmg>,
    /// which kind of buffer holds the bytes
    pub buf: u8,
}

/// What the pass has to do, found from the bytes alone.
struct Plan {
    /// data-relative content starts of all keys reachable and readable
    keys: HashSet<usize>,
    /// faults the pass may report; none: it must succeed
    faults: Vec<Acc>,
    cyclic: bool,
    /// a count that is to be cleared is also a part of a structure the pass reads
    overlap: bool,
}

const MAX_VISITS: usize = 400_000;

fn plan(r: &RefHive) -> Plan {
    let mut p = Plan { keys: HashSet::new(), faults: vec![], cyclic: false, overlap: false };
    let root = match r.root() {
        Ok(n) => n,
        Err(a) => {
            p.faults = a;
            return p;
        }
    };
    // Depth first with an explicit stack; keys on the current path are marked.
    let mut kids: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut on_path: HashSet<usize> = HashSet::new();
    let mut visits = 0usize;
    let mut read: Vec<(usize, usize)> = vec![];
    let mut stack: Vec<(usize, usize)> = vec![];
    let enter = |n: RNode, p: &mut Plan, kids: &mut BTreeMap<usize, Vec<usize>>, read: &mut Vec<(usize, usize)>| {
        if !p.keys.insert(n.s) {
            return;
        }
        read.push((n.s - 4, n.s + 2));
        read.push((n.s + 28, n.s + 32));
        let mut l = vec![];
        match r.subkeys(n) {
            None => (),
            Some(Err(a)) => p.faults.extend(a),
            Some(Ok(list)) => {
                for k in list {
                    match k {
                        Ok(k) => l.push(k.s),
                        Err(a) => p.faults.extend(a),
                    }
                }
            }
        }
        read.extend(r.list_extents(n));
        kids.insert(n.s, l);
    };
    enter(root, &mut p, &mut kids, &mut read);
    stack.push((root.s, 0));
    on_path.insert(root.s);
    while let Some((s, i)) = stack.pop() {
        let l = &kids[&s];
        if i >= l.len() {
            on_path.remove(&s);
            continue;
        }
        let k = l[i];
        stack.push((s, i + 1));
        visits += 1;
        if on_path.contains(&k) || visits > MAX_VISITS || stack.len() > 3000 {
            p.cyclic = true;
            return p;
        }
        if !p.keys.contains(&k) {
            let (s, e) = r.cell((k - 4) as u32).map_err(|_| ()).unwrap();
            enter(RNode { s, e }, &mut p, &mut kids, &mut read);
        }
        on_path.insert(k);
        stack.push((k, 0));
    }
    read.sort_unstable();
    let mut reach: Vec<(usize, usize)> = vec![];
    // merge, then look every count up
    for (a, b) in read {
        match reach.last_mut() {
            Some((_, e)) if *e >= a => *e = (*e).max(b),
            _ => reach.push((a, b)),
        }
    }
    p.overlap = p.keys.iter().any(|s| {
        let (a, b) = (s + 24, s + 28);
        let i = reach.partition_point(|x| x.1 <= a);
        reach.get(i).is_some_and(|x| x.0 < b)
    });
    // counts of two keys may overlap each other as well
    p.overlap |= p.keys.iter().any(|s| (1..4).any(|d| p.keys.contains(&(s + d))));
    p
}

/// Runs the pass; returns its result.
fn clear(bytes: &mut [u8], kind: u8, between: &mut dyn FnMut(&[u8], usize, &Hive<FuelMut<'_>>) -> Result<(), String>) -> Result<Result<(), nt_hive::NtHiveError>, String> {
    match kind % 4 {
        0 => {
            let mut h = Hive::without_validation(&mut *bytes).map_err(|e| format!("{e:?}"))?;
            Ok(h.clear_volatile_subkeys())
        }
        1 => {
            let cell = RefCell::new(&mut *bytes);
            let m = std::cell::RefMut::map(cell.borrow_mut(), |b| &mut **b);
            let mut h = Hive::without_validation(m).map_err(|e| format!("{e:?}"))?;
            Ok(h.clear_volatile_subkeys())
        }
        _ => {
            fuel::reset(CALL_BUDGET * 4);
            let (p, n) = (bytes.as_ptr(), bytes.len());
            let mut h = Hive::without_validation(FuelMut(bytes)).map_err(|e| format!("{e:?}"))?;
            let r = h.clear_volatile_subkeys();
            // SAFETY: only looked at while no exclusive access happens.
            let now = unsafe { std::slice::from_raw_parts(p, n) };
            let snap = now.to_vec();
            between(&snap, p as usize, &h)?;
            Ok(r)
        }
    }
}

fn diff(what: &str, old: &[u8], new: &[u8], want: &[u8]) -> Result<(), String> {
    if new == want {
        return Ok(());
    }
    let i = (0..new.len()).find(|&i| new[i] != want[i]).unwrap_or(0);
    let n = (0..new.len()).filter(|&i| new[i] != want[i]).count();
    Err(format!("{what}: {n} bytes wrong, the first at {i:#x}: was {:#x}, is {:#x}, should be {:#x}", old[i], new[i], want[i]))
}

pub fn with_counts(b: &mut Built, seed: u32) {
    let mut p = Prng(seed as u64 + 5);
    for t in &b.nodes {
        let v = match p.below(4) {
            0 => 0,
            1 => 1 + p.below(3) as u32,
            2 => 1 << p.below(32),
            _ => p.next() as u32,
        };
        put32(&mut b.bytes, BASE + t.cell as usize + 4 + 24, v);
    }
}

pub fn selfloop() -> Vec<u8> {
    let mut h = HiveS::single();
    h.keys.push(KeyS::named("a"));
    let mut b = build(&h);
    let root = b.nodes[0].cell;
    let f = *b.fields.iter().find(|f| f.kind == FK::LeafItem).unwrap();
    put32(&mut b.bytes, f.pos, root);
    b.bytes
}

/// The recorded finding, in a process of its own: exit 0 if the pass returns.
pub fn known_child() -> i32 {
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 }) };
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
        let mut b = selfloop();
        let mut h = Hive::new(&mut b[..]).unwrap();
        let _ = h.clear_volatile_subkeys();
    });
    i32::from(t.unwrap().join().is_err())
}

impl Prop for P15 {
    type Case = Case;
    const ID: &'static str = "P15";
    const RULE: &'static str = "cases: random hives with random volatile counts in every key (all list kinds, index roots, shared layouts), half of them with 1..3 damages (or damage aimed at keys and subkey lists), held in &mut [u8], RefMut or a counting buffer; enumerated: the boundary shapes of P03 (65535-entry lists, 131072 keys, chains of 512) and every key-list field kind x 50 special values. The buffer after the pass is compared byte by byte with the predicted one. Cyclic key graphs are excluded (recorded finding). Non-trivial: at least two keys with a non-zero count were reachable, or the pass had to stop at a fault.";
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Case> {
        let o = TreeOpt { keys: if tier == Tier::Quick { 14 } else { 30 }, vals: 3, big: false, bulk: 60 };
        let hive = prop_oneof![4 => gen::hive(o), 1 => gen::siblings(30)];
        let ix = (any::<u8>(), any::<u32>(), gen::how()).prop_map(|(k, i, how)| Aim { k, i, how });
        let dmg = prop_oneof![
            3 => Just((vec![], vec![])),
            3 => vec(ix, 1..4).prop_map(|a| (vec![], a)),
            1 => vec(gen::dmg(), 1..4).prop_map(|d| (d, vec![])),
        ];
        (hive, any::<u32>(), dmg, any::<u8>())
            .prop_map(|(h, vol, (mut d, aims), buf)| {
                // aimed damage is expressed through the field kinds this hive has
                let b = build(&h);
                let mut kinds: Vec<FK> = b.fields.iter().filter(|f| f.len > 0).map(|f| f.kind).collect();
                kinds.sort_unstable();
                kinds.dedup();
                for a in aims {
                    let want = AIMED[a.k as usize % AIMED.len()];
                    if let Some(k) = kinds.iter().position(|x| *x == want) {
                        d.push(Dmg::Field { kind: k as u16, i: a.i, how: a.how });
                    }
                }
                Case { h, vol, d, buf }
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 250_000 } else { 3_000_000 }
    }
    fn fixed(&self, tier: Tier) -> Vec<Case> {
        let mut out: Vec<Case> = vec![];
        for (i, h) in p03::big_shapes(tier == Tier::Thorough).into_iter().enumerate() {
            out.push(Case { h, vol: i as u32 + 1, d: vec![], buf: i as u8 });
        }
        for seed in 0..2u64 {
            let h = super::p13::showcase(seed);
            let b = build(&h);
            let mut kinds: Vec<FK> = b.fields.iter().filter(|f| f.len > 0).map(|f| f.kind).collect();
            kinds.sort_unstable();
            kinds.dedup();
            for (k, kind) in kinds.iter().enumerate() {
                if !AIMED.contains(kind) {
                    continue;
                }
                for i in 0..4 {
                    for s in [0u32, 1, 2, 3, 4, 5, 8, 0x20, 0x7f, 0xff, 0x100, 0xffff, 0x8000_0000, 0x7fff_ffff, 0xffff_ffff, 0xffff_fff8, 0xffff_ffb0, 0x6b6e, 0x6972, 0x666c, 0x696c] {
                        out.push(Case { h: h.clone(), vol: s ^ 7, d: vec![Dmg::Field { kind: k as u16, i: i * 3, how: gen::How::Set(s) }], buf: (s % 4) as u8 });
                    }
                    for c in 0..40u16 {
                        out.push(Case { h: h.clone(), vol: c as u32, d: vec![Dmg::Field { kind: k as u16, i: i * 3, how: gen::How::Cell(c * 3) }], buf: c as u8 });
                    }
                }
            }
        }
        out
    }
    fn max_shrink(&self) -> usize {
        800
    }
    fn known(&self) -> Vec<(String, bool)> {
        let exe = match std::env::current_exe() {
            Ok(e) => e,
            Err(_) => return vec![],
        };
        let still = (|| -> std::io::Result<bool> {
            let mut ch = std::process::Command::new(exe)
                .args(["known", "P15"])
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn()?;
            let t = std::time::Instant::now();
            loop {
                if let Some(st) = ch.try_wait()? {
                    return Ok(st.code() != Some(0));
                }
                if t.elapsed().as_secs() > 20 {
                    ch.kill()?;
                    ch.wait()?;
                    return Ok(true);
                }
                std::thread::sleep(std::time::Duration::from_millis(5));
            }
        })()
        .unwrap_or(false);
        vec![("cyclic-key-graph: clear_volatile_subkeys() on a hive whose root's subkey list names the root itself recurses until the stack overflows".into(), still)]
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        let mut b = build(&c.h);
        with_counts(&mut b, c.vol);
        let mut bytes = b.bytes.clone();
        let hit = gen::apply(&mut bytes, &b, &c.d);
        check_bytes(bytes, c.buf, !hit.is_empty(), obs)
    }
    fn raw(&self, r: &crate::rawfuzz::Raw, obs: &mut Obs) -> Option<Result<(), String>> {
        Some(check_bytes(r.bytes.clone(), (r.seed >> 8) as u8, true, obs))
    }
}

fn check_bytes(mut bytes: Vec<u8>, buf: u8, hit: bool, obs: &mut Obs) -> Result<(), String> {
    let old = bytes.clone();
    let r = RefHive::new(&old);
    let p = plan(&r);
    if p.cyclic {
        obs.label("cyclic-excluded");
        return Ok(());
    }
    let set = |s: &usize| le32(&old, BASE + s + 24) != 0;
    obs.nontrivial = !p.faults.is_empty() || p.keys.iter().filter(|s| set(s)).count() >= 2;
    if hit {
        obs.label("damaged");
    }
    let mut want = old.clone();
    for s in &p.keys {
        put32(&mut want, BASE + s + 24, 0);
    }
    let small = p.keys.len() < 200;
    let mut reread: Result<u64, String> = Ok(0);
    let got = clear(&mut bytes, buf, &mut |snap, addr, h| {
        // Reads through the hive that was cleared see what a fresh reader of the bytes sees.
        if small {
            let r2 = RefHive::new(snap);
            let mut o2 = Obs::default();
            let mut sim = Sim::new(&r2, addr, &mut o2);
            sim.lookup_cap = 3;
            reread = sim.hive(h).map(|_| o2.checks).map_err(|e| format!("reads after the pass: {e}"));
        }
        Ok(())
    })?;
    obs.checks += 1;
    if p.overlap {
        // The pass changes structures it reads later; which keys it finds depends on its order.
        obs.label("overlap-excluded");
        return Ok(());
    }
    obs.checks += reread?;
    match (&got, p.faults.is_empty()) {
        (Ok(()), true) => {
            obs.label("succeeded");
            diff("after the pass", &old, &bytes, &want)?;
        }
        (Err(e), false) => {
            obs.label("stopped-by-damage");
            if !accepts(&p.faults, e) {
                return Err(format!("stopped with {e:?}, but the faults of the subkey lists are {}", acc_str(&p.faults)));
            }
            // every count is untouched or zero, all else is untouched
            for s in &p.keys {
                let a = BASE + s + 24;
                if le32(&bytes, a) == le32(&old, a) {
                    want[a..a + 4].copy_from_slice(&old[a..a + 4]);
                }
            }
            diff("after the failed pass", &old, &bytes, &want)?;
        }
        (Ok(()), false) => return Err(format!("success reported in spite of {}", acc_str(&p.faults))),
        (Err(e), true) => return Err(format!("error {e:?} although every subkey list is intact")),
    }
    // once more: nothing changes, same outcome
    let before = bytes.clone();
    let again = clear(&mut bytes, buf / 4, &mut |_, _, _| Ok(()))?;
    obs.checks += 1;
    if again.is_ok() != got.is_ok() {
        return Err(format!("first pass {got:?}, second pass {again:?}"));
    }
    if got.is_ok() {
        diff("after the second pass", &before, &bytes, &before)?;
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Aim {
    k: u8,
    i: u32,
    how: gen::How,
}

const AIMED: [FK; 12] = [
    FK::NkCell,
    FK::NkSig,
    FK::NkSubOff,
    FK::NkSubCount,
    FK::ListCell,
    FK::ListSig,
    FK::ListCount,
    FK::LeafCell,
    FK::LeafSig,
    FK::LeafCount,
    FK::RiItem,
    FK::LeafItem,
];
