//! Several threads reading open hives at the same time.
//!
//! Two ways to run them. Stepped: exactly one thread runs at a time, and at every access to the bytes a seeded
//! decision says whether another one goes on, so an interleaving can be replayed. Free: they run as they
//! like, giving way at random at accesses.
use crate::gen::Dmg;
use crate::model::*;
use crate::props::p13::{self, gen_q::Q};
use crate::runner::*;
use crate::transcript::{self, first_diff, Outs};
use crate::util::*;
use nt_hive::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::marker::PhantomData;
use std::ops::Deref;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use zerocopy::{ByteSlice, SplitByteSlice};

pub struct P22;

/// One thing a thread does.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    /// everything the hive offers
    Whole,
    Opening,
    /// everything below the i-th key (a handle all threads share)
    Key(u16),
    Sub(u16, u8),
    Path(u16, u8, u8),
    Value(u16, u8),
    /// everything about the i-th value (shared)
    Val(u16),
    /// a clone of the i-th key's iterator, which others step as well
    Subkeys(u16, u8),
    Values(u16, u8),
    Segments(u16, u8),
    Same(u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub h: HiveS,
    pub d: Vec<Dmg>,
    /// a second hive: another layout of the first (its damages apply to both), or unrelated
    pub h2: Option<HiveS>,
    pub q: Vec<Q>,
    /// per thread: what it does, and to which of the two hives
    pub jobs: Vec<Vec<(Job, bool)>>,
    pub seed: u64,
    /// switch at one of this many accesses
    pub every: u8,
}

// ---------------------------------------------------------------------------------------------
// scheduling

enum Mode {
    Stepped,
    Free,
}
struct Sched {
    mode: Mode,
    every: u64,
    rng: AtomicU64,
    st: Mutex<(usize, Vec<bool>)>,
    cv: Vec<Condvar>,
    switches: AtomicU64,
}

thread_local! {
    static ME: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
}

impl Sched {
    fn new(mode: Mode, n: usize, seed: u64, every: u64) -> Sched {
        Sched { mode, every, rng: AtomicU64::new(seed), st: Mutex::new((0, vec![true; n])), cv: (0..n).map(|_| Condvar::new()).collect(), switches: AtomicU64::new(0) }
    }
    fn draw(&self) -> u64 {
        let x = self.rng.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed);
        Prng(x).next() >> 8
    }
    fn next(&self, st: &mut (usize, Vec<bool>)) -> Option<usize> {
        let alive: Vec<usize> = (0..st.1.len()).filter(|&i| st.1[i]).collect();
        if alive.is_empty() {
            return None;
        }
        let j = alive[(self.draw() % alive.len() as u64) as usize];
        st.0 = j;
        Some(j)
    }
    fn at_access(&self, me: usize) {
        if self.draw() % self.every != 0 {
            return;
        }
        match self.mode {
            Mode::Free => {
                self.switches.fetch_add(1, Ordering::Relaxed);
                match self.draw() % 4 {
                    0 => std::thread::yield_now(),
                    k => {
                        for _ in 0..k * 30 {
                            std::hint::spin_loop();
                        }
                    }
                }
            }
            Mode::Stepped => {
                let mut st = self.st.lock().unwrap();
                if let Some(j) = self.next(&mut st) {
                    if j != me {
                        self.switches.fetch_add(1, Ordering::Relaxed);
                        self.cv[j].notify_one();
                        while st.0 != me {
                            st = self.cv[me].wait(st).unwrap();
                        }
                    }
                }
            }
        }
    }
    fn enter(&self, me: usize) {
        ME.with(|m| m.set((self, me)));
        if let Mode::Stepped = self.mode {
            let mut st = self.st.lock().unwrap();
            while st.0 != me {
                st = self.cv[me].wait(st).unwrap();
            }
        }
    }
    fn leave(&self, me: usize) {
        ME.with(|m| m.set((std::ptr::null(), 0)));
        if let Mode::Stepped = self.mode {
            let mut st = self.st.lock().unwrap();
            st.1[me] = false;
            if let Some(j) = self.next(&mut st) {
                self.cv[j].notify_one();
            }
        }
    }
}

/// A buffer whose accesses are the points at which threads change.
#[derive(Clone, Copy)]
pub struct Shared<'a>(&'a [u8]);
impl Deref for Shared<'_> {
    type Target = [u8];
    #[inline]
    fn deref(&self) -> &[u8] {
        let (s, me) = ME.with(|m| m.get());
        if !s.is_null() {
            // SAFETY: set by `enter`, cleared by `leave`, both within the life of the scheduler.
            unsafe { &*s }.at_access(me);
        }
        self.0
    }
}
// SAFETY: dereferences to the same slice for its whole life; splitting splits that slice.
unsafe impl ByteSlice for Shared<'_> {}
unsafe impl SplitByteSlice for Shared<'_> {
    unsafe fn split_at_unchecked(self, mid: usize) -> (Self, Self) {
        let (a, b) = self.0.split_at(mid);
        (Shared(a), Shared(b))
    }
}

/// Lets the harness compile against a crate whose types cannot be shared; that they can be is asked separately.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

// ---------------------------------------------------------------------------------------------
// may they be shared at all?

struct Ask<T>(PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for Ask<T> {}
struct AskSend<T>(PhantomData<T>);
struct AskSync<T>(PhantomData<T>);
impl<T> No for AskSend<T> {}
impl<T> No for AskSync<T> {}
impl<T: Send> AskSend<T> {
    const SEND: bool = true;
}
impl<T: Sync> AskSync<T> {
    const SYNC: bool = true;
}

fn shareable() -> Result<u64, String> {
    let mut n = 0;
    macro_rules! ask {
        ($($t:ty),* $(,)?) => {$(
            n += 2;
            if !<AskSend<$t>>::SEND {
                return Err(format!("{} cannot be handed to another thread (not Send) although its buffer can", stringify!($t)));
            }
            if !<AskSync<$t>>::SYNC {
                return Err(format!("{} cannot be shared by threads (not Sync) although its buffer can", stringify!($t)));
            }
        )*};
    }
    type S = &'static [u8];
    ask!(
        Hive<S>, KeyNode<'static, S>, KeyValue<'static, S>, KeyValueData<'static, S>, KeyValues<'static, S>,
        SubKeyNodes<'static, S>, LeafKeyNodes<'static, S>, IndexRootKeyNodes<'static, S>, BigDataSlices<'static, S>,
        NtHiveNameString<'static>, NtHiveError, HiveMinorVersion, KeyValueDataType,
        Hive<Shared<'static>>, KeyNode<'static, Shared<'static>>, KeyValue<'static, Shared<'static>>,
    );
    // a buffer that may be changed
    ask!(Hive<&'static mut [u8]>);
    ask!(RegMultiSZStrings<'static, S>);
    // the question can be answered with no
    if <AskSend<std::rc::Rc<u8>>>::SEND || <AskSync<Cell<u8>>>::SYNC || <Ask<u8>>::SEND {
        return Err(format!("{HARNESS_BUG}: auto traits cannot be asked for"));
    }
    Ok(n)
}

// ---------------------------------------------------------------------------------------------

type Sh<'a> = Shared<'a>;

/// Handles that all threads share.
struct World<'h, 'a> {
    hive: &'h Hive<Sh<'a>>,
    bytes: &'a [u8],
    q: &'h [String],
    keys: Vec<KeyNode<'h, Sh<'a>>>,
    vals: Vec<KeyValue<'h, Sh<'a>>>,
    subs: Vec<SubKeyNodes<'h, Sh<'a>>>,
    lists: Vec<KeyValues<'h, Sh<'a>>>,
    segs: Vec<BigDataSlices<'h, Sh<'a>>>,
}

fn world<'h, 'a>(hive: &'h Hive<Sh<'a>>, bytes: &'a [u8], q: &'h [String]) -> World<'h, 'a> {
    let mut w = World { hive, bytes, q, keys: vec![], vals: vec![], subs: vec![], lists: vec![], segs: vec![] };
    if let Ok(r) = hive.root_key_node() {
        w.keys.push(r);
    }
    let mut i = 0;
    while i < w.keys.len() {
        let k = w.keys[i].clone();
        i += 1;
        if let Some(Ok(mut it)) = k.subkeys() {
            w.subs.push(it.clone());
            // half of the shared iterators are in use already
            if i % 2 == 0 {
                if let Some(s) = w.subs.last_mut() {
                    s.next();
                }
            }
            for c in it.by_ref().take(20).flatten() {
                if w.keys.len() < 30 {
                    w.keys.push(c);
                }
            }
        }
        if let Some(Ok(it)) = k.values() {
            w.lists.push(it.clone());
            for v in it.take(20).flatten() {
                if let Ok(KeyValueData::Big(it)) = v.data() {
                    w.segs.push(it);
                }
                if w.vals.len() < 30 {
                    w.vals.push(v);
                }
            }
        }
    }
    w
}

fn pick<T>(v: &[T], i: u16) -> Option<&T> {
    if v.is_empty() {
        None
    } else {
        Some(&v[i as usize % v.len()])
    }
}

fn job(w: &World, j: &Job) -> String {
    let mut o = Outs::new(true, false);
    o.max_keys = 30;
    o.max_lookups = 2;
    let q = |i: u8| w.q.get(i as usize % w.q.len().max(1)).cloned().unwrap_or_default();
    let e = |e: NtHiveError| transcript::err(&e, false);
    match j {
        Job::Whole => transcript::hive(w.hive, w.q, &mut o),
        Job::Opening => {
            let mut t = String::new();
            for r in [Hive::new(Shared(w.bytes)), Hive::without_validation(Shared(w.bytes))] {
                match r {
                    Err(x) => t += &e(x),
                    Ok(h) => t += &format!("opened {} {:?}", h.minor_version(), h.root_key_node().and_then(|k| k.name().map(|n| n.to_string_lossy()))),
                }
            }
            o.shared.line(&t);
        }
        Job::Key(i) => {
            if let Some(k) = pick(&w.keys, *i) {
                let mut left = 10;
                transcript::key(k, w.q, 0, &mut left, &mut o);
            }
        }
        Job::Sub(i, n) => {
            if let Some(k) = pick(&w.keys, *i) {
                o.shared.line(&format!("{:?}", k.subkey(&q(*n)).map(|r| r.map(|k| transcript::name(k.name(), false)).map_err(e))));
            }
        }
        Job::Path(i, n, m) => {
            if let Some(k) = pick(&w.keys, *i) {
                let p = format!("{}\\{}", q(*n), q(*m));
                o.shared.line(&format!("{:?}", k.subpath(&p).map(|r| r.map(|k| transcript::name(k.name(), false)).map_err(e))));
            }
        }
        Job::Value(i, n) => {
            if let Some(k) = pick(&w.keys, *i) {
                o.shared.line(&format!("{:?}", k.value(&q(*n)).map(|r| r.map(|v| (transcript::name(v.name(), false), v.data_size())).map_err(e))));
            }
        }
        Job::Val(i) => {
            if let Some(v) = pick(&w.vals, *i) {
                transcript::value(v, w.q, &mut o);
            }
        }
        Job::Subkeys(i, n) => {
            if let Some(it) = pick(&w.subs, *i) {
                let mut it = it.clone();
                let a = it.nth(*n as usize % 4).map(|r| r.map(|k| transcript::name(k.name(), false)).map_err(e));
                let b: Vec<_> = it.by_ref().take(30).map(|r| r.map(|k| transcript::name(k.name(), false)).map_err(e)).collect();
                o.shared.line(&format!("{a:?} {b:?} {:?}", it.size_hint()));
            }
        }
        Job::Values(i, n) => {
            if let Some(it) = pick(&w.lists, *i) {
                let mut it = it.clone();
                let a = it.nth(*n as usize % 4).map(|r| r.map(|v| transcript::name(v.name(), false)).map_err(e));
                let b: Vec<_> = it.by_ref().take(30).map(|r| r.map(|v| transcript::name(v.name(), false)).map_err(e)).collect();
                o.shared.line(&format!("{a:?} {b:?} {:?}", it.size_hint()));
            }
        }
        Job::Segments(i, n) => {
            if let Some(it) = pick(&w.segs, *i) {
                let mut it = it.clone();
                let a = it.nth(*n as usize % 3).map(|r| r.map(hash64).map_err(e));
                let b: Vec<_> = it.by_ref().take(10).map(|r| r.map(hash64).map_err(e)).collect();
                o.shared.line(&format!("{a:?} {b:?} {:?}", it.size_hint()));
            }
        }
        Job::Same(i, k) => {
            if let (Some(a), Some(b)) = (pick(&w.keys, *i), pick(&w.keys, *k)) {
                let c = match (a.name(), b.name()) {
                    (Ok(x), Ok(y)) => format!("{:?} {}", x.cmp(&y), x == y),
                    _ => String::new(),
                };
                o.shared.line(&format!("{} {c}", a == b));
            }
        }
    }
    let mut s = o.shared.text.unwrap_or_default();
    s += &o.alloc.text.unwrap_or_default();
    s
}

fn run_all(w: &[World], c: &Case, mode: Mode, seed: u64, obs: &mut Obs) -> Vec<Result<Vec<String>, String>> {
    let every = (c.every as u64).max(1);
    let s = Sched::new(mode, c.jobs.len(), seed, every);
    let shared = Force((w, &s));
    let out: Vec<_> = std::thread::scope(|sc| {
        let ts: Vec<_> = c
            .jobs
            .iter()
            .enumerate()
            .map(|(i, jobs)| {
                let shared = &shared;
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        let (w, s) = *shared.get();
                        s.enter(i);
                        let r = catch_unwind(AssertUnwindSafe(|| jobs.iter().map(|(j, b)| job(&w[*b as usize % w.len()], j)).collect::<Vec<_>>()));
                        s.leave(i);
                        Force(r.map_err(|_| take_panic()))
                    })
                    .expect("thread")
            })
            .collect();
        ts.into_iter().map(|t| t.join().map(|f| f.0).unwrap_or_else(|_| Err("thread".into()))).collect()
    });
    obs.add("switches", s.switches.load(Ordering::Relaxed));
    out
}

fn jobs() -> BoxedStrategy<Vec<Vec<(Job, bool)>>> {
    let j = prop_oneof![
        3 => Just(Job::Whole),
        1 => Just(Job::Opening),
        3 => any::<u16>().prop_map(Job::Key),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Job::Sub(a, b)),
        1 => (any::<u16>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Job::Path(a, b, c)),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Job::Value(a, b)),
        3 => any::<u16>().prop_map(Job::Val),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Job::Subkeys(a, b)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Job::Values(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Job::Segments(a, b)),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Job::Same(a, b)),
    ];
    vec(vec((j, any::<bool>()), 1..7), 2..5).boxed()
}

impl Prop for P22 {
    type Case = Case;
    const ID: &'static str = "P22";
    const RULE: &'static str = "cases: one or two open hives (random trees, half of them damaged), 2..4 threads that each do 1..6 things with shared handles and clones of shared iterators: walking, lookups, paths, values, all forms of data, comparison, opening. Each case runs twice with one thread at a time, switching between accesses to the bytes as a seeded schedule says (replayable), and once freely with random pauses. Each answer must be the one given when nothing else runs, before and after. First of all every public type must be Send and Sync for a buffer that is. Non-trivial: at least 20 switches happened within the calls.";
    fn strategy(&self, _tier: Tier) -> BoxedStrategy<Case> {
        let o = crate::gen::TreeOpt { keys: 6, vals: 4, big: false, bulk: 20 };
        let ob = crate::gen::TreeOpt { keys: 3, vals: 3, big: true, bulk: 0 };
        let base = prop_oneof![4 => p13::damaged(o, 3), 1 => p13::damaged(ob, 2)];
        (base, any::<bool>(), prop_oneof![2 => Just(None), 1 => crate::gen::lay().prop_map(|l| Some((Some(l), None))), 1 => crate::gen::hive(o).prop_map(|h| Some((None, Some(h))))], jobs(), any::<u64>(), prop_oneof![Just(1u8), Just(2), Just(4), Just(16), Just(64)])
            .prop_map(|(b, sound, second, jobs, seed, every)| {
                let h2 = second.map(|(l, h)| match (l, h) {
                    (Some(l), _) => HiveS { lay: LayS { trailing: 0, ..l }, ..b.h.clone() },
                    (_, Some(h)) => HiveS { lay: LayS { trailing: 0, ..h.lay.clone() }, ..h },
                    _ => b.h.clone(),
                });
                Case { h: b.h, d: if sound { vec![] } else { b.d }, h2, q: b.q, jobs, seed, every }
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> usize {
        if tier == Tier::Quick { 12_000 } else { 150_000 }
    }
    fn max_shrink(&self) -> usize {
        600
    }
    fn check(&self, c: &Case, obs: &mut Obs) -> Result<(), String> {
        obs.checks += shareable()?;
        let b = build(&c.h);
        let mut files = vec![];
        for h in std::iter::once(&c.h).chain(c.h2.iter()) {
            let b = build(h);
            let mut bytes = b.bytes.clone();
            let _ = crate::gen::apply(&mut bytes, &b, &c.d);
            files.push(bytes);
        }
        let q: Vec<String> = c.q.iter().filter_map(|q| q.text(&b.nodes)).collect();
        let mut hives = vec![];
        for f in &files {
            match Hive::without_validation(Shared(f)) {
                Ok(h) => hives.push((h, &f[..])),
                Err(_) => {
                    obs.label("cannot-be-opened");
                    return Ok(());
                }
            }
        }
        let w: Vec<World> = hives.iter().map(|(h, f)| world(h, f, &q)).collect();
        let alone = |w: &[World]| -> Vec<Vec<String>> { c.jobs.iter().map(|js| js.iter().map(|(j, b)| job(&w[*b as usize % w.len()], j)).collect()).collect() };
        let before = alone(&w);
        let mut o2 = Obs::default();
        for round in 0..3u64 {
            let mode = if round < 2 { Mode::Stepped } else { Mode::Free };
            let how = if round < 2 { "taking turns" } else { "at the same time" };
            for (t, r) in run_all(&w, c, mode, c.seed.wrapping_add(round), &mut o2).into_iter().enumerate() {
                let r = r.map_err(|m| format!("thread {t} of {}, {how}: {m}", c.jobs.len()))?;
                for (k, (got, want)) in r.iter().zip(&before[t]).enumerate() {
                    obs.checks += 1;
                    if got != want {
                        return Err(format!("{} threads {how}: thread {t}, job {k} {:?} answers differently from when nothing else runs: {}", c.jobs.len(), c.jobs[t][k], first_diff(want, got)));
                    }
                }
            }
        }
        // and still the same afterwards, with the same handles
        let after = alone(&w);
        for (t, (x, y)) in before.iter().zip(&after).enumerate() {
            for (k, (want, got)) in x.iter().zip(y).enumerate() {
                obs.checks += 1;
                if got != want {
                    return Err(format!("after {} threads have read: job {k} of thread {t} {:?} answers differently: {}", c.jobs.len(), c.jobs[t][k], first_diff(want, got)));
                }
            }
        }
        let sw = o2.labels.get("switches").copied().unwrap_or(0);
        obs.add("switches", sw);
        obs.label(if c.h2.is_some() { "two-hives" } else { "one-hive" });
        obs.label(&format!("threads-{}", c.jobs.len()));
        obs.nontrivial = sw >= 20;
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["interleavings are explored at the granularity of accesses to the bytes; finer ones only as the machine happens to run".into()]
    }
}
