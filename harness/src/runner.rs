//! Driver: generates cases with proptest strategies, runs them in shards, shrinks failures, writes
//! replay and evidence files, supervises a worker process so that crashes become reportable.
use crate::util::{hash64, trunc};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case showed, filled in by the property.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    /// individual oracle comparisons made
    pub checks: u64,
}
impl Obs {
    pub fn label(&mut self, s: &str) {
        *self.labels.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, s: &str, n: u64) {
        *self.labels.entry(s.to_string()).or_insert(0) += n;
    }
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static;
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn cases(&self, tier: Tier) -> usize;
    /// Enumerated (not random) cases, run before the random ones.
    fn fixed(&self, _tier: Tier) -> Vec<Self::Case> {
        vec![]
    }
    fn check(&self, case: &Self::Case, obs: &mut Obs) -> Result<(), String>;
    /// Known, recorded findings: (what fails, does it still fail?).
    fn known(&self) -> Vec<(String, bool)> {
        vec![]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// Extra facts for the evidence file.
    fn extra(&self, _tier: Tier) -> BTreeMap<String, serde_json::Value> {
        BTreeMap::new()
    }
    /// Judges an input given as bytes (see rawfuzz), if the property can be judged from bytes alone.
    fn raw(&self, _r: &crate::rawfuzz::Raw, _obs: &mut Obs) -> Option<Result<(), String>> {
        None
    }
    fn max_shrink(&self) -> usize {
        3000
    }
    fn threads(&self) -> usize {
        8
    }
    /// Cases judged on a stack of the usual size of a thread (2 MiB): calls that recurse once per element overflow it.
    fn tight(&self, _case: &Self::Case) -> bool {
        false
    }
}

const SHARDS: usize = 32;
/// No case takes more than a few seconds. A loaded machine may make one last much longer, but not
/// give it much more of a processor; what waits for another thread or process uses none.
const HANG: Duration = Duration::from_secs(100);
const HANG_CPU: f64 = 80.0;
const HANG_WAITING: Duration = Duration::from_secs(400);

/// When a case was started, by the clock on the wall and that of the thread that runs it.
struct Since {
    wall: Instant,
    who: Arc<Mutex<(libc::clockid_t, f64)>>,
}
thread_local! {
    static WHO: Arc<Mutex<(libc::clockid_t, f64)>> = Arc::new(Mutex::new((0, 0.0)));
}
impl Since {
    fn cpu_of(clock: libc::clockid_t) -> f64 {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        if unsafe { libc::clock_gettime(clock, &mut t) } != 0 {
            return f64::INFINITY;
        }
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
    fn now() -> Since {
        let who = WHO.with(|w| w.clone());
        *who.lock().unwrap() = Self::me();
        Since { wall: Instant::now(), who }
    }
    fn me() -> (libc::clockid_t, f64) {
        let mut clock = 0;
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
        (clock, Self::cpu_of(clock))
    }
    fn hangs(&self) -> bool {
        let wall = self.wall.elapsed();
        let who = self.who.lock().unwrap();
        wall > HANG_WAITING || wall > HANG && Self::cpu_of(who.0) - who.1 > HANG_CPU
    }
}

/// Runaway allocation ends this process (reported as a crash), not the sandbox.
pub fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Marker for panics of the harness itself: these are errors of the check, not violations.
pub const HARNESS_BUG: &str = "NTV-HARNESS-BUG";

pub fn run_case<P: Prop>(p: &P, case: &P::Case, obs: &mut Obs) -> Result<(), String> {
    if !p.tight(case) {
        return run_here(p, case, obs);
    }
    obs.label("on-a-small-stack");
    let who = WHO.with(|w| w.clone());
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || {
            let outer = std::mem::replace(&mut *who.lock().unwrap(), Since::me());
            let r = run_here(p, case, obs);
            *who.lock().unwrap() = outer;
            r
        });
        t.expect("thread").join().unwrap_or_else(|_| Err(format!("{HARNESS_BUG}: thread")))
    })
}

fn run_here<P: Prop>(p: &P, case: &P::Case, obs: &mut Obs) -> Result<(), String> {
    crate::fuel::reset(u64::MAX);
    match catch_unwind(AssertUnwindSafe(|| p.check(case, obs))) {
        Ok(r) => r,
        Err(_) => {
            let m = take_panic();
            // A panic raised in harness source files is a harness bug unless it is the access budget.
            let in_harness = m.starts_with("panic at src/");
            if in_harness && !m.contains(crate::fuel::MSG) {
                Err(format!("{HARNESS_BUG}: {m}"))
            } else {
                Err(m)
            }
        }
    }
}

fn shard_rng<P: Prop>(seed: u64, shard: usize) -> TestRng {
    let mut s = [0u8; 32];
    let mut pr = crate::util::Prng(seed ^ hash64(P::ID.as_bytes()) ^ (shard as u64).wrapping_mul(0xA24B_AED4_963E_E407));
    pr.next();
    pr.fill(&mut s);
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

fn mk_runner<P: Prop>(seed: u64, shard: usize) -> TestRunner {
    let cfg = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, shard_rng::<P>(seed, shard))
}

pub struct Failure<C> {
    pub case: C,
    pub msg: String,
    pub order: (usize, usize),
    pub shrink_steps: usize,
}

#[derive(Default)]
struct Acc {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    checks: u64,
    samples: Vec<serde_json::Value>,
    crumbs: u64,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse::<u64>().ok()).unwrap_or(d)
}
pub fn seed() -> u64 {
    env_u64("VERIF_SEED", 1)
}
pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("NTV_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn journal_path(id: &str) -> PathBuf {
    root().join("build").join(format!("journal-{id}"))
}
fn replay_dir() -> PathBuf {
    root().join("build").join("replay")
}

fn sample_of<C: Debug + Serialize>(c: &C) -> serde_json::Value {
    let s = format!("{c:?}");
    serde_json::Value::String(trunc(&s, 900))
}

fn write_replay<C: Serialize>(id: &str, case: &C, msg: &str, seed: u64) -> PathBuf {
    let dir = replay_dir();
    let _ = std::fs::create_dir_all(&dir);
    let body = serde_json::json!({"property": id, "message": msg, "seed": seed, "case": case});
    let txt = serde_json::to_string(&body).unwrap();
    let path = dir.join(format!("{id}-{:016x}.json", hash64(txt.as_bytes())));
    std::fs::write(&path, txt).expect("write replay");
    path
}

/// Runs in the worker process. Exit codes: 0 held, 1 violation (line printed), 2 error.
pub fn worker<P: Prop>(p: &P, tier: Tier) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let seed = seed();
    let total = (p.cases(tier) as u64 * env_u64("NTV_SCALE_PERCENT", 100) / 100) as usize;
    let fixed = p.fixed(tier);
    let journal = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(journal_path(P::ID)).ok();
    let next_shard = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let first_bad = AtomicUsize::new(usize::MAX);
    let fails: Mutex<Vec<Failure<P::Case>>> = Mutex::new(vec![]);
    let acc: Mutex<Acc> = Mutex::new(Acc::default());
    limit_memory();
    // What each shard is running and since when: a case that takes HANG times longer than any case
    // legitimately can is a hang, reported as a violation with that case as the replay.
    let running: Vec<Mutex<Option<(Since, P::Case)>>> = (0..2 * SHARDS).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);

    std::thread::scope(|s| {
        let watch = s.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::park_timeout(Duration::from_millis(500));
                for r in &running {
                    let g = r.lock().unwrap();
                    if let Some((t, case)) = &*g {
                        if t.hangs() {
                            let msg = format!("a case that does bounded work has not finished after {} s: an operation never returns", t.wall.elapsed().as_secs());
                            let path = write_replay(P::ID, case, &msg, seed);
                            println!("property {} broken: {msg}", P::ID);
                            println!("case: {}", trunc(&format!("{case:?}"), 3000));
                            println!("VIOLATION property={} replay={}", P::ID, path.display());
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        let watch = watch.thread().clone();
        std::thread::scope(|s| {
        for _ in 0..p.threads() {
            let b = std::thread::Builder::new().stack_size(256 << 20);
            b.spawn_scoped(s, || {
                loop {
                    let sh = next_shard.fetch_add(1, Ordering::SeqCst);
                    // shard 0..SHARDS: fixed cases (strided); SHARDS..2*SHARDS: random ones
                    if sh >= 2 * SHARDS {
                        break;
                    }
                    let mut a = Acc::default();
                    // A failure in an earlier shard makes later shards unnecessary, but all earlier
                    // ones still run: which failure is reported does not depend on timing.
                    let one = |idx: usize, case: &P::Case, a: &mut Acc| -> Result<(), String> {
                        if let Some(j) = &journal {
                            let mut rec = [0u8; 16];
                            rec[..8].copy_from_slice(&(idx as u64 + 1).to_le_bytes());
                            rec[8] = 1;
                            let _ = j.write_all_at(&rec, sh as u64 * 16);
                        }
                        let mut obs = Obs::default();
                        *running[sh].lock().unwrap() = Some((Since::now(), case.clone()));
                        let r = run_case(p, case, &mut obs);
                        *running[sh].lock().unwrap() = None;
                        a.evals += 1;
                        a.checks += obs.checks;
                        for (k, v) in obs.labels {
                            *a.labels.entry(k).or_insert(0) += v;
                        }
                        if obs.nontrivial {
                            let fresh = a.nontrivial.insert(hash64(&serde_json::to_vec(case).unwrap_or_default()));
                            if fresh && a.samples.is_empty() {
                                a.samples.push(sample_of(case));
                            }
                        } else {
                            a.crumbs += 1;
                        }
                        r
                    };
                    let mut failure: Option<Failure<P::Case>> = None;
                    if sh < SHARDS {
                        let mut i = sh;
                        while i < fixed.len() {
                            if first_bad.load(Ordering::SeqCst) < sh {
                                break;
                            }
                            if let Err(m) = one(i, &fixed[i], &mut a) {
                                failure = Some(Failure { case: fixed[i].clone(), msg: m, order: (sh, i), shrink_steps: 0 });
                                break;
                            }
                            i += SHARDS;
                        }
                    } else {
                        let strat = p.strategy(tier);
                        let mut runner = mk_runner::<P>(seed, sh);
                        let n = total / SHARDS + usize::from(sh - SHARDS < total % SHARDS);
                        for i in 0..n {
                            if first_bad.load(Ordering::SeqCst) < sh || stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let mut tree = match strat.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => {
                                    failure = None;
                                    eprintln!("generator rejected: {e:?}");
                                    a.labels.insert("generator-rejected".into(), 1);
                                    break;
                                }
                            };
                            let case = tree.current();
                            if let Err(m) = one(i, &case, &mut a) {
                                first_bad.fetch_min(sh, Ordering::SeqCst);
                                failure = Some(shrink(p, &mut tree, case, m, (sh, i), &running[sh]));
                                break;
                            }
                        }
                    }
                    if let Some(f) = failure {
                        first_bad.fetch_min(sh, Ordering::SeqCst);
                        fails.lock().unwrap().push(f);
                    }
                    if let Some(j) = &journal {
                        let _ = j.write_all_at(&[0u8; 16], sh as u64 * 16);
                    }
                    let mut g = acc.lock().unwrap();
                    g.evals += a.evals;
                    g.checks += a.checks;
                    g.crumbs += a.crumbs;
                    g.nontrivial.extend(a.nontrivial);
                    for (k, v) in a.labels {
                        *g.labels.entry(k).or_insert(0) += v;
                    }
                    if g.samples.len() < 6 {
                        g.samples.extend(a.samples);
                    }
                }
            })
            .expect("spawn");
        }
        });
        done.store(true, Ordering::SeqCst);
        watch.unpark();
    });

    let acc = acc.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.order);
    let (bugs, fails): (Vec<_>, Vec<_>) = fails.into_iter().partition(|f| f.msg.starts_with(HARNESS_BUG));
    let mut code = 0;
    for f in &bugs {
        eprintln!("ERROR: harness failure in {}: {}\n  case: {}", P::ID, f.msg, trunc(&format!("{:?}", f.case), 2000));
        code = 2;
    }
    if acc.labels.contains_key("generator-rejected") {
        code = 2;
    }
    if let Some(f) = fails.first() {
        let path = write_replay(P::ID, &f.case, &f.msg, seed);
        println!("property {} broken: {}", P::ID, trunc(&f.msg, 3000));
        println!("minimised case ({} shrink steps): {}", f.shrink_steps, trunc(&format!("{:?}", f.case), 3000));
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        code = 1;
    }
    let mut known = vec![];
    if code != 1 {
        for (what, still) in p.known() {
            if still {
                println!("KNOWN-FINDING: property={} {}", P::ID, what);
                known.push(what);
            } else {
                println!("note: recorded finding no longer fails: {what}");
            }
        }
    }
    let mut coverage = serde_json::json!({
        "evaluations": acc.evals,
        "distinct_nontrivial": acc.nontrivial.len(),
        "rule": P::RULE,
        "samples": acc.samples,
        "enumerated_cases": fixed.len(),
        "random_cases": total,
        "trivial_cases": acc.crumbs,
        "oracle_comparisons": acc.checks,
        "distribution": acc.labels,
        "shards": SHARDS,
    });
    for (k, v) in p.extra(tier) {
        coverage[k] = v;
    }
    // what the coverage-guided campaign that ran before did
    if let Ok(s) = std::fs::read_to_string(root().join("build").join("fuzz").join(P::ID).join("stats.json")) {
        if let Ok(v) = serde_json::from_str::<serde_json::Value>(&s) {
            coverage["coverage_guided_campaign"] = v;
        }
    }
    if !known.is_empty() {
        coverage["known_findings_seen"] = serde_json::json!(known);
    }
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": fails.len().min(1),
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", P::ID)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("ERROR: cannot write evidence: {e}");
        if code == 0 {
            code = 2;
        }
    }
    if code == 0 {
        println!(
            "{}: held on {} cases ({} distinct non-trivial, {} comparisons) in {:.1}s",
            P::ID, acc.evals, acc.nontrivial.len(), acc.checks, t0.elapsed().as_secs_f64()
        );
    }
    code
}

fn shrink<P: Prop>(
    p: &P,
    tree: &mut Box<dyn ValueTree<Value = P::Case>>,
    case: P::Case,
    msg: String,
    order: (usize, usize),
    slot: &Mutex<Option<(Since, P::Case)>>,
) -> Failure<P::Case> {
    let mut best = case;
    let mut best_msg = msg;
    let mut steps = 0;
    // Work bound, not a time bound.
    let mut more = tree.simplify();
    while more && steps < p.max_shrink() {
        steps += 1;
        let c = tree.current();
        let mut o = Obs::default();
        *slot.lock().unwrap() = Some((Since::now(), c.clone()));
        let r = run_case(p, &c, &mut o);
        *slot.lock().unwrap() = None;
        match r {
            Err(m) if !m.starts_with(HARNESS_BUG) || best_msg.starts_with(HARNESS_BUG) => {
                best = c;
                best_msg = m;
                more = tree.simplify();
            }
            _ => more = tree.complicate(),
        }
    }
    Failure { case: best, msg: best_msg, order, shrink_steps: steps }
}

/// Regenerates the case a crashed shard was executing.
fn regenerate<P: Prop>(p: &P, tier: Tier, shard: usize, idx: usize) -> Option<P::Case> {
    if shard < SHARDS {
        return p.fixed(tier).into_iter().nth(idx);
    }
    let strat = p.strategy(tier);
    let mut runner = mk_runner::<P>(seed(), shard);
    for i in 0..=idx {
        let t = strat.new_tree(&mut runner).ok()?;
        if i == idx {
            return Some(t.current());
        }
    }
    None
}

/// Replays one saved case in this process. 0: holds, 1: violated, 2: error.
pub fn replay<P: Prop>(p: &P, path: &Path) -> i32 {
    install_hook();
    limit_memory();
    let txt = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("ERROR: {e}");
            return 2;
        }
    };
    let v: serde_json::Value = match serde_json::from_str(&txt) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("ERROR: {e}");
            return 2;
        }
    };
    let case: P::Case = match serde_json::from_value(v["case"].clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("ERROR: {e}");
            return 2;
        }
    };
    let b = std::thread::Builder::new().stack_size(256 << 20);
    let r = std::thread::scope(|s| b.spawn_scoped(s, || run_case(p, &case, &mut Obs::default())).unwrap().join().unwrap());
    match r {
        Ok(()) => {
            println!("{}: replay holds", P::ID);
            0
        }
        Err(m) if m.starts_with(HARNESS_BUG) => {
            eprintln!("ERROR: {m}");
            2
        }
        Err(m) => {
            println!("property {} broken: {}", P::ID, trunc(&m, 4000));
            println!("VIOLATION property={} replay={}", P::ID, path.display());
            1
        }
    }
}

fn spawn_self(args: &[&str], limit: Duration) -> Result<std::process::ExitStatus, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut ch = std::process::Command::new(exe).args(args).spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    loop {
        match ch.try_wait().map_err(|e| e.to_string())? {
            Some(st) => return Ok(st),
            None => {
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Err(format!("no answer within {} s (inconclusive)", limit.as_secs()));
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
}

fn is_crash(sig: i32) -> bool {
    [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig)
}

/// Runs in the parent: supervises the worker.
pub fn supervise<P: Prop>(p: &P, tier: Tier) -> i32 {
    let _ = std::fs::create_dir_all(root().join("build"));
    let limit = Duration::from_secs(if tier == Tier::Quick { 840 } else { 6 * 3600 });
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let st = match spawn_self(&["worker", P::ID, tname], limit) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR: {}: {e}", P::ID);
            return 4;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("{}: worker died of signal {sig}", P::ID);
    if !is_crash(sig) {
        return 3;
    }
    // Which cases were running? Re-run each alone; a case that kills its process again is the witness.
    let j = std::fs::read(journal_path(P::ID)).unwrap_or_default();
    for (sh, rec) in j.chunks_exact(16).enumerate() {
        if rec[8] != 1 {
            continue;
        }
        let idx = u64::from_le_bytes(rec[..8].try_into().unwrap()) as usize - 1;
        install_hook();
        let case = match catch_unwind(AssertUnwindSafe(|| regenerate(p, tier, sh, idx))) {
            Ok(Some(c)) => c,
            _ => continue,
        };
        let path = write_replay(P::ID, &case, &format!("process killed by signal {sig}"), seed());
        if let Ok(st2) = spawn_self(&["replay-raw", P::ID, path.to_str().unwrap()], Duration::from_secs(300)) {
            match st2.signal() {
                Some(s2) if is_crash(s2) => {
                    println!("property {} broken: the process is killed by signal {s2} on this case: {}", P::ID, trunc(&format!("{case:?}"), 2000));
                    println!("VIOLATION property={} replay={}", P::ID, path.display());
                    return 1;
                }
                _ => {
                    if st2.code() == Some(1) {
                        return 1;
                    }
                }
            }
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("ERROR: {}: crash not reproduced by any running case", P::ID);
    3
}

/// Replays in a child process, so that a crash is reported as well.
pub fn replay_supervised<P: Prop>(_p: &P, path: &Path) -> i32 {
    match spawn_self(&["replay-raw", P::ID, path.to_str().unwrap_or("")], HANG_WAITING) {
        Ok(st) => match (st.code(), st.signal()) {
            (Some(c), _) => c,
            (None, Some(s)) if is_crash(s) => {
                println!("property {} broken: the process is killed by signal {s}", P::ID);
                println!("VIOLATION property={} replay={}", P::ID, path.display());
                1
            }
            _ => 3,
        },
        Err(e) => {
            println!("property {} broken: {e}", P::ID);
            println!("VIOLATION property={} replay={}", P::ID, path.display());
            1
        }
    }
}
