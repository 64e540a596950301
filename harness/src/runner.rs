//! Runner: shards generated cases over threads, catches panics, detects blocked or
//! non-terminating cases, shrinks failures, replays saved cases, writes evidence.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a passing case exercised.
#[derive(Default)]
pub struct Outcome {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Outcome {
    pub fn new(nontrivial: bool) -> Self {
        Self { nontrivial, labels: vec![] }
    }
    pub fn label(&mut self, on: bool, l: &'static str) {
        if on && !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

pub type CaseResult = Result<Outcome, String>;

pub trait Prop: 'static {
    type Case: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send + Sync + 'static;
    const ID: &'static str;
    const RULE: &'static str;
    /// Cases use several threads: a sleeping worker is then no sign of a deadlock.
    const MULTI: bool = false;
    /// The outcome of a case depends on how threads are scheduled.
    const SCHEDULED: bool = false;
    /// Worker threads running cases at once.
    const WORKERS: usize = 8;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn cases(tier: Tier) -> u64;
    fn run(case: &Self::Case) -> CaseResult;
    /// Reduce a case for the evidence samples.
    fn assumptions() -> Vec<String> {
        vec![]
    }
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    pub static WAITING_OWN: std::cell::RefCell<Option<Arc<AtomicBool>>> = const { std::cell::RefCell::new(None) };
}

static OTHER_PANICS: AtomicU64 = AtomicU64::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}").replace('\n', " ");
        if std::env::var_os("VP_SHOW_PANICS").is_some() {
            eprintln!("panic: {msg}");
        }
        OTHER_PANICS.fetch_add(1, Ordering::Relaxed);
        let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = msg);
    }));
}

/// Run a closure; a panic becomes an error message.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panicked: {}", PANIC_MSG.with(|m| m.borrow().clone()))),
    }
}

/// A case in engines that have been running for some frames before it begins.
#[derive(Clone, Debug, Serialize, serde::Deserialize)]
pub struct AgedCase<C> {
    #[serde(default, skip_serializing_if = "is_zero")]
    pub uptime: u64,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub lived: u64,
    #[serde(flatten)]
    pub case: C,
}

fn is_zero(n: &u64) -> bool {
    *n == 0
}

/// The same property, now and then late in the life of its engines.
pub struct Aged<P>(std::marker::PhantomData<P>);

impl<P: Prop> Prop for Aged<P> {
    type Case = AgedCase<P::Case>;
    const ID: &'static str = P::ID;
    const RULE: &'static str = P::RULE;
    const MULTI: bool = P::MULTI;
    const SCHEDULED: bool = P::SCHEDULED;
    const WORKERS: usize = P::WORKERS;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case> {
        use proptest::prelude::*;
        let uptime = prop_oneof![
            20_000 => Just(0u64),
            200 => (6u32..30, any::<u64>()).prop_map(|(b, r)| (1 << b) + r % (1 << b)),
            6 => (31u32..33, 0u64..2000).prop_map(|(b, r)| (1 << b) - 1000 + r),
        ];
        let lived = prop_oneof![
            400 => Just(0u64),
            1 => (0u32..17, any::<u64>()).prop_map(|(b, r)| (1 << b) + r % (1 << b)),
        ];
        (uptime, lived, P::strategy(tier)).prop_map(|(uptime, lived, case)| AgedCase { uptime, lived, case }).boxed()
    }
    fn cases(tier: Tier) -> u64 {
        P::cases(tier)
    }
    fn run(k: &Self::Case) -> CaseResult {
        crate::util::set_uptime(k.uptime, k.lived);
        let r = P::run(&k.case);
        let late = crate::util::epoch() > 0.0;
        crate::util::set_uptime(0, 0);
        r.map(|mut o| {
            o.label(late, "late in the life of the engine");
            o.label(late && k.uptime > 1 << 30, "after days");
            o.label(k.lived > 1000, "nodes that lived long");
            o
        })
    }
    fn assumptions() -> Vec<String> {
        P::assumptions()
    }
}

fn run_case<P: Prop>(case: &P::Case) -> CaseResult {
    match catching(|| P::run(case)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

/// Report stream: fd 1 as it was given to us; the library prints on the real fd 1, which goes to /dev/null.
static REPORT_FD: std::sync::OnceLock<i32> = std::sync::OnceLock::new();

pub fn redirect_stdout() {
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if saved >= 0 && null >= 0 {
            libc::dup2(null, 1);
            libc::close(null);
            let _ = REPORT_FD.set(saved);
        }
    }
}

pub fn report(line: &str) {
    let fd = *REPORT_FD.get().unwrap_or(&1);
    let s = format!("{line}\n");
    let mut off = 0;
    let b = s.as_bytes();
    while off < b.len() {
        let n = unsafe { libc::write(fd, b[off..].as_ptr() as *const _, b.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
}

struct Slot<C> {
    case: Option<Arc<C>>,
    index: u64,
    started: Instant,
    tid: i32,
}

struct Shared {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
}

fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

/// (state, cpu ticks) of a thread of this process.
fn thread_stat(tid: i32) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let state = f[0].chars().next()?;
    let ticks: u64 = f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    Some((state, ticks))
}

fn process_cpu() -> f64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        let t = |v: libc::timeval| v.tv_sec as f64 + v.tv_usec as f64 * 1e-6;
        t(u.ru_utime) + t(u.ru_stime)
    }
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VP_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn save_replay<C: Serialize>(id: &str, case: &C, error: &str) -> String {
    let v = serde_json::json!({"property": id, "error": error, "case": case});
    let text = serde_json::to_string(&v).unwrap();
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{:016x}.json", hash_str(&text)));
    let mut f = std::fs::File::create(&path).expect("cannot write replay file");
    f.write_all(text.as_bytes()).unwrap();
    path.display().to_string()
}

fn sample_value<C: Serialize>(case: &C) -> serde_json::Value {
    let t = serde_json::to_string(case).unwrap_or_default();
    if t.len() <= 4000 {
        serde_json::from_str(&t).unwrap_or(serde_json::Value::String(t))
    } else {
        let mut e = 4000;
        while !t.is_char_boundary(e) {
            e -= 1;
        }
        serde_json::Value::String(format!("{}… ({} bytes)", &t[..e], t.len()))
    }
}

fn load_case<P: Prop>(path: &std::path::Path) -> Result<P::Case, String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let v: serde_json::Value = serde_json::from_str(&t).map_err(|e| format!("{}: {e}", path.display()))?;
    serde_json::from_value(v["case"].clone()).map_err(|e| format!("{}: {e}", path.display()))
}

enum Verdict {
    Held,
    Violated { replay: String, error: String },
}

struct Watch {
    window_from: Instant,
    cpu_at: f64,
}

/// Watch the workers; returns the reason when a case is blocked for good or does not terminate.
fn supervise<P: Prop>(
    slots: &[Arc<Mutex<Slot<P::Case>>>],
    own_wait: &[Arc<AtomicBool>],
    done: &AtomicU64,
    want: u64,
    tier: Tier,
) -> Option<(Arc<P::Case>, String)> {
    let limit_cpu = if tier == Tier::Quick { 100.0 } else { 400.0 };
    let tick = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
    // Per worker: case index, last ticks, ticks when first noticed, asleep without progress since.
    let mut quiet: Vec<(u64, u64, u64, Instant)> = slots.iter().map(|_| (u64::MAX, 0, 0, Instant::now())).collect();
    let mut w = Watch { window_from: Instant::now(), cpu_at: process_cpu() };
    let mut nap = 2u64;
    while done.load(Ordering::SeqCst) < want {
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(200);
        for (i, s) in slots.iter().enumerate() {
            let (case, index, started, tid) = {
                let s = s.lock().unwrap();
                match &s.case {
                    None => continue,
                    Some(c) => (c.clone(), s.index, s.started, s.tid),
                }
            };
            if started.elapsed() < Duration::from_secs(5) {
                continue;
            }
            let Some((state, ticks)) = thread_stat(tid) else { continue };
            if quiet[i].0 != index {
                quiet[i] = (index, ticks, ticks, Instant::now());
            }
            let cpu = (ticks - quiet[i].2) as f64 / tick;
            if cpu > limit_cpu {
                return Some((case, format!("does not terminate: one case has used {cpu:.0} s of CPU time")));
            }
            if quiet[i].1 != ticks || state != 'S' || own_wait[i].load(Ordering::SeqCst) {
                quiet[i] = (index, ticks, quiet[i].2, Instant::now());
            }
            if !P::MULTI && quiet[i].3.elapsed() > Duration::from_secs(12) {
                return Some((case, "blocks for ever: the calling thread sleeps and nothing can wake it".into()));
            }
        }
        if P::MULTI && w.window_from.elapsed() > Duration::from_secs(20) {
            let now = process_cpu();
            let used = now - w.cpu_at;
            w = Watch { window_from: Instant::now(), cpu_at: now };
            if used < 0.3 {
                for s in slots {
                    let s = s.lock().unwrap();
                    if let Some(c) = &s.case {
                        if s.started.elapsed() > Duration::from_secs(20) {
                            return Some((c.clone(), "blocks for ever: all threads of the case sleep".into()));
                        }
                    }
                }
            }
        }
    }
    None
}

fn new_slot<C>() -> Arc<Mutex<Slot<C>>> {
    Arc::new(Mutex::new(Slot { case: None, index: 0, started: Instant::now(), tid: 0 }))
}

fn enter<C>(slot: &Mutex<Slot<C>>, case: Arc<C>) {
    let tid = gettid();
    let mut s = slot.lock().unwrap();
    s.case = Some(case);
    s.index += 1;
    s.started = Instant::now();
    s.tid = tid;
}

fn leave<C>(slot: &Mutex<Slot<C>>) {
    let mut s = slot.lock().unwrap();
    s.case = None;
}

/// A case whose outcome depends on the schedule gets several chances to fail.
fn run_again<P: Prop>(case: &P::Case, times: usize, limit: Duration) -> CaseResult {
    let t0 = Instant::now();
    let mut r = run_case::<P>(case);
    for _ in 1..if P::SCHEDULED { times } else { 1 } {
        if r.is_err() || t0.elapsed() > limit {
            break;
        }
        r = run_case::<P>(case);
    }
    r
}

/// Run saved cases one after another on a watched thread.
fn run_saved<P: Prop>(files: Vec<std::path::PathBuf>, tier: Tier) -> Result<Verdict, String> {
    let slot = new_slot::<P::Case>();
    let own = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(String, String)>>> = Arc::new(Mutex::new(None));
    let bad: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let cur: Arc<Mutex<String>> = Arc::new(Mutex::new(String::new()));
    {
        let (slot, own, done, found, bad, cur) =
            (slot.clone(), own.clone(), done.clone(), found.clone(), bad.clone(), cur.clone());
        std::thread::spawn(move || {
            WAITING_OWN.with(|w| *w.borrow_mut() = Some(own));
            for f in files {
                *cur.lock().unwrap() = f.display().to_string();
                match load_case::<P>(&f) {
                    Err(e) => {
                        *bad.lock().unwrap() = Some(e);
                        break;
                    }
                    Ok(c) => {
                        let c = Arc::new(c);
                        enter(&slot, c.clone());
                        let r = run_again::<P>(&c, 300, Duration::from_secs(20));
                        leave(&slot);
                        if let Err(e) = r {
                            *found.lock().unwrap() = Some((f.display().to_string(), e));
                            break;
                        }
                    }
                }
            }
            done.fetch_add(1, Ordering::SeqCst);
        });
    }
    if let Some((_, why)) = supervise::<P>(&[slot], &[own], &done, 1, tier) {
        return Ok(Verdict::Violated { replay: cur.lock().unwrap().clone(), error: why });
    }
    if let Some(e) = bad.lock().unwrap().take() {
        return Err(e);
    }
    if let Some((p, e)) = found.lock().unwrap().take() {
        return Ok(Verdict::Violated { replay: p, error: e });
    }
    Ok(Verdict::Held)
}

pub fn replay<P: Prop>(path: &str) -> i32 {
    match run_saved::<P>(vec![path.into()], Tier::Quick) {
        Err(e) => {
            report(&format!("error: {e}"));
            2
        }
        Ok(Verdict::Held) => {
            report(&format!("held property={} replay={path}", P::ID));
            0
        }
        Ok(Verdict::Violated { replay, error }) => {
            report(&format!("{}: {error}", P::ID));
            report(&format!("VIOLATION property={} replay={replay}", P::ID));
            1
        }
    }
}

pub fn check<P: Prop>(tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let scale: f64 = std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);

    // 1. Regressions: the minimal cases of defects found before.
    let mut files: Vec<std::path::PathBuf> = std::fs::read_dir(verif_dir().join("regressions").join(P::ID))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json")).collect())
        .unwrap_or_default();
    files.sort();
    let n_reg = files.len() as u64;
    let mut verdict = if files.is_empty() {
        Verdict::Held
    } else {
        match run_saved::<P>(files, tier) {
            Ok(v) => v,
            Err(e) => {
                report(&format!("error: {e}"));
                return 2;
            }
        }
    };

    let shared = Arc::new(Mutex::new(Shared {
        evaluations: n_reg,
        nontrivial: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
    }));

    // 2. Generated cases.
    if matches!(verdict, Verdict::Held) {
        let workers = P::WORKERS;
        let total = ((P::cases(tier) as f64 * scale) as u64).max(workers as u64);
        let slots: Vec<_> = (0..workers).map(|_| new_slot::<P::Case>()).collect();
        let owns: Vec<_> = (0..workers).map(|_| Arc::new(AtomicBool::new(false))).collect();
        let done = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let found: Arc<Mutex<Option<(P::Case, String)>>> = Arc::new(Mutex::new(None));
        let aborted: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
        for wk in 0..workers {
            let (slot, own, done, stop, found, aborted, shared) = (
                slots[wk].clone(),
                owns[wk].clone(),
                done.clone(),
                stop.clone(),
                found.clone(),
                aborted.clone(),
                shared.clone(),
            );
            let n = total / workers as u64 + u64::from((wk as u64) < total % workers as u64);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    WAITING_OWN.with(|w| *w.borrow_mut() = Some(own));
                    let mixed = crate::util::mix64(
                        seed ^ crate::util::mix64(hash_str(P::ID) ^ ((wk as u64) << 32)),
                    );
                    let config = Config {
                        cases: n as u32,
                        failure_persistence: None,
                        rng_algorithm: RngAlgorithm::ChaCha,
                        rng_seed: RngSeed::Fixed(mixed),
                        max_shrink_iters: 4000,
                        max_shrink_time: 60_000,
                        max_global_rejects: 1_000_000,
                        max_local_rejects: 1_000_000,
                        source_file: None,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new(config);
                    let failed = std::cell::Cell::new(false);
                    let mut eval = 0u64;
                    let mut seen: HashSet<u64> = HashSet::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut samples: Vec<serde_json::Value> = vec![];
                    let eval_c = std::cell::RefCell::new((&mut eval, &mut seen, &mut labels, &mut samples));
                    let r = runner.run(&P::strategy(tier), |case| {
                        if stop.load(Ordering::Relaxed) && !failed.get() {
                            return Ok(());
                        }
                        let case = Arc::new(case);
                        enter(&slot, case.clone());
                        let r = if failed.get() { run_again::<P>(&case, 20, Duration::from_secs(2)) } else { run_case::<P>(&case) };
                        leave(&slot);
                        match r {
                            Ok(o) => {
                                if !failed.get() {
                                    let mut g = eval_c.borrow_mut();
                                    *g.0 += 1;
                                    for l in o.labels {
                                        *g.2.entry(l).or_insert(0) += 1;
                                    }
                                    if o.nontrivial {
                                        let t = serde_json::to_string(&*case).unwrap_or_default();
                                        let fresh = g.1.insert(hash_str(&t));
                                        if fresh && (*g.0 == 1 || g.3.len() < 2) {
                                            g.3.push(sample_value(&*case));
                                        }
                                    }
                                }
                                Ok(())
                            }
                            Err(e) => {
                                if !failed.get() {
                                    // Only the first shard to fail goes on to shrink.
                                    if stop.swap(true, Ordering::SeqCst) {
                                        return Ok(());
                                    }
                                    failed.set(true);
                                }
                                Err(TestCaseError::fail(e))
                            }
                        }
                    });
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(why, case)) => {
                            // Error text of the minimal case, re-run once.
                            let arc = Arc::new(case.clone());
                            enter(&slot, arc.clone());
                            let e = run_again::<P>(&arc, 20, Duration::from_secs(2)).err();
                            leave(&slot);
                            *found.lock().unwrap() = Some((case, e.unwrap_or_else(|| why.to_string())));
                        }
                        Err(TestError::Abort(why)) => {
                            *aborted.lock().unwrap() = Some(why.to_string());
                        }
                    }
                    let mut sh = shared.lock().unwrap();
                    sh.evaluations += eval;
                    sh.nontrivial.extend(seen);
                    for (k, v) in labels {
                        *sh.labels.entry(k).or_insert(0) += v;
                    }
                    if sh.samples.len() < 4 {
                        sh.samples.extend(samples.into_iter().take(1));
                    }
                    drop(sh);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .expect("cannot start a worker");
        }
        let hang = supervise::<P>(&slots, &owns, &done, workers as u64, tier);
        if let Some((case, error)) = hang {
            // A shrunk ordinary failure is preferable, but a stuck case is one already.
            let f = found.lock().unwrap().take();
            let (replay, error) = match f {
                Some((c, e)) => (save_replay(P::ID, &c, &e), e),
                None => (save_replay(P::ID, &*case, &error), error),
            };
            verdict = Verdict::Violated { replay, error };
        } else if let Some((case, error)) = found.lock().unwrap().take() {
            let replay = save_replay(P::ID, &case, &error);
            verdict = Verdict::Violated { replay, error };
        } else if let Some(why) = aborted.lock().unwrap().take() {
            report(&format!("error: generation aborted: {why}"));
            return 2;
        }
    }

    // 3. Evidence.
    let sh = shared.lock().unwrap();
    let violations = matches!(verdict, Verdict::Violated { .. }) as i32;
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sh.evaluations,
            "distinct_nontrivial": sh.nontrivial.len(),
            "rule": P::RULE,
            "samples": sh.samples,
            "labels": sh.labels,
            "regressions_replayed": n_reg,
            "workers": P::WORKERS,
        },
        "assumptions": P::assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", P::ID)), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        report(&format!("error: cannot write evidence: {e}"));
        return 2;
    }
    match verdict {
        Verdict::Held => {
            report(&format!(
                "{}: held on {} cases ({} distinct non-trivial) in {:.1} s; labels {:?}",
                P::ID,
                sh.evaluations,
                sh.nontrivial.len(),
                t0.elapsed().as_secs_f64(),
                sh.labels
            ));
            0
        }
        Verdict::Violated { replay, error } => {
            report(&format!("{}: {error}", P::ID));
            report(&format!("VIOLATION property={} replay={replay}", P::ID));
            1
        }
    }
}
