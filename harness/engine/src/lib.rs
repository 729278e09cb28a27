//! The property-based testing engine shared by all checks.
//!
//! A check is a list of `Family`s. Each family has a proptest strategy that generates serializable
//! cases and a function that runs one case against the real code and an oracle. The engine drives
//! a fixed number of cases (a pure function of VERIF_SEED and the tier), measures what was
//! generated, shrinks the first failure through proptest's value trees and writes it as a replay
//! file.
pub mod words;

pub use proptest;
pub use serde;
pub use serde_json;

use proptest::{
    strategy::{BoxedStrategy, Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::json;
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    io::Write,
    os::unix::{fs::FileExt, process::ExitStatusExt},
    panic::AssertUnwindSafe,
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Instant,
};

/// What one execution of a case reports about itself.
#[derive(Default)]
pub struct Stats {
    nontrivial: bool,
    labels: Vec<&'static str>,
    note: Option<String>,
}

impl Stats {
    /// Mark the case as exercising what the property is about.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Classify the case, for the distribution in the evidence.
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// Attach a human readable note for the samples.
    pub fn note(&mut self, n: impl Into<String>) {
        self.note = Some(n.into());
    }
}

/// A failed case. `sig` identifies the failure for the known-findings file.
#[derive(Debug, Clone)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
}

impl Failure {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Failure {
            sig: sig.into(),
            msg: msg.into(),
        }
    }
}

pub type Verdict = Result<(), Failure>;

/// `ensure!(cond, "sig", "format", args..)`
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($t:tt)+) => {
        if !$c { return Err($crate::Failure::new($sig, format!($($t)+))); }
    };
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    family: String,
    seed: u64,
    tier: String,
    failure: String,
    signature: String,
    case: serde_json::Value,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub tier: String,
    pub evidence: PathBuf,
    pub replay_dir: PathBuf,
    pub known: Vec<(String, String)>,
    pub threads: usize,
    pub scale: f64,
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

/// Totals over all shards of a family.
#[derive(Default)]
struct Totals {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    known_hits: BTreeMap<String, u64>,
}

pub trait DynFamily: Send + Sync {
    fn name(&self) -> &'static str;
    fn run(&self, cx: &Ctx, out: &Mutex<Report>);
    fn replay(&self, case: serde_json::Value) -> Result<Verdict, String>;
}

type CheckFn<C> = Arc<dyn Fn(&C, &mut Stats) -> Verdict + Send + Sync>;

pub struct Family<C> {
    pub name: &'static str,
    /// number of cases of the quick tier
    pub quick: u64,
    /// number of cases of the thorough tier
    pub thorough: u64,
    pub strategy: Arc<dyn Fn() -> BoxedStrategy<C> + Send + Sync>,
    pub check: CheckFn<C>,
}

impl<C: 'static> Family<C> {
    pub fn new<S: Strategy<Value = C> + 'static>(
        name: &'static str,
        quick: u64,
        thorough: u64,
        strategy: impl Fn() -> S + Send + Sync + 'static,
        check: impl Fn(&C, &mut Stats) -> Verdict + Send + Sync + 'static,
    ) -> Self
    where
        C: Clone + std::fmt::Debug,
    {
        Family {
            name,
            quick,
            thorough,
            strategy: Arc::new(move || strategy().boxed()),
            check: Arc::new(check),
        }
    }
}

#[derive(Default)]
pub struct Report {
    totals: BTreeMap<&'static str, Totals>,
    failure: Option<(String, serde_json::Value, Failure, u64)>,
}

thread_local! {
    static PANIC_AT: RefCell<Option<String>> = const { RefCell::new(None) };
    static CATCHING: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if CATCHING.with(|c| c.get()) == 0 {
            eprintln!("internal error: {info}");
        }
        PANIC_AT.with(|p| *p.borrow_mut() = Some(loc));
    }));
}

/// Run `f`, turning a panic into a message with its location.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CATCHING.with(|c| c.set(c.get() + 1));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(c.get() - 1));
    match r {
        Ok(t) => Ok(t),
        Err(e) => {
            let msg = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let at = PANIC_AT.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("{msg} (at {at})"))
        }
    }
}

fn eval<C>(check: &CheckFn<C>, c: &C, stats: &mut Stats) -> Verdict {
    match catch(|| check(c, stats)) {
        Ok(v) => v,
        Err(m) => Err(Failure::new("panic", format!("panicked: {m}"))),
    }
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn runner_for(seed: u64, family: &str, shard: u64) -> TestRunner {
    let mut s = mix(seed ^ fnv(family.as_bytes())).wrapping_add(shard);
    let mut bytes = [0u8; 32];
    for chunk in bytes.chunks_mut(8) {
        s = mix(s);
        chunk.copy_from_slice(&s.to_le_bytes());
    }
    TestRunner::new_with_rng(
        Config {
            failure_persistence: None,
            ..Config::default()
        },
        TestRng::from_seed(RngAlgorithm::ChaCha, &bytes),
    )
}

/// Per-thread slots holding the case in flight, so that a case that kills the process is known.
struct Inflight {
    file: Option<std::fs::File>,
}
const SLOT: u64 = 1 << 20;
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static HANG: AtomicU64 = AtomicU64::new(0);
const HUNG: i32 = 77;

/// A case that is not done after this many seconds never will be: it takes milliseconds.
pub fn hangs_after(seconds: u64) {
    HANG.store(seconds, Ordering::Relaxed);
}

/// Run a command. `None` if it is not done in time.
fn timed(c: &mut std::process::Command, seconds: u64) -> Option<std::process::ExitStatus> {
    let mut child = c.spawn().ok()?;
    for _ in 0..seconds * 10 {
        if let Ok(Some(s)) = child.try_wait() {
            return Some(s);
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    let _ = child.kill();
    let _ = child.wait();
    None
}

static DONE: AtomicBool = AtomicBool::new(false);

impl Inflight {
    fn open() -> Self {
        Inflight {
            file: std::env::var_os("PBT_INFLIGHT").and_then(|p| {
                std::fs::OpenOptions::new()
                    .write(true)
                    .create(true)
                    .truncate(false)
                    .open(p)
                    .ok()
            }),
        }
    }
    fn put(&self, slot: usize, family: &str, case: &[u8]) {
        if let Some(f) = &self.file {
            if case.len() as u64 + 64 < SLOT {
                let mut b = Vec::with_capacity(case.len() + 64);
                b.extend_from_slice(&(case.len() as u64).to_le_bytes());
                let mut name = [0u8; 32];
                let n = family.len().min(32);
                name[..n].copy_from_slice(&family.as_bytes()[..n]);
                b.extend_from_slice(&name);
                b.extend_from_slice(case);
                let _ = f.write_at(&b, slot as u64 * SLOT);
            }
        }
    }
}

impl<C> DynFamily for Family<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn replay(&self, case: serde_json::Value) -> Result<Verdict, String> {
        let c: C = serde_json::from_value(case).map_err(|e| e.to_string())?;
        Ok(eval(&self.check, &c, &mut Stats::default()))
    }

    fn run(&self, cx: &Ctx, out: &Mutex<Report>) {
        let total = if cx.thorough() {
            self.thorough
        } else {
            self.quick
        };
        let total = ((total as f64 * cx.scale) as u64).max(1);
        let nshards = 64u64.min(total);
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        // The failure of the lowest numbered shard wins, so the outcome doesn't depend on timing
        let failed: Mutex<Option<(u64, serde_json::Value, Failure)>> = Mutex::new(None);
        let totals = Mutex::new(Totals::default());
        let is_known = |sig: &str| cx.known.iter().any(|(p, s)| *p == cx.id && s == sig);
        std::thread::scope(|scope| {
            for slot in 0..cx.threads {
                let (next, stop, failed, totals, is_known) =
                    (&next, &stop, &failed, &totals, &is_known);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let inflight = Inflight::open();
                        let strategy = (self.strategy)();
                        loop {
                            let shard = next.fetch_add(1, Ordering::SeqCst) as u64;
                            if shard >= nshards || stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let n = total / nshards + u64::from(shard < total % nshards);
                            let mut runner = runner_for(cx.seed ^ fnv(cx.id.as_bytes()), self.name, shard);
                            let mut t = Totals::default();
                            for i in 0..n {
                                let mut tree = strategy
                                    .new_tree(&mut runner)
                                    .expect("strategies do not reject");
                                let case = tree.current();
                                let bytes = serde_json::to_vec(&case).expect("serializable");
                                inflight.put(slot, self.name, &bytes);
                                let mut stats = Stats::default();
                                let verdict = eval(&self.check, &case, &mut stats);
                                PROGRESS.fetch_add(1, Ordering::Relaxed);
                                t.evaluations += 1;
                                for l in &stats.labels {
                                    *t.labels.entry(l).or_default() += 1;
                                }
                                if stats.nontrivial {
                                    t.nontrivial += 1;
                                    let fresh = t.distinct.insert(fnv(&bytes));
                                    if fresh && shard % 16 == 3 && i > n / 3 && t.samples.is_empty()
                                    {
                                        t.samples.push(sample(&bytes, &stats));
                                    }
                                }
                                if let Err(f) = verdict {
                                    if is_known(&f.sig) {
                                        *t.known_hits.entry(f.sig).or_default() += 1;
                                        continue;
                                    }
                                    // Shrink
                                    let mut best = (case, f);
                                    let mut steps = 0;
                                    let mut ok = tree.simplify();
                                    let started = Instant::now();
                                    while ok && steps < 4000 && started.elapsed().as_secs() < 30 {
                                        steps += 1;
                                        let c = tree.current();
                                        inflight.put(
                                            slot,
                                            self.name,
                                            &serde_json::to_vec(&c).unwrap(),
                                        );
                                        PROGRESS.fetch_add(1, Ordering::Relaxed);
                                        match eval(&self.check, &c, &mut Stats::default()) {
                                            Err(f) if !is_known(&f.sig) => {
                                                best = (c, f);
                                                ok = tree.simplify();
                                            }
                                            _ => ok = tree.complicate(),
                                        }
                                    }
                                    let value = serde_json::to_value(&best.0).unwrap();
                                    let mut g = failed.lock().unwrap();
                                    if g.as_ref().map(|x| shard < x.0).unwrap_or(true) {
                                        *g = Some((shard, value, best.1));
                                    }
                                    stop.store(true, Ordering::SeqCst);
                                    break;
                                }
                            }
                            let mut all = totals.lock().unwrap();
                            all.evaluations += t.evaluations;
                            all.nontrivial += t.nontrivial;
                            all.distinct.extend(t.distinct);
                            for (k, v) in t.labels {
                                *all.labels.entry(k).or_default() += v;
                            }
                            for (k, v) in t.known_hits {
                                *all.known_hits.entry(k).or_default() += v;
                            }
                            if all.samples.len() < 4 {
                                all.samples.extend(t.samples);
                            }
                        }
                    })
                    .expect("spawn");
            }
        });
        let mut out = out.lock().unwrap();
        out.totals.insert(self.name, totals.into_inner().unwrap());
        if let Some((shard, case, f)) = failed.into_inner().unwrap() {
            if out.failure.is_none() {
                out.failure = Some((self.name.into(), case, f, shard));
            }
        }
    }
}

fn sample(bytes: &[u8], stats: &Stats) -> serde_json::Value {
    let mut v: serde_json::Value = if bytes.len() < 1600 {
        serde_json::from_slice(bytes).unwrap()
    } else {
        json!(format!(
            "{}... ({} bytes)",
            String::from_utf8_lossy(&bytes[..1200]),
            bytes.len()
        ))
    };
    if let Some(n) = &stats.note {
        v = json!({"case": v, "observed": n});
    }
    json!({"labels": stats.labels, "sample": v})
}

/// A complete check of one property.
pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Box<dyn DynFamily>>,
}

fn arg(name: &str) -> Option<String> {
    let mut it = std::env::args();
    while let Some(a) = it.next() {
        if a == name {
            return it.next();
        }
    }
    None
}

pub fn read_known(path: &str) -> Vec<(String, String, String)> {
    // known: property=<id> sig=<signature> :: <what fails>
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (id, rest) = l.split_once(" sig=")?;
            let (sig, what) = rest.split_once(" :: ")?;
            Some((id.into(), sig.into(), what.into()))
        })
        .collect()
}

/// Entry point of every check binary:
/// `bin ID [--tier T] [--seed N] [--evidence F] [--replay F]`
pub fn main(checks: Vec<Check>) -> ! {
    let id = std::env::args().nth(1).unwrap_or_default();
    let Some(check) = checks.into_iter().find(|c| c.id == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    let tier = arg("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let seed = arg("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let known_path = root.join("known_findings.txt");
    let known = read_known(known_path.to_str().unwrap());
    let cx = Ctx {
        seed,
        tier: if tier == "thorough" { tier } else { "quick".into() },
        evidence: arg("--evidence")
            .map(PathBuf::from)
            .unwrap_or_else(|| root.join(format!("evidence/{id}.json"))),
        replay_dir: root.join("replays"),
        known: known
            .iter()
            .map(|(a, b, _)| (a.clone(), b.clone()))
            .collect(),
        threads: std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .clamp(2, 16),
        scale: std::env::var("PBT_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0),
        id,
    };
    install_hook();
    if let Some(file) = arg("--replay") {
        replay(&check, &file)
    }
    if std::env::var_os("PBT_CHILD").is_none() {
        parent(&check, &cx)
    }
    std::process::exit(run(&check, &cx, &known));
}

fn replay(check: &Check, file: &str) -> ! {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file"))
        .expect("replay json");
    let fam = check
        .families
        .iter()
        .find(|f| f.name() == r.family)
        .expect("family of the replay");
    match fam.replay(r.case).expect("case of the replay") {
        Ok(()) => {
            println!("replay passes");
            std::process::exit(0)
        }
        Err(f) => {
            println!("replay fails: [{}] {}", f.sig, f.msg);
            std::process::exit(1)
        }
    }
}

fn write_replay(cx: &Ctx, family: &str, case: serde_json::Value, f: &Failure) -> PathBuf {
    let _ = std::fs::create_dir_all(&cx.replay_dir);
    let path = cx.replay_dir.join(format!("{}.json", cx.id));
    let r = Replay {
        property: cx.id.clone(),
        family: family.into(),
        seed: cx.seed,
        tier: cx.tier.clone(),
        failure: f.msg.clone(),
        signature: f.sig.clone(),
        case,
    };
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("write replay");
    path
}

/// Run the work in a child process, so that a case that aborts the process (for example a panic
/// while panicking) is attributed to that case.
fn parent(check: &Check, cx: &Ctx) -> ! {
    let exe = std::env::current_exe().unwrap();
    let inflight = std::env::temp_dir().join(format!("pbt-{}-{}", cx.id, std::process::id()));
    let status = std::process::Command::new(&exe)
        .args(std::env::args().skip(1))
        .env("PBT_CHILD", "1")
        .env("PBT_INFLIGHT", &inflight)
        .status()
        .expect("spawn child");
    let mut code = status.code().unwrap_or(2);
    let hung = status.code() == Some(HUNG);
    if hung || matches!(status.signal(), Some(6) | Some(11) | Some(4) | Some(7) | Some(8)) {
        code = 2;
        let sig = status.signal();
        let what = match sig {
            Some(sig) => format!("the process died of signal {sig}"),
            None => "the case never ends".to_string(),
        };
        eprintln!("{what}; replaying the cases in flight");
        if let Ok(f) = std::fs::File::open(&inflight) {
            for slot in 0..cx.threads as u64 {
                let mut head = [0u8; 40];
                if f.read_exact_at(&mut head, slot * SLOT).is_err() {
                    continue;
                }
                let len = u64::from_le_bytes(head[..8].try_into().unwrap()) as usize;
                let family = String::from_utf8_lossy(&head[8..])
                    .trim_end_matches('\0')
                    .to_string();
                let mut body = vec![0u8; len];
                if len == 0 || f.read_exact_at(&mut body, slot * SLOT + 40).is_err() {
                    continue;
                }
                let Ok(case) = serde_json::from_slice::<serde_json::Value>(&body) else {
                    continue;
                };
                let failure = Failure::new(if hung { "hang" } else { "abort" }, what.clone());
                let path = write_replay(cx, &family, case, &failure);
                let st = timed(
                    std::process::Command::new(&exe)
                        .arg(&cx.id)
                        .arg("--replay")
                        .arg(&path)
                        .env("PBT_CHILD", "1")
                        .stdout(std::process::Stdio::null())
                        .stderr(std::process::Stdio::null()),
                    HANG.load(Ordering::Relaxed).max(60),
                );
                let again = match st {
                    None => hung,
                    Some(s) => sig.is_some() && s.signal() == sig,
                };
                if again {
                    println!("VIOLATION property={} replay={}", cx.id, path.display());
                    write_evidence(check, cx, &Report::default(), 1, 0.0);
                    code = 1;
                    break;
                }
                let _ = std::fs::remove_file(&path);
            }
        }
    }
    let _ = std::fs::remove_file(&inflight);
    std::process::exit(code)
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = 0;
        let mut stuck = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(5));
            if DONE.load(Ordering::SeqCst) {
                return;
            }
            let now = PROGRESS.load(Ordering::Relaxed);
            if now == last {
                stuck += 5;
            } else {
                stuck = 0;
            }
            last = now;
            let hang = HANG.load(Ordering::Relaxed);
            if hang > 0 && stuck >= hang {
                eprintln!("watchdog: no progress for {stuck} s");
                std::process::exit(HUNG);
            }
            if stuck >= 240 {
                eprintln!("watchdog: no progress for {stuck} s; inconclusive");
                std::process::exit(2);
            }
        }
    });
}

fn run(check: &Check, cx: &Ctx, known: &[(String, String, String)]) -> i32 {
    let start = Instant::now();
    watchdog();
    let report = Mutex::new(Report::default());
    for fam in &check.families {
        if let Some(only) = arg("--family") {
            if only != fam.name() {
                continue;
            }
        }
        let t = Instant::now();
        fam.run(cx, &report);
        let r = report.lock().unwrap();
        let tot = &r.totals[fam.name()];
        eprintln!(
            "{} {}: {} cases, {} non-trivial, {} distinct, {:.1} s",
            cx.id,
            fam.name(),
            tot.evaluations,
            tot.nontrivial,
            tot.distinct.len(),
            t.elapsed().as_secs_f64()
        );
        if std::env::var_os("PBT_LABELS").is_some() {
            for (k, v) in &tot.labels {
                eprintln!("    {k}: {v}");
            }
        }
        if r.failure.is_some() {
            break;
        }
    }
    DONE.store(true, Ordering::SeqCst);
    let report = report.into_inner().unwrap();
    for (id, sig, what) in known {
        if *id == cx.id {
            let hits: u64 = report
                .totals
                .values()
                .filter_map(|t| t.known_hits.get(sig))
                .sum();
            println!("KNOWN-FINDING: property={id} {what} (signature {sig}, reproduced {hits} times in this run)");
        }
    }
    let code = i32::from(report.failure.is_some());
    write_evidence(check, cx, &report, code, start.elapsed().as_secs_f64());
    if let Some((family, case, f, _)) = &report.failure {
        let path = write_replay(cx, family, case.clone(), f);
        println!("{} {family}: [{}] {}", cx.id, f.sig, f.msg);
        println!("VIOLATION property={} replay={}", cx.id, path.display());
    }
    let _ = std::io::stdout().flush();
    code
}

fn write_evidence(check: &Check, cx: &Ctx, report: &Report, violations: i32, wall: f64) {
    let mut evaluations = 0;
    let mut distinct = 0;
    let mut samples = vec![];
    let mut fams = serde_json::Map::new();
    for (name, t) in &report.totals {
        evaluations += t.evaluations;
        distinct += t.distinct.len() as u64;
        for s in &t.samples {
            samples.push(json!({"family": name, "case": s}));
        }
        fams.insert(
            name.to_string(),
            json!({
                "evaluations": t.evaluations,
                "non_trivial": t.nontrivial,
                "distinct_non_trivial": t.distinct.len(),
                "classes": t.labels,
                "known_finding_hits": t.known_hits,
            }),
        );
    }
    let ev = json!({
        "property": cx.id,
        "tier": cx.tier,
        "seed": cx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": check.rule,
            "samples": samples,
            "families": fams,
        },
        "assumptions": check.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    if let Some(p) = cx.evidence.parent() {
        let _ = std::fs::create_dir_all(p);
    }
    std::fs::write(&cx.evidence, serde_json::to_string_pretty(&ev).unwrap())
        .expect("write evidence");
}
