//! Shared engine of the property checks: drives proptest with a fixed seed,
//! counts and classifies the generated cases, writes the evidence file, and
//! turns every shrunk failure into a replay file.
//!
//! Every random choice is made by proptest strategies from VERIF_SEED, so a
//! run is a pure function of the code, the seed and the tier (up to the
//! operating system's thread scheduling in the concurrency checks).

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::thread::ThreadId;
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;

pub mod gen;

/// What one case reports about itself.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub evals: u64,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Count extra executions done inside this case (fault positions, schedules).
    pub fn extra_evals(&mut self, n: u64) {
        self.evals += n;
    }
}

pub type CaseResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) { return Err(format!($($arg)*)); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    per_sub: BTreeMap<String, u64>,
}

pub struct Ctx {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    verif: PathBuf,
    rule: String,
    assumptions: Vec<String>,
    stats: Mutex<Stats>,
    violations: Mutex<Vec<(String, PathBuf)>>,
    start: Instant,
    replay: Option<(String, serde_json::Value)>,
    replayed: Mutex<bool>,
    only: Option<String>,
    trace: bool,
    extra: Mutex<BTreeMap<String, serde_json::Value>>,
    running: Arc<Mutex<HashMap<ThreadId, Current>>>,
}

/// A case now running: what the watchdog needs to report it if it never ends.
struct Current {
    since: Instant,
    sub: String,
    case: *const (),
    show: unsafe fn(*const ()) -> serde_json::Value,
}
unsafe impl Send for Current {}

/// A single case takes far less than a second (concurrent ones a few). One
/// that has run this long is examined: if every thread of the process sleeps
/// and none has used any processor time for QUIET, nothing can wake it any
/// more and it is reported as a deadlock; if it has used RUNAWAY of processor
/// time (not wall-clock time) it is reported as not ending. Anything else,
/// such as a machine that is merely slow, gives no verdict after GIVE_UP.
const SUSPECT: Duration = Duration::from_secs(45);
const QUIET: Duration = Duration::from_secs(30);
const RUNAWAY: Duration = Duration::from_secs(150);
const GIVE_UP: Duration = Duration::from_secs(600);

/// In the quick tier, no new case is started after this long (they normally
/// take a twentieth of it): a slow machine explores fewer cases.
const QUICK_BUDGET: Duration = Duration::from_secs(400);

/// (processor time in ticks, all asleep) over the threads of this process other than `me`.
fn threads_now(me: &str) -> Option<(u64, bool)> {
    let (mut ticks, mut asleep) = (0, true);
    for t in std::fs::read_dir("/proc/self/task").ok()? {
        let t = t.ok()?;
        if t.file_name().to_string_lossy() == me {
            continue;
        }
        let Ok(stat) = std::fs::read_to_string(t.path().join("stat")) else { continue };
        let mut f = stat[stat.rfind(')')? + 1..].split_whitespace();
        asleep &= f.next()? == "S";
        let mut f = f.skip(10);
        ticks += f.next()?.parse::<u64>().ok()? + f.next()?.parse::<u64>().ok()?;
    }
    Some((ticks, asleep))
}

fn watch(running: Arc<Mutex<HashMap<ThreadId, Current>>>, property: String, verif: PathBuf) {
    let me = std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|n| n.to_string_lossy().into_owned()))
        .unwrap_or_default();
    // the longest-running case: its start, and the processor time when first seen
    let mut suspect: Option<(Instant, u64)> = None;
    // since when nothing has moved
    let mut quiet: Option<(u64, Instant)> = None;
    loop {
        std::thread::sleep(Duration::from_secs(3));
        let r = running.lock().unwrap();
        let Some(c) = r.values().min_by_key(|c| c.since) else {
            suspect = None;
            quiet = None;
            continue;
        };
        let Some((ticks, asleep)) = threads_now(&me) else { continue };
        match suspect {
            Some((since, _)) if since == c.since => {}
            _ => {
                suspect = Some((c.since, ticks));
                quiet = None;
            }
        }
        match quiet {
            Some((t, _)) if asleep && t == ticks => {}
            _ if asleep => quiet = Some((ticks, Instant::now())),
            _ => quiet = None,
        }
        if c.since.elapsed() < SUSPECT {
            continue;
        }
        let used = Duration::from_millis(10 * ticks.saturating_sub(suspect.unwrap().1));
        let what = if quiet.is_some_and(|(_, i)| i.elapsed() > QUIET) {
            "is deadlocked: every thread sleeps and none can be woken any more"
        } else if used > RUNAWAY * r.len() as u32 {
            "does not end: it has used several minutes of processor time"
        } else if c.since.elapsed() > GIVE_UP {
            eprintln!("{property}: a case of {} did not end within {} s, no verdict", c.sub, GIVE_UP.as_secs());
            std::process::exit(3);
        } else {
            continue;
        };
        // the case is borrowed by its thread for as long as it is registered
        let case = unsafe { (c.show)(c.case) };
        let d = verif.join("replays");
        let _ = std::fs::create_dir_all(&d);
        let path = d.join(format!("{property}-hang.json"));
        let body = serde_json::json!({"property": property, "sub": c.sub, "case": case,
            "message": format!("this case {what}"),
            "rerun": format!("/verif/check {} replay {}", property, path.display())});
        let _ = std::fs::write(&path, body.to_string());
        println!("property {property}: a case of {} {what}", c.sub);
        println!("VIOLATION property={property} replay={}", path.display());
        std::process::exit(1);
    }
}

struct Running<'a>(&'a Mutex<HashMap<ThreadId, Current>>);
impl<'a> Running<'a> {
    fn new<C: Serialize>(m: &'a Mutex<HashMap<ThreadId, Current>>, sub: &str, case: &C) -> Self {
        unsafe fn show<C: Serialize>(p: *const ()) -> serde_json::Value {
            serde_json::to_value(&*(p as *const C)).unwrap_or(serde_json::Value::Null)
        }
        let c = Current { since: Instant::now(), sub: sub.to_string(), case: case as *const C as *const (), show: show::<C> };
        m.lock().unwrap().insert(std::thread::current().id(), c);
        Running(m)
    }
}
impl Drop for Running<'_> {
    fn drop(&mut self) {
        self.0.lock().unwrap().remove(&std::thread::current().id());
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_string()
    }
}

/// Run `f`, turning a panic into an Err with its message and location.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|l| l.borrow_mut().take());
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let loc = LAST_PANIC.with(|l| l.borrow_mut().take());
        format!("{what} panicked: {}", loc.unwrap_or_else(|| panic_text(&*p)))
    })
}

fn hash_of(s: &str) -> u64 {
    // FNV-1a: stable across runs and toolchains.
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    s.hash(&mut f);
    f.finish()
}

fn shorten(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        return v;
    }
    let mut end = 1500;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    serde_json::Value::String(format!("{}... ({} bytes)", &s[..end], s.len()))
}

impl Ctx {
    /// Reads `<property> [--replay FILE]` from the command line and the
    /// VERIF_* environment.
    pub fn from_env() -> Ctx {
        let args: Vec<String> = std::env::args().collect();
        let property = args.get(1).cloned().unwrap_or_else(|| {
            eprintln!("usage: {} PROPERTY [--replay FILE]", args[0]);
            std::process::exit(2)
        });
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let replay = args.iter().position(|a| a == "--replay").map(|i| {
            let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
            (
                v["sub"].as_str().expect("sub").to_string(),
                v["case"].clone(),
            )
        });
        std::panic::set_hook(Box::new(|info| {
            let msg = panic_text_info(info);
            let loc = info
                .location()
                .map(|l| format!(" at {}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("{msg}{loc}")));
            if std::env::var_os("VERIF_PANICS").is_some() {
                eprintln!("panic: {msg}{loc}");
            }
        }));
        let running: Arc<Mutex<HashMap<ThreadId, Current>>> = Arc::default();
        {
            let (running, property, verif) = (running.clone(), property.clone(), verif.clone());
            std::thread::spawn(move || watch(running, property, verif));
        }
        Ctx {
            running,
            property,
            tier,
            seed,
            verif,
            rule: String::new(),
            assumptions: vec![],
            stats: Mutex::new(Stats::default()),
            violations: Mutex::new(vec![]),
            start: Instant::now(),
            replay,
            replayed: Mutex::new(false),
            only: std::env::var("VERIF_ONLY").ok(),
            trace: std::env::var_os("VERIF_TRACE").is_some(),
            extra: Mutex::new(BTreeMap::new()),
        }
    }

    pub fn rule(&mut self, r: &str) {
        self.rule = r.to_string();
    }

    pub fn assume(&mut self, a: &str) {
        self.assumptions.push(a.to_string());
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// The quick tier has used up its time.
    pub fn out_of_time(&self) -> bool {
        let over = !self.thorough() && self.start.elapsed() > QUICK_BUDGET;
        if over {
            self.note("cut_short", format!("no case was started after {} s", QUICK_BUDGET.as_secs()));
        }
        over
    }

    /// Number of cases: `quick` in the quick tier, `mult` times that otherwise.
    /// VERIF_SCALE (a factor, default 1) is for development only.
    pub fn cases(&self, quick: u32, mult: u32) -> u32 {
        let scale: f64 = std::env::var("VERIF_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0);
        let n = if self.thorough() { quick.saturating_mul(mult) } else { quick };
        ((n as f64 * scale) as u32).max(1)
    }

    pub fn note(&self, k: &str, v: impl Into<serde_json::Value>) {
        self.extra.lock().unwrap().insert(k.to_string(), v.into());
    }

    fn rng(&self, sub: &str, shard: u64) -> TestRng {
        let mut bytes = [0u8; 32];
        for (i, chunk) in bytes.chunks_mut(8).enumerate() {
            let h = hash_of(&format!("{}/{}/{}/{}/{}", self.seed, self.property, sub, shard, i));
            chunk.copy_from_slice(&h.to_le_bytes());
        }
        TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
    }

    fn replay_path(&self, sub: &str) -> PathBuf {
        let d = self.verif.join("replays");
        let _ = std::fs::create_dir_all(&d);
        d.join(format!("{}-{}.json", self.property, sub))
    }

    fn write_replay(&self, sub: &str, case: serde_json::Value, msg: &str) -> PathBuf {
        let path = self.replay_path(sub);
        let body = serde_json::json!({
            "property": self.property, "sub": sub, "seed": self.seed, "tier": self.tier,
            "message": msg, "case": case,
            "rerun": format!("/verif/check {} replay {}", self.property, path.display()),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        path
    }

    /// Report a violation found outside of `check` (generated programs).
    pub fn violation(&self, sub: &str, case: serde_json::Value, msg: &str) {
        let path = self.write_replay(sub, case, msg);
        eprintln!("[{}/{}] VIOLATION: {}", self.property, sub, msg);
        self.violations.lock().unwrap().push((msg.to_string(), path));
    }

    pub fn record<C: Serialize>(&self, sub: &str, case: &C, obs: Obs) {
        let v = serde_json::to_value(case).unwrap_or(serde_json::Value::Null);
        self.record_value(sub, v, obs)
    }

    pub fn record_value(&self, sub: &str, v: serde_json::Value, obs: Obs) {
        let h = hash_of(&format!("{sub}/{v}"));
        let mut st = self.stats.lock().unwrap();
        st.evaluations += 1 + obs.evals;
        *st.per_sub.entry(sub.to_string()).or_default() += 1;
        for l in &obs.labels {
            *st.labels.entry(format!("{sub}: {l}")).or_default() += 1;
        }
        if obs.nontrivial {
            let new = st.nontrivial.insert(h);
            // keep a few samples per sub-check, spread over the run
            let n = st.per_sub[sub];
            let have = st.samples.iter().filter(|s| s["sub"] == sub).count();
            if new && ((have == 0) || (have < 3 && n % 97 == 0)) {
                st.samples.push(serde_json::json!({"sub": sub, "case": shorten(v)}));
            }
        }
    }

    fn skip(&self, sub: &str) -> bool {
        if let Some((s, _)) = &self.replay {
            return s != sub;
        }
        self.only.as_deref().is_some_and(|o| o != sub)
    }

    pub fn wants(&self, sub: &str) -> bool {
        !self.skip(sub)
    }

    pub fn replay_case(&self, sub: &str) -> Option<serde_json::Value> {
        let (s, c) = self.replay.as_ref()?;
        if s == sub {
            *self.replayed.lock().unwrap() = true;
            Some(c.clone())
        } else {
            None
        }
    }

    fn run_one<C: Serialize>(
        &self,
        sub: &str,
        case: &C,
        f: &(impl Fn(&C, &mut Obs) -> CaseResult + ?Sized),
        record: bool,
    ) -> CaseResult {
        if self.trace {
            let v = serde_json::to_value(case).unwrap_or(serde_json::Value::Null);
            let _ = self.write_replay("crash", v.clone(), "running this case ended the process");
            let path = self.replay_path("crash");
            // the replay must name the real sub-check
            let body = serde_json::json!({"property": self.property, "sub": sub, "seed": self.seed,
                "tier": self.tier, "message": "running this case ended the process", "case": v,
                "rerun": format!("/verif/check {} replay {}", self.property, path.display())});
            let _ = std::fs::write(&path, body.to_string());
        }
        let _running = Running::new(&self.running, sub, case);
        let mut obs = Obs::default();
        let r = match no_panic("the case", || f(case, &mut obs)) {
            Ok(r) => r,
            Err(e) => Err(e),
        };
        if record {
            self.record(sub, case, obs);
        }
        r
    }

    fn run_shard<C>(
        &self,
        sub: &str,
        shard: u64,
        cases: u32,
        strategy: BoxedStrategy<C>,
        f: &(impl Fn(&C, &mut Obs) -> CaseResult + ?Sized),
        concurrent: bool,
    ) where
        C: Serialize + Debug + Clone + 'static,
    {
        let cfg = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: if concurrent { 300 } else { 20_000 },
            max_shrink_time: 60_000,
            max_global_rejects: 1_000_000,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(cfg, self.rng(sub, shard));
        let failed = std::cell::Cell::new(false);
        // the first failure, before shrinking
        let first: RefCell<Option<(serde_json::Value, String)>> = RefCell::new(None);
        let res = runner.run(&strategy, |case| {
            if !failed.get() && self.out_of_time() {
                return Ok(());
            }
            let r = self.run_one(sub, &case, f, !failed.get());
            r.map_err(|m| {
                if !failed.replace(true) {
                    *first.borrow_mut() = Some((serde_json::to_value(&case).unwrap_or_default(), m.clone()));
                }
                TestCaseError::fail(m)
            })
        });
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                let v = serde_json::to_value(&case).unwrap_or(serde_json::Value::Null);
                // the message of the shrunk case, if it fails deterministically
                let msg = match self.run_one(sub, &case, f, false) {
                    Err(m) => m,
                    Ok(()) => format!("{reason} (depends on the schedule)"),
                };
                // A failure may have left damage behind (in global state) that
                // made smaller cases fail too: keep a case that fails by itself.
                let (v, msg) = match first.into_inner() {
                    Some((v0, m0)) if !concurrent && v0 != v && !self.fails_alone(sub, &v, &msg) => {
                        if self.fails_alone(sub, &v0, &m0) { (v0, m0) } else { (v, msg) }
                    }
                    _ => (v, msg),
                };
                self.violation(sub, v, &msg);
            }
            Err(TestError::Abort(reason)) => {
                eprintln!("[{}/{}] generator aborted: {}", self.property, sub, reason);
                std::process::exit(2);
            }
        }
    }

    /// Whether the case fails in a process of its own.
    fn fails_alone(&self, sub: &str, case: &serde_json::Value, msg: &str) -> bool {
        let path = self.write_replay(sub, case.clone(), msg);
        let Ok(exe) = std::env::current_exe() else { return true };
        let child = std::process::Command::new(exe)
            .args([&self.property, "--replay"])
            .arg(&path)
            .env_remove("VERIF_TRACE")
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn();
        let Ok(mut child) = child else { return true };
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(20) {
            match child.try_wait() {
                Ok(Some(s)) => return s.code() != Some(0),
                Ok(None) => std::thread::sleep(Duration::from_millis(10)),
                Err(_) => break,
            }
        }
        let _ = child.kill();
        let _ = child.wait();
        true
    }

    /// Check `f` on `cases` generated cases, one after another.
    pub fn check<C>(
        &self,
        sub: &str,
        cases: u32,
        strategy: impl Strategy<Value = C> + 'static,
        f: impl Fn(&C, &mut Obs) -> CaseResult,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    {
        self.check_inner(sub, cases, strategy, f, false)
    }

    /// As `check`, for cases that start threads of their own (shrinking is bounded).
    pub fn check_conc<C>(
        &self,
        sub: &str,
        cases: u32,
        strategy: impl Strategy<Value = C> + 'static,
        f: impl Fn(&C, &mut Obs) -> CaseResult,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    {
        self.check_inner(sub, cases, strategy, f, true)
    }

    fn check_inner<C>(
        &self,
        sub: &str,
        cases: u32,
        strategy: impl Strategy<Value = C> + 'static,
        f: impl Fn(&C, &mut Obs) -> CaseResult,
        concurrent: bool,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    {
        if self.skip(sub) {
            return;
        }
        if self.do_replay(sub, &f, concurrent) {
            return;
        }
        let t = Instant::now();
        self.run_shard(sub, 0, cases, strategy.boxed(), &f, concurrent);
        eprintln!("[{}/{}] {} cases in {:.1}s", self.property, sub, cases, t.elapsed().as_secs_f64());
    }

    fn do_replay<C>(
        &self,
        sub: &str,
        f: &impl Fn(&C, &mut Obs) -> CaseResult,
        concurrent: bool,
    ) -> bool
    where
        C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    {
        let Some(v) = self.replay_case(sub) else {
            return false;
        };
        let case: C = match serde_json::from_value(v.clone()) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot read the replayed case: {e}");
                std::process::exit(2)
            }
        };
        for _ in 0..if concurrent { 200 } else { 1 } {
            if let Err(m) = self.run_one(sub, &case, f, true) {
                self.violation(sub, v, &m);
                return true;
            }
        }
        eprintln!("[{}/{}] the replayed case holds", self.property, sub);
        true
    }

    /// As `check`, with the cases spread over 8 threads. Only for checks that
    /// touch no process-global state of the code under test.
    pub fn check_par<C, S>(
        &self,
        sub: &str,
        cases: u32,
        strategy: impl Fn() -> S + Sync,
        f: impl Fn(&C, &mut Obs) -> CaseResult + Sync,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + 'static,
        S: Strategy<Value = C> + 'static,
    {
        if self.skip(sub) {
            return;
        }
        if self.do_replay(sub, &f, false) {
            return;
        }
        let t = Instant::now();
        const SHARDS: u32 = 8;
        std::thread::scope(|s| {
            for shard in 0..SHARDS {
                let (strategy, f) = (&strategy, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        self.run_shard(sub, shard as u64, cases.div_ceil(SHARDS), strategy().boxed(), f, false)
                    })
                    .unwrap();
            }
        });
        eprintln!("[{}/{}] {} cases in {:.1}s", self.property, sub, cases, t.elapsed().as_secs_f64());
    }

    /// Generate `n` cases (for programs built from many of them), each with
    /// its own means of shrinking.
    pub fn generate<C: Debug + 'static>(
        &self,
        sub: &str,
        n: u32,
        strategy: impl Strategy<Value = C> + 'static,
    ) -> Vec<Box<dyn ValueTree<Value = C>>> {
        let mut runner = TestRunner::new_with_rng(Config::default(), self.rng(sub, 0));
        let s = strategy.boxed();
        (0..n).map(|_| s.new_tree(&mut runner).expect("generator")).collect::<Vec<_>>().into_iter().map(|t| Box::new(t) as Box<dyn ValueTree<Value = C>>).collect()
    }

    pub fn verif_dir(&self) -> &std::path::Path {
        &self.verif
    }

    /// Write the evidence, print the verdict and exit.
    pub fn finish(self) -> ! {
        let viol = self.violations.into_inner().unwrap();
        if let Some((sub, _)) = &self.replay {
            if !*self.replayed.lock().unwrap() {
                eprintln!("no sub-check named {sub}");
                std::process::exit(2);
            }
        } else if self.only.is_none() {
            let st = self.stats.into_inner().unwrap();
            let mut coverage = serde_json::json!({
                "evaluations": st.evaluations,
                "distinct_nontrivial": st.nontrivial.len(),
                "rule": self.rule,
                "samples": st.samples,
                "cases_per_subcheck": st.per_sub,
                "classes": st.labels,
            });
            for (k, v) in self.extra.into_inner().unwrap() {
                coverage[k] = v;
            }
            let ev = serde_json::json!({
                "property": self.property,
                "tier": if self.tier == "thorough" { "thorough" } else { "quick" },
                "seed": self.seed,
                "level": std::env::var("VERIF_LEVEL").unwrap_or_else(|_| "exploration".into()),
                "coverage": coverage,
                "assumptions": self.assumptions,
                "wall_s": self.start.elapsed().as_secs_f64(),
                "violations": viol.len(),
            });
            let d = self.verif.join("evidence");
            let _ = std::fs::create_dir_all(&d);
            let path = d.join(format!("{}.json", self.property));
            if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()) {
                eprintln!("cannot write {}: {e}", path.display());
                std::process::exit(2);
            }
        }
        if viol.is_empty() {
            println!("OK property={}", self.property);
            std::process::exit(0);
        }
        for (msg, path) in &viol {
            println!("property {}: {}", self.property, msg.lines().next().unwrap_or(""));
            println!("VIOLATION property={} replay={}", self.property, path.display());
        }
        std::process::exit(1);
    }
}

fn panic_text_info(info: &std::panic::PanicHookInfo<'_>) -> String {
    panic_text_any(info.payload())
}

fn panic_text_any(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_string()
    }
}
