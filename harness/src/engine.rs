//! Generic driver: generates cases with proptest strategies from a fixed seed,
//! checks them, shrinks failures, and reports what was covered.
//!
//! A check is run by one parent (`check`) and several workers (`worker`), each
//! with its own scratch directory and its own share of the cases.  Workers are
//! processes, so a case that kills the process (abort, stack overflow) or never
//! ends is seen by the parent, which replays it alone before reporting it.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// A failure of the property: `sig` identifies what fails, `msg` tells it in full.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
        Fail {
            sig: sig.into(),
            msg: msg.into(),
        }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Fail::new($sig, format!($($arg)*)));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($got:expr, $want:expr, $sig:expr, $($arg:tt)*) => {{
        match (&$got, &$want) { (got, want) => if got != want {
            return Err($crate::engine::Fail::new(
                $sig,
                format!("{}: got {:?}, expected {:?}", format!($($arg)*), got, want),
            ));
        } }
    }};
}

/// What one case exercised.
#[derive(Default)]
pub struct Cov {
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    /// set by a check that could not be decided for reasons outside the code
    pub inconclusive: bool,
}

impl Cov {
    pub fn hit(&mut self, class: &str) {
        *self.classes.entry(class.to_owned()).or_insert(0) += 1;
    }
    pub fn hit_if(&mut self, cond: bool, class: &str) {
        if cond {
            self.hit(class);
        }
    }
    /// counts the class and makes the case non-trivial
    pub fn mark(&mut self, class: &str) {
        self.hit(class);
        self.nontrivial = true;
    }
    pub fn mark_if(&mut self, cond: bool, class: &str) {
        if cond {
            self.mark(class);
        }
    }
}

pub trait Prop {
    const ID: &'static str;
    /// how cases are made and what makes one non-trivial
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    type Case: Serialize + DeserializeOwned + Debug + Clone;
    fn cases(tier: Tier) -> u64;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(case: &Self::Case, cov: &mut Cov) -> Res;
    /// hand-picked cases, run first by the first worker
    fn fixed(_tier: Tier) -> Vec<Self::Case> {
        Vec::new()
    }
    const SHARDS: u64 = 8;
    const SHRINK_STEPS: u32 = 3000;
    /// how often a failure is replayed alone before it is given up: more than
    /// once for checks whose outcome depends on the scheduling of processes
    const REPLAY_TRIES: u32 = 1;
    /// CPU seconds after which one case is taken for an endless one
    const CASE_CPU_S: u64 = 40;
    /// seconds after which one case that uses no CPU at all is taken for a deadlock
    const CASE_STALL_S: u64 = 40;
    /// false for checks that wait for other processes: no stall detection then
    const STALL_DETECT: bool = true;
    const AS_LIMIT_MB: u64 = 3072;
}

pub struct Entry {
    pub id: &'static str,
    pub shards: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub cpu_s: u64,
    pub stall_s: u64,
    pub stall_detect: bool,
    pub as_limit_mb: u64,
    pub replay_tries: u32,
    pub cases: fn(Tier) -> u64,
    pub worker: fn(&WorkerArgs),
    pub replay: fn(&Value) -> Result<Option<Fail>, String>,
    pub show: fn(&WorkerArgs, u64),
}

pub fn entry<P: Prop>() -> Entry {
    Entry {
        id: P::ID,
        shards: P::SHARDS,
        rule: P::RULE,
        assumptions: P::ASSUMPTIONS,
        cpu_s: P::CASE_CPU_S,
        stall_s: P::CASE_STALL_S,
        stall_detect: P::STALL_DETECT,
        as_limit_mb: P::AS_LIMIT_MB,
        replay_tries: P::REPLAY_TRIES,
        cases: P::cases,
        worker: worker::<P>,
        replay: replay::<P>,
        show: show::<P>,
    }
}

pub struct WorkerArgs {
    pub tier: Tier,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub cases: u64,
    pub dir: PathBuf,
    pub known: Vec<String>,
    pub corpus: PathBuf,
}

#[derive(Serialize, Deserialize, Default)]
pub struct WorkerReport {
    pub evaluations: u64,
    pub nontrivial: Vec<u64>,
    pub inconclusive: u64,
    pub excluded_known: BTreeMap<String, u64>,
    pub classes: BTreeMap<String, u64>,
    pub case_classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    /// failures which did not happen again, of cases which depend on the time
    pub once: Vec<Failure>,
    pub done: bool,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
    pub case: Value,
    pub shrink_steps: u32,
    /// the case as it was generated
    pub generated: Value,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// what the last panic said
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone()).unwrap_or_default()
}

fn location_of(info: &std::panic::PanicHookInfo) -> String {
    match info.location() {
        Some(l) => {
            let f = l.file();
            let f = f.rsplit("/repo/").next().unwrap_or(f);
            format!("{}:{}", f, l.line())
        }
        None => String::from("?"),
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("panic")
        };
        let text = format!("{} ({})", m, location_of(info));
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(text.clone());
            }
        });
        if std::env::var_os("CED_VERIF_BACKTRACE").is_some() {
            eprintln!(
                "panic: {}\n{}",
                text,
                std::backtrace::Backtrace::force_capture()
            );
        }
    }));
}

/// Runs one case; a panic of the code under test is a failure.
pub fn run_case<P: Prop>(case: &P::Case, cov: &mut Cov) -> Res {
    PANIC.with(|p| *p.borrow_mut() = None);
    // for the development of the checks: which cases come close to the limit of CPU time
    let log = std::env::var_os("CED_VERIF_SLOW");
    let before = log.as_ref().and_then(|_| cpu_and_state(std::process::id()));
    let r = run_case_timed::<P>(case, cov);
    if let (Some(log), Some(b), Some(a)) = (log, before, cpu_and_state(std::process::id())) {
        if a.0 - b.0 > 100 {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(log).expect("HARNESS: log");
            writeln!(f, "{} {} ticks", P::ID, a.0 - b.0).expect("HARNESS: log");
        }
    }
    r
}

fn run_case_timed<P: Prop>(case: &P::Case, cov: &mut Cov) -> Res {
    match catch_unwind(AssertUnwindSafe(|| P::check(case, cov))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| String::from("panic"));
            if m.contains("HARNESS:") {
                eprintln!("harness error: {}", m);
                std::process::exit(3);
            }
            Err(Fail::new(format!("panic: {}", m), format!("panic: {}", m)))
        }
    }
}

fn seed_bytes(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    out[..8].copy_from_slice(&seed.to_le_bytes());
    out[8..16].copy_from_slice(&shard.to_le_bytes());
    for (i, b) in id.bytes().enumerate().take(16) {
        out[16 + i] = b;
    }
    out
}

pub fn runner(seed: u64, id: &str, shard: u64) -> TestRunner {
    let config = Config {
        failure_persistence: None,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, shard));
    TestRunner::new_with_rng(config, rng)
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// The case being run, for the parent to find if this process dies.
struct Current {
    path: PathBuf,
    n: u64,
}

impl Current {
    fn write(&mut self, json: &str) {
        self.n += 1;
        let body = format!("{}\n{}", self.n, json);
        std::fs::write(&self.path, body).expect("HARNESS: write current case");
    }
}

fn worker<P: Prop>(a: &WorkerArgs) {
    let mut report = WorkerReport::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut cur = Current {
        path: a.dir.join("current"),
        n: 0,
    };
    let out = a.dir.join("report.json");
    let save = |r: &WorkerReport| {
        let tmp = out.with_extension("tmp");
        std::fs::write(&tmp, serde_json::to_vec(r).unwrap()).expect("HARNESS: write report");
        std::fs::rename(&tmp, &out).expect("HARNESS: rename report");
    };
    let known = |f: &Fail| a.known.iter().find(|k| f.sig == **k).cloned();

    let mut first: Vec<P::Case> = Vec::new();
    if a.shard == 0 {
        first.extend(P::fixed(a.tier));
        let dir = a.corpus.join(P::ID);
        if let Ok(rd) = std::fs::read_dir(&dir) {
            let mut files: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
            files.sort();
            for f in files {
                let v: Value = serde_json::from_slice(&std::fs::read(&f).unwrap())
                    .expect("HARNESS: corpus json");
                first.push(serde_json::from_value(v["case"].clone()).expect("HARNESS: corpus case"));
            }
        }
    }
    let total = a.cases / a.shards + if a.shard < a.cases % a.shards { 1 } else { 0 };
    let strategy = P::strategy(a.tier);
    let mut runner = runner(a.seed, P::ID, a.shard);

    let self_test = std::env::var_os("CED_VERIF_SELF_TEST").is_some();
    let nfirst = first.len() as u64;
    for i in 0..(nfirst + total) {
        let mut tree = None;
        let case = if i < nfirst {
            first[i as usize].clone()
        } else {
            let t = strategy
                .new_tree(&mut runner)
                .expect("HARNESS: generate a case");
            let c = t.current();
            tree = Some(t);
            c
        };
        let js = serde_json::to_string(&case).expect("HARNESS: serialise the case");
        if self_test {
            // a replay has to be the very same case
            let back: P::Case = serde_json::from_str(&js).expect("HARNESS: read the case again");
            assert!(format!("{:?}", back) == format!("{:?}", case), "HARNESS: the case is not what is read again: {}", js);
        }
        cur.write(&js);
        let mut cov = Cov::default();
        let res = run_case::<P>(&case, &mut cov);
        report.evaluations += 1;
        for (k, n) in &cov.classes {
            *report.classes.entry(k.clone()).or_insert(0) += n;
            *report.case_classes.entry(k.clone()).or_insert(0) += 1;
        }
        if cov.inconclusive {
            report.inconclusive += 1;
        } else if cov.nontrivial {
            let h = fnv(js.as_bytes());
            if seen.insert(h) {
                report.nontrivial.push(h);
                if report.samples.len() < 2 && js.len() < 4000 && report.evaluations > 5 {
                    report.samples.push(serde_json::to_value(&case).unwrap());
                }
            }
        }
        if let Err(f) = res {
            if let Some(k) = known(&f) {
                *report.excluded_known.entry(k).or_insert(0) += 1;
                continue;
            }
            if P::REPLAY_TRIES > 1 {
                // processes, threads and time: once is no evidence
                let again = (0..P::REPLAY_TRIES).any(|_| {
                    cur.write(&js);
                    let mut dummy = Cov::default();
                    run_case::<P>(&case, &mut dummy).is_err() && !dummy.inconclusive
                });
                if !again {
                    let case = serde_json::to_value(&case).unwrap();
                    report.inconclusive += 1;
                    report.once.push(Failure {
                        sig: f.sig,
                        msg: f.msg,
                        generated: case.clone(),
                        case,
                        shrink_steps: 0,
                    });
                    continue;
                }
            }
            let mut best = (f, case.clone());
            let mut steps = 0;
            let started = Instant::now();
            if let Some(mut t) = tree {
                let mut tries = 0;
                let mut more = t.simplify();
                while more && tries < P::SHRINK_STEPS && started.elapsed() < Duration::from_secs(90)
                {
                    tries += 1;
                    let c = t.current();
                    cur.write(&serde_json::to_string(&c).unwrap());
                    let mut dummy = Cov::default();
                    match run_case::<P>(&c, &mut dummy) {
                        Err(f) if known(&f).is_none() && !dummy.inconclusive => {
                            best = (f, c);
                            steps += 1;
                            more = t.simplify();
                        }
                        _ => more = t.complicate(),
                    }
                }
            }
            report.failure = Some(Failure {
                sig: best.0.sig,
                msg: best.0.msg,
                case: serde_json::to_value(&best.1).unwrap(),
                shrink_steps: steps,
                generated: serde_json::to_value(&case).unwrap(),
            });
            break;
        }
        if report.evaluations % 4096 == 0 {
            save(&report);
        }
    }
    report.done = true;
    save(&report);
}

fn replay<P: Prop>(v: &Value) -> Result<Option<Fail>, String> {
    let case: P::Case = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    let mut cov = Cov::default();
    Ok(run_case::<P>(&case, &mut cov).err())
}

fn show<P: Prop>(a: &WorkerArgs, n: u64) {
    let strategy = P::strategy(a.tier);
    let mut runner = runner(a.seed, P::ID, a.shard);
    for _ in 0..n {
        let t = strategy.new_tree(&mut runner).expect("generate");
        println!("{}", serde_json::to_string(&t.current()).unwrap());
    }
}

// ---------------------------------------------------------------- parent side

fn cpu_and_state(pid: u32) -> Option<(u64, bool)> {
    // (clock ticks used by the process, whether all its threads sleep)
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ticks = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    let mut asleep = true;
    if let Ok(rd) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for t in rd.flatten() {
            if let Ok(s) = std::fs::read_to_string(t.path().join("stat")) {
                if let Some(rest) = s.rsplit(')').next() {
                    if rest.split_whitespace().next() != Some("S") {
                        asleep = false;
                    }
                }
            }
        }
    }
    Some((ticks, asleep))
}

fn spawn(e: &Entry, dir: &Path, extra: &[String]) -> Child {
    use std::os::unix::process::CommandExt;
    std::fs::create_dir_all(dir.join("work")).expect("create worker directory");
    let stderr = std::fs::File::create(dir.join("stderr")).expect("create stderr file");
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(extra)
        .current_dir(dir.join("work"))
        .env("TMPDIR", dir)
        .env("HOME", dir)
        .env("USER", "verif")
        .env_remove("RUST_LOG")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(stderr);
    let limit = e.as_limit_mb << 20;
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit {
                rlim_cur: limit,
                rlim_max: limit,
            };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let z = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.spawn().expect("spawn worker")
}

enum End {
    Exited(std::process::ExitStatus),
    /// the case used more CPU time than any case may
    Endless,
    /// no thread used any CPU for long while a case was running
    Stalled,
    Timeout,
}

struct Watch {
    child: Child,
    dir: PathBuf,
    case_no: String,
    case_ticks: u64,
    last_ticks: u64,
    last_progress: Instant,
    end: Option<End>,
}

fn watch(e: &Entry, ws: &mut [Watch], deadline: Instant) {
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64;
    loop {
        let mut alive = false;
        for w in ws.iter_mut() {
            if w.end.is_some() {
                continue;
            }
            if let Some(st) = w.child.try_wait().expect("wait for a worker") {
                w.end = Some(End::Exited(st));
                continue;
            }
            alive = true;
            let no = std::fs::read_to_string(w.dir.join("current"))
                .ok()
                .and_then(|s| s.lines().next().map(String::from))
                .unwrap_or_default();
            if let Some((ticks, asleep)) = cpu_and_state(w.child.id()) {
                if no != w.case_no {
                    w.case_no = no;
                    w.case_ticks = ticks;
                    w.last_progress = Instant::now();
                }
                if ticks != w.last_ticks || !asleep {
                    w.last_progress = Instant::now();
                    w.last_ticks = ticks;
                }
                if ticks.saturating_sub(w.case_ticks) > e.cpu_s * hz {
                    w.end = Some(End::Endless);
                } else if e.stall_detect && w.last_progress.elapsed().as_secs() > e.stall_s {
                    w.end = Some(End::Stalled);
                } else if Instant::now() > deadline {
                    w.end = Some(End::Timeout);
                }
                if w.end.is_some() {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                }
            }
        }
        if !alive {
            return;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

fn new_watch(child: Child, dir: PathBuf) -> Watch {
    Watch {
        child,
        dir,
        case_no: String::new(),
        case_ticks: 0,
        last_ticks: 0,
        last_progress: Instant::now(),
        end: None,
    }
}

/// Replays one case alone in a process: what happens is a fact about that case.
pub fn replay_alone(e: &Entry, scratch: &Path, case: &Value) -> Result<Option<Fail>, String> {
    let dir = scratch.join(format!("replay-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let input = dir.join("case.json");
    std::fs::write(
        &input,
        serde_json::to_vec(&json!({"property": e.id, "case": case})).unwrap(),
    )
    .unwrap();
    let out = dir.join("out.json");
    let args = vec![
        "replay-worker".to_string(),
        input.display().to_string(),
        out.display().to_string(),
    ];
    let child = spawn(e, &dir, &args);
    let mut ws = [new_watch(child, dir.clone())];
    watch(e, &mut ws, Instant::now() + Duration::from_secs(300));
    let r = match ws[0].end.as_ref().unwrap() {
        End::Endless => Ok(Some(Fail::new(
            "endless",
            format!("the case ran for more than {} s of CPU time", e.cpu_s),
        ))),
        End::Stalled => Ok(Some(Fail::new(
            "deadlock",
            format!(
                "the case hung: every thread slept for {} s without using any CPU",
                e.stall_s
            ),
        ))),
        End::Timeout => Err("replay timed out".into()),
        End::Exited(st) => {
            if out.exists() && st.success() {
                let v: Option<Fail> = serde_json::from_slice(&std::fs::read(&out).unwrap())
                    .map_err(|e| e.to_string())?;
                Ok(v)
            } else {
                let err = std::fs::read_to_string(dir.join("stderr")).unwrap_or_default();
                let tail: String = err.lines().rev().take(5).collect::<Vec<_>>().join(" / ");
                if st.code() == Some(3) {
                    Err(format!("harness error: {}", tail))
                } else {
                    use std::os::unix::process::ExitStatusExt;
                    if st.signal() == Some(libc::SIGKILL) {
                        Err(format!("replay was killed: {}", tail))
                    } else {
                        Ok(Some(Fail::new(
                            "process died",
                            format!("the process died ({}): {}", st, tail),
                        )))
                    }
                }
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// failures which do not happen again, of cases which depend on the time: a
/// loaded machine may cause that many
const ONCE_ALLOWED: u64 = 3;

pub struct CheckArgs {
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub cases: Option<u64>,
}

/// `KNOWN property=<id> sig=<sig> :: <what>` lines of known_findings.txt
pub fn known_findings(verif: &Path, id: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix(&format!("KNOWN property={} sig=", id)) {
                if let Some((sig, what)) = rest.split_once(" :: ") {
                    out.push((sig.to_string(), what.to_string()));
                }
            }
        }
    }
    out
}

fn write_replay(verif: &Path, e: &Entry, f: &Failure, a: &CheckArgs) -> PathBuf {
    let dir = verif.join("replays");
    std::fs::create_dir_all(&dir).expect("create replays directory");
    let body = json!({
        "property": e.id, "case": f.case, "sig": f.sig, "what": f.msg,
        "seed": a.seed, "tier": a.tier.name(), "shrink_steps": f.shrink_steps,
        "how": format!("sh /verif/run.sh replay <this file>"),
    });
    let text = serde_json::to_string_pretty(&body).unwrap();
    let h = fnv(serde_json::to_string(&f.case).unwrap().as_bytes());
    let path = dir.join(format!("{}-{:016x}.json", e.id, h));
    std::fs::write(&path, text).expect("write the replay file");
    path
}

/// Returns the exit code of the check.
pub fn check(e: &Entry, a: &CheckArgs) -> i32 {
    let started = Instant::now();
    let scratch = std::env::temp_dir().join(format!("ced-verif-{}-{}", e.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).expect("create the scratch directory");
    let known = known_findings(&a.verif, e.id);
    let cases = a.cases.unwrap_or_else(|| (e.cases)(a.tier));
    let shards = e.shards.min(cases.max(1));
    let mut ws: Vec<Watch> = (0..shards)
        .map(|i| {
            let dir = scratch.join(format!("w{}", i));
            std::fs::create_dir_all(&dir).unwrap();
            let args: Vec<String> = vec![
                "worker".into(),
                e.id.into(),
                a.tier.name().into(),
                a.seed.to_string(),
                i.to_string(),
                shards.to_string(),
                cases.to_string(),
                dir.display().to_string(),
                a.verif.display().to_string(),
            ];
            new_watch(spawn(e, &dir, &args), dir)
        })
        .collect();
    let limit = a.tier.pick(800, 6 * 3600);
    watch(e, &mut ws, started + Duration::from_secs(limit));

    let mut total = WorkerReport::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut failures: Vec<Failure> = Vec::new();
    let mut once: Vec<Failure> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut current_of_dead: Vec<(PathBuf, String)> = Vec::new();
    for w in &ws {
        let rep: Option<WorkerReport> = std::fs::read(w.dir.join("report.json"))
            .ok()
            .and_then(|b| serde_json::from_slice(&b).ok());
        if let Some(r) = rep {
            total.evaluations += r.evaluations;
            total.inconclusive += r.inconclusive;
            distinct.extend(r.nontrivial.iter());
            for (k, n) in r.classes {
                *total.classes.entry(k).or_insert(0) += n;
            }
            for (k, n) in r.case_classes {
                *total.case_classes.entry(k).or_insert(0) += n;
            }
            for (k, n) in r.excluded_known {
                *total.excluded_known.entry(k).or_insert(0) += n;
            }
            for s in r.samples {
                if total.samples.len() < 6 {
                    total.samples.push(s);
                }
            }
            if let Some(f) = r.failure {
                failures.push(f);
            }
            once.extend(r.once);
            if r.done {
                continue;
            }
        }
        let how = match w.end.as_ref().unwrap() {
            End::Exited(st) => format!("worker ended with {}", st),
            End::Endless => "case used too much CPU time".into(),
            End::Stalled => "case stalled".into(),
            End::Timeout => {
                errors.push("time limit of the check reached".into());
                continue;
            }
        };
        current_of_dead.push((w.dir.clone(), how));
    }
    for (dir, how) in current_of_dead {
        let cur = std::fs::read_to_string(dir.join("current")).unwrap_or_default();
        let case: Option<Value> = cur
            .split_once('\n')
            .and_then(|(_, js)| serde_json::from_str(js).ok());
        let err = std::fs::read_to_string(dir.join("stderr")).unwrap_or_default();
        let tail: String = err.lines().rev().take(8).collect::<Vec<_>>().join(" / ");
        match case {
            None => errors.push(format!("{}: {}", how, tail)),
            Some(case) if failures.is_empty() => match replay_alone(e, &scratch, &case) {
                Ok(Some(f)) => {
                    if known.iter().any(|(s, _)| *s == f.sig) {
                        *total.excluded_known.entry(f.sig).or_insert(0) += 1;
                    } else {
                        failures.push(Failure {
                            sig: f.sig,
                            msg: f.msg,
                            generated: case.clone(),
                            case,
                            shrink_steps: 0,
                        })
                    }
                }
                Ok(None) => errors.push(format!(
                    "{} but the case passes when replayed alone: {}",
                    how, tail
                )),
                Err(m) => errors.push(format!("{}: {}", how, m)),
            },
            Some(_) => {}
        }
    }

    // replay the failure from its file's content before believing it
    let mut violation = None;
    let mut tries = e.replay_tries;
    failures.sort_by_key(|f| serde_json::to_string(&f.case).unwrap().len());
    let unsure: Vec<Failure> = failures
        .iter()
        .filter(|f| e.replay_tries > 1 && f.generated != f.case)
        .map(|f| Failure {
            case: f.generated.clone(),
            shrink_steps: 0,
            ..f.clone()
        })
        .collect();
    failures.extend(unsure);
    if failures.is_empty() && once.len() as u64 > ONCE_ALLOWED + total.evaluations / 10_000 {
        // too many to blame the time
        tries = 40;
        failures.extend(once.iter().take(4).cloned());
    }
    for f in &failures {
        let mut again = replay_alone(e, &scratch, &f.case);
        for _ in 1..tries {
            if !matches!(again, Ok(None)) {
                break;
            }
            again = replay_alone(e, &scratch, &f.case);
        }
        match again {
            Ok(Some(f2)) => {
                let f = Failure {
                    sig: f2.sig,
                    msg: f2.msg,
                    ..f.clone()
                };
                violation = Some((write_replay(&a.verif, e, &f, a), f));
                break;
            }
            Ok(None) => errors.push(format!(
                "a failure did not reproduce when replayed alone: {}",
                f.msg
            )),
            Err(m) => errors.push(format!("replay of a failure: {}", m)),
        }
    }
    for f in once.iter().take(3) {
        let short: String = f.msg.chars().take(300).collect();
        println!("{}: note: this did not happen again: {:?}", e.id, short);
    }

    for (sig, what) in &known {
        let n = total.excluded_known.get(sig).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} ({} cases)", e.id, what, n);
    }
    let wall = started.elapsed().as_secs_f64();
    let evidence = json!({
        "property": e.id,
        "tier": a.tier.name(),
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": e.rule,
            "samples": total.samples,
            "inconclusive": total.inconclusive,
            "failed_once": once.len(),
            "excluded_known": total.excluded_known,
            "cases_with": total.case_classes,
            "events": total.classes,
            "exhaustive": false,
        },
        "assumptions": e.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let evdir = a.verif.join("evidence");
    std::fs::create_dir_all(&evdir).expect("create the evidence directory");
    std::fs::write(
        evdir.join(format!("{}.json", e.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("write the evidence file");
    let _ = std::fs::remove_dir_all(&scratch);

    println!(
        "{}: {} cases, {} distinct non-trivial, {} inconclusive, {:.1} s",
        e.id,
        total.evaluations,
        distinct.len(),
        total.inconclusive,
        wall
    );
    if let Some((path, f)) = violation {
        let short: String = f.msg.chars().take(600).collect();
        println!("{}: {}", e.id, short.replace('\n', "\\n"));
        println!("VIOLATION property={} replay={}", e.id, path.display());
        return 1;
    }
    if !errors.is_empty() {
        for m in errors {
            println!("{}: error: {}", e.id, m);
        }
        return 2;
    }
    if distinct.is_empty() {
        println!("{}: error: no non-trivial case", e.id);
        return 2;
    }
    0
}
