//! Runs many seeded scenarios in worker processes, minimises and reports violations, writes evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};

use crate::rng::{hash_bytes, mix, Rng};
use crate::shrink;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    /// (class, detail). The class is what has to persist while minimising.
    pub violation: Option<(String, String)>,
    /// Nothing of interest happened (no fault fired, nothing to interleave, ...).
    pub trivial: bool,
    /// Fingerprint of what the run reached (stated per property), for the distinct count.
    pub sig: u64,
    /// Hash over everything observed in the run, for the determinism check.
    pub log: u64,
    pub steps: u64,
    #[serde(default)]
    pub faults: BTreeMap<String, u64>,
    #[serde(default)]
    pub probes: BTreeMap<String, u64>,
    /// Fingerprint of the schedule, 0 if there is none.
    #[serde(default)]
    pub sched: u64,
}

impl Outcome {
    pub fn fail(&mut self, class: &str, detail: impl Into<String>) {
        if self.violation.is_none() {
            self.violation = Some((class.to_string(), detail.into()));
        }
    }
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_default() += 1;
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_default() += 1;
    }
    pub fn note(&mut self, b: &[u8]) {
        self.log = hash_bytes(self.log, b);
    }
}

pub trait Prop: 'static {
    type Sc: Serialize + DeserializeOwned;
    const ID: &'static str;
    /// Runs per tier.
    const RUNS: (u64, u64);
    /// Rule for the distinct/non-trivial count.
    const RULE: &'static str;
    const REAL: &'static str;
    const STUB: &'static str;
    fn gen(rng: &mut Rng, env: &Env) -> Self::Sc;
    fn exec(sc: &Self::Sc, env: &Env) -> Outcome;
}

/// What a run may use besides its scenario.
pub struct Env {
    pub thorough: bool,
    /// Scratch directory of this process.
    pub scratch: PathBuf,
    pub index: u64,
}

pub trait DynProp {
    fn id(&self) -> &'static str;
    fn runs(&self) -> (u64, u64);
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static str;
    fn stub(&self) -> &'static str;
    fn gen(&self, rng: &mut Rng, env: &Env) -> Value;
    /// None: the value is no scenario.
    fn exec(&self, v: &Value, env: &Env) -> Option<Outcome>;
    fn gen_exec(&self, rng: &mut Rng, env: &Env) -> Outcome;
}

pub struct P<T: Prop>(pub std::marker::PhantomData<T>);
impl<T: Prop> DynProp for P<T> {
    fn id(&self) -> &'static str {
        T::ID
    }
    fn runs(&self) -> (u64, u64) {
        T::RUNS
    }
    fn rule(&self) -> &'static str {
        T::RULE
    }
    fn real(&self) -> &'static str {
        T::REAL
    }
    fn stub(&self) -> &'static str {
        T::STUB
    }
    fn gen(&self, rng: &mut Rng, env: &Env) -> Value {
        serde_json::to_value(T::gen(rng, env)).expect("scenario to json")
    }
    fn exec(&self, v: &Value, env: &Env) -> Option<Outcome> {
        let sc: T::Sc = serde_json::from_value(v.clone()).ok()?;
        Some(T::exec(&sc, env))
    }
    fn gen_exec(&self, rng: &mut Rng, env: &Env) -> Outcome {
        let sc = T::gen(rng, env);
        T::exec(&sc, env)
    }
}
pub fn prop<T: Prop>() -> Box<dyn DynProp> {
    Box::new(P::<T>(std::marker::PhantomData))
}

const CPU_LIMIT_S: i64 = 120;
const STRIDE_FILE_WORDS: usize = 64;

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

pub fn run_seed(base: u64, id: &str, index: u64) -> u64 {
    mix(hash_bytes(base, id.as_bytes()) ^ mix(index))
}

fn scratch_base() -> PathBuf {
    let d = std::env::var("SIM_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    d
}

struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let p = scratch_base().join(format!("xsdsim-{}-{}", tag, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Shared words between parent and workers: [bound, cur_0, cur_1, ...]
struct Board(*mut u64);
impl Board {
    fn open(p: &Path) -> Board {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).expect("board");
        f.set_len(8 * STRIDE_FILE_WORDS as u64).expect("board size");
        let m = unsafe {
            libc::mmap(std::ptr::null_mut(), 8 * STRIDE_FILE_WORDS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(m != libc::MAP_FAILED, "mmap");
        Board(m as *mut u64)
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.0.add(i)) }
    }
    fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.0.add(i), v) }
    }
}

pub fn arm_cpu_limit() {
    unsafe {
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: CPU_LIMIT_S, tv_usec: 0 },
        };
        extern "C" {
            fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
        }
        setitimer(2, &it, std::ptr::null_mut());
    }
}

fn cpu_ms() -> i64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec * 1000 + t.tv_nsec / 1_000_000
}

#[derive(Default, Serialize, Deserialize)]
struct WorkerSum {
    runs: u64,
    trivial: u64,
    steps: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    log: u64,
}

pub fn crash_class(st: &std::process::ExitStatus) -> (String, String) {
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig) = st.signal() {
        if sig == 27 {
            return ("hang".into(), format!("the run did not finish within {CPU_LIMIT_S} s of processor time"));
        }
        let n = match sig {
            6 => "abort (stack overflow, out of memory or double panic)",
            11 => "segmentation fault",
            9 => "killed (memory exhausted)",
            _ => "signal",
        };
        return ("crash".into(), format!("the process died: signal {sig} {n}"));
    }
    match st.code() {
        Some(crate::sys::EXIT_DEADLOCK) => ("deadlock".into(), "every live thread is blocked".into()),
        Some(crate::sys::EXIT_STEPS) => ("hang".into(), "the run exceeded the step limit".into()),
        c => ("crash".into(), format!("the process ended with status {c:?}")),
    }
}

/// Runs `f` in a forked process and returns what it returned; Err is how the process died.
/// Only from a process with one thread.
pub fn isolated(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, (String, String)> {
    use std::os::unix::process::ExitStatusExt;
    unsafe {
        let mut fds = [0i32; 2];
        assert!(libc::pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            arm_cpu_limit();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let Ok(b) = r else { libc::_exit(96) };
            let mut at = 0;
            while at < b.len() {
                let n = libc::write(fds[1], b[at..].as_ptr() as *const _, b.len() - at);
                if n <= 0 {
                    libc::_exit(95);
                }
                at += n as usize;
            }
            libc::_exit(0)
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let st = std::process::ExitStatus::from_raw(st);
        if st.success() {
            Ok(out)
        } else {
            Err(crash_class(&st))
        }
    }
}

fn limit_memory() {
    // a runaway allocation must not take the machine down
    unsafe {
        let r = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

/// Entry point of a simulator binary.
pub fn main_with(props: Vec<Box<dyn DynProp>>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let get = |id: &str| -> &Box<dyn DynProp> {
        props.iter().find(|p| p.id() == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    // for the processes started from here: deep nesting is no reason to run out of stack
    unsafe {
        let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_STACK, &mut r);
        r.rlim_cur = r.rlim_max.min(64 << 20);
        libc::setrlimit(libc::RLIMIT_STACK, &r);
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(get(&args[2]).as_ref(), &args[3..]),
        Some("exec") => exec_file(get(&args[2]).as_ref(), Path::new(&args[3])),
        Some("check") => check(get(&args[2]).as_ref()),
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let id = v["property"].as_str().expect("property").to_string();
            replay(get(&id).as_ref(), Path::new(&args[2]), &v)
        }
        Some("show") => {
            let p = get(&args[2]);
            let idx: u64 = args[3].parse().unwrap();
            let sc = Scratch::new("show");
            let env = Env { thorough: thorough(), scratch: sc.0.clone(), index: idx };
            let mut rng = Rng::new(run_seed(env_u64("VERIF_SEED", 1), p.id(), idx));
            let v = p.gen(&mut rng, &env);
            println!("{}", serde_json::to_string_pretty(&v).unwrap());
            println!("{:#?}", p.exec(&v, &env));
            0
        }
        _ => {
            eprintln!("usage: check ID | replay FILE | show ID INDEX");
            2
        }
    };
    std::process::exit(code)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// worker ID wix stride from to board sigfile
fn worker(p: &dyn DynProp, a: &[String]) -> i32 {
    limit_memory();
    quiet_panics();
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (wix, stride, from, to) = (n(0) as usize, n(1), n(2), n(3));
    let board = Board::open(Path::new(&a[4]));
    let scratch = PathBuf::from(&a[5]);
    std::fs::create_dir_all(&scratch).expect("scratch");
    let base = env_u64("VERIF_SEED", 1);
    let mut sum = WorkerSum::default();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let verbose = std::env::var("SIM_LOG").is_ok();
    let slow = std::env::var("SIM_SLOW").is_ok();
    let mut i = from;
    while i < to && i <= board.get(0) {
        board.set(1 + wix, i);
        arm_cpu_limit();
        let env = Env { thorough: thorough(), scratch: scratch.clone(), index: i };
        let mut rng = Rng::new(run_seed(base, p.id(), i));
        let began = slow.then(cpu_ms);
        let o = p.gen_exec(&mut rng, &env);
        if let Some(took) = began.map(|b| cpu_ms() - b).filter(|t| *t > 1000) {
            eprintln!("{} run {i} took {took} ms of processor time", p.id());
        }
        if slow && o.steps > 5_000_000 {
            eprintln!("{} run {i} took {} steps", p.id(), o.steps);
        }
        sum.runs += 1;
        sum.steps += o.steps;
        sum.log = sum.log.wrapping_add(mix(o.log ^ mix(i)));
        if o.trivial {
            sum.trivial += 1;
        } else {
            sigs.insert(o.sig);
        }
        if o.sched != 0 {
            scheds.insert(o.sched);
        }
        for (k, v) in &o.faults {
            *sum.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *sum.probes.entry(k.clone()).or_default() += v;
        }
        if verbose {
            println!("L {i} {:016x}", o.log);
        }
        if let Some((c, d)) = &o.violation {
            println!("V {}", json!([i, c, d]));
            if i < board.get(0) {
                board.set(0, i);
            }
            break;
        }
        i += stride;
    }
    board.set(1 + wix, u64::MAX);
    for s in &sigs {
        println!("S {s:x}");
    }
    for s in &scheds {
        println!("I {s:x}");
    }
    println!("D {}", serde_json::to_string(&sum).unwrap());
    0
}

fn exec_file(p: &dyn DynProp, f: &Path) -> i32 {
    limit_memory();
    quiet_panics();
    arm_cpu_limit();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("scenario")).expect("json");
    let sc = Scratch::new("exec");
    let env = Env { thorough: thorough(), scratch: sc.0.clone(), index: 0 };
    match p.exec(&v, &env) {
        Some(o) => println!("O {}", serde_json::to_string(&o).unwrap()),
        None => println!("N"),
    }
    0
}

/// Executes a scenario in a fresh process. None: not a scenario.
fn exec_sub(id: &str, v: &Value, dir: &Path) -> Option<Outcome> {
    let f = dir.join("cand.json");
    std::fs::write(&f, serde_json::to_vec(v).unwrap()).expect("write");
    let o = Command::new(std::env::current_exe().unwrap())
        .args(["exec", id])
        .arg(&f)
        .env("SIM_SCRATCH", dir)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("spawn");
    if !o.status.success() {
        let (c, d) = crash_class(&o.status);
        let mut out = Outcome::default();
        out.fail(&c, d);
        return Some(out);
    }
    let s = String::from_utf8_lossy(&o.stdout);
    for l in s.lines() {
        if let Some(j) = l.strip_prefix("O ") {
            return serde_json::from_str(j).ok();
        }
        if l == "N" {
            return None;
        }
    }
    None
}

fn replay(p: &dyn DynProp, f: &Path, v: &Value) -> i32 {
    let sc = Scratch::new("replay");
    let o = exec_sub(p.id(), &v["scenario"], &sc.0);
    match o.and_then(|o| o.violation) {
        Some((c, d)) => {
            println!("class: {c}\ndetail: {d}");
            println!("VIOLATION property={} replay={}", p.id(), f.display());
            1
        }
        None => {
            println!("property {} holds on {}", p.id(), f.display());
            0
        }
    }
}

struct Found {
    index: u64,
    class: String,
    detail: String,
}

struct Sweep {
    sum: WorkerSum,
    sigs: HashSet<u64>,
    scheds: HashSet<u64>,
    found: Option<Found>,
    truncated: bool,
}

fn sweep(p: &dyn DynProp, runs: u64, workers: u64, cap: Duration, scratch: &Path) -> Sweep {
    let board_path = scratch.join(format!("board{workers}"));
    let board = Board::open(&board_path);
    for i in 0..STRIDE_FILE_WORDS {
        board.set(i, u64::MAX);
    }
    let started = Instant::now();
    let (tx, rx) = std::sync::mpsc::channel::<(usize, Result<String, std::process::ExitStatus>)>();
    let mut pids: Vec<i32> = Vec::new();
    let spawn = |w: usize, from: u64, tx: std::sync::mpsc::Sender<_>| -> i32 {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["worker", p.id()])
            .args([w.to_string(), workers.to_string(), from.to_string(), runs.to_string()])
            .arg(&board_path)
            .arg(scratch.join(format!("w{w}")))
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(if std::env::var("SIM_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("spawn worker");
        let pid = c.id() as i32;
        std::thread::spawn(move || {
            let out = c.stdout.take().unwrap();
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                let _ = tx.send((w, Ok(l)));
            }
            let st = c.wait().expect("wait");
            let _ = tx.send((w, Err(st)));
        });
        pid
    };
    for w in 0..workers {
        pids.push(spawn(w as usize, w, tx.clone()));
    }
    let mut s = Sweep { sum: WorkerSum::default(), sigs: HashSet::new(), scheds: HashSet::new(), found: None, truncated: false };
    let mut live = workers;
    let mut logs = Vec::new();
    let keep = |s: &mut Sweep, f: Found| {
        if s.found.as_ref().map(|g| f.index < g.index).unwrap_or(true) {
            s.found = Some(f);
        }
    };
    while live > 0 {
        if started.elapsed() > cap && !s.truncated {
            s.truncated = true;
            board.set(0, 0); // no further runs start
        }
        let Ok((w, m)) = rx.recv_timeout(Duration::from_millis(500)) else {
            if started.elapsed() > cap + Duration::from_secs(90) {
                for pid in &pids {
                    unsafe {
                        libc::kill(*pid, 9);
                    }
                }
            }
            continue;
        };
        match m {
            Ok(l) => {
                if let Some(j) = l.strip_prefix("V ") {
                    let v: Value = serde_json::from_str(j).unwrap();
                    let f = Found {
                        index: v[0].as_u64().unwrap(),
                        class: v[1].as_str().unwrap().into(),
                        detail: v[2].as_str().unwrap().into(),
                    };
                    keep(&mut s, f);
                } else if let Some(h) = l.strip_prefix("S ") {
                    s.sigs.insert(u64::from_str_radix(h, 16).unwrap());
                } else if let Some(h) = l.strip_prefix("I ") {
                    s.scheds.insert(u64::from_str_radix(h, 16).unwrap());
                } else if l.starts_with("L ") {
                    logs.push(l);
                } else if let Some(j) = l.strip_prefix("D ") {
                    let d: WorkerSum = serde_json::from_str(j).unwrap();
                    s.sum.runs += d.runs;
                    s.sum.trivial += d.trivial;
                    s.sum.steps += d.steps;
                    s.sum.log = s.sum.log.wrapping_add(d.log);
                    for (k, v) in d.faults {
                        *s.sum.faults.entry(k).or_default() += v;
                    }
                    for (k, v) in d.probes {
                        *s.sum.probes.entry(k).or_default() += v;
                    }
                }
            }
            Err(st) => {
                live -= 1;
                if !st.success() {
                    let at = board.get(1 + w);
                    if at != u64::MAX {
                        let (class, detail) = crash_class(&st);
                        if at < board.get(0) {
                            board.set(0, at);
                        }
                        keep(&mut s, Found { index: at, class, detail });
                    } else {
                        eprintln!("worker {w} failed outside a run: {st:?}");
                        std::process::exit(2);
                    }
                }
            }
        }
    }
    if let Ok(f) = std::env::var("SIM_LOG") {
        logs.sort();
        let _ = std::fs::write(format!("{f}.{workers}"), logs.join("\n"));
    }
    s
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn check(p: &dyn DynProp) -> i32 {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let th = thorough();
    let runs = env_u64("SIM_RUNS", if th { p.runs().1 } else { p.runs().0 });
    let workers = env_u64("SIM_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)).clamp(1, 32);
    let cap = Duration::from_secs(env_u64("SIM_CAP_S", if th { 3600 } else { 240 }));
    println!("property {} seed {seed} tier {} runs {runs} workers {workers}", p.id(), if th { "thorough" } else { "quick" });
    let scratch = Scratch::new("check");
    let replays = verif_dir().join("replays");
    std::fs::create_dir_all(&replays).expect("replays");

    // known findings: shown, and they must still fail the way they are listed
    let mut known_shown = 0;
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.jsonl")) {
        for l in s.lines().filter(|l| !l.trim().is_empty()) {
            let v: Value = serde_json::from_str(l).expect("known_findings.jsonl");
            if v["property"] != p.id() || v["status"] != "open" {
                continue;
            }
            let o = exec_sub(p.id(), &v["scenario"], &scratch.0);
            if let Some((c, _)) = o.and_then(|o| o.violation) {
                if v["class"].as_str() == Some(c.as_str()) {
                    println!("KNOWN-FINDING: property={} {}", p.id(), v["what"].as_str().unwrap_or(""));
                    known_shown += 1;
                } else {
                    // it fails, but not the way it is listed: a different violation
                    let f = replays.join(format!("{}-known-changed.json", p.id()));
                    let body = json!({"property": p.id(), "class": c, "scenario": v["scenario"]});
                    std::fs::write(&f, serde_json::to_string_pretty(&body).unwrap()).expect("replay");
                    println!("VIOLATION property={} replay={}", p.id(), f.display());
                    write_evidence(p, seed, th, &Sweep { sum: WorkerSum::default(), sigs: HashSet::new(), scheds: HashSet::new(), found: None, truncated: false }, t0, 0.0, 1, json!(null), known_shown, vec![]);
                    return 1;
                }
            }
        }
    }

    let t1 = Instant::now();
    let s = sweep(p, runs, workers, cap, &scratch.0);
    let sim_s = t1.elapsed().as_secs_f64();

    // determinism: the first runs again, in other processes with another division of labour
    let mut determinism = json!(null);
    if s.found.is_none() && !s.truncated {
        let n = (runs / 20).clamp(1, 400);
        let a = sweep(p, n, 1, cap, &scratch.0);
        let b = sweep(p, n, 3, cap, &scratch.0);
        determinism = json!({"runs_repeated": n, "worker_counts": [1, 3], "identical_event_logs": a.sum.log == b.sum.log});
        if a.sum.log != b.sum.log {
            eprintln!("warning: repeated runs of {} differ", p.id());
        }
    }

    // sample scenarios
    let mut samples = Vec::new();
    for i in 0..3 {
        let env = Env { thorough: th, scratch: scratch.0.join("sample"), index: i };
        let mut rng = Rng::new(run_seed(seed, p.id(), i));
        let v = p.gen(&mut rng, &env);
        let text = serde_json::to_string(&v).unwrap();
        samples.push(json!({"index": i, "seed": run_seed(seed, p.id(), i), "scenario": if text.len() < 6000 { v } else { Value::from(text.chars().take(3000).collect::<String>()) }}));
    }

    let violations = s.found.is_some() as i64;
    write_evidence(p, seed, th, &s, t0, sim_s, violations, determinism, known_shown, samples);

    match &s.found {
        None => {
            println!(
                "held: {} runs ({} trivial), {} distinct, {} steps, {:.1} s",
                s.sum.runs,
                s.sum.trivial,
                s.sigs.len(),
                s.sum.steps,
                sim_s
            );
            0
        }
        Some(f) => {
            let env = Env { thorough: th, scratch: scratch.0.join("gen"), index: f.index };
            let mut rng = Rng::new(run_seed(seed, p.id(), f.index));
            let sc = p.gen(&mut rng, &env);
            println!("run {} (seed {}) violates: {}: {}", f.index, run_seed(seed, p.id(), f.index), f.class, f.detail);
            let limit = Instant::now() + Duration::from_secs(env_u64("SIM_SHRINK_S", 60));
            let (min, tried) = if exec_sub(p.id(), &sc, &scratch.0).and_then(|o| o.violation).map(|v| v.0) == Some(f.class.clone()) {
                shrink::shrink(sc.clone(), |c| {
                    if Instant::now() > limit {
                        return None;
                    }
                    Some(exec_sub(p.id(), c, &scratch.0).and_then(|o| o.violation).map(|v| v.0 == f.class).unwrap_or(false))
                })
            } else {
                println!("note: the run alone in a fresh process does not show it");
                (sc.clone(), 0)
            };
            let last = exec_sub(p.id(), &min, &scratch.0).and_then(|o| o.violation);
            let (class, detail) = last.unwrap_or((f.class.clone(), f.detail.clone()));
            let file = replays.join(format!("{}-{}-{}.json", p.id(), seed, f.index));
            let body = json!({
                "property": p.id(), "class": class, "detail": detail, "verif_seed": seed, "run": f.index,
                "run_seed": run_seed(seed, p.id(), f.index), "minimised_from_bytes": serde_json::to_string(&sc).unwrap().len(),
                "minimise_candidates": tried, "scenario": min,
            });
            std::fs::write(&file, serde_json::to_string_pretty(&body).unwrap()).expect("replay file");
            println!("minimised after {tried} candidates: {class}: {detail}");
            let _ = std::io::stdout().flush();
            println!("VIOLATION property={} replay={}", p.id(), file.display());
            1
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(p: &dyn DynProp, seed: u64, th: bool, s: &Sweep, t0: Instant, sim_s: f64, violations: i64, det: Value, known: u64, samples: Vec<Value>) {
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence");
    let ev = json!({
        "property": p.id(), "tier": if th { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s.sum.runs,
            "distinct_nontrivial": s.sigs.len(),
            "rule": p.rule(),
            "samples": samples,
            "trivial_runs": s.sum.trivial,
            "simulated_runs_per_hour": if sim_s > 0.0 { (s.sum.runs as f64 / sim_s * 3600.0) as u64 } else { 0 },
            "seeds_per_hour": if sim_s > 0.0 { (s.sum.runs as f64 / sim_s * 3600.0) as u64 } else { 0 },
            "simulated_steps": s.sum.steps,
            "simulated_time": "the code has no clock or timers; simulated time is counted in steps (intercepted calls and operations)",
            "faults_fired": s.sum.faults,
            "probes": s.sum.probes,
            "distinct_schedules": s.scheds.len(),
            "determinism": det,
            "real_components": p.real(),
            "stub_components": p.stub(),
            "stopped_by_time_cap": s.truncated,
            "known_findings_shown": known,
        },
        "assumptions": ["seeded sampling, not enumeration: a clean batch is evidence, not proof"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::write(dir.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
}
