//! Running the tool, running cases in parallel, verdicts and evidence.
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(res: i32, lim: *const Rlimit) -> i32;
    fn alarm(s: u32) -> u32;
    fn close(fd: i32) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

#[derive(Debug)]
pub enum Fail {
    Violation(String),
    Inconclusive(String),
    /// the tool refused the input in an orderly way
    Rejected(String),
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::engine::Fail::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! incon {
    ($($a:tt)*) => { return Err($crate::engine::Fail::Inconclusive(format!($($a)*))) };
}
pub fn v(s: String) -> Fail {
    Fail::Violation(s)
}

pub struct Env {
    pub prop: String,
    pub cli: PathBuf,
    pub shim: PathBuf,
    pub repo: PathBuf,
    pub verif: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub scratch: PathBuf,
}

#[derive(Debug, Clone)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stderr: String,
    pub wall: f64,
}

impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// ended with an orderly failure status
    pub fn clean_failure(&self) -> bool {
        matches!(self.code, Some(c) if c != 0 && c != 101) && !self.panicked()
    }
    pub fn panicked(&self) -> bool {
        self.code == Some(101) || self.stderr.contains("panicked at") || self.signal == Some(6)
    }
    pub fn brief(&self) -> String {
        let mut s: String = self.stderr.chars().take(400).collect();
        s = s.replace('\n', " | ");
        format!("exit {:?} signal {:?} stderr: {}", self.code, self.signal, s)
    }
}

pub struct Opts<'a> {
    pub cwd: Option<&'a Path>,
    pub env: Vec<(String, String)>,
    pub stdout: Option<Stdio>,
    pub wall: u32,
    pub cpu: u64,
    pub mem: u64,
    pub fsize: u64,
    pub close_stdout: bool,
}
impl<'a> Default for Opts<'a> {
    fn default() -> Self {
        Opts { cwd: None, env: vec![], stdout: None, wall: 120, cpu: 60, mem: 6 << 30, fsize: 1 << 30, close_stdout: false }
    }
}

pub struct Case<'a> {
    pub env: &'a Env,
    pub idx: u64,
    pub rng: Rng,
    pub dir: PathBuf,
    pub counters: BTreeMap<String, u64>,
    pub sigs: Vec<u64>,
    pub sample: Option<Value>,
    pub last_cmd: String,
    pub verbose: bool,
}

impl<'a> Case<'a> {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sig(&mut self, s: u64) {
        self.sigs.push(s);
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
    pub fn write(&self, name: &str, data: &[u8]) -> PathBuf {
        let p = self.path(name);
        if let Some(par) = p.parent() {
            let _ = fs::create_dir_all(par);
        }
        fs::write(&p, data).expect("scratch write");
        p
    }
    pub fn read(&self, name: &str) -> Vec<u8> {
        fs::read(self.path(name)).unwrap_or_default()
    }
    pub fn run_opts(&mut self, args: &[&str], o: Opts) -> Run {
        self.last_cmd = format!("midi2spc {}", args.join(" "));
        *self.counters.entry("tool_runs".into()).or_insert(0) += 1;
        run_cli(&self.env.cli, &self.dir, args, o)
    }
    pub fn run_os(&mut self, args: &[std::ffi::OsString], o: Opts) -> Run {
        self.last_cmd = format!("midi2spc {:?}", args);
        *self.counters.entry("tool_runs".into()).or_insert(0) += 1;
        run_cli(&self.env.cli, &self.dir, args, o)
    }
    pub fn run(&mut self, args: &[&str]) -> Run {
        self.run_opts(args, Opts::default())
    }
    /// runs that must succeed for the property to be observable
    pub fn must(&mut self, args: &[&str]) -> Res {
        let r = self.run(args);
        self.judge_ok(&r)
    }
    pub fn judge_ok(&mut self, r: &Run) -> Res {
        if r.ok() {
            return Ok(());
        }
        if r.signal == Some(14) || r.signal == Some(24) || r.signal == Some(9) {
            return Err(Fail::Inconclusive(format!("{}: {}", self.last_cmd, r.brief())));
        }
        Err(Fail::Violation(format!("valid input failed: {}: {}", self.last_cmd, r.brief())))
    }
}

static RUN_NO: AtomicU64 = AtomicU64::new(0);

pub fn run_cli<S: AsRef<std::ffi::OsStr>>(cli: &Path, dir: &Path, args: &[S], o: Opts) -> Run {
    let n = RUN_NO.fetch_add(1, Ordering::Relaxed);
    let errp = dir.join(format!(".stderr{}", n));
    let errf = fs::File::create(&errp).expect("scratch stderr");
    let mut c = Command::new(cli);
    c.args(args)
        .stdin(Stdio::null())
        .stdout(o.stdout.unwrap_or_else(Stdio::null))
        .stderr(errf)
        .env_remove("RUST_BACKTRACE")
        .current_dir(o.cwd.unwrap_or(dir));
    for (k, val) in &o.env {
        c.env(k, val);
    }
    let (wall, cpu, mem, fsize, close_out) = (o.wall, o.cpu, o.mem, o.fsize, o.close_stdout);
    unsafe {
        c.pre_exec(move || {
            setrlimit(RLIMIT_CPU, &Rlimit { cur: cpu, max: cpu + 5 });
            setrlimit(RLIMIT_AS, &Rlimit { cur: mem, max: mem });
            setrlimit(RLIMIT_FSIZE, &Rlimit { cur: fsize, max: fsize });
            setrlimit(RLIMIT_CORE, &Rlimit { cur: 0, max: 0 });
            alarm(wall);
            if close_out {
                close(1);
            }
            Ok(())
        });
    }
    let t = Instant::now();
    let st = c.spawn().and_then(|mut ch| ch.wait());
    let wall = t.elapsed().as_secs_f64();
    let mut stderr = String::from_utf8_lossy(&fs::read(&errp).unwrap_or_default()).into_owned();
    if stderr.len() > 8000 {
        stderr = stderr.chars().take(8000).collect();
    }
    let _ = fs::remove_file(&errp);
    match st {
        Ok(s) => Run { code: s.code(), signal: s.signal(), stderr, wall },
        Err(e) => Run { code: None, signal: Some(-1), stderr: format!("spawn: {}", e), wall },
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    /// cases: (quick, thorough)
    pub cases: (u64, u64),
    /// wall-clock caps in seconds for generating new cases
    pub secs: (u64, u64),
    /// counters that must be non-zero for the run to count as an observation
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Case) -> Res,
}

/// Lines of known_findings.txt: `known: property=<id> signature="<text of the violation>" <what fails>`.
/// (Lines starting with `fixed:` suppress nothing.)
fn known(env: &Env, msg: &str) -> Option<String> {
    let f = fs::read_to_string(env.verif.join("known_findings.txt")).unwrap_or_default();
    let head = format!("known: property={} signature=\"", env.prop);
    for l in f.lines() {
        if let Some((sig, what)) = l.strip_prefix(&head).and_then(|r| r.split_once('"')) {
            if !sig.is_empty() && msg.contains(sig) {
                return Some(what.trim().to_string());
            }
        }
    }
    None
}

fn copy_tree(from: &Path, to: &Path, budget: &mut u64) {
    let _ = fs::create_dir_all(to);
    if let Ok(rd) = fs::read_dir(from) {
        for e in rd.flatten() {
            let name = e.file_name();
            if name.to_string_lossy().starts_with(".stderr") {
                continue;
            }
            let p = e.path();
            if let Ok(md) = fs::symlink_metadata(&p) {
                if md.is_dir() {
                    copy_tree(&p, &to.join(&name), budget);
                } else if md.is_file() && md.len() <= *budget {
                    *budget -= md.len();
                    let _ = fs::copy(&p, to.join(&name));
                }
            }
        }
    }
}

pub fn clear_dir(d: &Path) {
    if let Ok(rd) = fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if fs::symlink_metadata(&p).map(|m| m.is_dir()).unwrap_or(false) {
                let _ = fs::remove_dir_all(&p);
            } else {
                let _ = fs::remove_file(&p);
            }
        }
    }
}

struct Agg {
    counters: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    samples: Vec<Value>,
    evals: u64,
    violations: Vec<(u64, String)>,
    knowns: BTreeSet<String>,
    inconclusive: Vec<(u64, String)>,
}

/// Runs one property; returns the exit code.
pub fn run_prop(env: &Env, prop: &Prop, only: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let ncases = match only {
        Some(_) => 1,
        None => {
            if env.thorough {
                prop.cases.1
            } else {
                prop.cases.0
            }
        }
    };
    let cap = Duration::from_secs(if env.thorough { prop.secs.1 } else { prop.secs.0 });
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg {
        counters: BTreeMap::new(),
        sigs: HashSet::new(),
        samples: Vec::new(),
        evals: 0,
        violations: Vec::new(),
        knowns: BTreeSet::new(),
        inconclusive: Vec::new(),
    });
    let nthreads: usize = if only.is_some() {
        1
    } else {
        std::env::var("MON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
    };
    std::thread::scope(|sc| {
        for ti in 0..nthreads {
            let (next, stop, agg) = (&next, &stop, &agg);
            sc.spawn(move || {
                let dir = env.scratch.join(format!("t{}", ti));
                fs::create_dir_all(&dir).expect("scratch");
                loop {
                    if stop.load(Ordering::Relaxed) || (t0.elapsed() > cap && only.is_none()) {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= ncases {
                        break;
                    }
                    let i = only.unwrap_or(i);
                    clear_dir(&dir);
                    let mut case = Case {
                        env,
                        idx: i,
                        rng: Rng::for_case(env.seed, prop.id, i),
                        dir: dir.clone(),
                        counters: BTreeMap::new(),
                        sigs: vec![],
                        sample: None,
                        last_cmd: String::new(),
                        verbose: only.is_some(),
                    };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.run)(&mut case)));
                    let r = match r {
                        Ok(r) => r,
                        Err(p) => {
                            let m = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            Err(Fail::Inconclusive(format!("harness panic: {}", m)))
                        }
                    };
                    let mut a = agg.lock().unwrap();
                    a.evals += 1;
                    for (k, n) in &case.counters {
                        *a.counters.entry(k.clone()).or_insert(0) += n;
                    }
                    a.sigs.extend(case.sigs.iter());
                    if a.samples.len() < 3 {
                        if let Some(s) = case.sample.take() {
                            a.samples.push(s);
                        }
                    }
                    match r {
                        Ok(()) => {}
                        Err(Fail::Violation(m)) | Err(Fail::Rejected(m)) => {
                            if let Some(k) = known(env, &m) {
                                a.knowns.insert(k);
                            } else {
                                let rp = env.verif.join(format!("replays/{}/seed{}-case{}", prop.id, env.seed, i));
                                let _ = fs::remove_dir_all(&rp);
                                let mut budget = 24 << 20;
                                copy_tree(&dir, &rp, &mut budget);
                                let _ = fs::write(
                                    rp.join("VIOLATION.txt"),
                                    format!(
                                        "property {}\n{}\nlast command: {}\nreplay: cd /verif && VERIF_SEED={} VERIF_TIER={} ./check.sh {} {}\n",
                                        prop.id, m, case.last_cmd, env.seed,
                                        if env.thorough { "thorough" } else { "quick" }, prop.id, i
                                    ),
                                );
                                println!("VIOLATION property={} replay={}", prop.id, rp.display());
                                println!("  case {}: {}", i, m.chars().take(1200).collect::<String>());
                                a.violations.push((i, m));
                                if a.violations.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        Err(Fail::Inconclusive(m)) => {
                            eprintln!("inconclusive: case {}: {}", i, m);
                            a.inconclusive.push((i, m));
                            if a.inconclusive.len() >= 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                }
                clear_dir(&dir);
            });
        }
    });
    let a = agg.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    if only.is_some() {
        println!("case done: {} violations, {} inconclusive, counters {:?}", a.violations.len(), a.inconclusive.len(), a.counters);
        return if !a.violations.is_empty() { 1 } else if !a.inconclusive.is_empty() { 2 } else { 0 };
    }
    for k in &a.knowns {
        println!("KNOWN-FINDING: property={} {}", prop.id, k);
    }
    let evidence = json!({
        "property": prop.id,
        "tier": if env.thorough { "thorough" } else { "quick" },
        "seed": env.seed,
        "level": prop.level,
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.sigs.len(),
            "rule": prop.rule,
            "samples": a.samples,
            "observed": a.counters,
            "planned_cases": ncases,
            "inconclusive_cases": a.inconclusive.len(),
        },
        "assumptions": prop.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": a.violations.len(),
    });
    let evdir = env.verif.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    fs::write(evdir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&evidence).unwrap() + "\n")
        .expect("evidence");
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violations, {} inconclusive, {:.1}s",
        prop.id,
        a.evals,
        a.sigs.len(),
        a.violations.len(),
        a.inconclusive.len(),
        wall
    );
    for (k, n) in &a.counters {
        println!("  {} = {}", k, n);
    }
    if !a.violations.is_empty() {
        return 1;
    }
    // A few timed-out cases leave the rest of the observation standing; more make it no answer.
    if a.inconclusive.len() as u64 * 50 > a.evals {
        println!("INCONCLUSIVE {}: {} of {} cases gave no answer", prop.id, a.inconclusive.len(), a.evals);
        return 2;
    }
    for k in prop.need {
        if a.counters.get(*k).cloned().unwrap_or(0) == 0 {
            println!("INCONCLUSIVE {}: nothing observed for {}", prop.id, k);
            return 2;
        }
    }
    if a.evals == 0 || a.sigs.is_empty() {
        println!("INCONCLUSIVE {}: no cases", prop.id);
        return 2;
    }
    0
}

