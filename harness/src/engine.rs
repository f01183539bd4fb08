//! Deterministic property-based testing driver: generation, sharding, crash isolation, shrinking, evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

pub type Check = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Labels(pub BTreeMap<&'static str, u64>);
impl Labels {
    pub fn hit(&mut self, l: &'static str) {
        *self.0.entry(l).or_insert(0) += 1;
    }
    pub fn hit_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.hit(l)
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = format!("panic: {} at {}", msg, loc));
    }));
}

/// Runs `f`, turning a panic into an `Err` with its message.
pub fn guarded(f: impl FnOnce() -> Check) -> Check {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|c| c.borrow().clone())),
    }
}

/// True if `f` panics.
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}

pub struct Sub<T> {
    pub name: &'static str,
    /// cases per run
    pub quick: u64,
    pub thorough: u64,
    /// run every case in a forked child (fresh process state)
    pub always_fork: bool,
    pub strat: fn(Tier) -> BoxedStrategy<T>,
    /// returns whether the case is non-trivial; records labels
    pub classify: fn(&T, &mut Labels) -> bool,
    pub test: fn(&T) -> Check,
}

pub trait ErasedSub {
    fn name(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    /// whether the cases run in the worker itself
    fn native(&self) -> bool {
        true
    }
    fn work(&self, w: &Worker) -> i32;
    fn replay(&self, case: &Value) -> Check;
    fn generate(&self, id: &str, tier: Tier, seed: u64, n: u64) -> Vec<Value>;
}

pub struct Worker {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub out: PathBuf,
    pub isolate_from: Option<u64>,
}

fn seed_bytes(parts: &[&str], nums: &[u64]) -> [u8; 32] {
    // FNV-1a based expansion, stable across platforms.
    let mut out = [0u8; 32];
    for (blk, chunk) in out.chunks_mut(8).enumerate() {
        let mut h: u64 = 0xcbf29ce484222325 ^ (blk as u64).wrapping_mul(0x9E3779B97F4A7C15);
        let mut eat = |b: u8| {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        };
        for p in parts {
            for b in p.bytes() {
                eat(b)
            }
            eat(0xff);
        }
        for n in nums {
            for b in n.to_le_bytes() {
                eat(b)
            }
        }
        let mut z = h;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        chunk.copy_from_slice(&z.to_le_bytes());
    }
    out
}

struct HashWriter(std::collections::hash_map::DefaultHasher);
impl Write for HashWriter {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        buf.hash(&mut self.0);
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn case_hash<T: Serialize>(sub: &str, v: &T) -> u64 {
    let mut w = HashWriter(std::collections::hash_map::DefaultHasher::new());
    sub.hash(&mut w.0);
    let _ = serde_json::to_writer(&mut w, v);
    w.0.finish()
}

fn read_task_states(pid: i32) -> Option<(bool, u64)> {
    // (all tasks asleep, total cpu ticks)
    let mut all = true;
    let mut ticks = 0u64;
    let dir = fs::read_dir(format!("/proc/{}/task", pid)).ok()?;
    for e in dir.flatten() {
        let s = fs::read_to_string(e.path().join("stat")).ok()?;
        let rest = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split_whitespace().collect();
        if f[0] != "S" {
            all = false;
        }
        ticks += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    }
    Some((all, ticks))
}

pub enum ForkResult {
    Done(Check),
    /// no verdict (time budget)
    Stuck,
}

/// CPU seconds after which one case, which normally takes milliseconds, counts as not terminating.
pub const CASE_CPU_LIMIT: u64 = 30;

fn cpu_seconds(ticks: u64) -> u64 {
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) };
    ticks / hz.max(1) as u64
}

/// Runs one case in a forked child. A signal death is a failure; a child whose threads are all asleep, with no CPU
/// use for 15 s, can never be woken (nothing outside it holds its locks) and is reported as a deadlock; one that
/// has used `CASE_CPU_LIMIT` seconds of processor time is reported as not terminating.
pub fn fork_eval(f: impl FnOnce() -> Check) -> ForkResult {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return ForkResult::Stuck;
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return ForkResult::Stuck;
        }
        if pid == 0 {
            libc::close(fds[0]);
            // keep the crash message of the child out of our stderr
            let devnull = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            if devnull >= 0 {
                libc::dup2(devnull, 2);
            }
            let r = guarded(f);
            let (code, msg) = match r {
                Ok(()) => (0, String::new()),
                Err(m) => (10, m),
            };
            let b = msg.as_bytes();
            let n = b.len().min(4000);
            libc::write(fds[1], b.as_ptr() as *const _, n);
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let start = Instant::now();
        let mut status = 0i32;
        let mut asleep_since: Option<(Instant, u64)> = None;
        let mut nap = 50u64;
        loop {
            let r = libc::waitpid(pid, &mut status, libc::WNOHANG);
            if r == pid {
                break;
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 2).min(20_000);
            if start.elapsed() > Duration::from_secs(1) {
                let st = read_task_states(pid);
                if let Some((_, t)) = st {
                    if cpu_seconds(t) >= CASE_CPU_LIMIT {
                        libc::kill(pid, libc::SIGKILL);
                        libc::waitpid(pid, &mut status, 0);
                        libc::close(fds[0]);
                        return ForkResult::Done(Err(format!(
                            "no end: the case has used {} s of processor time and is still running",
                            CASE_CPU_LIMIT
                        )));
                    }
                }
                match st {
                    Some((true, t)) => match asleep_since {
                        Some((since, t0)) if t0 == t => {
                            if since.elapsed() > Duration::from_secs(15) {
                                libc::kill(pid, libc::SIGKILL);
                                libc::waitpid(pid, &mut status, 0);
                                libc::close(fds[0]);
                                return ForkResult::Done(Err(
                                    "deadlock: every thread of the case is asleep and none can wake another".into(),
                                ));
                            }
                        }
                        _ => asleep_since = Some((Instant::now(), t)),
                    },
                    _ => asleep_since = None,
                }
            }
            if start.elapsed() > Duration::from_secs(300) {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
                libc::close(fds[0]);
                return ForkResult::Stuck;
            }
        }
        let mut buf = vec![0u8; 4096];
        let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
        libc::close(fds[0]);
        let msg = String::from_utf8_lossy(&buf[..n.max(0) as usize]).to_string();
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            if sig == libc::SIGKILL {
                return ForkResult::Stuck; // out of memory killer or outside interference
            }
            return ForkResult::Done(Err(format!("crash: the process was killed by signal {}", sig)));
        }
        match libc::WEXITSTATUS(status) {
            0 => ForkResult::Done(Ok(())),
            10 => ForkResult::Done(Err(msg)),
            c => ForkResult::Done(Err(format!("crash: the process exited with status {} (sanitizer report)", c))),
        }
    }
}

impl<T> Sub<T>
where
    T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
{
    pub fn boxed(self) -> Box<dyn ErasedSub> {
        Box::new(self)
    }
    fn eval(&self, v: &T, fork: bool) -> Result<Check, ()> {
        if fork {
            match fork_eval(|| (self.test)(v)) {
                ForkResult::Done(c) => Ok(c),
                ForkResult::Stuck => Err(()),
            }
        } else {
            Ok(guarded(|| (self.test)(v)))
        }
    }
}

pub const EXIT_FAIL: i32 = 10;
pub const EXIT_STUCK: i32 = 11;

impl<T> ErasedSub for Sub<T>
where
    T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn replay(&self, case: &Value) -> Check {
        let v: T = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay file: {}", e))?;
        (self.test)(&v)
    }
    fn generate(&self, id: &str, tier: Tier, seed: u64, n: u64) -> Vec<Value> {
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[id, self.name], &[seed, u64::MAX]));
        let cfg = Config { failure_persistence: None, cases: 1, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let strat = (self.strat)(tier);
        (0..n).filter_map(|_| strat.new_tree(&mut runner).ok()).map(|t| serde_json::to_value(t.current()).unwrap()).collect()
    }
    fn work(&self, w: &Worker) -> i32 {
        let total = self.cases(w.tier);
        let mine = total / w.nshards + if w.shard < total % w.nshards { 1 } else { 0 };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[&w.id, self.name], &[w.seed, w.shard]));
        let cfg = Config { failure_persistence: None, cases: 1, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let strat = (self.strat)(w.tier);
        let stem = format!("{}.{}", self.name, w.shard);
        let pos = fs::OpenOptions::new().create(true).write(true).open(w.out.join(format!("{}.pos", stem))).unwrap();
        let mut labels = Labels::default();
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut samples: Vec<Value> = vec![];
        let mut evals = 0u64;
        let mut nontriv = 0u64;
        let mut next_sample = 1u64;
        for i in 0..mine {
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    eprintln!("generator error: {}", e);
                    return 12;
                }
            };
            let v = tree.current();
            evals += 1;
            if (self.classify)(&v, &mut labels) {
                nontriv += 1;
                hashes.insert(case_hash(self.name, &v));
                if nontriv == next_sample && samples.len() < 6 {
                    next_sample = next_sample * 7 + 3;
                    let s = serde_json::to_string(&v).unwrap_or_default();
                    samples.push(if s.len() <= 700 {
                        json!({"sub": self.name, "case": v})
                    } else {
                        json!({"sub": self.name, "case_json_truncated": s.chars().take(700).collect::<String>()})
                    });
                }
            }
            let _ = pos.write_at(&i.to_le_bytes(), 0);
            let mut fork = self.always_fork;
            if let Some(from) = w.isolate_from {
                if i < from {
                    continue;
                }
                fork = true;
            }
            let res = match self.eval(&v, fork) {
                Ok(r) => r,
                Err(()) => return EXIT_STUCK,
            };
            if let Err(first_msg) = res {
                // Shrink. Bounded by evaluations and time; the last failing value is kept.
                let original = serde_json::to_value(&v).unwrap();
                let mut best = v.clone();
                let mut best_msg = first_msg.clone();
                let mut steps = 0u32;
                let start = Instant::now();
                let budget = if fork { (600u32, 60u64) } else { (20_000u32, 40u64) };
                write_fail(w, self.name, &stem, &best, &best_msg, &original, &first_msg, steps);
                let mut more = tree.simplify();
                while more && steps < budget.0 && start.elapsed() < Duration::from_secs(budget.1) {
                    steps += 1;
                    let c = tree.current();
                    // A crash that unwinding cannot contain must stay in a child.
                    let r = match self.eval(&c, fork) {
                        Ok(r) => r,
                        Err(()) => Ok(()),
                    };
                    more = match r {
                        Err(m) => {
                            best = c;
                            best_msg = m;
                            // the shrunk value so far survives a crash of this process
                            write_fail(w, self.name, &stem, &best, &best_msg, &original, &first_msg, steps);
                            tree.simplify()
                        }
                        Ok(()) => tree.complicate(),
                    };
                }
                write_fail(w, self.name, &stem, &best, &best_msg, &original, &first_msg, steps);
                return EXIT_FAIL;
            }
        }
        let mut hb: Vec<u8> = Vec::with_capacity(hashes.len() * 8);
        for h in &hashes {
            hb.extend_from_slice(&h.to_le_bytes());
        }
        fs::write(w.out.join(format!("{}.hashes", stem)), hb).unwrap();
        let res = json!({"sub": self.name, "evaluations": evals, "nontrivial": nontriv,
                         "labels": labels.0, "samples": samples});
        fs::write(w.out.join(format!("{}.json", stem)), serde_json::to_vec(&res).unwrap()).unwrap();
        0
    }
}

/// The same sub-check executed by Valgrind memcheck (reads of uninitialised memory, stray pointers) in the binary named
/// by VERIF_NATIVE. Does nothing when that is not set.
pub struct Memcheck<T> {
    pub sub: Sub<T>,
    pub quick: u64,
    pub thorough: u64,
}
impl<T> Memcheck<T>
where
    T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
{
    pub fn boxed(self) -> Box<dyn ErasedSub> {
        Box::new(self)
    }
    /// Number of the failing case and what went wrong, if any.
    fn execute(&self, w: &Worker, cases: &[T]) -> Result<Option<(usize, String)>, String> {
        let exe = std::env::var("VERIF_NATIVE").map_err(|e| e.to_string())?;
        let file = |kind: &str| w.out.join(format!("memcheck.{}.{}.{}", self.sub.name, w.shard, kind));
        let (bf, of, ef) = (file("batch"), file("out"), file("log"));
        let b = json!({"property": w.id, "sub": self.sub.name, "cases": cases});
        fs::write(&bf, serde_json::to_vec(&b).unwrap()).map_err(|e| e.to_string())?;
        let mut c = std::process::Command::new("valgrind")
            .args(["-q", "--vgdb=no", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no"])
            .arg(format!("--log-file={}", ef.display()))
            .arg(exe)
            .arg("batch")
            .arg(&bf)
            .stdout(fs::File::create(&of).map_err(|e| e.to_string())?)
            .stderr(std::process::Stdio::null())
            .spawn()
            .map_err(|e| format!("valgrind: {}", e))?;
        let start = Instant::now();
        let st = loop {
            if let Some(s) = c.try_wait().map_err(|e| e.to_string())? {
                break s;
            }
            if start.elapsed() > Duration::from_secs(600) {
                let _ = c.kill();
                let _ = c.wait();
                return Err("memcheck took too long".into());
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        let out = fs::read_to_string(&of).unwrap_or_default();
        if st.code() == Some(0) && out.ends_with("DONE\n") {
            return Ok(None);
        }
        let at = out.lines().rev().find_map(|l| l.strip_prefix("CASE ")?.parse::<usize>().ok());
        let log: String = fs::read_to_string(&ef).unwrap_or_default().lines().take(12).collect::<Vec<_>>().join("\n");
        let why = match (st.code(), st.signal()) {
            (Some(77), _) => format!("memcheck report: {}", log),
            (Some(EXIT_FAIL), _) => out.lines().last().unwrap_or("").to_string(),
            (_, Some(s)) if s != libc::SIGKILL => format!("crash: killed by signal {}", s),
            x => return Err(format!("memcheck run ended with {:?}: {}", x, log)),
        };
        at.map(|i| Some((i, why))).ok_or_else(|| format!("memcheck failed before the first case: {}", log))
    }
}
impl<T> ErasedSub for Memcheck<T>
where
    T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
{
    fn name(&self) -> &'static str {
        self.sub.name
    }
    fn native(&self) -> bool {
        false
    }
    fn cases(&self, tier: Tier) -> u64 {
        match (std::env::var_os("VERIF_NATIVE"), tier) {
            (None, _) => 0,
            (_, Tier::Quick) => self.quick,
            (_, Tier::Thorough) => self.thorough,
        }
    }
    fn replay(&self, case: &Value) -> Check {
        self.sub.replay(case)
    }
    fn generate(&self, id: &str, tier: Tier, seed: u64, n: u64) -> Vec<Value> {
        self.sub.generate(id, tier, seed, n)
    }
    fn work(&self, w: &Worker) -> i32 {
        let total = self.cases(w.tier);
        let mine = total / w.nshards + if w.shard < total % w.nshards { 1 } else { 0 };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[&w.id, self.sub.name], &[w.seed, w.shard]));
        let cfg = Config { failure_persistence: None, cases: 1, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let strat = (self.sub.strat)(w.tier);
        let stem = format!("{}.{}", self.sub.name, w.shard);
        let mut labels = Labels::default();
        let mut hashes: HashSet<u64> = HashSet::new();
        let (mut done, mut nontriv) = (0u64, 0u64);
        let mut samples = vec![];
        while done < mine {
            let n = (mine - done).min(200);
            let mut trees = vec![];
            for _ in 0..n {
                match strat.new_tree(&mut runner) {
                    Ok(t) => trees.push(t),
                    Err(_) => return 12,
                }
            }
            let vals: Vec<T> = trees.iter().map(|t| t.current()).collect();
            for v in &vals {
                if (self.sub.classify)(v, &mut labels) {
                    nontriv += 1;
                    hashes.insert(case_hash(self.sub.name, v));
                    if samples.is_empty() {
                        let s = serde_json::to_string(v).unwrap_or_default();
                        samples.push(json!({"sub": self.sub.name, "case_json": s.chars().take(500).collect::<String>()}));
                    }
                }
            }
            done += n;
            match self.execute(w, &vals) {
                Ok(None) => {}
                Ok(Some((i, why))) => {
                    let original = serde_json::to_value(&vals[i]).unwrap();
                    let tree = &mut trees[i];
                    let (mut best, mut msg, mut steps) = (vals[i].clone(), why.clone(), 0);
                    let start = Instant::now();
                    write_fail(w, self.sub.name, &stem, &best, &msg, &original, &why, steps);
                    let mut more = tree.simplify();
                    while more && steps < 400 && start.elapsed() < Duration::from_secs(60) {
                        steps += 1;
                        let c = tree.current();
                        more = match self.execute(w, std::slice::from_ref(&c)) {
                            Ok(Some((_, m))) => {
                                best = c;
                                msg = m;
                                tree.simplify()
                            }
                            _ => tree.complicate(),
                        };
                    }
                    write_fail(w, self.sub.name, &stem, &best, &msg, &original, &why, steps);
                    return EXIT_FAIL;
                }
                Err(e) => {
                    eprintln!("{}", e);
                    return 12;
                }
            }
        }
        let mut hb: Vec<u8> = Vec::with_capacity(hashes.len() * 8);
        for h in &hashes {
            hb.extend_from_slice(&h.to_le_bytes());
        }
        fs::write(w.out.join(format!("{}.hashes", stem)), hb).unwrap();
        let res = json!({"sub": self.sub.name, "evaluations": done, "nontrivial": nontriv,
                         "labels": labels.0, "samples": samples});
        fs::write(w.out.join(format!("{}.json", stem)), serde_json::to_vec(&res).unwrap()).unwrap();
        0
    }
}

#[allow(clippy::too_many_arguments)]
fn write_fail<T: Serialize>(w: &Worker, sub: &str, stem: &str, best: &T, msg: &str, original: &Value, omsg: &str, steps: u32) {
    let f = json!({"property": w.id, "sub": sub, "case": best, "message": msg, "seed": w.seed, "shard": w.shard,
                   "build": if w.shard < w.nshards { "checked" } else { "unchecked" }, "nshards": w.nshards,
                   "tier": if w.tier == Tier::Quick { "quick" } else { "thorough" },
                   "original_case": original, "original_message": omsg, "shrink_steps": steps});
    let _ = fs::write(w.out.join(format!("{}.fail.json", stem)), serde_json::to_vec_pretty(&f).unwrap());
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn ErasedSub>>,
}

struct Job {
    sub: usize,
    shard: u64,
    isolate: Option<u64>,
    /// second run of a stream whose worker crashed in a case that does not crash by itself
    confirm: bool,
    child: Option<std::process::Child>,
    /// last position seen and the CPU ticks the worker had used then
    seen: (u64, u64),
    killed_spinning: bool,
}

fn limit_memory() {
    if std::env::var_os("VERIF_NO_RLIMIT").is_some() {
        return;
    }
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

pub fn worker_main(p: &Property, args: &[String]) -> i32 {
    // worker ID sub shard nshards tier seed out isolate
    limit_memory();
    install_panic_hook();
    let sub = &args[0];
    let w = Worker {
        id: p.id.to_string(),
        shard: args[1].parse().unwrap(),
        nshards: args[2].parse().unwrap(),
        tier: if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick },
        seed: args[4].parse().unwrap(),
        out: PathBuf::from(&args[5]),
        isolate_from: if args[6] == "-" { None } else { Some(args[6].parse().unwrap()) },
    };
    let s = p.subs.iter().find(|s| s.name() == sub).expect("no such sub-check");
    s.work(&w)
}

fn position(f: &Path) -> u64 {
    let b = fs::read(f).unwrap_or_default();
    if b.len() == 8 {
        u64::from_le_bytes(b.try_into().unwrap())
    } else {
        0
    }
}

/// Runs the whole check of a property: exit status 0, 1 (violation), 2 (no verdict).
pub fn check_main(p: &Property, tier: Tier, seed: u64, evidence: &Path, replay_dir: &Path) -> i32 {
    let start = Instant::now();
    let scratch = std::env::temp_dir().join(format!("verif-{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&scratch);
    fs::create_dir_all(&scratch).unwrap();
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64;
    let nshards = 8u64; // fixed, so that the cases do not depend on the machine
    let budget = Duration::from_secs(match tier {
        Tier::Quick => 700,
        Tier::Thorough => 6 * 3600,
    });
    let exe = std::env::current_exe().unwrap();
    // The shards from nshards on run in the build without debug assertions and overflow checks.
    let unchecked = std::env::var_os("VERIF_UNCHECKED").map(PathBuf::from);
    let ashards = if unchecked.is_some() { 2 * nshards } else { nshards };
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut queue: Vec<Job> = vec![];
    for (si, s) in p.subs.iter().enumerate() {
        if s.cases(tier) == 0 {
            continue;
        }
        for sh in 0..if s.native() { ashards } else { nshards } {
            queue.push(Job { sub: si, shard: sh, isolate: None, confirm: false, child: None, seen: (u64::MAX, 0), killed_spinning: false });
        }
    }
    queue.reverse();
    let mut running: Vec<Job> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut failed = false;
    let mut last_look = Instant::now();
    while !queue.is_empty() || !running.is_empty() {
        if last_look.elapsed() > Duration::from_secs(1) {
            last_look = Instant::now();
            for j in running.iter_mut() {
                // A worker that spins in one case is stopped, and the case repeated in isolation.
                let s = &p.subs[j.sub];
                let at = position(&scratch.join(format!("{}.{}.pos", s.name(), j.shard)));
                let c = j.child.as_mut().unwrap();
                if let Some((_, t)) = read_task_states(c.id() as i32) {
                    let shrinking = scratch.join(format!("{}.{}.fail.json", s.name(), j.shard)).exists();
                    if j.seen.0 != at {
                        j.seen = (at, t);
                    } else if cpu_seconds(t - j.seen.1) >= if shrinking { 40 + CASE_CPU_LIMIT } else { CASE_CPU_LIMIT } {
                        j.killed_spinning = true;
                        let _ = c.kill();
                    }
                }
            }
        }
        while running.len() < ncpu as usize && !queue.is_empty() && !failed {
            let mut j = queue.pop().unwrap();
            let s = &p.subs[j.sub];
            let c = std::process::Command::new(if j.shard < nshards { &exe } else { unchecked.as_ref().unwrap() })
                .arg("worker")
                .arg(p.id)
                .arg(s.name())
                .arg(j.shard.to_string())
                .arg(nshards.to_string())
                .arg(tname)
                .arg(seed.to_string())
                .arg(&scratch)
                .arg(j.isolate.map(|i| i.to_string()).unwrap_or_else(|| "-".into()))
                .stderr(fs::File::create(scratch.join(format!("{}.{}.err", s.name(), j.shard))).unwrap())
                .spawn();
            match c {
                Ok(c) => {
                    j.child = Some(c);
                    running.push(j);
                }
                Err(e) => errors.push(format!("spawn: {}", e)),
            }
        }
        if failed {
            queue.clear();
        }
        std::thread::sleep(Duration::from_millis(10));
        let mut i = 0;
        while i < running.len() {
            match running[i].child.as_mut().unwrap().try_wait() {
                Ok(Some(st)) => {
                    let j = running.swap_remove(i);
                    let s = &p.subs[j.sub];
                    let stem = format!("{}.{}", s.name(), j.shard);
                    match (st.code(), st.signal()) {
                        (Some(0), _) if j.isolate.is_some() => {
                            queue.push(Job { sub: j.sub, shard: j.shard, isolate: None, confirm: true, child: None, seen: (u64::MAX, 0), killed_spinning: false });
                        }
                        (Some(0), _) => {}
                        (Some(EXIT_FAIL), _) => failed = true,
                        (Some(EXIT_STUCK), _) => errors.push(format!("{}: a case did not finish in its time budget", stem)),
                        (code, sig) => {
                            let err = fs::read_to_string(scratch.join(format!("{}.err", stem))).unwrap_or_default();
                            let tail: String = err.chars().take(3000).collect();
                            if sig == Some(libc::SIGKILL) && !j.killed_spinning {
                                errors.push(format!("{}: worker killed", stem));
                            } else if code == Some(12) || code == Some(101) {
                                errors.push(format!("{}: harness error\n{}", stem, tail));
                            } else if j.confirm && sig.is_some() && sig != Some(libc::SIGKILL) {
                                let at = position(&scratch.join(format!("{}.pos", stem)));
                                let why = format!("crash: signal {:?} in case {} of the stream, though not in that case by itself: state left by earlier cases", sig, at);
                                let f = json!({"property": p.id, "sub": s.name(), "case": Value::Null, "message": why, "seed": seed, "shard": j.shard,
                                               "build": if j.shard < nshards { "checked" } else { "unchecked" }, "nshards": nshards, "tier": tname});
                                let _ = fs::write(scratch.join(format!("{}.fail.json", stem)), serde_json::to_vec_pretty(&f).unwrap());
                                failed = true;
                            } else if j.confirm {
                                eprintln!("{}: a crash or delay did not happen again", stem);
                            } else if j.isolate.is_some() {
                                errors.push(format!("{}: worker died again ({:?}/{:?})\n{}", stem, code, sig, tail));
                            } else {
                                // A crash (abort, SIGSEGV, sanitizer report): repeat from that case, one child each.
                                eprintln!("{}: worker crashed ({:?}/{:?}); isolating\n{}", stem, code, sig, tail);
                                let at = position(&scratch.join(format!("{}.pos", stem)));
                                let fail = scratch.join(format!("{}.fail.json", stem));
                                if fail.exists() {
                                    failed = true; // crashed while shrinking: the last failing value is on disk
                                } else {
                                    queue.push(Job { sub: j.sub, shard: j.shard, isolate: Some(at), confirm: false, child: None, seen: (u64::MAX, 0), killed_spinning: false });
                                }
                            }
                        }
                    }
                }
                Ok(None) => i += 1,
                Err(e) => {
                    errors.push(format!("wait: {}", e));
                    running.swap_remove(i);
                }
            }
        }
        if start.elapsed() > budget {
            for j in running.iter_mut() {
                let _ = j.child.as_mut().unwrap().kill();
                let _ = j.child.as_mut().unwrap().wait();
            }
            errors.push("time budget exceeded: no verdict".into());
            break;
        }
        if failed && running.is_empty() {
            break;
        }
    }
    // Collect
    let mut evals = 0u64;
    let mut nontriv = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut per_sub = serde_json::Map::new();
    let mut samples: Vec<Value> = vec![];
    for s in p.subs.iter() {
        let mut sub_e = 0;
        let mut sub_n = 0;
        let mut sub_o = 0;
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        for sh in 0..ashards {
            let stem = format!("{}.{}", s.name(), sh);
            if let Ok(b) = fs::read(scratch.join(format!("{}.json", stem))) {
                if let Ok(v) = serde_json::from_slice::<Value>(&b) {
                    sub_e += v["evaluations"].as_u64().unwrap_or(0);
                    sub_n += v["nontrivial"].as_u64().unwrap_or(0);
                    if sh >= nshards {
                        sub_o += v["evaluations"].as_u64().unwrap_or(0);
                    }
                    if let Some(m) = v["labels"].as_object() {
                        for (k, n) in m {
                            *labels.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                        }
                    }
                    if sh < 2 {
                        if let Some(a) = v["samples"].as_array() {
                            samples.extend(a.iter().take(3).cloned());
                        }
                    }
                }
            }
            if let Ok(b) = fs::read(scratch.join(format!("{}.hashes", stem))) {
                for c in b.chunks_exact(8) {
                    hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
        evals += sub_e;
        nontriv += sub_n;
        if sub_e > 0 {
            per_sub.insert(s.name().to_string(), json!({"evaluations": sub_e, "of_these_without_debug_assertions": sub_o, "nontrivial": sub_n, "classes": labels}));
        }
    }
    // Failures: the smallest shrunk case wins.
    let mut fails: Vec<(usize, Value)> = vec![];
    if let Ok(d) = fs::read_dir(&scratch) {
        for e in d.flatten() {
            if e.file_name().to_string_lossy().ends_with(".fail.json") {
                if let Ok(b) = fs::read(e.path()) {
                    if let Ok(v) = serde_json::from_slice::<Value>(&b) {
                        fails.push((v["case"].to_string().len(), v));
                    }
                }
            }
        }
    }
    fails.sort_by(|a, b| a.0.cmp(&b.0).then_with(|| a.1.to_string().cmp(&b.1.to_string())));
    let ev = json!({
        "property": p.id, "tier": tname, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": hashes.len(), "nontrivial_total": nontriv,
                      "rule": p.rule, "samples": samples, "sub_checks": per_sub},
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": fails.len(),
    });
    if let Some(d) = evidence.parent() {
        let _ = fs::create_dir_all(d);
    }
    fs::write(evidence, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    let mut code = 0;
    if let Some((_, v)) = fails.first() {
        let _ = fs::create_dir_all(replay_dir);
        let path = replay_dir.join(format!("{}.json", p.id));
        fs::write(&path, serde_json::to_vec_pretty(v).unwrap()).unwrap();
        println!("{}: sub-check {} failed: {}", p.id, v["sub"], v["message"]);
        let c = v["case"].to_string();
        println!("  case: {}", c.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR {}: {}", p.id, e);
        }
        code = 2;
    } else if evals == 0 || hashes.is_empty() {
        eprintln!("ERROR {}: nothing was evaluated", p.id);
        code = 2;
    } else {
        println!(
            "{}: held on {} cases ({} distinct non-trivial) in {:.1} s",
            p.id, evals, hashes.len(), start.elapsed().as_secs_f64()
        );
    }
    let _ = fs::remove_dir_all(&scratch);
    code
}

/// Evaluates the cases of a file one after another in this process, naming each before it runs: the form in which an
/// interpreter (Miri) executes them.
pub fn batch_main(p: &Property, v: &Value) -> i32 {
    install_panic_hook();
    let s = p.subs.iter().find(|s| s.name() == v["sub"].as_str().unwrap_or("")).expect("no such sub-check");
    for (i, c) in v["cases"].as_array().expect("cases").iter().enumerate() {
        println!("CASE {}", i);
        if let Err(m) = guarded(|| s.replay(c)) {
            println!("FAIL {}", m);
            return EXIT_FAIL;
        }
    }
    println!("DONE");
    0
}

pub fn replay_main(p: &Property, v: &Value) -> i32 {
    install_panic_hook();
    let sub = v["sub"].as_str().unwrap_or("");
    match p.subs.iter().find(|s| s.name() == sub) {
        None => {
            eprintln!("no sub-check {} in this build", sub);
            2
        }
        Some(s) => match if v["case"].is_null() { ForkResult::Done(Ok(())) } else { fork_eval(|| s.replay(&v["case"])) } {
            ForkResult::Done(Ok(())) => {
                // Perhaps it needs the state that the cases before it leave: run its whole stream again.
                if v["tier"].is_string() && s.native() {
                    let out = std::env::temp_dir().join(format!("verif-replay-{}", std::process::id()));
                    let _ = fs::create_dir_all(&out);
                    let num = |k: &str| v[k].as_u64().unwrap_or(0).to_string();
                    let st = std::process::Command::new(std::env::current_exe().unwrap())
                        .args(["worker", p.id, sub, &num("shard"), &num("nshards"), v["tier"].as_str().unwrap(), &num("seed")])
                        .arg(&out)
                        .arg("-")
                        .stderr(std::process::Stdio::null())
                        .status();
                    let _ = fs::remove_dir_all(&out);
                    if !matches!(&st, Ok(st) if st.code() == Some(0)) {
                        println!("replay of {} {}: FAILS after the cases generated before it (seed {}, shard {})", p.id, sub, v["seed"], v["shard"]);
                        return 1;
                    }
                }
                println!("replay of {} {}: passes", p.id, sub);
                0
            }
            ForkResult::Done(Err(m)) => {
                println!("replay of {} {}: FAILS: {}", p.id, sub, m);
                1
            }
            ForkResult::Stuck => 2,
        },
    }
}
