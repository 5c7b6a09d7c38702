//! Runs ripcalc: in-process through the server build, or by executing the plain binary; keeps the
//! books (states, transitions, outcomes, validated traces) and the first violation.

use std::collections::{HashMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::OwnedFd;
use std::os::unix::fs::FileExt;
use std::os::unix::net::UnixStream;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Args = Vec<String>;
/// The number of model steps compared with the implementation, or what is wrong.
pub type Verdict = Result<u64, String>;

pub const PANIC: i32 = 101;
pub const SIGNALLED: i32 = -1;
pub const TIMED_OUT: i32 = -2;
/// See inject/confine.c.
pub const CONFINED: i32 = 97;
pub const NO_CONFINEMENT: i32 = 98;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Out {
    pub status: i32,
    pub out: String,
    pub err: String,
}
impl Out {
    pub fn lines(&self) -> Vec<&str> {
        self.out.lines().collect()
    }
    pub fn brief(&self) -> String {
        format!("status {} stdout {:?} stderr {:?}", status_text(self.status), clip(&self.out, 600), clip(&self.err, 300))
    }
}
pub fn status_text(s: i32) -> String {
    match s {
        PANIC => "101 (panic)".into(),
        SIGNALLED => "killed by a signal".into(),
        TIMED_OUT => "none: it did not terminate".into(),
        n => n.to_string(),
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Env {
    Plain,
    Color,
    /// The release profile: no overflow checks, optimized.
    Release,
    /// With every system call that could affect anything but the output forbidden.
    Confined,
}
impl Env {
    pub fn vars(self) -> Vec<(&'static str, String)> {
        match self {
            Env::Color => vec![("CLICOLOR_FORCE", "1".into())],
            _ => vec![],
        }
    }
    pub fn server(self) -> &'static str {
        match self {
            Env::Release => "ripcalc-mc-rel",
            _ => "ripcalc-mc",
        }
    }
    pub fn plain(self) -> &'static str {
        match self {
            Env::Release => "ripcalc-rel",
            _ => "ripcalc",
        }
    }
    pub fn command(self) -> &'static str {
        match self {
            Env::Plain => "ripcalc",
            Env::Color => "CLICOLOR_FORCE=1 ripcalc",
            Env::Release => "ripcalc-rel",
            Env::Confined => "LD_PRELOAD=$PWD/build/bin/confine.so ripcalc",
        }
    }
}

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    pub fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

/// What all workers share.
pub struct Shared {
    pub id: String,
    pub thorough: bool,
    pub bin: PathBuf,
    pub mode: String,
    pub scratch: PathBuf,
    pub deadline: Instant,
    pub capped: AtomicBool,
    pub failed_task: AtomicUsize,
    /// When the first violation was found; the tasks before it get a little longer to find an earlier one.
    pub found: Mutex<Option<Instant>>,
    pub violations: Mutex<Vec<Violation>>,
    pub watch: Mutex<HashMap<i32, Instant>>,
    pub timed_out: Mutex<HashSet<i32>>,
    pub notes: Mutex<Vec<String>>,
    pub conform_every: AtomicU64,
    /// How often an answer of the server was wrong and that of a process of its own was not: the
    /// code keeps something from one invocation to the next, so the server no longer represents it.
    pub unlike: AtomicUsize,
}
const UNLIKE: usize = 3;

#[derive(Clone, Debug)]
pub struct Violation {
    pub task: usize,
    pub seq: u64,
    pub what: String,
    pub runs: Vec<(Env, Args)>,
    pub outs: Vec<Out>,
    pub extra: String,
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub runs: u64,
    pub transitions: u64,
    pub execs: u64,
    pub faults: u64,
    pub mismatches: u64,
    pub artefacts: u64,
    pub restarts: u64,
    pub states: Vec<u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub extra: HashMap<String, u64>,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

struct Server {
    child: Child,
    sock: UnixStream,
    out: File,
    err: File,
    paths: [PathBuf; 2],
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        for p in &self.paths {
            let _ = std::fs::remove_file(p);
        }
    }
}

struct Pending {
    runs: Vec<(Env, Args)>,
    judge: Box<dyn Fn(&[Out]) -> Verdict>,
}
type Next = Box<dyn Fn(&[Out]) -> Result<Vec<Args>, String>>;
type Last = Box<dyn Fn(&[Out], &[Out]) -> Verdict>;
struct Chain {
    first: Vec<Args>,
    next: Next,
    last: Last,
}
struct ApiBatch {
    op: u8,
    fam: u8,
    recs: Vec<(Vec<u8>, Vec<u8>)>,
}

pub struct Runner {
    pub sh: Arc<Shared>,
    pub st: Stats,
    worker: usize,
    pub task: usize,
    seq: u64,
    servers: HashMap<Env, Server>,
    n_files: u64,
    pending: Vec<Pending>,
    n_pending: usize,
    chains: Vec<Chain>,
    api: Option<ApiBatch>,
    since_conform: u64,
}

const BATCH: usize = 48;
const API_BATCH: usize = 512;
const DUMMY_ARGS: usize = 6000;
pub const TIMEOUT: Duration = Duration::from_secs(20);
/// Of one answer of the server; after that the invocation gets a process of its own.
const SERVER_TIMEOUT: Duration = Duration::from_secs(8);
const GRACE: Duration = Duration::from_secs(10);

fn base_env(c: &mut Command) {
    c.env_clear();
    c.env("PATH", "/usr/bin:/bin");
    c.env("RUST_BACKTRACE", "0");
}

impl Runner {
    pub fn new(sh: Arc<Shared>, worker: usize) -> Runner {
        Runner {
            sh,
            st: Stats::default(),
            worker,
            task: 0,
            seq: 0,
            servers: HashMap::new(),
            n_files: 0,
            pending: Vec::new(),
            n_pending: 0,
            chains: Vec::new(),
            api: None,
            since_conform: worker as u64 * 7,
        }
    }
    pub fn thorough(&self) -> bool {
        self.sh.thorough
    }
    pub fn start_task(&mut self, task: usize) {
        self.task = task;
        self.seq = 0;
    }
    pub fn end_task(&mut self) {
        self.flush();
    }
    pub fn stopped(&self) -> bool {
        let failed = self.sh.failed_task.load(Ordering::Relaxed);
        if failed <= self.task || (failed != usize::MAX && self.sh.found.lock().unwrap().map(|t| t.elapsed() > GRACE).unwrap_or(false)) {
            return true;
        }
        if Instant::now() > self.sh.deadline {
            self.sh.capped.store(true, Ordering::Relaxed);
            return true;
        }
        false
    }

    pub fn file(&mut self, tag: &str) -> (PathBuf, File) {
        self.n_files += 1;
        let p = self.sh.scratch.join(format!("{}-{}-{}", tag, self.worker, self.n_files));
        let f = std::fs::OpenOptions::new().read(true).append(true).create(true).open(&p).expect("scratch file");
        (p, f)
    }

    pub fn vars(&self, env: Env) -> Vec<(&'static str, String)> {
        let mut v = env.vars();
        if env == Env::Confined {
            v.push(("LD_PRELOAD", self.sh.bin.join("confine.so").display().to_string()));
        }
        v
    }
    fn server(&mut self, env: Env) -> Option<&mut Server> {
        if self.sh.mode == "exec" || !self.sh.bin.join(env.server()).exists() {
            return None;
        }
        if !self.servers.contains_key(&env) {
            let (p1, out) = self.file("out");
            let (p2, err) = self.file("err");
            let (a, b) = UnixStream::pair().expect("socketpair");
            let mut c = Command::new(self.sh.bin.join(env.server()));
            base_env(&mut c);
            c.env("RIPCALC_MC_SERVE", "1");
            for (k, v) in self.vars(env) {
                c.env(k, v);
            }
            for _ in 0..DUMMY_ARGS {
                c.arg("x");
            }
            c.stdin(Stdio::from(OwnedFd::from(b)))
                .stdout(Stdio::from(out.try_clone().unwrap()))
                .stderr(Stdio::from(err.try_clone().unwrap()));
            let child = c.spawn().expect("cannot start ripcalc-mc");
            drop(c);
            a.set_read_timeout(Some(SERVER_TIMEOUT)).unwrap();
            a.set_write_timeout(Some(SERVER_TIMEOUT)).unwrap();
            self.servers.insert(env, Server { child, sock: a, out, err, paths: [p1, p2] });
            self.st.restarts += 1;
        }
        self.servers.get_mut(&env)
    }

    /// Runs the argument lists (without the program name) one after another.  Ends early when the
    /// checker is to stop, and, if `early`, behind a runaway.
    fn run_list(&mut self, env: Env, list: &[&Args], early: bool) -> Vec<Out> {
        let mut outs: Vec<Out> = Vec::with_capacity(list.len());
        let mut deaths = 0;
        while outs.len() < list.len() {
            let done = outs.len();
            if deaths >= 3 || self.sh.unlike.load(Ordering::Relaxed) >= UNLIKE || self.server(env).is_none() {
                for a in &list[done..] {
                    if self.stopped() {
                        break;
                    }
                    outs.push(self.exec(env, a));
                    if early && outs[outs.len() - 1].status < 0 {
                        break;
                    }
                }
                return outs;
            }
            let s = self.server(env).unwrap();
            let mut req = Vec::new();
            // few enough that the answers fit into the socket's buffer
            let upto = list.len().min(done + 64);
            for a in &list[done..upto] {
                req.push(0u8);
                req.extend_from_slice(&((a.len() + 1) as u32).to_le_bytes());
                for x in std::iter::once("ripcalc").chain(a.iter().map(|s| s.as_str())) {
                    req.extend_from_slice(&(x.len() as u32).to_le_bytes());
                    req.extend_from_slice(x.as_bytes());
                }
            }
            let _ = s.out.set_len(0);
            let _ = s.err.set_len(0);
            let mut heads = Vec::new();
            let mut dead = s.sock.write_all(&req).is_err();
            if !dead {
                for _ in done..upto {
                    let mut h = [0u8; 24];
                    if s.sock.read_exact(&mut h).is_err() {
                        dead = true;
                        break;
                    }
                    heads.push(h);
                }
            }
            let total = |at: usize| heads.last().map(|h| u64::from_le_bytes(h[at..at + 8].try_into().unwrap())).unwrap_or(0);
            let read = |f: &File, n: u64| {
                let mut v = vec![0u8; n as usize];
                f.read_exact_at(&mut v, 0).map(|_| v)
            };
            let (ob, eb) = match (read(&s.out, total(8)), read(&s.err, total(16))) {
                (Ok(a), Ok(b)) => (a, b),
                _ => panic!("cannot read the server's output"),
            };
            let (mut o, mut e) = (0usize, 0usize);
            for h in &heads {
                let status = i32::from_le_bytes(h[0..4].try_into().unwrap());
                let o2 = u64::from_le_bytes(h[8..16].try_into().unwrap()) as usize;
                let e2 = u64::from_le_bytes(h[16..24].try_into().unwrap()) as usize;
                outs.push(Out {
                    status,
                    out: String::from_utf8_lossy(&ob[o..o2]).into_owned(),
                    err: String::from_utf8_lossy(&eb[e..e2]).into_owned(),
                });
                o = o2;
                e = e2;
            }
            if dead {
                deaths += 1;
                self.servers.remove(&env);
                let i = outs.len();
                if i < upto {
                    let x = self.exec(env, list[i]);
                    let runaway = x.status < 0;
                    outs.push(x);
                    if self.stopped() || (early && runaway) {
                        return outs;
                    }
                }
            }
        }
        outs
    }

    pub fn exec(&mut self, env: Env, args: &[String]) -> Out {
        let bin = self.sh.bin.join(env.plain());
        self.exec_with(&bin, args, &self.vars(env), TIMEOUT)
    }
    pub fn exec_with(&mut self, bin: &Path, args: &[String], env: &[(&str, String)], timeout: Duration) -> Out {
        self.exec_as(bin, None, args, env, timeout, &[])
    }
    /// `unset`: names removed again from the base environment.
    pub fn exec_as(&mut self, bin: &Path, arg0: Option<&str>, args: &[String], env: &[(&str, String)], timeout: Duration, stdin: &[u8]) -> Out {
        self.st.execs += 1;
        let (p1, out) = self.file("xo");
        let (p2, err) = self.file("xe");
        let mut c = Command::new(bin);
        base_env(&mut c);
        for (k, v) in env {
            c.env(k, v);
        }
        if let Some(a0) = arg0 {
            use std::os::unix::process::CommandExt;
            c.arg0(a0);
        }
        c.args(args).stdout(Stdio::from(out.try_clone().unwrap())).stderr(Stdio::from(err.try_clone().unwrap()));
        c.stdin(if stdin.is_empty() { Stdio::null() } else { Stdio::piped() });
        let mut child = c.spawn().expect("cannot start ripcalc");
        if !stdin.is_empty() {
            if let Some(mut i) = child.stdin.take() {
                let _ = i.write_all(stdin);
            }
        }
        let status = self.wait(&mut child, timeout);
        let rd = |f: &File| {
            let n = f.metadata().map(|m| m.len()).unwrap_or(0).min(1 << 30);
            let mut v = vec![0u8; n as usize];
            let _ = f.read_exact_at(&mut v, 0);
            String::from_utf8_lossy(&v).into_owned()
        };
        let o = Out { status, out: rd(&out), err: rd(&err) };
        let _ = std::fs::remove_file(p1);
        let _ = std::fs::remove_file(p2);
        o
    }
    /// From now on, the process is ended when its time is up.
    pub fn limit(&self, child: &Child, timeout: Duration) {
        self.sh.watch.lock().unwrap().insert(child.id() as i32, Instant::now() + timeout);
    }
    pub fn wait(&self, child: &mut Child, timeout: Duration) -> i32 {
        let pid = child.id() as i32;
        self.sh.watch.lock().unwrap().entry(pid).or_insert(Instant::now() + timeout);
        let s = child.wait();
        self.sh.watch.lock().unwrap().remove(&pid);
        let late = self.sh.timed_out.lock().unwrap().remove(&pid);
        if late {
            return TIMED_OUT;
        }
        match s {
            Ok(s) => match s.code() {
                Some(c) => c,
                None => {
                    let _ = s.signal();
                    SIGNALLED
                },
            },
            Err(_) => SIGNALLED,
        }
    }

    /// Executes the plain binary and hands its output over line by line until `f` says stop
    /// (false) or fails.  Returns the exit status if the output was read to its end.
    pub fn stream(&mut self, args: &[String], timeout: Duration, mut f: impl FnMut(u64, &str) -> Result<bool, String>) -> Result<Option<i32>, String> {
        self.stream_in("ripcalc", args, timeout, None, |n, l, _| f(n, l))
    }
    /// The same with the release build.
    pub fn stream_fast(&mut self, args: &[String], timeout: Duration, mut f: impl FnMut(u64, &str) -> Result<bool, String>) -> Result<Option<i32>, String> {
        self.stream_in("ripcalc-rel", args, timeout, None, |n, l, _| f(n, l))
    }
    /// The same with a limit to the address space of the process; `f` also gets its process number.
    pub fn stream_in(&mut self, bin: &str, args: &[String], timeout: Duration, memory: Option<u64>, mut f: impl FnMut(u64, &str, u32) -> Result<bool, String>) -> Result<Option<i32>, String> {
        self.st.execs += 1;
        let mut c = Command::new(self.sh.bin.join(bin));
        base_env(&mut c);
        if let Some(m) = memory {
            use std::os::unix::process::CommandExt;
            let lim = [m; 2];
            unsafe {
                c.pre_exec(move || {
                    setrlimit(9, &lim);
                    Ok(())
                });
            }
        }
        c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        let mut child = c.spawn().expect("cannot start ripcalc");
        let pid = child.id() as i32;
        self.sh.watch.lock().unwrap().insert(pid, Instant::now() + timeout);
        let mut rd = BufReader::with_capacity(1 << 18, child.stdout.take().unwrap());
        let mut line = String::new();
        let mut n = 0;
        let mut res = Ok(());
        let mut ended = false;
        loop {
            line.clear();
            match rd.read_line(&mut line) {
                Ok(0) | Err(_) => {
                    ended = true;
                    break;
                },
                Ok(_) => {},
            }
            match f(n, line.strip_suffix('\n').unwrap_or(&line), pid as u32) {
                Ok(true) => n += 1,
                Ok(false) => break,
                Err(e) => {
                    res = Err(e);
                    break;
                },
            }
        }
        drop(rd);
        if !ended {
            let _ = child.kill();
        }
        let s = child.wait();
        self.sh.watch.lock().unwrap().remove(&pid);
        let late = self.sh.timed_out.lock().unwrap().remove(&pid);
        res?;
        Ok(if late {
            Some(TIMED_OUT)
        } else if !ended {
            None
        } else {
            s.ok().map(|s| s.code().unwrap_or(SIGNALLED))
        })
    }

    /// One immediate run.
    pub fn run(&mut self, args: &[String]) -> Out {
        self.flush();
        let v = args.to_vec();
        self.st.runs += 1;
        let mut r = self.run_list(Env::Plain, &[&v], false);
        if r.is_empty() {
            r.push(self.exec(Env::Plain, args));
        }
        let o = r.remove(0);
        self.st.outcomes.insert(hash_of(&(o.status, &o.out)));
        o
    }

    /// Queues one invocation with its oracle.
    pub fn check(&mut self, args: Args, judge: impl Fn(&Out) -> Verdict + 'static) {
        self.check_env(vec![(Env::Plain, args)], move |o| judge(&o[0]));
    }
    /// Queues several invocations that are judged together.
    pub fn check_many(&mut self, runs: Vec<Args>, judge: impl Fn(&[Out]) -> Verdict + 'static) {
        self.check_env(runs.into_iter().map(|a| (Env::Plain, a)).collect(), judge);
    }
    pub fn check_env(&mut self, runs: Vec<(Env, Args)>, judge: impl Fn(&[Out]) -> Verdict + 'static) {
        self.n_pending += runs.len();
        self.pending.push(Pending { runs, judge: Box::new(judge) });
        if self.n_pending >= BATCH {
            self.flush();
        }
    }

    /// Queues invocations whose outputs determine further invocations.
    pub fn chain(&mut self, first: Vec<Args>, next: impl Fn(&[Out]) -> Result<Vec<Args>, String> + 'static, last: impl Fn(&[Out], &[Out]) -> Verdict + 'static) {
        self.chains.push(Chain { first, next: Box::new(next), last: Box::new(last) });
        if self.chains.iter().map(|c| c.first.len()).sum::<usize>() >= BATCH {
            self.flush_chains();
        }
    }
    fn flush_chains(&mut self) {
        let chains = std::mem::take(&mut self.chains);
        let rest = self.run_chains(chains, true);
        for c in rest {
            // behind a runaway, one by one
            self.run_chains(vec![c], false);
        }
    }
    /// Returns the chains that have not been run because of a runaway.
    fn run_chains(&mut self, chains: Vec<Chain>, early: bool) -> Vec<Chain> {
        let mut rest = vec![];
        if chains.is_empty() || self.stopped() {
            return rest;
        }
        let list: Vec<&Args> = chains.iter().flat_map(|c| c.first.iter()).collect();
        let mut outs = self.run_list(Env::Plain, &list, early).into_iter();
        self.st.runs += outs.len() as u64;
        let mut work = vec![];
        for c in chains {
            let a: Vec<Out> = outs.by_ref().take(c.first.len()).collect();
            if a.len() < c.first.len() {
                rest.push(c);
                continue;
            }
            let n = (c.next)(&a);
            work.push((c, a, n));
        }
        let list: Vec<&Args> = work.iter().filter_map(|w| w.2.as_ref().ok()).flatten().collect();
        let mut outs = self.run_list(Env::Plain, &list, early).into_iter();
        self.st.runs += outs.len() as u64;
        for (c, a, n) in work {
            let mut runs = c.first.clone();
            let verdict = match &n {
                Err(e) => Err(e.clone()),
                Ok(second) => {
                    let b: Vec<Out> = outs.by_ref().take(second.len()).collect();
                    if b.len() < second.len() {
                        rest.push(c);
                        continue;
                    }
                    runs.extend(second.iter().cloned());
                    for o in a.iter().chain(&b) {
                        self.st.outcomes.insert(hash_of(&(o.status, &o.out)));
                    }
                    (c.last)(&a, &b)
                },
            };
            self.st.cases += 1;
            self.seq += 1;
            self.st.states.push(hash_of(&runs));
            self.since_conform += 1;
            let every = self.sh.conform_every.load(Ordering::Relaxed);
            let conform = every > 0 && (self.since_conform % every == 0 || self.since_conform.is_power_of_two()) && self.sh.mode != "exec";
            if self.st.samples.len() < 3 || (conform && self.st.samples.len() < 8) {
                let l: Vec<_> = runs.iter().take(4).map(|a| (Env::Plain, a.clone())).collect();
                self.st.samples.push(format!("{}{} => {}", show_runs(&l), if runs.len() > 4 { " ; ..." } else { "" }, a.iter().map(|o| clip(&o.brief(), 160)).collect::<Vec<_>>().join(" | ")));
            }
            if let Ok(n) = &verdict {
                self.st.transitions += n;
            }
            if verdict.is_err() || conform {
                let mut real: Vec<Out> = c.first.iter().map(|x| self.exec(Env::Plain, x)).collect();
                let mut runs = c.first.clone();
                let again = match (c.next)(&real) {
                    Err(e) => Err(e),
                    Ok(second) => {
                        let b: Vec<Out> = second.iter().map(|x| self.exec(Env::Plain, x)).collect();
                        let v = (c.last)(&real, &b);
                        real.extend(b);
                        runs.extend(second);
                        v
                    },
                };
                if let Err(what) = again {
                    self.violation(what, runs.into_iter().map(|a| (Env::Plain, a)).collect(), real, String::new());
                    return vec![];
                }
                if let Err(what) = verdict {
                    self.st.artefacts += 1;
                    self.note(format!("only in the server, not in a process of its own: {what}"));
                    self.servers.clear();
                    self.sh.unlike.fetch_add(1, Ordering::Relaxed);
                }
            }
        }
        rest
    }

    pub fn flush(&mut self) {
        self.flush_api();
        self.flush_chains();
        let pend = std::mem::take(&mut self.pending);
        self.n_pending = 0;
        let rest = self.run_pending(pend, true);
        for p in rest {
            self.run_pending(vec![p], false);
        }
    }
    fn run_pending(&mut self, pend: Vec<Pending>, early: bool) -> Vec<Pending> {
        let mut rest = vec![];
        if pend.is_empty() || self.stopped() {
            return rest;
        }
        let mut results: Vec<Vec<Option<Out>>> = pend.iter().map(|p| vec![None; p.runs.len()]).collect();
        for env in [Env::Plain, Env::Color, Env::Release, Env::Confined] {
            let mut idx = Vec::new();
            let mut list = Vec::new();
            for (i, p) in pend.iter().enumerate() {
                for (j, (e, a)) in p.runs.iter().enumerate() {
                    if *e == env {
                        idx.push((i, j));
                        list.push(a);
                    }
                }
            }
            if list.is_empty() {
                continue;
            }
            let outs = self.run_list(env, &list, early);
            self.st.runs += outs.len() as u64;
            for ((i, j), o) in idx.into_iter().zip(outs) {
                results[i][j] = Some(o);
            }
        }
        for (p, r) in pend.into_iter().zip(results) {
            if r.iter().any(|o| o.is_none()) {
                rest.push(p); // stopped on the way
                continue;
            }
            let outs: Vec<Out> = r.into_iter().map(|o| o.unwrap()).collect();
            self.settle(p, outs);
        }
        rest
    }

    fn settle(&mut self, p: Pending, outs: Vec<Out>) {
        self.st.cases += 1;
        self.seq += 1;
        self.st.states.push(hash_of(&p.runs));
        for o in &outs {
            self.st.outcomes.insert(hash_of(&(o.status, &o.out)));
        }
        let verdict = (p.judge)(&outs);
        self.since_conform += 1;
        let every = self.sh.conform_every.load(Ordering::Relaxed);
        let conform = every > 0 && (self.since_conform % every == 0 || self.since_conform.is_power_of_two()) && self.sh.mode != "exec";
        if self.st.samples.len() < 3 || (conform && self.st.samples.len() < 8) {
            self.st.samples.push(format!("{} => {}", show_runs(&p.runs), outs.iter().map(|o| clip(&o.brief(), 240)).collect::<Vec<_>>().join(" | ")));
        }
        match &verdict {
            Ok(n) => self.st.transitions += n,
            Err(_) => {},
        }
        if verdict.is_err() || conform {
            // the same invocations on the plain binary
            let real: Vec<Out> = p.runs.iter().map(|(e, a)| self.exec(*e, a)).collect();
            let v2 = (p.judge)(&real);
            if let Err(what) = v2 {
                self.violation(what, p.runs, real, String::new());
                return;
            }
            if let Err(what) = verdict {
                self.st.artefacts += 1;
                self.note(format!("only in the server, not in a process of its own: {what} [{}]", show_runs(&p.runs)));
                self.servers.clear(); // what an earlier invocation left behind is not to last
                self.sh.unlike.fetch_add(1, Ordering::Relaxed);
            } else if real.iter().zip(&outs).any(|(a, b)| a.status != b.status || a.out != b.out) {
                self.st.mismatches += 1;
                self.note(format!("server and plain binary differ (both satisfy the property): {}", show_runs(&p.runs)));
            }
        }
    }

    pub fn note(&mut self, s: String) {
        let mut n = self.sh.notes.lock().unwrap();
        if n.len() < 20 {
            n.push(s);
        }
    }

    pub fn violation(&mut self, what: String, runs: Vec<(Env, Args)>, outs: Vec<Out>, extra: String) {
        self.sh.found.lock().unwrap().get_or_insert_with(Instant::now);
        self.sh.failed_task.fetch_min(self.task, Ordering::Relaxed);
        let v = Violation { task: self.task, seq: self.seq, what, runs, outs, extra };
        self.sh.violations.lock().unwrap().push(v);
    }

    /// For oracles that drive the runs themselves: book one case.
    pub fn book(&mut self, key: u64, transitions: u64) {
        self.st.cases += 1;
        self.seq += 1;
        self.st.states.push(key);
        self.st.transitions += transitions;
    }
    pub fn sample(&mut self, s: String) {
        if self.st.samples.len() < 5 {
            self.st.samples.push(s);
        }
    }
    pub fn bump(&mut self, k: &str, n: u64) {
        *self.st.extra.entry(k.to_string()).or_insert(0) += n;
    }

    // ---- calls to the address and network types

    /// Does the server answer this group of calls ("addr", "net", "bits")?
    pub fn has(&self, group: &str) -> bool {
        self.sh.mode.split_whitespace().any(|g| g == group)
    }
    pub fn api(&mut self, op: u8, fam: u8, rec: Vec<u8>, expect: Vec<u8>) {
        let switch = match &self.api {
            Some(b) => b.op != op || b.fam != fam || b.recs.len() >= API_BATCH,
            None => false,
        };
        if switch {
            self.flush_api();
        }
        match &mut self.api {
            Some(b) => b.recs.push((rec, expect)),
            None => self.api = Some(ApiBatch { op, fam, recs: vec![(rec, expect)] }),
        }
    }
    /// The raw answers to a batch of calls: (0 = value, 1 = panic, 3 = the process died), bytes.
    pub fn call(&mut self, op: u8, fam: u8, recs: &[Vec<u8>]) -> Vec<(u8, Vec<u8>)> {
        match self.call_once(op, fam, recs) {
            Some(v) => v,
            None if recs.len() == 1 => vec![(3, vec![])],
            None => recs
                .iter()
                .map(|r| self.call_once(op, fam, std::slice::from_ref(r)).map(|mut v| v.remove(0)).unwrap_or((3, vec![])))
                .collect(),
        }
    }
    fn call_once(&mut self, op: u8, fam: u8, recs: &[Vec<u8>]) -> Option<Vec<(u8, Vec<u8>)>> {
        let mut body = Vec::with_capacity(recs.len() * 40);
        for rec in recs {
            body.extend_from_slice(&(rec.len() as u16).to_le_bytes());
            body.extend_from_slice(rec);
        }
        let mut req = vec![1u8, op, fam];
        req.extend_from_slice(&(recs.len() as u32).to_le_bytes());
        req.extend_from_slice(&(body.len() as u32).to_le_bytes());
        req.extend_from_slice(&body);
        let s = self.server(Env::Plain)?;
        let _ = s.err.set_len(0);
        let mut ask = || -> std::io::Result<Vec<u8>> {
            s.sock.write_all(&req)?;
            let mut h = [0u8; 24];
            s.sock.read_exact(&mut h)?;
            let mut p = vec![0u8; u32::from_le_bytes(h[4..8].try_into().unwrap()) as usize];
            s.sock.read_exact(&mut p)?;
            Ok(p)
        };
        match ask() {
            Ok(p) => {
                let mut at = 0;
                let mut v = Vec::with_capacity(recs.len());
                for _ in recs {
                    let l = u16::from_le_bytes([p[at], p[at + 1]]) as usize;
                    v.push((p[at + 2], p[at + 3..at + 2 + l].to_vec()));
                    at += 2 + l;
                }
                Some(v)
            },
            Err(_) => {
                self.servers.remove(&Env::Plain);
                None
            },
        }
    }
    pub fn flush_api(&mut self) {
        let b = match self.api.take() {
            Some(b) => b,
            None => return,
        };
        if self.stopped() {
            return;
        }
        let (recs, exps): (Vec<Vec<u8>>, Vec<Vec<u8>>) = b.recs.into_iter().unzip();
        let got = self.call(b.op, b.fam, &recs);
        for ((rec, exp), (st, g)) in recs.into_iter().zip(exps).zip(got) {
            self.st.cases += 1;
            self.seq += 1;
            self.st.runs += 1;
            self.st.transitions += 1;
            self.st.states.push(hash_of(&(b.op, b.fam, &rec)));
            self.st.outcomes.insert(hash_of(&(b.op, st, &g)));
            let call = crate::api::describe(b.op, b.fam, &rec);
            if self.st.samples.len() < 3 || (self.seq % 50021 == 0 && self.st.samples.len() < 8) {
                self.st.samples.push(format!("{} => {}", call(), hex(&g)));
            }
            if st == 2 {
                panic!("the server does not know operation {}", b.op);
            }
            if st != 0 || g != exp {
                let how = match st {
                    0 => format!("returned {}", hex(&g)),
                    1 => "panicked".into(),
                    _ => "killed the process or did not return".into(),
                };
                self.violation(
                    format!("{} {}, expected {}", call(), how, hex(&exp)),
                    vec![],
                    vec![],
                    format!("api op={} fam={} rec={} expect={}", b.op, b.fam, hex(&rec), hex(&exp)),
                );
                return;
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn show_runs(runs: &[(Env, Args)]) -> String {
    runs.iter()
        .map(|(e, a)| {
            let mut s = String::from(e.command());
            for x in a {
                s.push(' ');
                s.push_str(&quote(x));
            }
            clip(&s, 500)
        })
        .collect::<Vec<_>>()
        .join(" ; ")
}
pub fn quote(x: &str) -> String {
    if !x.is_empty() && x.bytes().all(|b| b.is_ascii_alphanumeric() || b"./:-_+,=%".contains(&b)) {
        x.to_string()
    } else {
        format!("'{}'", x.replace('\'', "'\\''"))
    }
}

pub fn watchdog(sh: Arc<Shared>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let now = Instant::now();
        let w = sh.watch.lock().unwrap();
        for (pid, t) in w.iter() {
            if now > *t {
                sh.timed_out.lock().unwrap().insert(*pid);
                unsafe { kill(*pid, 9) };
            }
        }
    });
}

#[allow(dead_code)]
pub fn read_all(mut r: impl Read) -> String {
    let mut v = Vec::new();
    let _ = r.read_to_end(&mut v);
    String::from_utf8_lossy(&v).into_owned()
}

pub fn args(list: &[&str]) -> Args {
    list.iter().map(|s| s.to_string()).collect()
}
