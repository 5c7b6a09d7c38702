//! C17: what happens when output cannot be delivered.
//! C21: the result depends on nothing but the arguments.
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use crate::Tasks;
use std::path::PathBuf;

/// Invocations of every mode and every kind of ending.
pub fn invocations(long: bool) -> Vec<(Env, Args)> {
    let mut v: Vec<(Env, Args)> = vec![];
    let plain: &[&[&str]] = &[
        &["192.168.2.4/24"],
        &["10.0.0.1/255.0.255.0"],
        &["10.0.0.1/31", "10.0.0.1/32", "0.0.0.0/0"],
        &["fe80::1/10"],
        &["2001:db8::1/ffff::ffff"],
        &["-m", "10.0.0.0/24"],
        &["-m", "192.168.2.0/24", "192.168.3.0/24", "192.168.3.128/25", "192.168.4.128/25"],
        &["-m", "2001:db8::/33", "2001:db8:8000::/33", "fe80::/64"],
        &["-d", "10.0.0.3", "10.0.0.20"],
        &["-d", "::1", "::e"],
        &["-s", "192.168.2.0/24", "5", "16", "5", "5"],
        &["-s", "2001:db8::/120", "100", "1"],
        &["-s", "10.0.0.0/30", "5"],
        &["-s", "10.0.0.0/24", "99999999999"],
        &["-r", "192.168.2.0/24", "26"],
        &["-r", "192.168.2.0/24", "16"],
        &["-r", "10.0.0.0/24", "255.255.255.1"],
        &["-r", "fe80::/64", "65"],
        &["-e", "192.168.2.0/28"],
        &["-e", "10.0.0.1/32", "10.0.0.2/30"],
        &["-e", "fe80::8/126", "nonsense", "fe80::/127"],
        &["nonsense"],
        &["-m", "10.0.0.0/8", "fe80::/10"],
        &["-d", "10.0.0.1"],
        &["-s", "10.0.0.0/24", "x"],
        &["-r", "10.0.0.0/24", "33"],
        &["--help"],
        &[],
    ];
    for a in plain {
        v.push((Env::Plain, args(a)));
    }
    for a in [&["192.168.2.4/24"][..], &["-s", "10.0.0.0/29", "1"], &["fe80::1/10"]] {
        v.push((Env::Color, args(a)));
    }
    if long {
        let long: &[&[&str]] = &[&["-r", "10.0.0.0/24", "29"], &["-e", "10.0.0.0/25"], &["-e", "fe80::/255.255.0.0"], &["-s", "10.0.0.0/16", "1000", "500", "200", "100", "50", "20", "10", "5", "2", "1", "0"], &["-d", "0.0.0.1", "255.255.255.254"], &["-e", "10.0.0.0/22"], &["-r", "10.0.0.0/23", "30"]];
        for a in long {
            v.push((Env::Plain, args(a)));
        }
    }
    v
}

struct Injected {
    o: Out,
    /// descriptor, length and whether a fault was injected, of each write
    log: Vec<(u32, u64, bool)>,
}

fn inject(r: &mut Runner, env: Env, a: &Args, plan: &str) -> Injected {
    let log = r.sh.scratch.join(format!("inject-{:?}-{}", std::thread::current().id(), r.task));
    let _ = std::fs::remove_file(&log);
    let mut e = env.vars();
    e.push(("LD_PRELOAD", r.sh.bin.join("inject.so").display().to_string()));
    e.push(("INJECT_LOG", log.display().to_string()));
    if !plan.is_empty() {
        e.push(("INJECT_PLAN", plan.to_string()));
    }
    let bin = r.sh.bin.join(env.plain());
    let o = r.exec_with(&bin, a, &e, TIMEOUT);
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    let log = text
        .lines()
        .filter_map(|l| {
            let f: Vec<i64> = l.split(' ').filter_map(|x| x.parse().ok()).collect();
            if f.len() == 5 {
                Some((f[0] as u32, f[2] as u64, f[4] == 1))
            } else {
                None
            }
        })
        .collect();
    Injected { o, log }
}

/// Partial and interrupted writes, after which the writer has to go on.
const TRANSIENT: &[&str] = &["E4", "S1", "H1"];
const TRANSIENT_MORE: &[&str] = &["S17", "H13", "S2"];
/// EIO, ENOSPC, EPIPE, EAGAIN, EFBIG, and a write of nothing.
const FATAL: &[&str] = &["E5", "E28", "E32", "E11", "E27", "Z"];

fn transient(plan: &str) -> bool {
    plan.split(',').all(|p| {
        let w = p.rsplit(':').next().unwrap();
        w == "E4" || w.starts_with('S') || w.starts_with('H')
    })
}

fn judge(want: &Out, got: &Out, hit: bool, plan: &str) -> Result<(), String> {
    if got.status == TIMED_OUT {
        return Err("it does not terminate".into());
    }
    if !hit || transient(plan) {
        if got.status != want.status {
            return Err(format!("although every byte could be delivered, the exit status is {} instead of {}", status_text(got.status), status_text(want.status)));
        }
        if got.out != want.out {
            return Err("although every byte could be delivered, standard output is not that of an undisturbed run".into());
        }
        if got.err != want.err {
            return Err("although every byte could be delivered, standard error is not that of an undisturbed run".into());
        }
        return Ok(());
    }
    if !want.out.starts_with(&got.out) {
        return Err("what was delivered on standard output is not the beginning of the undisturbed output".into());
    }
    if got.status == 0 && (got.out != want.out || got.err != want.err) {
        return Err("output was lost, but the exit status is 0".into());
    }
    if got.status == 0 && want.status != 0 {
        return Err(format!("the exit status is 0 instead of {}", want.status));
    }
    Ok(())
}

fn case(r: &mut Runner, env: Env, a: &Args, want: &Out, plan: String) -> bool {
    if r.stopped() {
        return false;
    }
    let g = inject(r, env, a, &plan);
    let hit = g.log.iter().any(|l| l.2);
    r.book(hash_of(&(env, a, &plan)), 1);
    r.st.outcomes.insert(hash_of(&(g.o.status, &g.o.out)));
    if hit {
        r.st.faults += 1;
    }
    if r.st.samples.len() < 2 {
        r.sample(format!("{} with {} => {}", show_runs(&[(env, a.clone())]), plan, clip(&g.o.brief(), 300)));
    }
    if let Err(e) = judge(want, &g.o, hit, &plan) {
        let cmd = show_runs(&[(env, a.clone())]);
        r.violation(
            format!("{e} (faults: {plan})"),
            vec![(env, a.clone())],
            vec![want.clone(), g.o],
            format!("faults, as DESCRIPTOR:CALL:WHAT, see inject/inject.c: {plan}\n$ LD_PRELOAD=$PWD/build/bin/inject.so INJECT_PLAN={plan} {cmd}; echo \"exit status $?\""),
        );
        return false;
    }
    true
}

pub fn c17(t: &mut Tasks) {
    let th = t.thorough;
    t.level = "fault_enumeration";
    let mut list = invocations(true);
    list.reverse();
    for (env, a) in list {
        let name = show_runs(&[(env, a.clone())]);
        t.add(name.clone(), move |r| {
            let base = inject(r, env, &a, "");
            let want = base.o.clone();
            if want.status != 0 && want.status != 1 {
                r.violation(format!("the undisturbed run ends with status {}", status_text(want.status)), vec![(env, a)], vec![want], String::new());
                return;
            }
            let delivered: u64 = base.log.iter().filter(|l| l.0 == 1).map(|l| l.1).sum();
            if delivered != want.out.len() as u64 {
                // written by other means than write(2) and writev(2): nothing can be injected
                r.note(format!("{name}: {} of {} bytes pass through the intercepted calls", delivered, want.out.len()));
            }
            for fd in [1u32, 2] {
                let n = base.log.iter().filter(|l| l.0 == fd).count();
                if n == 0 {
                    continue;
                }
                let all: Vec<&str> = TRANSIENT.iter().chain(TRANSIENT_MORE).chain(FATAL).copied().collect();
                let p = |k: usize, w: &str| format!("{fd}:{k}:{w}");
                // one fault
                for k in 0..n {
                    if n > 200 && !th && k > 2 && k + 3 < n && k % 37 != 0 {
                        if !case(r, env, &a, &want, p(k, "E28")) {
                            return;
                        }
                        continue;
                    }
                    for w in &all {
                        if !case(r, env, &a, &want, p(k, w)) {
                            return;
                        }
                    }
                    // nothing can be written any more
                    for w in FATAL {
                        if !case(r, env, &a, &want, format!("{fd}:{k}+:{w}")) {
                            return;
                        }
                    }
                }
                // every write is partial, or every other one is interrupted, and then perhaps one fails
                for w in ["S1", "H1", "S2", "S17", "H13", "S67"] {
                    if !case(r, env, &a, &want, format!("{fd}:*:{w}")) || !case(r, env, &a, &want, format!("{fd}:%2:E4,{fd}:*:{w}")) || !case(r, env, &a, &want, format!("{fd}:%3:E4,{fd}:*:{w}")) {
                        return;
                    }
                }
                if n <= 16 || th {
                    let total: usize = base.log.iter().filter(|l| l.0 == fd).map(|l| l.1 as usize).sum();
                    let step = if th { 1 } else { 7 };
                    for at in (0..total.min(3000)).step_by(step) {
                        // byte by byte up to any byte
                        if !case(r, env, &a, &want, format!("{fd}:{at}:E28,{fd}:*:S1")) || !case(r, env, &a, &want, format!("{fd}:{at}+:E5,{fd}:*:S1")) {
                            return;
                        }
                    }
                }
                // two faults
                if n <= if th { 64 } else { 18 } {
                    let firsts: Vec<&str> = if th { all.clone() } else { TRANSIENT.iter().chain(&["E28"]).copied().collect() };
                    let seconds: Vec<&str> = if th { all.clone() } else { TRANSIENT.iter().chain(&["E5", "Z"]).copied().collect() };
                    for k1 in 0..n {
                        for k2 in k1 + 1..n + 1 {
                            if !th && k2 > k1 + 3 && k2 < n - 1 {
                                continue;
                            }
                            for w1 in &firsts {
                                for w2 in &seconds {
                                    if !case(r, env, &a, &want, format!("{},{}", p(k1, w1), p(k2, w2))) {
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
                // three faults
                if th && n <= 12 {
                    for k1 in 0..n {
                        for k2 in k1 + 1..n + 1 {
                            for k3 in k2 + 1..n + 2 {
                                for w1 in TRANSIENT {
                                    for w2 in TRANSIENT {
                                        for w3 in ["E4", "S1", "H1", "E5", "Z"] {
                                            if !case(r, env, &a, &want, format!("{},{},{}", p(k1, w1), p(k2, w2), p(k3, w3))) {
                                                return;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            // standard output and standard error at once
            if base.log.iter().any(|l| l.0 == 1) {
                for w in FATAL {
                    for k in 0..base.log.iter().filter(|l| l.0 == 1).count().min(20) {
                        if !case(r, env, &a, &want, format!("1:{k}:{w},2:*:E5")) || !case(r, env, &a, &want, format!("1:{k}:{w},2:*:S1")) {
                            return;
                        }
                    }
                }
            }
            r.bump("write_calls", base.log.len() as u64);
        });
    }
    t.bound("invocations of every mode, refusals, usage, colours on; faults in write(2)/writev(2) on standard output and standard error: EINTR, partial writes of several lengths, EIO, ENOSPC, EPIPE, EAGAIN, EFBIG, zero-length writes");
    t.bound("every single fault at every call (quick, in the two invocations with more than 200 calls: the first and last 3 and every 37th, and ENOSPC at each), every call from which on nothing can be written, partial writes throughout, ENOSPC/EIO behind every byte (quick: every 7th) in byte-wise delivery; pairs of faults (quick: at calls at most 3 apart or in the last two, in invocations with at most 18 calls; thorough: all pairs up to 64 calls, triples up to 12 calls)");
}

// ---- C21

extern "C" {
    fn ioctl(fd: i32, request: u64, ...) -> i32;
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, buf: *mut u8, len: usize) -> i32;
}

/// Runs the binary with standard output on a terminal.
/// On a new terminal of so many rows and columns (0 if unknown).
pub fn on_terminal(r: &mut Runner, a: &Args, env: &[(&str, String)], size: (u16, u16)) -> Option<Out> {
    terminals(r, a, env, size, [false, true, false])
}

/// With terminals, each of its own, as those of standard input, output and error that are named.
pub fn terminals(r: &mut Runner, a: &Args, env: &[(&str, String)], size: (u16, u16), which: [bool; 3]) -> Option<Out> {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    use std::os::unix::fs::OpenOptionsExt;
    use std::process::Stdio;
    let open = || -> Option<(std::fs::File, std::fs::File)> {
        let m = unsafe { posix_openpt(2 | 0o400 | 0o2000000) };
        if m < 0 {
            return None;
        }
        let master = unsafe { std::fs::File::from_raw_fd(m) };
        let mut name = [0u8; 128];
        if unsafe { grantpt(m) != 0 || unlockpt(m) != 0 || ptsname_r(m, name.as_mut_ptr(), 128) != 0 } {
            return None;
        }
        let name = String::from_utf8_lossy(&name[..name.iter().position(|b| *b == 0).unwrap()]).into_owned();
        let slave = std::fs::OpenOptions::new().read(true).write(true).custom_flags(0o400).open(&name).ok()?;
        let ws: [u16; 4] = [size.0, size.1, 0, 0];
        unsafe { ioctl(m, 0x5414, ws.as_ptr()) }; // TIOCSWINSZ
        Some((master, slave))
    };
    r.st.execs += 1;
    let mut c = std::process::Command::new(r.sh.bin.join("ripcalc"));
    c.env_clear().env("PATH", "/usr/bin:/bin").env("RUST_BACKTRACE", "0");
    for (k, v) in env {
        c.env(k, v);
    }
    c.args(a).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut masters: [Option<std::fs::File>; 3] = [None, None, None];
    let mut slaves: Vec<std::fs::File> = vec![];
    for i in 0..3 {
        if which[i] {
            let (m, s) = open()?;
            masters[i] = Some(m);
            if i > 0 {
                slaves.push(s.try_clone().ok()?);
            }
            match i {
                0 => c.stdin(s),
                1 => c.stdout(s),
                _ => c.stderr(s),
            };
        }
    }
    let mut child = c.spawn().ok()?;
    drop(c);
    r.limit(&child, TIMEOUT);
    let [_keep, m1, m2] = masters;
    // When the last slave is closed, the terminal may drop what was not read yet.  So one stays open until
    // the program has ended; then an end mark is written on it, up to which the master is read.
    const END: &[u8] = b"\x1e\x1fend\x1f\x1e";
    fn drain(mut f: impl Read, terminal: bool) -> Vec<u8> {
        let mut out = vec![];
        let mut b = [0u8; 4096];
        loop {
            match f.read(&mut b) {
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
                Ok(0) | Err(_) => break out,
                Ok(n) => {
                    if out.len() > 1 << 26 {
                        // far too much: only the end mark is of interest
                        out.drain(..out.len() - END.len());
                    }
                    out.extend_from_slice(&b[..n]);
                },
            }
            if terminal && out.ends_with(END) {
                out.truncate(out.len() - END.len());
                break out;
            }
        }
    }
    let (out_pipe, err_pipe) = (child.stdout.take(), child.stderr.take());
    let first = std::thread::spawn(move || match (m1, out_pipe) {
        (Some(m), _) => drain(m, true),
        (None, Some(p)) => drain(p, false),
        _ => vec![],
    });
    let second = std::thread::spawn(move || match (m2, err_pipe) {
        (Some(m), _) => drain(m, true),
        (None, Some(p)) => drain(p, false),
        _ => vec![],
    });
    let st = r.wait(&mut child, TIMEOUT);
    for mut s in slaves {
        std::io::Write::write_all(&mut s, END).ok()?;
    }
    let (out, err) = (first.join().ok()?, second.join().ok()?);
    let text = |b: Vec<u8>, t: bool| {
        let s = String::from_utf8_lossy(&b).into_owned();
        if t { s.replace("\r\n", "\n") } else { s }
    };
    Some(Out { status: st, out: text(out, which[1]), err: text(err, which[2]) })
}

/// The words in the string literals of the sources.
pub fn source_words(r: &Runner) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_to_string(r.sh.bin.join("words")).unwrap_or_default().lines().map(|l| l.to_string()).collect();
    v.retain(|w| !["LD_", "MALLOC_", "GLIBC", "GCONV", "INJECT", "LOCPATH", "RUST_MIN_STACK", "RUST_BACKTRACE"].iter().any(|p| w.starts_with(p)));
    v
}

/// All source words, also in capitals and lower case, as variables with one value.
pub fn all_words(words: &[String], v: &str) -> Vec<(String, String)> {
    let mut names: Vec<String> = words.iter().filter(|w| !w.contains('.')).flat_map(|w| [w.clone(), w.to_uppercase(), w.to_lowercase()]).collect();
    names.extend(words.iter().flat_map(|w| [format!("RIPCALC_{}", w.to_uppercase()), format!("RIPCALC_{w}")]));
    names.retain(|n| !["PATH", "LD_PRELOAD", "RUST_BACKTRACE"].contains(&&n[..]));
    names.sort();
    names.dedup();
    names.into_iter().map(|n| (n, v.to_string())).collect()
}

/// What is refused, and how.
pub fn refusals() -> Vec<Args> {
    let a: &[&[&str]] = &[
        &["-d", "10.0.0.0", "::1"],
        &["-d", "::1", "10.0.0.0"],
        &["-d", "x", "::1"],
        &["-d", "::1", "x"],
        &["-d", "1.2.3.4", "1.2.3"],
        &["-d", "1.2.3.4", "1.2.3.256"],
        &["-d", "::1"],
        &["-m"],
        &["-m", "10.0.0.0/33"],
        &["-m", "10.0.0.0/8", "x"],
        &["-m", "::/0", "10.0.0.0/8"],
        &["-m", "10.0.0.0/8", "::/0"],
        &["-m", "::/129"],
        &["-m", ":::/1"],
        &["-s", "10.0.0.0/24"],
        &["-s", "10.0.0.0/24", "-1"],
        &["-s", "10.0.0.0/24", "1", "x"],
        &["-s", "10.0.0.0", "1"],
        &["-s", "::/64", "99999999999999999999999999999999999999999"],
        &["-s", "10.0.0.0/30", "5", "5"],
        &["-r", "10.0.0.0/8"],
        &["-r", "10.0.0.0/8", "::"],
        &["-r", "::/8", "1.2.3.4"],
        &["-r", "::/8", "129"],
        &["-r", "::/8", "x"],
        &["-r", "10.0.0.0/8", "33"],
        &["-r", "10.0.0.0/8", "-x"],
        &["-r", "x", "8"],
        &["-e"],
        &["-e", "x"],
        &["-e", "10.0.0.0/33", "10.0.0.0/32"],
        &["10.0.0.0"],
        &["::1"],
        &["10.0.0.0/8", "x"],
        &["x", "10.0.0.0/8"],
        &["10.0.0.0/x"],
        &["10.0.0.0/1.2.3"],
        &["1.2.3.4.5/8"],
        &["::1/1.2.3.4"],
        &["1:2:3/8"],
        &["--color-tests"],
        &["-h"],
        &["-"],
        &["--"],
        &[""],
        &["-x", "10.0.0.0/8"],
    ];
    a.iter().map(|x| args(x)).collect()
}

pub fn same(what: &str, want: &Out, got: &Out) -> Result<(), String> {
    if want.status != got.status {
        return Err(format!("{what}: exit status {} instead of {}", status_text(got.status), status_text(want.status)));
    }
    if want.out != got.out {
        return Err(format!("{what}: different standard output"));
    }
    if want.err != got.err {
        return Err(format!("{what}: different standard error"));
    }
    Ok(())
}

/// In which order does a set of the numbers below n come out, for the seed of this process?
/// Printed for the first few maps of a process, whose keys count up from the seed.
pub fn print_orders() {
    for n in 2..=4usize {
        for _ in 0..3 {
            let m: std::collections::HashMap<usize, ()> = (0..n).map(|i| (i, ())).collect();
            println!("{} {}", n, m.keys().map(|k| k.to_string()).collect::<Vec<_>>().join(","));
        }
    }
}

pub fn c21(t: &mut Tasks) {
    let th = t.thorough;
    let inv: Vec<(Env, Args)> = invocations(false);
    // hash seeds: enough for every iteration order of small hash maps
    let perms: &[&[usize]] = &[&[0, 1, 2, 3], &[3, 2, 1, 0], &[1, 3, 0, 2], &[2, 0, 3, 1]];
    let lists: &[&[&str]] = &[
        &["10.0.0.0/26", "10.0.0.64/26", "10.0.0.128/26", "10.0.0.192/26"],
        &["10.0.1.0/24", "10.0.2.0/24", "10.0.3.0/24", "10.0.4.0/24"],
        &["10.0.0.0/24", "10.0.0.0/25", "10.0.1.0/24", "10.0.3.128/25"],
        &["0.0.0.0/255.255.255.254", "0.0.0.2/255.255.255.254", "0.0.0.0/255.255.255.253", "0.0.0.1/32"],
        &["10.0.0.1/255.0.255.255", "10.0.0.2/255.0.255.255", "10.0.0.3/255.0.255.255", "10.0.0.0/255.0.255.255"],
        &["0.0.0.0/255.255.255.252", "0.0.0.1/255.255.255.251", "0.0.0.5/255.255.255.255", "0.0.0.4/255.255.255.255"],
        &["fe80::/65", "fe80:0:0:0:8000::/65", "fe80:0:0:1::/65", "fe80::1:8000:0:0:0/65"],
        &["::1/ffff::ffff", "::2/ffff::ffff", "::3/ffff::ffff", "::4/ffff::ffff"],
    ];
    let mut seeded: Vec<Args> = vec![];
    for l in lists {
        for p in perms {
            let mut a = args(&["-m"]);
            a.extend(p.iter().map(|i| l[*i].to_string()));
            seeded.push(a.clone());
            a.pop();
            seeded.push(a);
        }
    }
    for c in [&["5", "16", "5", "5"][..], &["1", "2", "3", "4"], &["60", "60", "60"], &["0", "0", "0", "0"], &["100", "10"], &["7", "100", "7"], &["1", "1", "1", "1", "1", "1", "1", "1"]] {
        for n in ["10.0.0.0/24", "fe80::/64"] {
            let mut a = args(&["-s", n]);
            a.extend(c.iter().map(|s| s.to_string()));
            seeded.push(a);
        }
    }
    seeded.extend(inv.iter().filter(|i| i.0 == Env::Plain).map(|i| i.1.clone()));
    let n_seeds = if th { 2048u64 } else { 192 };
    for (i, a) in seeded.into_iter().enumerate() {
        t.add(format!("hash seeds for {}", show_runs(&[(Env::Plain, a.clone())])), move |r| {
            let want = r.exec(Env::Plain, &a);
            let bin = r.sh.bin.join("ripcalc");
            for seed in 0..n_seeds {
                if r.stopped() {
                    return;
                }
                let e = [("LD_PRELOAD", r.sh.bin.join("inject.so").display().to_string()), ("INJECT_SEED", seed.to_string())];
                let o = r.exec_with(&bin, &a, &e, TIMEOUT);
                r.book(hash_of(&(&a, seed)), 1);
                if let Err(e) = same(&format!("random seed {seed}"), &want, &o) {
                    let cmd = show_runs(&[(Env::Plain, a.clone())]);
                    r.violation(e, vec![(Env::Plain, a.clone())], vec![want, o], format!("$ LD_PRELOAD=$PWD/build/bin/inject.so INJECT_SEED={seed} {cmd}"));
                    return;
                }
            }
            if i == 0 {
                // what these seeds amount to
                let me = std::env::current_exe().unwrap_or(PathBuf::from("/verif/build/bin/explorer"));
                let mut seen: std::collections::HashMap<(usize, usize), std::collections::HashSet<String>> = Default::default();
                for seed in 0..n_seeds {
                    let e = [("LD_PRELOAD", r.sh.bin.join("inject.so").display().to_string()), ("INJECT_SEED", seed.to_string())];
                    let o = r.exec_with(&me, &args(&["orders"]), &e, TIMEOUT);
                    for (j, l) in o.out.lines().enumerate() {
                        if let Some((n, p)) = l.split_once(' ') {
                            seen.entry((n.parse().unwrap_or(0), j)).or_default().insert(p.to_string());
                        }
                    }
                }
                for n in 2..=4usize {
                    let least = seen.iter().filter(|(k, _)| k.0 == n).map(|(_, v)| v.len()).min().unwrap_or(0);
                    r.bump(&format!("iteration_orders_of_a_map_of_{n}"), least as u64);
                }
            }
            r.sample(format!("{} with hash seeds 0..{} => {}", show_runs(&[(Env::Plain, a.clone())]), n_seeds, clip(&want.brief(), 200)));
        });
    }
    t.bound(format!("{n_seeds} seeds of the hash maps (getrandom(2) replaced), before --minimize, --split and one invocation of every other kind; the evidence says how many of the 2, 6 and 24 iteration orders of maps of 2, 3 and 4 numbers these seeds produce"));

    // the surroundings
    let vars: Vec<Vec<(&'static str, &'static str)>> = {
        let one: &[(&str, &[&str])] = &[
            ("LANG", &["C", "de_AT.UTF-8", ""]),
            ("LC_ALL", &["C", "tr_TR.UTF-8"]),
            ("TERM", &["dumb", "xterm-256color", ""]),
            ("COLUMNS", &["1", "80"]),
            ("NO_COLOR", &["1", ""]),
            ("CLICOLOR", &["0", "1"]),
            ("CLICOLOR_FORCE", &["0"]),
            ("HOME", &["/nonexistent"]),
            ("PWD", &["/nonexistent"]),
            ("RUST_BACKTRACE", &["1"]),
            ("RUST_LOG", &["trace"]),
            ("RIPCALC", &["-m"]),
            ("RIPCALC_MC_SERVE", &["1"]),
            ("POSIXLY_CORRECT", &["1"]),
        ];
        let flat: Vec<(&'static str, &'static str)> = one.iter().flat_map(|(k, v)| v.iter().map(|x| (*k, *x))).collect();
        let mut l: Vec<Vec<_>> = vec![vec![]];
        for i in 0..flat.len() {
            l.push(vec![flat[i]]);
            for j in i + 1..flat.len() {
                if flat[i].0 != flat[j].0 {
                    l.push(vec![flat[i], flat[j]]);
                }
            }
        }
        l
    };
    for (env, a) in inv.clone() {
        if env != Env::Plain {
            continue;
        }
        let vars = vars.clone();
        t.add(format!("surroundings of {}", show_runs(&[(env, a.clone())])), move |r| {
            let bin = r.sh.bin.join("ripcalc");
            let want = r.exec(Env::Plain, &a);
            let tell = |r: &mut Runner, what: String, o: Out, cmd: String| -> bool {
                r.book(hash_of(&(&a, &what)), 1);
                match same(&what, &want, &o) {
                    Ok(()) => true,
                    Err(e) => {
                        r.violation(e, vec![(Env::Plain, a.clone())], vec![want.clone(), o], format!("$ {cmd}"));
                        false
                    },
                }
            };
            let cmd = show_runs(&[(Env::Plain, a.clone())]);
            for v in &vars {
                if r.stopped() {
                    return;
                }
                let e: Vec<(&str, String)> = v.iter().map(|(k, x)| (*k, x.to_string())).collect();
                let o = r.exec_with(&bin, &a, &e, TIMEOUT);
                let set: Vec<String> = v.iter().map(|(k, x)| format!("{k}={x}")).collect();
                if !tell(r, format!("environment {}", set.join(" ")), o, format!("{} {cmd}", set.join(" "))) {
                    return;
                }
            }
            for (k, values) in super::confine::USUAL {
                for v in *values {
                    if r.stopped() {
                        return;
                    }
                    let e = [(*k, v.to_string())];
                    let o = r.exec_with(&bin, &a, &e, TIMEOUT);
                    if !tell(r, format!("environment {k}={v}"), o, format!("{k}={} {cmd}", quote(v))) {
                        return;
                    }
                    if *k != "TERM" && *k != "LANG" {
                        continue;
                    }
                    if let Some(mut o) = on_terminal(r, &a, &e, (24, 80)) {
                        o.out = crate::parse::strip_escapes(&o.out).0;
                        if !tell(r, format!("a terminal, {k}={v}, colours removed"), o, format!("{k}={} script -qc {} /dev/null", quote(v), quote(&cmd))) {
                            return;
                        }
                    }
                }
            }
            let mut names: Vec<String> = ["", "ripcalc", "-m", "--help", "/usr/bin/ripcalc", "10.0.0.0/8", "x", "-", "--", "/", ".", "./ripcalc", "../bin/ripcalc", "/ripcalc/", "RIPCALC", "ripcalc.exe", "sh", "busybox", "sudo"].map(|s| s.to_string()).to_vec();
            for p in ["ripcalc", "ipcalc", "sipcalc", "calc", "rip", "ip", "cidr", "subnetcalc", "netmask", "net", "", "-", "/bin/"] {
                for s in ["", "4", "6", "v4", "v6", "-4", "-6", "ng", "-ng", "64", "2", "-debug", "-rel", "d", "min", "minimize", "m", "derange", "split", "s", "resize", "r", "enumerate", "enum", "e", "list", "show", "help", "h", "color", "nocolor", "json", "quiet"] {
                    names.push(format!("{p}{s}"));
                    if !s.is_empty() && !p.is_empty() {
                        names.push(format!("{p}-{s}"));
                        names.push(format!("{p}_{s}"));
                    }
                }
            }
            for c in 1..128u8 {
                names.push((c as char).to_string());
                names.push(format!("ripcalc{}", c as char));
            }
            names.sort();
            names.dedup();
            for a0 in &names {
                let a0 = a0.as_str();
                if r.stopped() {
                    return;
                }
                let o = r.exec_as(&bin, Some(a0), &a, &[], TIMEOUT, &[]);
                if !tell(r, format!("program name {a0:?}"), o, format!("(exec -a {} ripcalc{})", quote(a0), cmd.strip_prefix("ripcalc").unwrap_or(""))) {
                    return;
                }
            }
            for i in ["\n", "10.0.0.0/8\n", "y\ny\ny\n", "\0\0\0"] {
                let o = r.exec_as(&bin, None, &a, &[], TIMEOUT, i.as_bytes());
                if !tell(r, format!("standard input {i:?}"), o, format!("printf {} | {cmd}", quote(i))) {
                    return;
                }
            }
            // again and again
            for k in 0..20 {
                let o = r.exec(Env::Plain, &a);
                if !tell(r, format!("repetition {k}"), o, cmd.clone()) {
                    return;
                }
            }
            // a terminal of any size
            let mut sizes: Vec<(u16, u16)> = (1..=if th { 400 } else { 100u16 }).map(|c| (24, c)).collect();
            sizes.extend((1..40u16).map(|l| (l, 80)));
            sizes.extend([(0, 0), (0, 80), (24, 0), (1, 1), (25, 120), (25, 132), (25, 160), (25, 200), (50, 255), (50, 256), (1000, 1000), (65535, 65535)]);
            for (lines, columns) in sizes {
                if r.stopped() {
                    return;
                }
                if let Some(mut o) = on_terminal(r, &a, &[("TERM", "xterm".to_string())], (lines, columns)) {
                    o.out = crate::parse::strip_escapes(&o.out).0;
                    if !tell(r, format!("a terminal of {lines} lines and {columns} columns, colours removed"), o, format!("script -qc 'stty rows {lines} cols {columns}; {}' /dev/null", cmd.replace('\'', "'\\''"))) {
                        return;
                    }
                }
            }
            // a terminal: apart from colours the same
            for e in [&[][..], &[("TERM", "xterm-256color")], &[("TERM", "dumb")], &[("NO_COLOR", "1")], &[("CLICOLOR", "0")]] {
                let set: Vec<(&str, String)> = e.iter().map(|(k, v)| (*k, v.to_string())).collect();
                match on_terminal(r, &a, &set, (0, 0)) {
                    None => r.note("no terminal could be opened; that part is left out".into()),
                    Some(mut o) => {
                        let (plain, escapes) = crate::parse::strip_escapes(&o.out);
                        if escapes > 0 {
                            r.bump("coloured_on_a_terminal", 1);
                        }
                        o.out = plain;
                        if !tell(r, format!("a terminal, {e:?}, colours removed"), o, format!("script -qc {} /dev/null", quote(&cmd))) {
                            return;
                        }
                    },
                }
            }
        });
    }
    t.bound("environment: no variable, each of 22 settings, and every pair of them; the usual values of 25 variables (56 terminal types among them); some 1000 program names; 4 contents of standard input; 20 repetitions; a terminal as standard output in 5 settings, and of 150 sizes");

    // terminals as any of the three streams; names and values from the sources
    let all: Vec<(Env, Args)> = inv.iter().cloned().chain(refusals().into_iter().map(|a| (Env::Plain, a))).filter(|x| x.0 == Env::Plain).collect();
    for chunk in all.chunks(all.len().div_ceil(16)) {
        let chunk = chunk.to_vec();
        t.add(format!("terminals and words, from {}", show_runs(&chunk[..1])), move |r| {
            let bin = r.sh.bin.join("ripcalc");
            let words = source_words(r);
            let strip = |o: &Out| Out { out: crate::parse::strip_escapes(&o.out).0, err: crate::parse::strip_escapes(&o.err).0, ..o.clone() };
            for (_, a) in chunk {
                let want = r.exec(Env::Plain, &a);
                let cmd = show_runs(&[(Env::Plain, a.clone())]);
                for m in 1..8u32 {
                    if r.stopped() {
                        return;
                    }
                    let which = [m & 1 != 0, m & 2 != 0, m & 4 != 0];
                    let names: Vec<&str> = ["input", "output", "error"].iter().enumerate().filter(|(i, _)| which[*i]).map(|(_, n)| *n).collect();
                    for term in ["xterm", "dumb", ""] {
                        let e: Vec<(&str, String)> = if term.is_empty() { vec![] } else { vec![("TERM", term.to_string())] };
                        if let Some(o) = terminals(r, &a, &e, (24, 80), which) {
                            r.book(hash_of(&(&a, m, term)), 1);
                            let what = format!("terminals as standard {}, colours removed", names.join(" and "));
                            if let Err(err) = same(&what, &strip(&want), &strip(&o)) {
                                r.violation(err, vec![(Env::Plain, a.clone())], vec![want.clone(), o], format!("# in a terminal, everything but standard {} redirected:\n$ TERM={term} {cmd}", names.join(" and ")));
                                return;
                            }
                        }
                    }
                }
                for v in &words {
                    if r.stopped() {
                        return;
                    }
                    let set = all_words(&words, v);
                    let e: Vec<(&str, String)> = set.iter().map(|(k, v)| (k.as_str(), v.clone())).collect();
                    let o = r.exec_with(&bin, &a, &e, TIMEOUT);
                    r.book(hash_of(&(&a, v)), 1);
                    let what = format!("environment: each word of the sources set to {v:?}");
                    if let Err(err) = same(&what, &want, &strip(&o)) {
                        r.violation(err, vec![(Env::Plain, a.clone())], vec![want.clone(), o], format!("$ env $(tr '\\n' ' ' < build/bin/words | sed 's/ /={v} /g') {cmd}"));
                        return;
                    }
                }
            }
        });
    }
    t.bound("terminals as every combination of standard input, output and error, with three settings of TERM, on all these invocations and 46 refusals; every word of the string literals in the sources as a variable (also in capitals, in lower case, behind RIPCALC_), all at once, with each of these words as the value");

    // whatever the program asks about is varied
    for (env, a) in inv.clone() {
        if env == Env::Plain {
            t.add(format!("what {} asks about", show_runs(&[(env, a.clone())])), move |r| asks(r, a, th));
        }
    }
    t.bound("every environment variable, file, clock, process and user number, processor count, host name, directory and window size the program asks about (libc calls intercepted; with standard output a file and a terminal) is given other values: 27 values per variable, 6 contents of files that do not exist, 40 (thorough: 200) imaginary worlds; every capital word in the binary as a variable, all at once, with 5 values");

    // many results and many arguments, in both profiles
    for (name, a) in heavy(th) {
        t.add(format!("build profiles: {name}"), move |r| {
            let (d, rel) = (r.sh.bin.join("ripcalc"), r.sh.bin.join("ripcalc-rel"));
            if !rel.exists() {
                return;
            }
            let long = std::time::Duration::from_secs(600);
            let (x, y) = (r.exec_with(&d, &a, &[], long), r.exec_with(&rel, &a, &[], long));
            r.book(hash_of(&a), x.lines().len() as u64);
            if let Err(e) = same("the release build", &x, &y) {
                let cut = |o: Out| Out { out: clip(&o.out, 2000), ..o };
                r.violation(e, vec![(Env::Plain, a.clone()), (Env::Release, a)], vec![cut(x), cut(y)], String::new());
                return;
            }
            r.sample(format!("{name}: {} lines, the same in both profiles", x.lines().len()));
        });
    }
    t.bound("the debug and the release build on 2^17 (thorough: 2^24) addresses, 2^17 subnets, 2000 to 4000 networks and counts");

    // the build profile
    let edge = |f: Fam| {
        let mut v = edge_values(f);
        if !th {
            let keep = |i: u32| f == V4 && (i < 2 || i % 8 < 2 || i % 8 == 7) || [0, 1, 8, 16, 32, 63, 64, 65, 96, 127].contains(&i);
            v = (0..f.w()).filter(|i| keep(*i)).flat_map(|i| [1u128 << i, (1 << i) - 1, f.full() - (1 << i), f.full() - (1 << i) + 1]).collect();
            v.push(f.full());
        }
        v.sort();
        v.dedup();
        v
    };
    for fam in FAMS {
        let vals = edge(fam);
        let prefixes: Vec<u32> = if th { (0..=fam.w()).collect() } else { [0, 1, 2, 7, 8, 9, 15, 16, 24, 30, 31, 32, 63, 64, 65, 96, 126, 127, 128].iter().copied().filter(|p| *p <= fam.w()).collect() };
        for chunk in vals.chunks(vals.len().div_ceil(8)) {
            let chunk = chunk.to_vec();
            let vals = vals.clone();
            let prefixes = prefixes.clone();
            t.add(format!("build profiles, {fam:?} from {}", fam.fmt(chunk[0])), move |r| {
                let both = |r: &mut Runner, a: Args| {
                    r.check_env(vec![(Env::Plain, a.clone()), (Env::Release, a)], |o| same("the release build", &o[0], &o[1]).map(|_| 2));
                };
                for x in &chunk {
                    for y in &vals {
                        both(r, vec!["-d".into(), fam.fmt(*x), fam.fmt(*y)]);
                        let n = Net::new(fam, *x, *y);
                        both(r, vec![spec(fam, *x, *y)]);
                        if n.host_bits() <= 8 {
                            both(r, vec!["-e".into(), spec(fam, *x, *y)]);
                        }
                        for p in [0, 1, 8, 31, 32] {
                            let m = fam.prefix_mask(p);
                            if (m & !*y & fam.full()).count_ones() <= 5 {
                                both(r, vec!["-r".into(), spec(fam, *x, *y), p.to_string()]);
                            }
                        }
                    }
                    for p in &prefixes {
                        let s = format!("{}/{}", fam.fmt(*x), p);
                        both(r, vec![s.clone()]);
                        for c in ["0", "1", "2", "3", "6", "7", "254", "255", "65534", "65535", "2147483646", "4294967294", "4294967295", "18446744073709551614", "18446744073709551615", "340282366920938463463374607431768211454"] {
                            both(r, vec!["-s".into(), s.clone(), c.into()]);
                            both(r, vec!["-s".into(), s.clone(), c.into(), "1".into()]);
                        }
                        for y in &vals {
                            for q in &prefixes {
                                if q == p || (q < p && (th || *q % 8 == 0)) {
                                    both(r, vec!["-m".into(), s.clone(), format!("{}/{}", fam.fmt(*y), q)]);
                                }
                            }
                        }
                    }
                }
            });
        }
    }
    for fam in FAMS {
        t.add(format!("build profiles, {fam:?} places"), move |r| {
            let both = |r: &mut Runner, a: Args| {
                r.check_env(vec![(Env::Plain, a.clone()), (Env::Release, a)], |o| same("the release build", &o[0], &o[1]).map(|_| 2));
            };
            let w = fam.w();
            for (a, p) in places(fam) {
                let s = format!("{}/{p}", fam.fmt(a));
                let last = Net::cidr(fam, a, p).last();
                both(r, vec!["-d".into(), fam.fmt(a), fam.fmt(last)]);
                both(r, vec!["-d".into(), fam.fmt(a.saturating_add(1)), fam.fmt(last.saturating_sub(1))]);
                for q in p..=w.min(p + 8) {
                    both(r, vec!["-r".into(), s.clone(), q.to_string()]);
                    both(r, vec![format!("{}/{q}", fam.fmt(last))]);
                }
                for c in ["0", "2", "5", "62", "254"] {
                    both(r, vec!["-s".into(), s.clone(), c.into(), "1".into()]);
                }
                for (b, q) in places(fam) {
                    both(r, vec!["-m".into(), s.clone(), format!("{}/{q}", fam.fmt(b))]);
                }
                both(r, vec!["-e".into(), format!("{}/{}", fam.fmt(a), w - 6)]);
            }
        });
    }
    t.bound("the debug and the release build on every block of the IANA registries, in all modes");
    t.bound("the debug and the release build on every pair of edge addresses and masks of both families, in all modes");
}

/// Invocations with many arguments or much output.
pub fn heavy(th: bool) -> Vec<(String, Args)> {
    let mut v: Vec<(String, Args)> = vec![];
    let mut add = |n: &str, a: Vec<String>| v.push((n.to_string(), a));
    let st = |s: &str| s.to_string();
    add("2^17 addresses, IPv4", args(&["-e", "10.0.0.1/15"]));
    add("2^17 addresses, IPv6", args(&["-e", "fe80::1/111"]));
    add("2^17 scattered addresses, IPv4", args(&["-e", "10.0.0.1/85.85.84.170"]));
    add("2^17 scattered addresses, IPv6", args(&["-e", "2001:db8::5/-101:101:101:101:101:101:101:707"]));
    add("65535, 65536 and 65537 addresses", args(&["-e", "10.0.0.1/16", "10.0.0.1/32", "fe80::/112", "::/127"]));
    add("2^16 subnets, IPv4", args(&["-r", "10.0.0.0/8", "24"]));
    add("2^16 + 2^15 subnets", args(&["-r", "10.0.0.0/8", "255.255.255.129"]));
    add("2^16 subnets, IPv6", args(&["-r", "2001:db8::/32", "48"]));
    let hosts4 = |n: u32, m: u32| (0..n).map(move |i| format!("10.{}.{}.{}/32", i * m >> 16 & 255, i * m >> 8 & 255, i * m & 255));
    let hosts6 = |n: u32, m: u32| (0..n).map(move |i| format!("2001:db8::{:x}:{:x}/128", i * m >> 16, i * m & 0xffff));
    for n in if th { vec![255u32, 256, 257, 1023, 1024, 1025, 2047, 2049, 4096, 4097] } else { vec![256, 257, 1025, 2049] } {
        for m in [1u32, 2, 3] {
            add(&format!("--minimize of {n} addresses {m} apart, IPv4"), std::iter::once(st("-m")).chain(hosts4(n, m)).collect());
            add(&format!("--minimize of {n} addresses {m} apart, IPv6"), std::iter::once(st("-m")).chain(hosts6(n, m)).collect());
        }
        add(&format!("{n} networks, IPv4"), hosts4(n, 7).collect());
        add(&format!("{n} networks, IPv6"), hosts6(n, 7).collect());
        add(&format!("--enumerate of {n} networks"), std::iter::once(st("-e")).chain(hosts4(n, 5)).collect());
        for c in ["1", "62", "0"] {
            add(&format!("--split into {n} times {c}, IPv4"), [st("-s"), st("10.0.0.0/8")].into_iter().chain((0..n).map(|_| st(c))).collect());
        }
        add(&format!("--split into 1 to {n}, IPv6"), [st("-s"), st("2001:db8::/64")].into_iter().chain((0..n).map(|i| i.to_string())).collect());
    }
    add("--minimize of 300 lopsided networks", std::iter::once(st("-m")).chain((0..300).map(|i| format!("10.{}.{}.0/255.255.{}.255", i % 7, i / 7, [254, 253, 251, 5][i % 4]))).collect());
    if th {
        add("2^24 addresses, IPv4", args(&["-e", "10.0.0.1/8"]));
        add("2^22 addresses, IPv6", args(&["-e", "fe80::1/106"]));
        add("2^18 subnets", args(&["-r", "10.0.0.0/8", "26"]));
    }
    v
}

/// Runs with an argument list, everything the program asks about being written down, and then with
/// other answers.
fn asks(r: &mut Runner, a: Args, th: bool) {
    let colour = |n: &str| n.contains("COLOR") || n == "TERM";
    let bin = r.sh.bin.join("ripcalc");
    let so = r.sh.bin.join("inject.so").display().to_string();
    let want = r.exec(Env::Plain, &a);
    let cmd = show_runs(&[(Env::Plain, a.clone())]);
    let strip = |o: &Out| Out { out: crate::parse::strip_escapes(&o.out).0, ..o.clone() };
    // one run: on a file, and on a terminal if there is one
    let both = |r: &mut Runner, set: &[(String, String)], what: &str, terminal: bool| -> bool {
        let mut e: Vec<(&str, String)> = vec![("LD_PRELOAD", so.clone())];
        e.extend(set.iter().map(|(k, v)| (k.as_str(), v.clone())));
        r.book(hash_of(&(&a, what)), 1);
        let mut outs = vec![("", r.exec_with(&bin, &a, &e, TIMEOUT))];
        if terminal {
            if let Some(o) = on_terminal(r, &a, &e, (0, 0)) {
                outs.push((" on a terminal", o));
            }
        }
        for (place, o) in outs {
            if let Err(err) = same(&format!("{what}{place}"), &strip(&want), &strip(&o)) {
                let shown: Vec<String> = set.iter().take(12).map(|(k, v)| format!("{k}={}", quote(v))).collect();
                r.violation(err, vec![(Env::Plain, a.clone())], vec![want.clone(), o], format!("$ LD_PRELOAD=$PWD/build/bin/inject.so {} {cmd}", shown.join(" ")));
                return false;
            }
        }
        true
    };
    let log = r.sh.scratch.join(format!("asked-{}", r.task)).display().to_string();
    let mut names: Vec<String> = vec![];
    let mut tried: Vec<String> = vec![];
    let mut kinds: std::collections::BTreeSet<String> = Default::default();
    let mut gather = |names: &mut Vec<String>| {
        for l in std::fs::read_to_string(&log).unwrap_or_default().lines() {
            let (k, n) = l.split_once(' ').unwrap_or((l, ""));
            kinds.insert(k.to_string());
            if k == "env" && !names.iter().any(|x| x == n) {
                names.push(n.to_string());
            }
        }
        let _ = std::fs::remove_file(&log);
        kinds.len()
    };
    let logged = ("INJECT_ASKED".to_string(), log.clone());
    if !both(r, &[logged.clone()], "watched", true) {
        return;
    }
    gather(&mut names);
    while let Some(n) = names.iter().find(|n| !tried.contains(n)).cloned() {
        tried.push(n.clone());
        for v in ["", "0", "1", "2", "-1", "yes", "no", "on", "off", "true", "false", "auto", "always", "never", "all", "debug", "trace", "verbose", "quiet", "full", "json", "ripcalc", "*", "C", "/tmp", "10.0.0.0/8", "-m"] {
            if !both(r, &[logged.clone(), (n.clone(), v.into())], &format!("environment {n}={v}"), colour(&n) || v == "1") {
                return;
            }
        }
        gather(&mut names);
        if tried.len() > 60 {
            r.note("more than 60 environment variables are asked for; the rest is left out".into());
            break;
        }
    }
    for w in 0..if th { 200 } else { 40 } {
        if r.stopped() || !both(r, &[logged.clone(), ("INJECT_WORLD".into(), w.to_string())], &format!("imaginary world {w}"), w % 8 == 0) {
            return;
        }
    }
    for f in ["", "\n", "1\n", "-m\n", "minimize = true\nsort = desc\n[color]\nforce = 1\n", "{\"mode\": \"enumerate\", \"color\": true}\n"] {
        if !both(r, &[logged.clone(), ("INJECT_FILES".into(), f.into())], &format!("files that contain {f:?}"), true) {
            return;
        }
    }
    let n_kinds = gather(&mut names);
    let words = capital_words(r);
    for v in ["", "0", "1", "always", "-m"] {
        let all: Vec<(String, String)> = words.iter().map(|w| (w.clone(), v.to_string())).collect();
        if !both(r, &all, &format!("environment: all of {} words set to {v:?}", words.len()), false) {
            return;
        }
    }
    r.bump("variables_asked_for", tried.len() as u64);
    r.bump("kinds_of_questions", n_kinds as u64);
    r.bump("variables_set_at_once", words.len() as u64);
    r.sample(format!("{cmd} asks about the variables {tried:?}; {} words in the binary as variables; always the same result", words.len()));
}

/// Every capital word that occurs in the binary, as the name of a variable.
pub fn capital_words(r: &Runner) -> Vec<String> {
    let image = std::fs::read(r.sh.bin.join("ripcalc-rel")).or_else(|_| std::fs::read(r.sh.bin.join("ripcalc"))).unwrap_or_default();
    let mut words: Vec<String> = image
        .split(|b| !b.is_ascii_uppercase() && !b.is_ascii_digit() && *b != b'_')
        .filter(|w| (4..40).contains(&w.len()) && w[0].is_ascii_uppercase())
        .map(|w| String::from_utf8_lossy(w).into_owned())
        .filter(|w| !["LD_", "MALLOC_", "GLIBC", "GCONV", "INJECT", "LOCPATH", "RUST_MIN_STACK"].iter().any(|p| w.starts_with(p)))
        .collect();
    words.sort();
    words.dedup();
    words.truncate(6000);
    words
}
