mod api;
mod checks;
mod cubes;
mod dict;
mod gen;
mod model;
mod parse;
mod run;

use run::*;
use std::collections::{HashMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Tasks {
    pub thorough: bool,
    pub mode: String,
    pub list: Vec<(String, Box<dyn FnOnce(&mut Runner) + Send>)>,
    pub bounds: Vec<String>,
    pub level: &'static str,
    pub conform: u64,
    /// Some part of the space was left out because the server build does not offer it.
    pub reduced: bool,
}
impl Tasks {
    pub fn add(&mut self, name: impl Into<String>, f: impl FnOnce(&mut Runner) + Send + 'static) {
        self.list.push((name.into(), Box::new(f)));
    }
    /// Does the server answer this group of calls?  If not, the space is reduced.
    pub fn has(&mut self, group: &str) -> bool {
        let h = self.mode.split_whitespace().any(|g| g == group);
        self.reduced |= !h;
        h
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
}

fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 || c == '\u{7f}' => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "orders" {
        checks::faults::print_orders();
        return;
    }
    if a.len() < 4 || a[1] != "check" {
        eprintln!("usage: explorer check ID quick|thorough");
        std::process::exit(2);
    }
    let id = a[2].clone();
    let thorough = a[3] == "thorough";
    let t0 = Instant::now();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let bin = root.join("build/bin");
    let mode = std::fs::read_to_string(bin.join("mc-mode")).map(|s| s.trim().to_string()).unwrap_or_else(|_| "exec".into());
    let base = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { "/dev/shm" } else { "/tmp" };
    let scratch = PathBuf::from(format!("{}/ripcalc-mc-{}-{}", base, id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let budget = std::env::var("EXPLORER_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match (thorough, &mode[..]) {
        (true, _) => 6 * 3600,
        // without the server every run is a process of its own
        (false, "exec") => 240,
        (false, _) => 600,
    });

    let mut tasks = Tasks { thorough, mode: mode.clone(), list: vec![], bounds: vec![], level: "model_checking", conform: 4000, reduced: false };
    if !checks::build(&id, &mut tasks) {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    }
    let conform = std::env::var("EXPLORER_CONFORM").ok().and_then(|s| s.parse().ok()).unwrap_or(tasks.conform);
    let sh = Arc::new(Shared {
        id: id.clone(),
        thorough,
        bin,
        mode: mode.clone(),
        scratch: scratch.clone(),
        deadline: t0 + Duration::from_secs(budget),
        capped: AtomicBool::new(false),
        failed_task: AtomicUsize::new(usize::MAX),
        found: Mutex::new(None),
        violations: Mutex::new(vec![]),
        watch: Mutex::new(HashMap::new()),
        timed_out: Mutex::new(HashSet::new()),
        notes: Mutex::new(vec![]),
        conform_every: AtomicU64::new(conform),
        unlike: AtomicUsize::new(0),
    });
    // a runaway must not fill the memory file system that takes its output
    let lim = [if thorough { 1200u64 << 20 } else { 300 << 20 }; 2];
    unsafe { run::setrlimit(1, &lim) };
    watchdog(sh.clone());
    let n_tasks = tasks.list.len();
    let queue = Arc::new(Mutex::new(tasks.list.into_iter().enumerate().collect::<std::collections::VecDeque<_>>()));
    let n_workers = std::env::var("EXPLORER_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let slow = Arc::new(Mutex::new(Vec::<(f64, String)>::new()));
    let handles: Vec<_> = (0..n_workers)
        .map(|w| {
            let sh = sh.clone();
            let queue = queue.clone();
            let slow = slow.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut r = Runner::new(sh, w);
                    loop {
                        let next = queue.lock().unwrap().pop_front();
                        let (i, (name, f)) = match next {
                            Some(x) => x,
                            None => break,
                        };
                        r.start_task(i);
                        if r.stopped() {
                            continue;
                        }
                        let t = Instant::now();
                        f(&mut r);
                        r.end_task();
                        slow.lock().unwrap().push((t.elapsed().as_secs_f64(), name));
                    }
                    std::mem::take(&mut r.st)
                })
                .unwrap()
        })
        .collect();
    let mut st = Stats::default();
    let mut samples = vec![];
    let mut broken = false;
    for h in handles {
        match h.join() {
            Ok(s) => {
                st.cases += s.cases;
                st.runs += s.runs;
                st.transitions += s.transitions;
                st.execs += s.execs;
                st.faults += s.faults;
                st.mismatches += s.mismatches;
                st.artefacts += s.artefacts;
                st.restarts += s.restarts;
                st.states.extend(s.states);
                st.outcomes.extend(s.outcomes);
                for (k, v) in s.extra {
                    *st.extra.entry(k).or_insert(0) += v;
                }
                samples.push(s.samples);
            },
            Err(_) => broken = true,
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    st.states.sort_unstable();
    st.states.dedup();
    // one sample of each worker in turn
    let mut picked = vec![];
    for i in 0..8 {
        for s in &samples {
            if let Some(x) = s.get(i) {
                if picked.len() < 8 {
                    picked.push(x.clone());
                }
            }
        }
    }
    let mut viol = std::mem::take(&mut *sh.violations.lock().unwrap());
    viol.sort_by_key(|v| (v.task, v.seq));
    let wall = t0.elapsed().as_secs_f64();
    let capped = sh.capped.load(Ordering::Relaxed);
    let exhaustive = viol.is_empty() && !capped && !broken && !tasks.reduced;

    let mut j = String::new();
    j.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
        json_str(&id),
        json_str(if thorough { "thorough" } else { "quick" }),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0),
        json_str(tasks.level)
    ));
    if tasks.level == "fault_enumeration" {
        j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", st.cases, st.faults));
        j.push_str("  \"rule\": \"every placement of the listed faults in the write calls of each listed invocation; non-trivial: a fault was really injected\",\n");
    }
    if tasks.level == "fault_enumeration" {
        j.push_str(&format!("  \"exhaustive\": {},\n  \"capped\": {},\n", exhaustive, capped));
    } else {
        j.push_str(&format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"implementation_runs\": {},\n  \"distinct_outcomes\": {},\n  \"server_vs_binary_mismatches\": {},\n  \"wrong_in_server_only\": {},\n  \"mode\": {},\n  \"capped\": {},\n",
        st.states.len(),
        st.transitions,
        st.execs,
        exhaustive,
        st.runs + st.execs,
        st.outcomes.len(),
        st.mismatches,
        st.artefacts,
        json_str(&mode),
        capped
    ));
    }
    let mut ex: Vec<_> = st.extra.iter().collect();
    ex.sort();
    for (k, v) in ex {
        j.push_str(&format!("  {}: {},\n", json_str(k), v));
    }
    j.push_str(&format!("  \"tasks\": {},\n", n_tasks));
    j.push_str(&format!("  \"bounds\": [{}],\n", tasks.bounds.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("  \"samples\": [{}]\n }},\n", picked.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("  \"assumptions\": [{}],\n", json_str("the build of the repository's dependencies and the Rust standard library are trusted; see level_note in MANIFEST.json")));
    let notes = sh.notes.lock().unwrap().clone();
    j.push_str(&format!("  \"notes\": [{}],\n", notes.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!("  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", wall, viol.len()));
    let _ = std::fs::create_dir_all(root.join("evidence"));
    std::fs::write(root.join(format!("evidence/{id}.json")), j).expect("evidence file");

    println!(
        "{id} {}: {} cases, {} states, {} transitions, {} runs in the server, {} processes, {} outcomes, {:.1} s{}{}",
        if thorough { "thorough" } else { "quick" },
        st.cases,
        st.states.len(),
        st.transitions,
        st.runs,
        st.execs,
        st.outcomes.len(),
        wall,
        if capped { ", CAPPED by the time budget" } else { "" },
        if tasks.reduced { format!(", reduced (mode {mode})") } else { String::new() },
    );
    for n in &notes {
        println!("note: {n}");
    }
    if std::env::var_os("EXPLORER_PROFILE").is_some() {
        let mut s = slow.lock().unwrap().clone();
        s.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        for (t, n) in s.iter().take(12) {
            println!("  {t:8.2} s  {n}");
        }
    }
    if let Some(v) = viol.first() {
        let dir = root.join("build/replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}.sh"));
        let mut s = String::from("#!/bin/bash\n# Replays a violation found by the explorer.\n");
        s.push_str(&format!("# property: {id}\n"));
        for l in v.what.lines() {
            s.push_str(&format!("# wrong: {l}\n"));
        }
        for o in &v.outs {
            for l in o.brief().lines() {
                s.push_str(&format!("# observed: {l}\n"));
            }
        }
        for l in v.extra.lines().filter(|l| !l.starts_with("$ ")) {
            s.push_str(&format!("# {l}\n"));
        }
        s.push_str("cd \"$(dirname \"$0\")/../..\" && ./build.sh || exit 3\nexport PATH=\"$PWD/build/bin:$PATH\"\nset -x\n");
        for (e, a) in &v.runs {
            s.push_str(e.command());
            for x in a {
                s.push(' ');
                s.push_str(&quote(x));
            }
            s.push('\n');
        }
        for l in v.extra.lines() {
            if let Some(c) = l.strip_prefix("$ ") {
                s.push_str(c);
                s.push('\n');
            }
        }
        let _ = std::fs::write(&path, s);
        println!("wrong: {}", clip(&v.what, 1500));
        if !v.runs.is_empty() {
            println!("by: {}", show_runs(&v.runs));
        }
        for o in v.outs.iter().take(6) {
            println!("observed: {}", o.brief());
        }
        if v.outs.len() > 6 {
            println!("and {} more", v.outs.len() - 6);
        }
        println!("VIOLATION property={} replay={}", id, path.display());
        std::process::exit(1);
    }
    if broken {
        eprintln!("the explorer itself failed");
        std::process::exit(2);
    }
    std::process::exit(0);
}
