//! C28: a run does nothing but write its output: every invocation is repeated with all system calls
//! forbidden by which a process could affect anything else or take from standard input
//! (inject/confine.c), and has to end in the same way.
use super::faults;
use super::relations::{shapes, Place};
use super::totality;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use crate::Tasks;

fn judge(want: &Out, got: &Out) -> Result<(), String> {
    if got.status == CONFINED && got.err.contains("confined: ") {
        let what = got.err.rsplit("confined: ").next().unwrap_or("").trim().to_string();
        return Err(format!("it does more than write its output: {what}"));
    }
    faults::same("with everything but output forbidden", want, got)
}

fn case(r: &mut Runner, a: Args) {
    if totality::huge(&a) {
        r.bump("left_out_because_of_long_output", 1);
        return;
    }
    r.check_env(vec![(Env::Plain, a.clone()), (Env::Confined, a)], |o| judge(&o[0], &o[1]).map(|_| 2));
}

/// Does the kernel let the filter be installed?
fn available(bin: &std::path::Path) -> bool {
    let mut c = std::process::Command::new(bin.join("ripcalc"));
    c.arg("--help").env("LD_PRELOAD", bin.join("confine.so")).stdin(std::process::Stdio::null());
    match c.output() {
        Ok(o) => o.status.code() != Some(NO_CONFINEMENT),
        Err(_) => false,
    }
}

/// With a process of its own, in various surroundings.
fn surroundings(r: &mut Runner, env: Env, a: Args, th: bool) {
    let bin = r.sh.bin.join("ripcalc");
    let confine = r.sh.bin.join("confine.so").display().to_string();
    let inject = r.sh.bin.join("inject.so").display().to_string();
    let cmd = show_runs(&[(Env::Plain, a.clone())]);
    let home = r.sh.scratch.join(format!("home-{}", r.task)).display().to_string();
    let _ = std::fs::create_dir_all(format!("{home}/.config/ripcalc"));
    let tell = |r: &mut Runner, what: String, set: &[(String, String)], stdin: &[u8], terminal: bool, want: &Out, both: bool| -> bool {
        if r.stopped() {
            return false;
        }
        let preload = if both { format!("{inject}:{confine}") } else { confine.clone() };
        let mut e: Vec<(&str, String)> = env.vars();
        e.extend(set.iter().map(|(k, v)| (k.as_str(), v.clone())));
        e.push(("LD_PRELOAD", preload));
        r.book(hash_of(&(env, &a, &what)), 1);
        let got = if terminal {
            match faults::on_terminal(r, &a, &e, (24, 80)) {
                Some(o) => o,
                None => return true,
            }
        } else {
            r.exec_as(&bin, None, &a, &e, TIMEOUT, stdin)
        };
        let strip = |o: &Out| Out { out: crate::parse::strip_escapes(&o.out).0, ..o.clone() };
        let v = if terminal || both { judge(&strip(want), &strip(&got)) } else { judge(want, &got) };
        if let Err(err) = v {
            let shown: Vec<String> = set.iter().take(12).map(|(k, v)| format!("{k}={}", quote(v))).collect();
            let pre = if both { "$PWD/build/bin/inject.so:$PWD/build/bin/confine.so" } else { "$PWD/build/bin/confine.so" };
            r.violation(format!("{what}: {err}"), vec![(Env::Confined, a.clone())], vec![want.clone(), got], format!("$ LD_PRELOAD={pre} {} {cmd}", shown.join(" ")));
            return false;
        }
        true
    };
    let want = r.exec(env, &a);
    let none: &[(String, String)] = &[];
    if !tell(r, "confined".into(), none, b"", false, &want, false)
        || !tell(r, "standard input with data".into(), none, b"10.0.0.0/8\n-m\n", false, &want, false)
        || !tell(r, "a terminal".into(), none, b"", true, &want, false)
    {
        return;
    }
    let user: Vec<(String, String)> = ["HOME", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR", "TMPDIR", "PWD"].iter().map(|k| (k.to_string(), home.clone())).chain([("USER".to_string(), "user".to_string()), ("TERM".to_string(), "xterm-256color".to_string()), ("LANG".to_string(), "de_AT.UTF-8".to_string())]).collect();
    for (i, x) in [&user[..], &user[..1], &user[8..]].into_iter().enumerate() {
        if !tell(r, format!("a user's environment, variant {i}"), x, b"", false, &want, true) || !tell(r, format!("a user's environment, variant {i}, on a terminal"), x, b"", true, &want, true) {
            return;
        }
    }
    for (i, set) in USUAL.iter().enumerate() {
        for v in set.1 {
            let one = [(set.0.to_string(), v.to_string())];
            if !tell(r, format!("environment {}={v}", set.0), &one, b"", false, &want, false) || (i == 0 && !tell(r, format!("environment {}={v}, on a terminal", set.0), &one, b"", true, &want, false)) {
                return;
            }
        }
    }
    // the variables it asks for
    let log = r.sh.scratch.join(format!("names-{}", r.task)).display().to_string();
    let mut names: Vec<String> = vec![];
    let mut tried = 0;
    let mut values: Vec<String> = ["", "0", "1", "2", "-1", "yes", "no", "on", "off", "true", "false", "auto", "always", "never", "all", "debug", "trace", "verbose", "quiet", "full", "json", "ripcalc", "*", "-m"].iter().map(|x| x.to_string()).collect();
    values.push(format!("{home}/file"));
    let watch = |r: &mut Runner, extra: &[(String, String)], names: &mut Vec<String>| {
        let mut e: Vec<(&str, String)> = vec![("LD_PRELOAD", inject.clone()), ("INJECT_ASKED", log.clone())];
        e.extend(extra.iter().map(|(k, v)| (k.as_str(), v.clone())));
        r.exec_with(&bin, &a, &e, TIMEOUT);
        faults::on_terminal(r, &a, &e, (24, 80));
        for l in std::fs::read_to_string(&log).unwrap_or_default().lines() {
            if let Some(n) = l.strip_prefix("env ") {
                if !names.iter().any(|x| x == n) {
                    names.push(n.to_string());
                }
            }
        }
        let _ = std::fs::remove_file(&log);
    };
    watch(r, none, &mut names);
    while tried < names.len().min(60) {
        let n = names[tried].clone();
        tried += 1;
        for v in &values {
            let set = [(n.clone(), v.clone())];
            if !tell(r, format!("environment {n}={v}"), &set, b"", false, &want, true) {
                return;
            }
        }
        watch(r, &[(n, "1".into())], &mut names);
    }
    for w in 0..if th { 200 } else { 24 } {
        if !tell(r, format!("imaginary world {w}"), &[("INJECT_WORLD".into(), w.to_string())], b"", w % 8 == 7, &want, true) {
            return;
        }
    }
    for f in ["", "1\n", "log = true\ncache = 1\n[history]\nfile = x\n"] {
        if !tell(r, format!("files that contain {f:?}"), &[("INJECT_FILES".into(), f.into())], b"", false, &want, true) {
            return;
        }
    }
    let mut words = faults::capital_words(r);
    words.retain(|w| !w.starts_with("RUST_BACKTRACE"));
    for v in &values {
        let all: Vec<(String, String)> = words.iter().map(|w| (w.clone(), v.clone())).collect();
        if !tell(r, format!("environment: all of {} words set to {v:?}", words.len()), &all, b"", false, &want, true) {
            return;
        }
    }
    let words = faults::source_words(r);
    for v in &words {
        if !tell(r, format!("environment: each word of the sources set to {v:?}"), &faults::all_words(&words, v), b"", false, &want, false) {
            return;
        }
    }
    r.bump("variables_asked_for", tried as u64);
    r.sample(format!("{cmd}: the same result with everything but output forbidden, in all surroundings; asks for {names:?}"));
}

/// Variables with the values they usually have.
pub const USUAL: &[(&str, &[&str])] = &[
    ("TERM", &["", "dumb", "unknown", "linux", "linux-16color", "ansi", "cygwin", "vt52", "vt100", "vt102", "vt220", "vt320", "vt420", "sun", "hp", "xterm", "xterm-color", "xterm-mono", "xterm-16color", "xterm-88color", "xterm-256color", "xterm-direct", "xterm-kitty", "xterm-ghostty", "screen", "screen-256color", "screen.xterm-256color", "tmux", "tmux-256color", "tmux-direct", "rxvt", "rxvt-unicode", "rxvt-unicode-256color", "alacritty", "foot", "foot-direct", "wezterm", "kitty", "konsole", "konsole-256color", "gnome-256color", "putty", "putty-256color", "st", "st-256color", "eterm-color", "emacs", "dvtm", "fbterm", "mlterm", "nsterm", "iterm2", "iterm2-direct", "contour", "network", "ms-terminal", "win32con"]),
    ("COLORTERM", &["", "truecolor", "24bit", "yes", "gnome-terminal", "rxvt", "1"]),
    ("TERM_PROGRAM", &["Apple_Terminal", "iTerm.app", "vscode", "WezTerm", "tmux", "mintty"]),
    ("LANG", &["", "C", "POSIX", "C.UTF-8", "en_US", "en_US.UTF-8", "de_AT.UTF-8", "de_DE", "fr_FR.UTF-8", "tr_TR.UTF-8", "ar_EG.UTF-8", "fa_IR.UTF-8", "hi_IN.UTF-8", "ja_JP.eucJP", "zh_CN.GB18030", "ru_RU.KOI8-R"]),
    ("LC_ALL", &["C", "POSIX", "C.UTF-8", "en_US.UTF-8", "de_AT.UTF-8", "tr_TR.UTF-8", "ar_EG.UTF-8"]),
    ("LC_NUMERIC", &["C", "de_AT.UTF-8", "fr_FR.UTF-8", "hi_IN.UTF-8"]),
    ("SHELL", &["/bin/sh", "/bin/bash", "/usr/bin/zsh", "/usr/bin/fish", "/sbin/nologin"]),
    ("USER", &["root", "nobody", "www-data", ""]),
    ("CI", &["1", "true", "false", ""]),
    ("SSH_CONNECTION", &["192.0.2.1 50000 192.0.2.2 22"]),
    ("SSH_TTY", &["/dev/pts/0"]),
    ("DISPLAY", &[":0", "localhost:10.0"]),
    ("WAYLAND_DISPLAY", &["wayland-0"]),
    ("PAGER", &["less", "more", "cat", ""]),
    ("EDITOR", &["vi", "emacs"]),
    ("TZ", &["UTC", "Europe/Vienna"]),
    ("PATH", &["", "/nonexistent", "/usr/bin:/bin"]),
    ("LINES", &["1", "24", "0"]),
    ("COLUMNS", &["1", "40", "80", "0"]),
    ("NO_COLOR", &["", "1"]),
    ("FORCE_COLOR", &["", "0", "1", "2", "3"]),
    ("RUST_LOG", &["debug", "trace", "ripcalc", "ripcalc=trace"]),
    ("RUST_BACKTRACE", &["0", "full"]),
    ("DEBUG", &["1", "true", "*", "ripcalc", "ripcalc:*"]),
    ("VERBOSE", &["1"]),
];

pub fn c28(t: &mut Tasks) {
    let th = t.thorough;
    let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    if !available(&root.join("build/bin")) {
        t.reduced = true;
        t.bound("nothing: the kernel does not allow a system call filter here");
        return;
    }
    for (env, a) in faults::invocations(true) {
        t.add(format!("surroundings of {}", show_runs(&[(env, a.clone())])), move |r| surroundings(r, env, a, th));
    }
    for chunk in faults::refusals().chunks(3) {
        let chunk = chunk.to_vec();
        t.add(format!("surroundings of {}", show_runs(&[(Env::Plain, chunk[0].clone())])), move |r| {
            for a in chunk {
                surroundings(r, Env::Plain, a, th);
            }
        });
    }
    t.bound("invocations of every mode, 46 and more refusals, usage, colours on: confined, with data on standard input, on a terminal, with a user's environment, with the usual values of 25 variables (56 terminal types among them), with 25 values of every variable the program asks for and of every capital word in the binary, with every word of the string literals in the sources as a variable set to each of these words, in 24 (thorough: 200) imaginary worlds of clock, numbers, names and window sizes, and with 3 contents of files that do not exist");
    for (name, a) in faults::heavy(false) {
        t.add(name, move |r| {
            let rel = r.sh.bin.join("ripcalc-rel");
            let bin = if rel.exists() { rel } else { r.sh.bin.join("ripcalc") };
            let long = std::time::Duration::from_secs(600);
            let want = r.exec_with(&bin, &a, &[], long);
            let confined = r.vars(Env::Confined);
            let got = r.exec_with(&bin, &a, &confined, long);
            r.book(hash_of(&a), want.lines().len() as u64);
            if let Err(e) = judge(&want, &got) {
                let cut = |o: Out| Out { out: clip(&o.out, 2000), ..o };
                r.violation(e, vec![(Env::Plain, a.clone()), (Env::Confined, a)], vec![cut(want), cut(got)], String::new());
            }
        });
    }
    t.bound("2^17 addresses, 2^17 subnets, up to 2049 networks and counts (release build)");
    let words = totality::words();
    let n = words.len();
    for first in 0..n {
        let words = words.clone();
        t.add(format!("words starting with {:?}", words[first]), move |r| {
            let len = if totality::MODES.contains(&words[first]) { 3 } else { 2 };
            let len = if th { len + 1 } else { len };
            for s in sequences(n, len) {
                let mut a = vec![words[first].to_string()];
                a.extend(s.iter().map(|i| words[*i].to_string()));
                case(r, a);
            }
        });
    }
    t.bound(format!("every sequence of up to {} of {n} words starting with an option for a mode, and of up to {} starting with anything else", 4 + th as usize, 3 + th as usize));
    let chars: Vec<char> = "012:./-fFx+ _é,٣".chars().collect();
    for first in 0..chars.len() {
        let chars = chars.clone();
        t.add(format!("strings starting with {:?}", chars[first]), move |r| {
            for s in sequences(chars.len(), if th { 3 } else { 2 }) {
                let mut x = String::from(chars[first]);
                x.extend(s.iter().map(|i| chars[*i]));
                case(r, vec![x.clone()]);
                for m in totality::MODES {
                    case(r, vec![m.to_string(), x.clone()]);
                    case(r, vec![m.to_string(), "10.0.0.9/24".into(), x.clone()]);
                }
                case(r, vec![format!("1.2.3.4/{x}")]);
                case(r, vec![format!("1::2/{x}")]);
                case(r, vec![format!("-{x}")]);
                case(r, vec![format!("--{x}")]);
            }
        });
    }
    t.bound(format!("every string of up to {} of {} characters in 15 places", if th { 4 } else { 3 }, chars.len()));
    let all = shapes(32, th);
    let six = shapes(128, false);
    for (i, chunk) in all.chunks(all.len().div_ceil(16)).enumerate() {
        let chunk = chunk.to_vec();
        t.add(format!("IPv4, part {i}"), move |r| {
            for s in &chunk {
                case(r, Place { fam: V4, k: 32, high: 0 }.args(s));
            }
        });
    }
    let thin = if th { 1 } else { 5 };
    for (i, chunk) in six.chunks(six.len().div_ceil(16)).enumerate() {
        let chunk = chunk.to_vec();
        t.add(format!("IPv6, part {i}"), move |r| {
            for s in chunk.iter().skip(i % thin).step_by(thin) {
                case(r, Place { fam: V6, k: 128, high: 0 }.args(s));
            }
        });
    }
    t.bound(format!("{} invocations of all modes on IPv4 and {} on IPv6: every prefix, lopsided masks, pairs and triples of networks and ranges in 3-bit windows", all.len(), six.len().div_ceil(thin)));
    for fam in FAMS {
        t.add(format!("{fam:?}: places"), move |r| {
            let w = fam.w();
            for x in place_addrs(fam) {
                for p in [0, 8, w / 2, w - 8, w - 1, w] {
                    case(r, vec![format!("{}/{p}", fam.fmt(x))]);
                    case(r, vec!["-m".into(), format!("{}/{p}", fam.fmt(x)), format!("{}/{w}", fam.fmt(x ^ 1))]);
                }
                case(r, vec!["-e".into(), format!("{}/{}", fam.fmt(x), w - 4)]);
                case(r, vec!["-d".into(), fam.fmt(x), fam.fmt(x ^ 0xff)]);
                case(r, vec!["-s".into(), format!("{}/{}", fam.fmt(x), w - 8), "5".into(), "100".into()]);
                case(r, vec!["-r".into(), format!("{}/{}", fam.fmt(x), w - 8), (w - 6).to_string()]);
            }
            for (a, p) in places(fam) {
                let s = format!("{}/{p}", fam.fmt(a));
                case(r, vec![s.clone()]);
                case(r, vec!["-m".into(), s.clone()]);
                case(r, vec!["-r".into(), s.clone(), (p + 2).min(w).to_string()]);
                case(r, vec!["-s".into(), s.clone(), "1".into(), "20".into()]);
                case(r, vec!["-d".into(), fam.fmt(a), fam.fmt(Net::cidr(fam, a, p).last())]);
            }
        });
    }
    t.bound("all modes on the well-known addresses and blocks of both families");
}
