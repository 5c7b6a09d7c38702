//! C31: a message is about the first fault, names it, and stands in its place.
//! C32: every address and network has one printed spelling.
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use crate::Tasks;
use std::process::{Command, Stdio};
use std::sync::Arc;

/// A malformed network and what its message has to contain.
#[derive(Clone, Debug)]
struct Fault {
    spec: String,
    words: Vec<String>,
    /// texts that are repeated literally, in quotation marks
    quoted: Vec<String>,
}
fn fault(spec: String, words: &[String], quoted: &[&str]) -> Fault {
    Fault { spec, words: words.to_vec(), quoted: quoted.iter().map(|x| x.to_string()).collect() }
}
fn debug(x: &str) -> String {
    format!("{x:?}")
}
fn has_word(text: &str, w: &str) -> bool {
    text.split(|c: char| !c.is_ascii_alphanumeric()).any(|x| x == w)
}

fn unrecognized() -> Vec<String> {
    let mut v: Vec<String> = [
        "nonsense", "x", "1.2.3.4", "10", "fe80::1", "::", "/", "/24", "10.0.0.0/", "10.0.0.0/-", "10.0.0/8", "10.0.0.0.0/8", "10.0.0.0/8/8", "10.0.0.0//8", "10.0.0.0/--8", " 10.0.0.0/8", "10.0.0.0/8 ", "10.0.0.0 /8", "10.0.0.0/ 8",
        "1.2.3.4/ffff::", "1.2.3.4/255.255", "1.2.3.4/255.255.255", "1.2.3.4/255.255.255.0.0", "::1/", "::1/-", "::1/255.0.0.0", "::1/x", "g::/64", "::g/64", "::1.2.3.4/96", "1.2.3.x/8", "1.2.-3.4/8", "1.2.+3.4/8", "1..3.4/8", ".1.2.3.4/8",
        "1.2.3.4./8", "1.2.3.4/8.", "0x1.2.3.4/8", "1.2.3.4/0x8", "1.2.3.4/8x", "1.2.3.4/+8", "::/+64", "fe80::1%eth0/64", "[::1]/64", "10.0.0.0\\8", "10.0.0.0/8,", "10.0.0.0-10.0.0.9", "\u{661}.2.3.4/8", "1.2.3.4/\u{661}", "::\u{ff11}/64", "é/8", "1.2.3.4/8\u{a0}",
        "\"", "'", "\\", "a\"b", "{}", "{0}", "%s", "%n", "10.0.0.0/24\t", "a\nb", "\u{1b}[31m", "\u{7f}", "\u{200b}",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    v.push("x".repeat(300));
    v.push("1".repeat(5000));
    v
}

fn faults(th: bool) -> Vec<Fault> {
    let mut v = vec![];
    for x in unrecognized() {
        v.push(fault(x.clone(), &[], &[&x]));
    }
    // octets out of range, in the address, the mask and the wildcard
    let big: Vec<u64> = if th { (256..1100).chain([9999, 65535, 65536, 1 << 24, u32::MAX as u64]).collect() } else { vec![256, 257, 299, 300, 511, 512, 999, 1000, 65536, u32::MAX as u64] };
    for at in 0..4usize {
        for n in &big {
            let t: Vec<String> = (0..4).map(|i| if i == at { n.to_string() } else { ["7", "0", "255", "128"][i].to_string() }).collect();
            let t = t.join(".");
            let w = [at.to_string(), n.to_string()];
            v.push(fault(format!("{t}/24"), &w, &[]));
            v.push(fault(format!("{t}/255.255.0.0"), &w, &[]));
            v.push(fault(format!("7.0.255.128/{t}"), &w, &[]));
            v.push(fault(format!("7.0.255.128/-{t}"), &w, &[]));
        }
        for n in ["4294967296", "99999999999999999999", "18446744073709551616"] {
            let t: Vec<String> = (0..4).map(|i| if i == at { n.to_string() } else { "9".to_string() }).collect();
            v.push(fault(format!("{}/8", t.join(".")), &[at.to_string()], &[n]));
        }
    }
    // prefixes and wildcard lengths out of range
    for (a, max) in [("10.1.2.3", 32u64), ("0.0.0.0", 32), ("2001:db8::7", 128), ("::", 128)] {
        let top = if th { 1200 } else { 300 };
        for n in (max + 1..top).chain([1000, 4096, 65535, 65536, 1 << 32, u64::MAX]) {
            for sign in ["", "-"] {
                v.push(fault(format!("{a}/{sign}{n}"), &[n.to_string(), max.to_string()], &[]));
            }
        }
    }
    // groups that are too large
    for at in 0..8usize {
        for g in ["10000", "fffff", "12345678", "00000010000", "FFFFF"] {
            let t: Vec<String> = (0..8).map(|i| if i == at { g.to_string() } else { (i + 1).to_string() }).collect();
            let t = t.join(":");
            let w = [at.to_string()];
            v.push(fault(format!("{t}/64"), &w, &[g]));
            v.push(fault(format!("1::2/{t}"), &w, &[g]));
            v.push(fault(format!("1::2/-{t}"), &w, &[g]));
            // counted from the left although groups are left out
            let short = if at < 4 {
                format!("{}{g}::", "5:".repeat(at))
            } else {
                format!("::{g}{}", ":5".repeat(7 - at))
            };
            v.push(fault(format!("{short}/64"), &w, &[g]));
        }
    }
    // the wrong number of groups
    for n in (2..8usize).chain(9..20) {
        let t = vec!["1"; n].join(":");
        v.push(fault(format!("{t}/64"), &[n.to_string(), "8".into()], &[]));
        v.push(fault(format!("::/{t}"), &[n.to_string(), "8".into()], &[]));
    }
    for x in ["::1::/64", "1::2::3/64", "::/::1::", ":::/64", ":1:2:3:4:5:6:7/64", "1:2:3:4:5:6:7:/64", ":/8", "1:/8", "::/:", "::/-:1"] {
        v.push(fault(x.into(), &[], &[]));
    }
    v
}

const GOOD: [&[&str]; 2] = [&["10.0.0.0/30", "192.168.2.5/255.255.255.254", "255.255.255.255/32"], &["fe80::1/127", "::/-::1", "2001:db8::/128"]];

/// The message of one malformed network in every mode: it repeats the network or says what is wrong with it,
/// with the same reason everywhere.
fn named(f: &Fault, o: &[Out]) -> Verdict {
    for x in o {
        if x.status == 0 || x.status == PANIC || x.status < 0 || !x.err.ends_with('\n') {
            return Err(format!("{:?} leads to status {} and the message {:?}", f.spec, status_text(x.status), clip(&x.err, 200)));
        }
    }
    let reason = o[0].err.trim_end_matches('\n');
    for w in &f.words {
        if !has_word(reason, w) {
            return Err(format!("the message about {:?} does not say {w}", f.spec));
        }
    }
    for q in &f.quoted {
        if !reason.contains(&debug(q)) {
            return Err(format!("the message about {:?} does not repeat {q:?}", f.spec));
        }
    }
    for (i, x) in o.iter().enumerate() {
        if !x.err.contains(reason) {
            return Err(format!("the modes give different reasons: {:?}, but {:?}", clip(reason, 200), clip(&x.err, 200)));
        }
        if x.err.lines().count() != 1 {
            return Err(format!("{} lines about one malformed network", x.err.lines().count()));
        }
        // --enumerate, --resize and --split say which argument it is
        if i >= 2 && !x.err.contains(&debug(&f.spec)) {
            return Err(format!("the message does not repeat the malformed network {:?}", f.spec));
        }
    }
    Ok(o.len() as u64)
}

/// Standard output and standard error go the same way.
fn together(r: &mut Runner, a: &Args, pipe: bool) -> Option<(i32, String)> {
    r.st.execs += 1;
    let mut c = Command::new(r.sh.bin.join("ripcalc"));
    c.env_clear().env("PATH", "/usr/bin:/bin").env("RUST_BACKTRACE", "0").args(a).stdin(Stdio::null());
    if pipe {
        // the shell makes them one pipe
        let mut s = Command::new("/bin/sh");
        s.env_clear().env("PATH", "/usr/bin:/bin").env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        s.arg("-c").arg("exec \"$0\" \"$@\" 2>&1").arg(r.sh.bin.join("ripcalc")).args(a);
        let mut child = s.spawn().ok()?;
        r.limit(&child, TIMEOUT);
        let text = read_all(child.stdout.take()?);
        return Some((r.wait(&mut child, TIMEOUT), text));
    }
    let (path, f) = r.file("both");
    c.stdout(Stdio::from(f.try_clone().ok()?)).stderr(Stdio::from(f.try_clone().ok()?));
    let mut child = c.spawn().ok()?;
    let st = r.wait(&mut child, TIMEOUT);
    let text = std::fs::read(&path).ok()?;
    let _ = std::fs::remove_file(path);
    Some((st, String::from_utf8_lossy(&text).into_owned()))
}

pub fn c31(t: &mut Tasks) {
    let th = t.thorough;
    // one malformed network, alone and among others, in every mode
    let all: Arc<Vec<Fault>> = Arc::new(faults(th));
    let parts = 24;
    for part in 0..parts {
        let all = all.clone();
        t.add(format!("malformed networks, part {part}"), move |r| {
            for f in all.iter().skip(part).step_by(parts) {
                let x = f.spec.as_str();
                let v6 = x.contains(':');
                let g = GOOD[v6 as usize];
                let mut runs = vec![];
                // an empty or dashed first argument would be something else
                if !x.starts_with('-') {
                    runs.push(args(&[x]));
                    runs.push(args(&["-m", x]));
                    runs.push(args(&["-e", x]));
                    runs.push(args(&["-r", x, "24"]));
                    runs.push(args(&["-s", x, "5"]));
                    runs.push(args(&["-s", x, "5", "0", "70000"]));
                    runs.push(args(&["-r", x, if v6 { "ffff::" } else { "255.0.0.0" }]));
                    let h = f.clone();
                    r.check_many(runs, move |o| named(&h, o));
                }
                for m in [None, Some("-m"), Some("-e")] {
                    let with = |l: &[&str]| -> Args { m.iter().chain(l.iter()).map(|x| x.to_string()).collect() };
                    let runs = vec![with(&[x]), with(&[g[0], x]), with(&[g[1], g[0], x, g[2]]), with(&[x, g[1], "nonsense"]), with(&["nonsense"])];
                    if m.is_none() && x.starts_with('-') {
                        continue;
                    }
                    r.check_many(runs, move |o| {
                        for k in 1..4 {
                            let want = if k == 3 && m == Some("-e") { format!("{}{}", o[0].err, o[4].err) } else { o[0].err.clone() };
                            if o[k].err != want {
                                return Err(format!("with other arguments the message is {:?}, not {:?}", clip(&o[k].err, 200), clip(&want, 200)));
                            }
                        }
                        Ok(5)
                    });
                }
            }
        });
    }
    t.bound(format!("{} malformed networks: not of the shape of one, every octet and group out of range, prefixes and wildcard lengths out of range up to {}, wrong numbers of groups; in every mode, alone and among valid and other malformed ones", all.len(), if th { 1200 } else { 300 }));
    // two faults in one network
    t.add("two faults in one network", |r| {
        for i in 0..4usize {
            for j in i + 1..4 {
                for (m, n) in [(256, 300), (300, 256), (999, 999)] {
                    let one: Vec<String> = (0..4).map(|k| if k == i { m.to_string() } else { "1".into() }).collect();
                    let two: Vec<String> = (0..4).map(|k| if k == i { m.to_string() } else if k == j { n.to_string() } else { "1".into() }).collect();
                    for rest in ["8", "255.0.0.0", "-0.0.0.255", "33", "255.255.255.256"] {
                        let runs = vec![vec![format!("{}/24", one.join("."))], vec![format!("{}/{rest}", two.join("."))], vec![format!("{}/{rest}", one.join("."))]];
                        r.check_many(runs, first_of);
                    }
                    r.check_many(vec![vec![format!("1.1.1.1/{}", one.join("."))], vec![format!("1.1.1.1/{}", two.join("."))]], first_of);
                    for back in [false, true] {
                        let d = |x: &str| if back { args(&["-d", "1.1.1.1", x]) } else { args(&["-d", x, "1.1.1.1"]) };
                        r.check_many(vec![d(&one.join(".")), d(&two.join("."))], first_of);
                    }
                }
            }
        }
        for i in 0..8usize {
            for j in i + 1..8 {
                let one: Vec<String> = (0..8).map(|k| if k == i { "10000".into() } else { "1".to_string() }).collect();
                let two: Vec<String> = (0..8).map(|k| if k == i { "10000".into() } else if k == j { "fffff".into() } else { "1".to_string() }).collect();
                for rest in ["64", "ffff::", "-::ff", "129", "::12345"] {
                    r.check_many(vec![vec![format!("{}/24", one.join(":"))], vec![format!("{}/{rest}", two.join(":"))], vec![format!("{}/{rest}", one.join(":"))]], first_of);
                }
                r.check_many(vec![vec![format!("::/{}", one.join(":"))], vec![format!("::/{}", two.join(":"))]], first_of);
            }
        }
    });
    t.bound("every two octets or groups out of range, and address and mask or prefix at once: the message is that about the first");
    // ranges: which of the two, and what is wrong with it
    t.add("malformed ends of ranges", |r| {
        let mut ends: Vec<(String, Vec<String>, Vec<String>)> = vec![];
        for at in 0..4usize {
            for x in ["x", "-3", "0x1", "4294967296", " 1", "1 ", "+5"] {
                let t: Vec<String> = (0..4).map(|i| if i == at { x.to_string() } else { "9".into() }).collect();
                ends.push((t.join("."), vec![at.to_string()], vec![x.into()]));
            }
            for n in [256u32, 300, 999, u32::MAX] {
                let t: Vec<String> = (0..4).map(|i| if i == at { n.to_string() } else { "9".into() }).collect();
                ends.push((t.join("."), vec![at.to_string(), n.to_string()], vec![]));
            }
            let t: Vec<String> = (0..4).map(|i| if i == at { String::new() } else { "9".into() }).collect();
            ends.push((t.join("."), vec![at.to_string()], vec![]));
        }
        for n in [2usize, 3, 5, 6, 7, 20, 100] {
            ends.push((vec!["1"; n].join("."), vec![n.to_string(), "4".into()], vec![]));
        }
        for n in [2usize, 3, 4, 5, 6, 7, 9, 10, 11, 20, 100] {
            ends.push((vec!["1"; n].join(":"), vec![n.to_string(), "8".into()], vec![]));
        }
        for at in 0..8usize {
            for x in ["g", "-1", "0x1", "10000", "fffff", " 1", "+1", "x"] {
                let t: Vec<String> = (0..8).map(|i| if i == at { x.to_string() } else { "9".into() }).collect();
                ends.push((t.join(":"), vec![at.to_string()], vec![x.into()]));
                let s = if at < 4 { format!("{}{x}::", "5:".repeat(at)) } else { format!("::{x}{}", ":5".repeat(7 - at)) };
                ends.push((s, vec![at.to_string()], vec![x.into()]));
            }
        }
        for x in ["", "x", "10", "1.2:3", "::1.2.3.4", "1::2::3", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7:"] {
            ends.push((x.into(), vec![], vec![]));
        }
        for (x, words, quoted) in &ends {
            let good = if x.contains(':') { "::1" } else { "10.0.0.1" };
            let (x, words, quoted) = (x.clone(), words.clone(), quoted.clone());
            let runs = vec![args(&["-d", &x, good]), args(&["-d", good, &x]), args(&["-d", &x, "nonsense"]), args(&["-d", &x, if good == "::1" { "10.0.0.1" } else { "::1" }]), args(&["-d", "nonsense", &x]), args(&["-d", "nonsense", good])];
            r.check_many(runs, move |o| {
                if o.iter().any(|y| y.status == 0 || y.status == PANIC || y.status < 0 || y.err.lines().count() != 1) {
                    return Err("no refusal with a message of one line".into());
                }
                if !has_word(&o[0].err, "first") || has_word(&o[0].err, "second") || !has_word(&o[1].err, "second") || has_word(&o[1].err, "first") {
                    return Err("the message does not say which of the addresses is malformed".into());
                }
                if o[0].err.replace("first", "second") != o[1].err {
                    return Err("the reason differs with the place of the malformed address".into());
                }
                if o[2].err != o[0].err || o[3].err != o[0].err || o[4].err != o[5].err {
                    return Err("two faults, and the message is not about the first".into());
                }
                for w in &words {
                    if !has_word(&o[0].err, w) {
                        return Err(format!("the message about {x:?} does not say {w}"));
                    }
                }
                for q in &quoted {
                    if !o[0].err.contains(&debug(q)) {
                        return Err(format!("the message about {x:?} does not repeat {q:?}"));
                    }
                }
                Ok(6)
            });
        }
    });
    t.bound("malformed ends of ranges, every octet and group of them, as the first, the second and before another malformed one");
    // targets of --resize and host counts
    t.add("targets and host counts", |r| {
        for (net, max, other) in [("10.0.0.0/24", 32u32, "::/64"), ("2001:db8::/64", 128, "10.0.0.0/24")] {
            let v4 = max == 32;
            let mut targets: Vec<(String, Vec<String>, bool)> = (max + 1..300).chain([1000, 65536]).map(|n| (n.to_string(), vec![n.to_string(), max.to_string()], false)).collect();
            for x in ["", "x", "-", "-x", "2 4", "24x", "0x18", "1e1", "/24", "99999999999999999999", "--24", "255.255", "255.255.255.256", "-0.0.0.256", "1:2", "::12345", "-::12345", "1::2::3", "24/24", "\u{662}"] {
                targets.push((x.into(), vec![], true));
            }
            for (x, words, quote) in targets {
                let runs = vec![args(&["-r", net, &x]), args(&["-r", "nonsense", &x]), args(&["-r", "nonsense", "24"])];
                r.check_many(runs, move |o| {
                    if o.iter().any(|y| y.status == 0 || y.status == PANIC || y.status < 0 || y.err.lines().count() != 1) {
                        return Err("no refusal with a message of one line".into());
                    }
                    if o[1].err != o[2].err {
                        return Err("network and target are malformed, and the message is not about the network".into());
                    }
                    if words.iter().any(|w| !has_word(&o[0].err, w)) || quote && !o[0].err.contains(&debug(&x)) {
                        return Err(format!("the message {:?} does not name the target {x:?} and what is wrong with it", clip(&o[0].err, 200)));
                    }
                    Ok(3)
                });
            }
            // masks of the other family: each of them, and as a wildcard, alike
            let masks: &[&str] = if v4 { &["ffff::", "::", "-::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"] } else { &["255.0.0.0", "0.0.0.0", "-0.0.0.1", "255.255.255.255"] };
            r.check_many(masks.iter().map(|m| args(&["-r", net, m])).collect(), |o| {
                if o.iter().any(|y| y.status == 0 || y.err != o[0].err || !has_word(&y.err, "IPv4") || !has_word(&y.err, "IPv6")) {
                    return Err("a mask of the other family is not called one".into());
                }
                Ok(4)
            });
            // counts: the first malformed one, and before the network
            let bad = ["", "x", "-1", "-70000", "1.5", "1e3", "0x10", " 5", "5 ", "5,", "\u{665}", "--5", "+", "-", "99999999999999999999999999999999999999999999999999x"];
            for (i, x) in bad.iter().enumerate() {
                for y in bad.iter().skip(i % 3).step_by(3) {
                    let x = x.to_string();
                    let runs = vec![args(&["-s", net, &x]), args(&["-s", net, "5", &x]), args(&["-s", net, "5", "0", &x, "7", y, "3"]), args(&["-s", other, &x, y]), args(&["-s", "nonsense", &x]), args(&["-s", "nonsense", "1", &x, y])];
                    r.check_many(runs, move |o| {
                        if o.iter().any(|z| z.status == 0 || z.status == PANIC || z.status < 0 || z.err != o[0].err || z.err.lines().count() != 1) {
                            return Err("the message is not that about the first malformed count".into());
                        }
                        if !(x.starts_with('-') && x.len() > 1 && x[1..].bytes().all(|b| b.is_ascii_digit())) && !o[0].err.contains(&debug(&x)) {
                            return Err(format!("the message does not repeat the malformed count {x:?}"));
                        }
                        Ok(6)
                    });
                }
            }
        }
        // many counts, one or two of them malformed
        for n in [2usize, 10, 33, 70, 130, 300] {
            for at in [0, 1, n / 2, n - 1] {
                let a: Args = args(&["-s", "10.0.0.0/8"]).into_iter().chain((0..n).map(|i| if i == at { "bad".to_string() } else if i > at && i % 3 == 0 { "worse".into() } else { "2".into() })).collect();
                r.check_many(vec![a, args(&["-s", "10.0.0.0/8", "bad"])], first_of);
            }
        }
    });
    t.bound("targets of --resize: prefixes up to 299, 20 malformed ones and masks of the other family; 15 malformed host counts, before each other, among up to 300 and with a malformed network");
    // sequences of valid and malformed networks of both families
    let words: Vec<&'static str> = vec!["10.0.0.0/30", "0.0.0.0/32", "fe80::/127", "::9/128", "nonsense", "1.2.3.4/33", "::1::/64", "1.2.3.256/8"];
    let len = if th { 6 } else { 5 };
    for first in 0..words.len() {
        let words = words.clone();
        t.add(format!("messages of sequences starting with {:?}", words[first]), move |r| {
            for s in sequences(words.len(), len - 1) {
                let mut idx = vec![first];
                idx.extend(&s);
                let Some(bad) = idx.iter().position(|i| *i >= 4) else { continue };
                let l: Vec<String> = idx.iter().map(|i| words[*i].to_string()).collect();
                let with = |m: &str, l: &[String]| -> Args { std::iter::once(m.to_string()).chain(l.iter().cloned()).collect() };
                r.check_many(vec![l.clone(), vec![l[bad].clone()]], first_of);
                // a change of family before the malformed one is the first fault
                let fam = |i: usize| i / 2;
                let mixed = (1..bad).find(|k| fam(idx[*k]) != fam(idx[0]));
                match mixed {
                    Some(_) => r.check_many(vec![with("-m", &l), args(&["-m", "10.0.0.0/30", "::/64"])], first_of),
                    None => r.check_many(vec![with("-m", &l), args(&["-m", &l[bad]])], first_of),
                }
                let mut runs = vec![with("-e", &l)];
                runs.extend(l.iter().filter(|x| words[4..].contains(&x.as_str())).map(|x| args(&["-e", x])));
                r.check_many(runs, |o| {
                    let want: String = o[1..].iter().map(|x| x.err.as_str()).collect();
                    if o[0].err == want {
                        Ok(o.len() as u64)
                    } else {
                        Err("the messages are not those about each malformed network in their order".into())
                    }
                });
            }
        });
    }
    t.bound(format!("sequences of up to {len} out of 8 networks of which 4 are malformed: default, --minimize and --enumerate"));
    for n in [20usize, 65, 130, 300, 1030] {
        t.add(format!("messages among {n} arguments"), move |r| {
            for fam in [0usize, 1] {
                let g = GOOD[fam];
                for (i, j) in [(0, 1), (0, n - 1), (n / 2, n / 2 + 1), (n / 3, n - 2), (n - 2, n - 1)] {
                    let l: Vec<String> = (0..n).map(|k| if k == i { "bad".into() } else if k == j { "1.2.3.4/33".into() } else { g[k % 3].to_string() }).collect();
                    r.check_many(vec![l.clone(), args(&["bad"])], first_of);
                    r.check_many(vec![std::iter::once("-m".to_string()).chain(l.clone()).collect(), args(&["-m", "bad"])], first_of);
                    r.check_many(vec![std::iter::once("-e".to_string()).chain(l.clone()).collect(), args(&["-e", "bad"]), args(&["-e", "1.2.3.4/33"])], |o| {
                        if o[0].err == format!("{}{}", o[1].err, o[2].err) { Ok(3) } else { Err("the messages are not those about each malformed network in their order".into()) }
                    });
                }
            }
            let l: Vec<String> = (0..n).map(|k| format!("bad{k}")).collect();
            r.check(std::iter::once("-e".to_string()).chain(l.clone()).collect(), move |o| {
                let lines = o.lines();
                if lines.len() != 0 || o.err.lines().count() != l.len() {
                    return Err(format!("{} messages about {} malformed networks", o.err.lines().count(), l.len()));
                }
                for (x, m) in l.iter().zip(o.err.lines()) {
                    if !m.contains(&debug(x)) {
                        return Err(format!("message {m:?} in the place of that about {x:?}"));
                    }
                }
                Ok(l.len() as u64)
            });
        });
    }
    t.bound("20 to 1030 networks, two of them malformed, and all of them");
    // where the message stands if both streams go the same way
    let words: Vec<&'static str> = vec!["10.0.0.0/30", "fe80::/127", "nonsense", "1.2.3.4/33", "10.0.0.0/20"];
    let len = if th { 5 } else { 4 };
    for first in 0..words.len() {
        let words = words.clone();
        t.add(format!("one stream, sequences starting with {:?}", words[first]), move |r| {
            let single: Vec<Out> = words.iter().map(|w| r.run(&args(&["-e", w]))).collect();
            for s in sequences(words.len(), len - 1) {
                let mut idx = vec![first];
                idx.extend(&s);
                let a: Args = std::iter::once("-e".to_string()).chain(idx.iter().map(|i| words[*i].to_string())).collect();
                let want: String = idx.iter().map(|i| if single[*i].err.is_empty() { single[*i].out.as_str() } else { single[*i].err.as_str() }).collect();
                for pipe in [false, true] {
                    let Some((st, text)) = together(r, &a, pipe) else {
                        r.note("a process could not be started".into());
                        continue;
                    };
                    r.book(hash_of(&(&a, pipe)), 1);
                    if text != want {
                        let o = Out { status: st, out: clip(&text, 2000), err: String::new() };
                        let cmd = show_runs(&[(Env::Plain, a.clone())]);
                        r.violation("the messages do not stand in their place among the results".into(), vec![(Env::Plain, a)], vec![o], format!("$ {cmd} 2>&1{}", if pipe { " | cat" } else { "" }));
                        return;
                    }
                }
            }
        });
    }
    t.bound(format!("--enumerate with both streams in one file and in one pipe: sequences of up to {len} out of 5 networks, two of them malformed, one of 4096 addresses"));
}

/// The first two (or more) messages are the same.
fn first_of(o: &[Out]) -> Verdict {
    for x in o {
        if x.status == 0 || x.status == PANIC || x.status < 0 || x.err.lines().count() != 1 {
            return Err(format!("status {} and the message {:?} for malformed arguments", status_text(x.status), clip(&x.err, 200)));
        }
        if x.err != o[0].err {
            return Err(format!("the message is {:?}, while that about the first fault is {:?}", clip(&o[0].err, 200), clip(&x.err, 200)));
        }
    }
    Ok(o.len() as u64)
}

// ---------------------------------------------------------------------------------------------

/// The one spelling in which an address is printed.
pub fn spelling(fam: Fam, a: u128) -> String {
    if fam == V4 {
        return fam.fmt(a);
    }
    let g: Vec<u16> = (0..8).map(|i| (a >> (112 - 16 * i)) as u16).collect();
    let (mut best, mut len) = (8, 0);
    let mut i = 0;
    while i < 8 {
        let n = g[i..].iter().take_while(|x| **x == 0).count();
        if n > len {
            (best, len) = (i, n);
        }
        i += n.max(1);
    }
    let hex = |s: &[u16]| s.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(":");
    if len == 0 {
        hex(&g)
    } else {
        format!("{}::{}", hex(&g[..best]), hex(&g[best + len..]))
    }
}
fn network_spelling(n: &Net) -> String {
    match n.prefix() {
        Some(p) => format!("{}/{p}", spelling(n.fam, n.base)),
        None => format!("{}/{}", spelling(n.fam, n.base), spelling(n.fam, n.mask)),
    }
}

/// Every address and network in the output is spelt the one way.
fn spelt(o: &Out) -> Verdict {
    let mut n = 0;
    for t in o.out.split_whitespace() {
        if t.len() > 34 && t.bytes().all(|b| matches!(b, b'0' | b'1' | b'.' | b':')) {
            continue; // binary
        }
        if t.ends_with(':') && !t.ends_with("::") {
            continue; // a label
        }
        if t.contains('/') && t != "Hosts/Net:" && t != "hosts/net" {
            let net = parse_net(t).map_err(|e| format!("{t:?} is no network: {e}"))?;
            if network_spelling(&net) != t {
                return Err(format!("the network is spelt {t:?}, not {:?}", network_spelling(&net)));
            }
            n += 1;
        } else if t.contains(':') || t.matches('.').count() == 3 {
            let (fam, a) = parse_any(t).ok_or(format!("{t:?} is no address"))?;
            if spelling(fam, a) != t {
                return Err(format!("the address is spelt {t:?}, not {:?}", spelling(fam, a)));
            }
            n += 1;
        }
    }
    if n == 0 && o.status == 0 {
        return Err("no address is printed".into());
    }
    Ok(n)
}

/// Addresses, many at a time.
fn printed(r: &mut Runner, fam: Fam, list: &[u128]) {
    for l in list.chunks(60) {
        let l = l.to_vec();
        let a: Args = std::iter::once("-e".to_string()).chain(l.iter().map(|a| format!("{}/{}", fam.fmt(*a), fam.w()))).collect();
        r.check(a, move |o| {
            let lines = o.lines();
            if o.status != 0 || lines.len() != l.len() {
                return Err(format!("status {}, {} lines for {} addresses", status_text(o.status), lines.len(), l.len()));
            }
            for (a, x) in l.iter().zip(lines) {
                if spelling(fam, *a) != *x {
                    return Err(format!("the address {} is printed as {x:?}, not {:?}", fam.fmt(*a), spelling(fam, *a)));
                }
            }
            Ok(l.len() as u64)
        });
    }
}

pub fn c32(t: &mut Tasks) {
    let th = t.thorough;
    // every octet and every pair of octets
    for hi in 0..16u128 {
        t.add(format!("octets {hi}"), move |r| {
            let mut v = vec![];
            for x in hi * 16..hi * 16 + 16 {
                for y in 0..256u128 {
                    for (i, j) in if th { vec![(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)] } else { vec![(0, 1), (2, 3), (1, 2)] } {
                        v.push(x << (24 - 8 * i) | y << (24 - 8 * j) | if (x ^ y) & 1 == 0 { 0 } else { 0x0a0a_0a0a & !(0xff << (24 - 8 * i)) & !(0xff << (24 - 8 * j)) });
                    }
                }
            }
            printed(r, V4, &v);
        });
    }
    t.bound("IPv4: every pair of octet values in neighbouring places (thorough: all places), the rest zero or ten");
    // every value of every group
    for at in 0..8u32 {
        for bg in 0..if th { 4usize } else { 2 } {
            t.add(format!("group {at}, background {bg}"), move |r| {
                let b = [0, 0x2001_0db8_0000_0000_0000_00ff_fe12_0456, u128::MAX, 0x0001_0000_0000_0001_0000_0000_0001_0001][bg];
                let v: Vec<u128> = window(V6, 16 * at, 16, b).collect();
                printed(r, V6, &v);
            });
        }
    }
    t.bound("IPv6: every value of every group on several backgrounds");
    // every pattern of kinds of groups
    let kinds: Vec<u128> = if th { vec![0, 1, 0x10, 0xabc, 0x0c0d, 0xffff] } else { vec![0, 1, 0x10, 0xabc, 0xffff] };
    let k = kinds.len();
    for a in 0..k * k {
        let kinds = kinds.clone();
        t.add(format!("patterns of groups, part {a}"), move |r| {
            let mut v = vec![];
            for mut n in 0..k.pow(6) {
                let mut x = kinds[a / k] << 112 | kinds[a % k] << 96;
                for i in 0..6 {
                    x |= kinds[n % k] << (16 * i);
                    n /= k;
                }
                v.push(x);
            }
            printed(r, V6, &v);
        });
    }
    t.bound(format!("IPv6: every sequence of eight groups out of {kinds:x?}"));
    // networks and addresses in all modes
    for fam in FAMS {
        let w = fam.w();
        let mut addrs = backgrounds(fam);
        addrs.extend(place_addrs(fam).into_iter().step_by(if th { 1 } else { 7 }));
        if fam == V6 {
            for z in 0..256u32 {
                addrs.push((0..8).fold(0, |x, i| x | if z >> i & 1 == 1 { 0 } else { (0xa0 + i as u128) << (16 * i) }));
            }
        }
        for (i, c) in addrs.chunks(16).enumerate() {
            let c = c.to_vec();
            t.add(format!("{fam:?} in all modes, part {i}"), move |r| {
                for a in c {
                    for p in (0..=w).filter(|p| th || w == 32 || p % 8 == 0 || *p > 124 || p % 11 == 0) {
                        let m = fam.prefix_mask(p);
                        let s = format!("{}/{p}", fam.fmt(a));
                        r.check(vec![s.clone()], spelt);
                        r.check(vec!["-m".into(), s.clone(), format!("{}/{}", fam.fmt(a ^ deposit(1, m)), fam.fmt(m))], spelt);
                        r.check(vec!["-r".into(), s.clone(), (p + 2).min(w).to_string()], spelt);
                        r.check(vec!["-r".into(), s.clone(), p.saturating_sub(3).to_string()], spelt);
                        if w - p > 3 {
                            r.check(vec!["-s".into(), s.clone(), "5".into(), "1".into()], spelt);
                        }
                        if w - p < 6 {
                            r.check(vec!["-e".into(), s.clone()], spelt);
                        }
                        r.check(vec!["-d".into(), fam.fmt(a), fam.fmt(a ^ !m & fam.full())], spelt);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: {} addresses with {} prefixes in all modes", addrs.len(), if th || w == 32 { "all" } else { "selected" }));
        let mut masks = sparse_wildcards(fam, if th || fam == V4 { 2 } else { 1 });
        masks.extend(masks.clone().into_iter().map(|m| !m & fam.full()));
        masks.extend(block_masks(fam));
        let masks = Arc::new(masks);
        for part in 0..8 {
            let masks = masks.clone();
            t.add(format!("{fam:?} lopsided networks, part {part}"), move |r| {
                for m in masks.iter().skip(part).step_by(8) {
                    for bg in backgrounds(fam).into_iter().skip(if th { 0 } else { 2 }) {
                        r.check(vec![spec(fam, bg, *m)], spelt);
                        r.check(vec!["-m".into(), format!("{}/{}", fam.fmt(bg), fam.fmt(*m))], spelt);
                        r.check(vec!["-m".into(), format!("{}/-{}", fam.fmt(bg), fam.fmt(!*m & fam.full())), format!("{}/{}", fam.fmt(bg ^ deposit(1, *m)), fam.fmt(*m))], spelt);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: {} lopsided masks (few host bits, few network bits, block patterns)", masks.len()));
    }
}
