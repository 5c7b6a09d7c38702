//! C16: every invocation ends by itself with a result or with a message, never with a crash.
use super::addrtext::{class_netspec, Class};
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use crate::Tasks;

/// Is the output of this invocation too long to be worth reading here?
pub fn huge(a: &[String]) -> bool {
    let bits = |s: &String| match class_netspec(s) {
        Class::Valid((f, x, m)) => Some((f, Net::new(f, x, m))),
        _ => None,
    };
    match a.first().map(|s| s.as_str()) {
        Some("-e") | Some("--enumerate") => a[1..].iter().any(|s| match class_netspec(s) {
            Class::Valid((f, x, m)) => Net::new(f, x, m).host_bits() > 8,
            Class::Open => true,
            Class::Invalid => false,
        }),
        Some("-r") | Some("--resize") if a.len() == 3 => match bits(&a[1]) {
            None => class_netspec(&a[1]) == Class::Open,
            Some((f, n)) => match class_netspec(&format!("{}/{}", f.fmt(0), a[2])) {
                Class::Valid((_, _, m)) => (m & !n.mask).count_ones() > 6,
                Class::Open => true,
                Class::Invalid => false,
            },
        },
        _ => false,
    }
}

pub fn judge(a: &[String], o: &Out) -> Verdict {
    match o.status {
        PANIC => return Err("it panicked".into()),
        SIGNALLED => return Err("it was killed by a signal".into()),
        TIMED_OUT => return Err(format!("it did not end within {} s", TIMEOUT.as_secs())),
        0 | 1 => {},
        n => return Err(format!("exit status {n}, which is neither 0 (a result) nor 1 (a failure)")),
    }
    if o.err.contains("panicked at") {
        return Err("it panicked".into());
    }
    if !o.out.is_empty() && !o.out.ends_with('\n') {
        return Err("the last line of standard output is not terminated".into());
    }
    if !o.err.is_empty() && !o.err.ends_with('\n') {
        return Err("the last line of standard error is not terminated".into());
    }
    if o.out.bytes().any(|b| (b < 32 && b != b'\n') || b == 127) {
        return Err("control characters on standard output".into());
    }
    let help = a.first().map(|s| s == "--help").unwrap_or(false);
    if o.status == 1 && o.err.is_empty() && o.out.is_empty() {
        return Err("a failure without any message".into());
    }
    if o.status == 0 && !help && (!o.err.is_empty() || o.out.is_empty()) {
        return Err("success, but without a result or with a message on standard error".into());
    }
    Ok(1)
}

fn case(r: &mut Runner, a: Args) {
    if huge(&a) {
        r.bump("left_out_because_of_long_output", 1);
        return;
    }
    let b = a.clone();
    r.check(a, move |o| judge(&b, o));
}

pub const MODES: &[&str] = &["-m", "-d", "-s", "-r", "-e"];

/// Options, addresses, networks, numbers and malformed text.
pub fn words() -> Vec<&'static str> {
    vec![
        "-m", "-d", "-s", "-r", "-e", "--help", "--split", "10.0.0.1", "255.255.255.255", "0.0.0.0", "fe80::1", "::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "10.0.0.0/24", "10.0.0.1/32", "255.255.255.255/32", "0.0.0.0/0", "255.255.255.255/0",
        "10.0.0.0/255.0.255.0", "10.0.0.0/255.255.255.127", "10.0.0.0/-0.0.0.7", "10.0.0.0/-255.255.255.255", "::/0", "::1/128", "fe80::1/ffff::fffe", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/127", "0", "1", "26", "32", "128", "129", "254", "4294967294", "4294967295",
        "340282366920938463463374607431768211456", "-1", "-0.0.0.255", "255.255.255.192", "x", "", "/", "-", "10.0.0.0/33", "1.2.3/8",
    ]
}

pub fn c16(t: &mut Tasks) {
    let th = t.thorough;
    // sequences of words
    let words = words();
    let n = words.len();
    let mentioned = crate::dict::get().words();
    for (i, c) in mentioned.chunks(60).enumerate() {
        let (c, words) = (c.to_vec(), words.clone());
        t.add(format!("words of the sources {i}"), move |r| {
            for w in c {
                case(r, vec![w.clone()]);
                for x in &words {
                    case(r, vec![w.clone(), x.to_string()]);
                    case(r, vec![x.to_string(), w.clone()]);
                    if MODES.contains(x) {
                        for y in &words {
                            case(r, vec![x.to_string(), w.clone(), y.to_string()]);
                            case(r, vec![x.to_string(), y.to_string(), w.clone()]);
                        }
                    }
                }
            }
        });
    }
    t.bound(format!("{} words and characters in the literals of the sources, before and after each of these words and, behind an option for a mode, with each of them", mentioned.len()));
    for first in 0..n {
        let words = words.clone();
        t.add(format!("words starting with {:?}", words[first]), move |r| {
            let mode = MODES.contains(&words[first]);
            let len = match (mode, th) {
                (true, true) => 4,
                (true, false) => 3,
                (false, true) => 3,
                (false, false) => 2,
            };
            for s in sequences(n, len) {
                let mut a = vec![words[first].to_string()];
                a.extend(s.iter().map(|i| words[*i].to_string()));
                case(r, a);
            }
        });
    }
    t.bound(format!("every sequence of up to 4 of {n} words starting with an option for a mode, and of up to 3 starting with anything else (thorough: one more)"));
    // short strings in every place where text is parsed
    let chars: Vec<char> = "012:./-fFx+ _é,٣".chars().collect();
    let len = if th { 5 } else { 4 };
    for first in 0..chars.len() {
        let chars = chars.clone();
        t.add(format!("strings starting with {:?}", chars[first]), move |r| {
            for s in sequences(chars.len(), len - 1) {
                let mut x = String::from(chars[first]);
                x.extend(s.iter().map(|i| chars[*i]));
                case(r, vec![x.clone()]);
                if x.chars().count() < len {
                    for m in MODES {
                        case(r, vec![m.to_string(), x.clone()]);
                        case(r, vec![m.to_string(), x.clone(), "10.0.0.9".into()]);
                        case(r, vec![m.to_string(), "10.0.0.9".into(), x.clone()]);
                    }
                    case(r, vec!["-s".into(), "10.0.0.0/24".into(), x.clone()]);
                    case(r, vec!["-s".into(), "ff::/24".into(), "1".into(), x.clone()]);
                    case(r, vec!["-r".into(), "10.0.0.0/24".into(), x.clone()]);
                    case(r, vec!["-r".into(), "ff::/24".into(), x.clone()]);
                    case(r, vec![format!("1.2.3.4/{x}")]);
                    case(r, vec![format!("1::2/{x}")]);
                    case(r, vec![format!("{x}/8")]);
                    case(r, vec![format!("1.2.3.{x}/8")]);
                    case(r, vec!["-m".into(), format!("1:2:3:4:5:6:{x}/8")]);
                    case(r, vec!["-e".into(), format!("::{x}/-::1")]);
                }
            }
        });
    }
    t.bound(format!("every string of up to {len} of {} characters as the only argument, and of one character less in 25 other places", chars.len()));
    // long text and many arguments
    t.add("long arguments", move |r| {
        for c in ["0", "1", "9", "a", ":", ".", "/", "-", "é", "0:", "1.", "::", "1/", "/-"] {
            for n in [10usize, 40, 100, 1000, 10_000, 60_000] {
                let x: String = c.repeat(n / c.len());
                for a in [
                    vec![x.clone()],
                    vec![format!("10.0.0.{x}/8")],
                    vec![format!("10.0.0.1/{x}")],
                    vec![format!("fe80::{x}/8")],
                    vec![format!("{x}fe80::1/8")],
                    vec![format!("fe80::1/{x}")],
                    vec!["-m".into(), x.clone(), "10.0.0.0/8".into()],
                    vec!["-d".into(), x.clone(), "10.0.0.0".into()],
                    vec!["-s".into(), "10.0.0.0/8".into(), x.clone()],
                    vec!["-s".into(), "fe80::/8".into(), x.clone()],
                    vec!["-s".into(), "fe80::/8".into(), format!("1{x}")],
                    vec!["-r".into(), "fe80::/8".into(), x.clone()],
                    vec!["-r".into(), "10.0.0.0/8".into(), format!("-{x}")],
                    vec!["-e".into(), x.clone(), "10.0.0.0/32".into()],
                ] {
                    if class_netspec(a.last().unwrap()) != Class::Open {
                        case(r, a);
                    }
                }
            }
        }
    });
    t.bound("arguments of up to 60000 characters: repetitions of 14 patterns in 14 places");
    let lens = crate::dict::get().numbers(66_000);
    for (i, c) in lens.chunks(lens.len().div_ceil(8).max(1)).enumerate() {
        let c = c.to_vec();
        t.add(format!("arguments as long as numbers in the sources {i}"), move |r| {
            for n in c {
                let n = n as usize;
                for c in ["1", "a", "\u{e9}", "\u{20ac}", ":", "."] {
                    // ends at every place within a character
                    let x: String = format!("{}{}", "1".repeat(n % c.len()), c.repeat(n / c.len()));
                    let y: String = format!("{}{x}", "2".repeat(n % 3));
                    for x in [x, y] {
                        for a in [
                            vec![x.clone()],
                            vec![format!("10.0.0.1/{x}")],
                            vec![format!("fe80::{x}/8")],
                            vec!["-d".into(), x.clone(), "10.0.0.0".into()],
                            vec!["-s".into(), "fe80::/8".into(), x.clone()],
                            vec!["-r".into(), "10.0.0.0/8".into(), x.clone()],
                            vec!["-e".into(), x.clone(), "10.0.0.0/32".into()],
                        ] {
                            if class_netspec(a.last().unwrap()) != Class::Open {
                                case(r, a);
                            }
                        }
                    }
                }
            }
        });
    }
    t.bound("arguments as long as the numbers that the sources mention, of characters of one to three bytes");
    for (i, k) in [2usize, 10, 100, 300, 1000, 3000].into_iter().enumerate() {
        for kind in 0..8u32 {
            t.add(format!("{k} arguments, kind {kind}"), move |r| {
                let fam = if kind % 2 == 0 { V4 } else { V6 };
                // scattered, adjacent, alternating, shrinking networks
                let net = |j: u128| -> String {
                    let base = if fam == V4 { 0x0a00_0000u128 } else { 0xfe80u128 << 112 };
                    match kind / 2 {
                        0 => format!("{}/{}", fam.fmt(base + j), fam.w()),
                        1 => format!("{}/{}", fam.fmt(base + 2 * j), fam.w()),
                        2 => format!("{}/{}", fam.fmt(base + (j << 8) * 3), fam.w() - 8),
                        _ => format!("{}/{}", fam.fmt(base + j * 257), fam.w() - (j % 9) as u32),
                    }
                };
                let list: Vec<String> = (0..k as u128).map(net).collect();
                let mut rev = list.clone();
                rev.reverse();
                for l in [list, rev] {
                    case(r, l.clone());
                    // merging takes a round for each pair
                    let few = if k > 300 && kind != 4 { 300 } else { k.min(1800) };
                    case(r, std::iter::once("-m".to_string()).chain(l.iter().take(few).cloned()).collect());
                    case(r, std::iter::once("-e".to_string()).chain(l.iter().cloned()).collect());
                    case(r, std::iter::once("-d".to_string()).chain(l.iter().cloned()).collect());
                    for n in ["10.0.0.0/8", "fe80::/10", "0.0.0.0/0", "::/0", "10.0.0.0/32"] {
                        let mut a = args(&["-s", n]);
                        a.extend((0..k).map(|j| (j % (kind as usize + 1) * i).to_string()));
                        case(r, a);
                    }
                }
            });
        }
    }
    t.bound("2 to 3000 arguments in 8 patterns, in every mode that takes lists (--minimize: up to 300, in one pattern up to 1800)");
    // valid networks of all shapes in all modes
    for fam in FAMS {
        let masks: Vec<u128> = {
            let mut m = sparse_wildcards(fam, if th && fam == V4 { 3 } else { 2 });
            m.extend((0..=fam.w()).map(|p| fam.prefix_mask(p)));
            m.extend(edge_values(fam));
            m.sort();
            m.dedup();
            m
        };
        for (i, chunk) in masks.chunks(masks.len().div_ceil(16)).enumerate() {
            let chunk = chunk.to_vec();
            t.add(format!("{fam:?} masks, part {i}"), move |r| {
                for m in chunk {
                    for a in backgrounds(fam).into_iter().skip(if !th && fam == V6 { 2 } else { 0 }) {
                        let s = spec(fam, a, m);
                        case(r, vec![s.clone()]);
                        case(r, vec!["-m".into(), s.clone(), spec(fam, !a & fam.full(), m), spec(fam, a ^ 1, m)]);
                        case(r, vec!["-e".into(), s.clone()]);
                        case(r, vec!["-d".into(), fam.fmt(a), fam.fmt(m)]);
                        for c in ["0", "5", "65535", "18446744073709551615"] {
                            case(r, vec!["-s".into(), s.clone(), c.into()]);
                            case(r, vec!["-s".into(), s.clone(), c.into(), "1".into(), c.into()]);
                        }
                        for k in [0, 1, fam.w() / 2, fam.w() - 1, fam.w()] {
                            case(r, vec!["-r".into(), s.clone(), k.to_string()]);
                            case(r, vec!["-r".into(), s.clone(), fam.fmt(m ^ 1 << k.min(fam.w() - 1))]);
                        }
                        for b in 0..fam.w() {
                            if th || fam == V4 && b % 3 == 0 || b % 16 == 9 {
                                case(r, vec!["-r".into(), s.clone(), fam.fmt(m ^ (1 << b))]);
                            }
                        }
                    }
                }
            });
        }
    }
    t.bound("networks with CIDR masks, masks with up to 2 (thorough, IPv4: 3) host bits anywhere and masks next to powers of two, in every mode, --split of lopsided networks included");
}
