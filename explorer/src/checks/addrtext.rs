//! C11: every valid spelling of an address is understood, and printed addresses are valid.
//! C12: malformed arguments are rejected.
use crate::gen::*;
use crate::model::*;
use crate::parse;
use crate::run::*;
use crate::Tasks;
use std::time::Duration;

fn single(o: &Out, want: Net) -> Verdict {
    if o.status != 0 {
        return Err(format!("a valid address is refused: status {}", status_text(o.status)));
    }
    let g = parse::networks(&o.out)?;
    if g.len() == 1 && g[0] == want {
        Ok(1)
    } else {
        Err(format!("printed {:?}, expected {}", o.out, want.text()))
    }
}

/// The spelling as an address, as a mask and as a wildcard, in every mode that takes one.
fn spelled(r: &mut Runner, fam: Fam, v: u128, t: &str, all: bool) {
    let w = fam.w();
    r.check(args(&["-d", t, t]), move |o| single(o, Net::cidr(fam, v, w)));
    if !all {
        return;
    }
    r.check(args(&["-m", &format!("{t}/{w}")]), move |o| single(o, Net::cidr(fam, v, w)));
    let f = fam.fmt(fam.full());
    r.check(args(&["-m", &format!("{f}/{t}")]), move |o| single(o, Net::new(fam, fam.full(), v)));
    r.check(args(&["-m", &format!("{f}/-{t}")]), move |o| single(o, Net::new(fam, fam.full(), !v & fam.full())));
    r.check(args(&["-e", &format!("{t}/{w}")]), move |o| super::enumerate::judge(&[Net::cidr(fam, v, w)], o));
    r.check(args(&[&format!("{t}/{t}")]), move |o| {
        if o.status != 0 {
            return Err(format!("a valid network is refused: status {}", status_text(o.status)));
        }
        let (b, n) = parse::block(fam, &o.lines())?;
        if n != o.lines().len() {
            return Err("more than one block".into());
        }
        parse::same_facts(fam, &b, &parse::expected_block(&Net::new(fam, v, v), Some(v)))
    });
    for (neg, m) in [("", v), ("-", !v & fam.full())] {
        r.check(args(&["-r", &format!("{f}/{w}"), &format!("{neg}{t}")]), move |o| {
            if o.status != 0 {
                return Err(format!("a valid mask is refused: status {}", status_text(o.status)));
            }
            let l = o.lines();
            let at = l.iter().rposition(|x| x.starts_with("Network:")).ok_or("no network is printed")?;
            let (b, _) = parse::block(fam, &l[at..])?;
            // the original network is all ones, so the resized one has all network bits set
            parse::same_facts(fam, &b, &parse::expected_block(&Net::new(fam, fam.full(), m), None))
        });
    }
}

fn group(v: u128, style: usize) -> String {
    match style {
        0 => format!("{v:x}"),
        1 => format!("{v:04x}"),
        2 => format!("{v:X}"),
        3 => format!("{v:04X}"),
        4 => format!("{v:02x}"),
        _ => {
            let s = format!("{v:03x}");
            s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect()
        },
    }
}

/// All texts of the address: without "::", and with it in place of every run of zero groups.
fn texts_v6(v: u128, styles: &[usize]) -> Vec<String> {
    let g: Vec<u128> = (0..8).map(|i| v >> (112 - 16 * i) & 0xffff).collect();
    let mut r = vec![];
    for st in styles {
        // style 9: another style in every group
        let t: Vec<String> = g.iter().enumerate().map(|(i, x)| group(*x, if *st == 9 { i % 6 } else { *st })).collect();
        r.push(t.join(":"));
        for i in 0..8 {
            for j in i + 1..=8 {
                if g[i..j].iter().all(|x| *x == 0) {
                    r.push(format!("{}::{}", t[..i].join(":"), t[j..].join(":")));
                }
            }
        }
    }
    r.sort();
    r.dedup();
    r
}

pub fn c11(t: &mut Tasks) {
    let th = t.thorough;
    // IPv6: every pattern of zero groups, every place of "::", every style
    let fillers: Vec<[u128; 8]> = if th {
        vec![[0xffff; 8], [1; 8], [0xabcd, 0x1, 0xf0, 0xbad, 0x8000, 0xfe, 0xc001, 0x2], [0xa; 8], [0x10; 8], [0xfff; 8]]
    } else {
        vec![[0xffff; 8], [0xabcd, 0x1, 0xf0, 0xbad, 0x8000, 0xfe, 0xc001, 0x2]]
    };
    for pat in 0..256u32 {
        let fillers = fillers.clone();
        t.add(format!("IPv6 texts of the zero pattern {pat:08b}"), move |r| {
            for f in &fillers {
                let v = (0..8).fold(0u128, |v, i| v << 16 | if pat >> i & 1 == 1 { f[i] } else { 0 });
                for x in texts_v6(v, &[0, 1, 2, 3, 4, 5, 9]) {
                    spelled(r, V6, v, &x, true);
                }
            }
        });
    }
    t.bound(format!("IPv6: every pattern of zero and non-zero groups ({} fillings), spelt without \"::\" and with it in place of every run of zero groups, groups in 7 styles (minimal, padded, upper, lower, mixed); as address, mask and wildcard in every mode that takes one", fillers.len()));
    // every value of every group
    for g in 0..8u32 {
        for part in 0..4u128 {
            t.add(format!("IPv6 values of group {g}, part {part}"), move |r| {
                let step = if th { 1 } else { 16 };
                for x in part * 0x4000..(part + 1) * 0x4000 {
                    let bits = x.count_ones();
                    if x % step != 0 && bits > 4 && bits < 12 {
                        continue;
                    }
                    for bg in [0, backgrounds(V6)[3]] {
                        let at = 16 * g;
                        let v = bg & !(0xffff << at) | x << at;
                        spelled(r, V6, v, &V6.fmt(v), false);
                        if th {
                            spelled(r, V6, v, &V6.fmt(v).to_uppercase(), false);
                        }
                    }
                }
            });
        }
    }
    t.bound(if th { "IPv6: all 2^16 values of every group on 2 backgrounds, both cases" } else { "IPv6: the values of every group with few ones or few zeros or a zero digit, on 2 backgrounds" });
    // where addresses have a meaning of their own
    for fam in FAMS {
        for (i, c) in place_addrs(fam).chunks(64).enumerate() {
            let c = c.to_vec();
            t.add(format!("{fam:?} places {i}"), move |r| {
                for v in c {
                    let l = match fam {
                        V4 => vec![V4.fmt(v)],
                        V6 => texts_v6(v, if th { &[0, 1, 2, 3, 4, 5, 9] } else { &[0, 3] }),
                    };
                    for x in l {
                        spelled(r, fam, v, &x, true);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every spelling of {} addresses in and around the blocks of the IANA registries and usual private networks", place_addrs(fam).len()));
    }
    // IPv4: all pairs of octets
    for i in 0..4u32 {
        for j in 0..i {
            for part in 0..4u128 {
                t.add(format!("IPv4 octets {i} and {j}, part {part}"), move |r| {
                    for x in part * 64..(part + 1) * 64 {
                        for y in 0..256u128 {
                            for bg in backgrounds(V4).into_iter().skip(if th { 0 } else { 2 }) {
                                let m = 255u128 << (8 * i) | 255u128 << (8 * j);
                                let v = bg & !m | x << (8 * i) | y << (8 * j);
                                spelled(r, V4, v, &V4.fmt(v), false);
                            }
                        }
                    }
                });
            }
        }
    }
    t.bound("IPv4: all values of every pair of octets");
    // IPv4: every octet value in every width, leading zeros included
    t.add("IPv4 octet texts", move |r| {
        for i in 0..4 {
            for x in 0..256u128 {
                for width in 1..=5 {
                    for o in [0u128, 1, 10, 255] {
                        let v = (0..4).fold(0, |v, k| v << 8 | if k == i { x } else { o });
                        let s: Vec<String> = (0..4).map(|k| if k == i { format!("{x:0width$}") } else { o.to_string() }).collect();
                        spelled(r, V4, v, &s.join("."), width == 1 || x % 16 < 2);
                    }
                }
            }
        }
        for s in sequences(3, 4).into_iter().filter(|s| s.len() == 4) {
            for o in [[0u128, 1, 2, 3], [127, 0, 0, 1], [255, 255, 255, 0], [10, 20, 30, 40], [8, 9, 77, 99]] {
                let v = o.iter().fold(0, |v, x| v << 8 | x);
                let x: Vec<String> = (0..4).map(|i| format!("{:0w$}", o[i], w = s[i] + 1)).collect();
                spelled(r, V4, v, &x.join("."), true);
            }
        }
    });
    t.bound("IPv4: every octet value padded to 1..5 decimal digits");
    // printing: windows and edges
    for fam in FAMS {
        let k = if th { 10 } else { 6 };
        for at in offsets(fam, k) {
            t.add(format!("{fam:?} printed, window {k}@{at}"), move |r| {
                for bg in backgrounds(fam) {
                    for v in window(fam, at, k, bg) {
                        spelled(r, fam, v, &fam.fmt(v), false);
                    }
                }
            });
        }
        t.add(format!("{fam:?} edge values"), move |r| {
            for v in edge_values(fam) {
                spelled(r, fam, v, &fam.fmt(v), true);
            }
        });
        t.bound(format!("{fam:?}: every value of every {k}-bit window on 4 backgrounds; the values around powers of two"));
    }
    // what is printed is understood again, and printed the same
    for part in 0..8u32 {
        t.add(format!("printed texts as input again, part {part}"), move |r| {
            for pat in (part..6561).step_by(8) {
                let mut q = pat;
                let mut v = 0u128;
                for _ in 0..8 {
                    v = v << 16 | [0u128, 0xf, 0xabcd][(q % 3) as usize];
                    q /= 3;
                }
                let a = args(&["-e", &format!("{}/128", V6.fmt(v))]);
                let o = r.run(&a);
                let s = o.out.trim_end().to_string();
                r.check_many(vec![a, args(&["-e", &format!("{s}/128")])], move |o| {
                    if o[0].status != 0 || o[1].status != 0 {
                        return Err(format!("status {} and {}", status_text(o[0].status), status_text(o[1].status)));
                    }
                    if o[0].out != o[1].out {
                        return Err(format!("{:?} is printed, but as an argument it means {:?}", o[0].out, o[1].out));
                    }
                    Ok(2)
                });
                if r.stopped() {
                    return;
                }
            }
        });
    }
    t.bound("IPv6: the printed text of every address of groups 0, f and abcd as an argument again");
    if t.has("addr") {
        // the conversions themselves, beyond what the command line reaches cheaply
        let n: u64 = if th { 1 << 24 } else { 1 << 20 };
        let parts = 64;
        for part in 0..parts {
            t.add(format!("IPv4 to text, part {part}"), move |r| {
                for i in n / parts * part..n / parts * (part + 1) {
                    let v = deposit(i as u128, 0x3ff3_f33f) | 0x8000_0000;
                    if i % 64 == 0 && r.stopped() {
                        return;
                    }
                    r.api(2, 4, V4.bytes(v), V4.fmt(v).into_bytes());
                }
            });
        }
        t.bound(format!("IPv4: the text of {n} addresses with every combination of some bits of each octet"));
    }
    if th {
        for i in 0..256u128 {
            t.add(format!("all of {i}.0.0.0/8 printed"), move |r| {
                let a = args(&["-e", &format!("{i}.0.0.0/8")]);
                let mut want = i << 24;
                let res = r.stream(&a, Duration::from_secs(3000), |_, l| match parse_v4(l) {
                    Some(v) if v == want => {
                        want += 1;
                        Ok(true)
                    },
                    _ => Err(format!("line {l:?} where {} is expected", V4.fmt(want))),
                });
                r.book(hash_of(&a), (want - (i << 24)) as u64);
                let bad = match res {
                    Ok(Some(0)) if want == (i + 1) << 24 => return,
                    Ok(s) => format!("ended at {} with {s:?}", V4.fmt(want)),
                    Err(e) => e,
                };
                r.violation(bad, vec![(Env::Plain, a)], vec![], String::new());
            });
        }
        t.bound("IPv4: all 2^32 addresses printed by --enumerate");
    }
}

// ---- C12

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class<T> {
    Valid(T),
    Invalid,
    /// Nothing is promised.
    Open,
}
use Class::*;

fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}
fn strip(s: &str) -> &str {
    let t = s.trim_start_matches('0');
    if t.is_empty() {
        "0"
    } else {
        t
    }
}

pub fn class_v4(s: &str) -> Class<u128> {
    if let Some(v) = parse_v4(s) {
        return Valid(v);
    }
    // more than three digits because of leading zeros
    let t: Vec<&str> = s.split('.').map(|p| if digits(p) { strip(p) } else { p }).collect();
    if parse_v4(&t.join(".")).is_some() {
        return Open;
    }
    Invalid
}
pub fn class_v6(s: &str) -> Class<u128> {
    if let Some(v) = parse_v6(s) {
        return Valid(v);
    }
    let norm: Vec<&str> = s.split(':').map(|p| if !p.is_empty() && p.bytes().all(|b| b.is_ascii_hexdigit()) { strip(p) } else { p }).collect();
    if parse_v6(&norm.join(":")).is_some() {
        return Open;
    }
    // an embedded IPv4 address (RFC 4291 2.2.3)
    if let Some(i) = s.rfind(':') {
        if class_v4(&s[i + 1..]) != Invalid && s[i + 1..].contains('.') && class_v6(&format!("{}0:0", &s[..i + 1])) != Invalid {
            return Open;
        }
    }
    Invalid
}
pub fn class_addr(s: &str) -> Class<(Fam, u128)> {
    if s.contains(':') {
        match class_v6(s) {
            Valid(v) => Valid((V6, v)),
            Open => Open,
            Invalid => Invalid,
        }
    } else {
        match class_v4(s) {
            Valid(v) => Valid((V4, v)),
            Open => Open,
            Invalid => Invalid,
        }
    }
}
fn class_prefix(fam: Fam, s: &str) -> Class<u128> {
    if !digits(s) {
        // an explicit sign: lenient or not, as long as it is not beyond the family's range
        return match s.strip_prefix('+') {
            Some(t) if digits(t) && class_prefix(fam, t) != Invalid => Open,
            _ => Invalid,
        };
    }
    let t = strip(s);
    match t.parse::<u128>() {
        Ok(p) if p <= fam.w() as u128 => {
            if t == s {
                Valid(fam.prefix_mask(p as u32))
            } else {
                Open
            }
        },
        _ => Invalid,
    }
}
/// The part after the slash, or the target of --resize.
fn class_subnet(fam: Fam, s: &str) -> Class<u128> {
    let (neg, m) = match s.strip_prefix('-') {
        Some(m) => (true, m),
        None => (false, s),
    };
    let c = match class_prefix(fam, m) {
        Invalid => match class_addr(m) {
            Valid((f, v)) => {
                if f == fam {
                    Valid(v)
                } else {
                    Invalid
                }
            },
            Open => Open,
            Invalid => Invalid,
        },
        c => {
            if neg {
                return if c == Invalid { Invalid } else { Open };
            }
            c
        },
    };
    match c {
        Valid(v) if neg => Valid(!v & fam.full()),
        c => c,
    }
}
pub fn class_netspec(s: &str) -> Class<(Fam, u128, u128)> {
    let i = match s.find('/') {
        Some(i) => i,
        None => return Invalid,
    };
    match class_addr(&s[..i]) {
        Invalid => Invalid,
        Open => {
            // the family is known all the same
            let fam = if s[..i].contains(':') { V6 } else { V4 };
            if class_subnet(fam, &s[i + 1..]) == Invalid {
                Invalid
            } else {
                Open
            }
        },
        Valid((fam, a)) => match class_subnet(fam, &s[i + 1..]) {
            Valid(m) => Valid((fam, a, m)),
            Open => Open,
            Invalid => Invalid,
        },
    }
}
fn class_count(s: &str) -> Class<()> {
    if digits(s) {
        return Valid(());
    }
    // signs and separators between digits
    let t = s.strip_prefix('+').or(s.strip_prefix('-')).unwrap_or(s);
    if t.bytes().all(|b| b.is_ascii_digit() || b == b'_') && t.bytes().any(|b| b.is_ascii_digit()) {
        if s.starts_with('-') && t.bytes().any(|b| b.is_ascii_digit() && b != b'0') && digits(t) {
            return Invalid; // a negative number of hosts
        }
        return Open;
    }
    Invalid
}

/// A refusal: a message on standard error, nothing on standard output, and a failure status.
pub fn refused(o: &Out) -> Verdict {
    if o.status == 0 || o.status == PANIC || o.status < 0 {
        return Err(format!("a malformed argument ends with status {}", status_text(o.status)));
    }
    if !o.out.is_empty() {
        return Err("a malformed argument, but something is printed on standard output".into());
    }
    if o.err.trim().is_empty() {
        return Err("a malformed argument is refused without a message".into());
    }
    Ok(1)
}
fn settled(o: &Out) -> Verdict {
    if o.status == PANIC || o.status < 0 {
        return Err(format!("status {}", status_text(o.status)));
    }
    Ok(1)
}

fn is_option(s: &str) -> bool {
    s.is_empty() || s.starts_with('-')
}

fn netspec(r: &mut Runner, s: &str, all: bool) {
    let c = class_netspec(s);
    let mut runs: Vec<Args> = vec![args(&["-m", s])];
    if all {
        runs.push(args(&["-m", "10.0.0.0/8", s]));
        runs.push(args(&["-m", s, "::/8"]));
        runs.push(args(&["-s", s, "0"]));
        runs.push(args(&["-r", s, "8"]));
        if !is_option(s) {
            runs.push(args(&[s]));
        }
        runs.push(args(&["10.0.0.0/8", s]));
        runs.push(args(&["-e", s]));
    }
    for a in runs {
        let first = a[0].clone();
        let n = a.len();
        match c {
            Invalid => r.check(a, refused),
            Open => {
                // may list a large network
                if first != "-e" && first != "-r" {
                    r.check(a, settled)
                }
            },
            Valid((fam, ad, m)) => {
                let net = Net::new(fam, ad, m);
                match first.as_str() {
                    "-m" if n == 2 => r.check(a, move |o| single(o, net)),
                    "-e" => {
                        if net.host_bits() <= 8 {
                            r.check(a, move |o| super::enumerate::judge(&[net], o))
                        }
                    },
                    "-r" | "-s" | "-m" => {},
                    _ if n == 1 => r.check(a, move |o| {
                        if o.status != 0 {
                            return Err(format!("a valid network is refused: status {}", status_text(o.status)));
                        }
                        let (b, _) = parse::block(fam, &o.lines())?;
                        parse::same_facts(fam, &b, &parse::expected_block(&net, Some(ad)))
                    }),
                    _ => {},
                }
            },
        }
    }
}

fn address(r: &mut Runner, s: &str, all: bool) {
    let c = class_addr(s);
    let mut runs = vec![args(&["-d", s, s])];
    if all {
        runs.push(args(&["-d", s, "10.0.0.0"]));
        runs.push(args(&["-d", "10.0.0.0", s]));
        runs.push(args(&["-d", "::", s]));
    }
    for (i, a) in runs.into_iter().enumerate() {
        match c {
            Invalid => r.check(a, refused),
            Open => r.check(a, settled),
            Valid((fam, v)) => {
                if i == 0 {
                    r.check(a, move |o| single(o, Net::cidr(fam, v, fam.w())))
                }
            },
        }
    }
}

/// The target of --resize.
fn target(r: &mut Runner, s: &str) {
    for fam in FAMS {
        let net = format!("{}/{}", fam.fmt(fam.full()), fam.w());
        let c = class_subnet(fam, s);
        let a = args(&["-r", &net, s]);
        match c {
            Invalid => r.check(a, refused),
            Open => r.check(a, settled),
            Valid(m) => r.check(a, move |o| {
                if o.status != 0 {
                    return Err(format!("a valid target is refused: status {}", status_text(o.status)));
                }
                let l = o.lines();
                let at = l.iter().rposition(|x| x.starts_with("Network:")).ok_or("no network is printed")?;
                let (b, _) = parse::block(fam, &l[at..])?;
                parse::same_facts(fam, &b, &parse::expected_block(&Net::new(fam, fam.full(), m), None))
            }),
        }
    }
}

fn count(r: &mut Runner, s: &str) {
    let c = class_count(s);
    for a in [args(&["-s", "10.0.0.0/24", s]), args(&["-s", "2001:db8::/32", "5", s]), args(&["-s", "10.0.0.0/8", s, "7"])] {
        match c {
            Invalid => r.check(a, refused),
            _ => r.check(a, settled),
        }
    }
}

const EDIT: &[&str] = &[
    "0", "1", "2", "5", "9", "a", "f", "F", "g", "x", ".", ":", "/", "-", "+", "_", " ", "%", ",", "\t", "\n", "\r", "\u{e9}", "\u{ff11}", "\u{661}", "[", "]", "\"", "\\", "\u{b2}", "e", "::", "..", "//", "--", "/24",
];

/// Every single edit; `full`: insertions and replacements with every ASCII character, too.
fn edits(s: &str, full: bool) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![s.to_string()];
    let mut all: Vec<String> = EDIT.iter().map(|e| e.to_string()).collect();
    if full {
        all.extend((1..128u8).map(|b| (b as char).to_string()));
    }
    let put = |a: &[char], m: &str, b: &[char]| format!("{}{}{}", a.iter().collect::<String>(), m, b.iter().collect::<String>());
    for i in 0..=c.len() {
        for e in &all {
            v.push(put(&c[..i], e, &c[i..]));
            if i < c.len() {
                v.push(put(&c[..i], e, &c[i + 1..]));
            }
        }
        if i < c.len() {
            v.push(put(&c[..i], "", &c[i + 1..]));
            // truncations from both sides
            v.push(put(&c[..i], "", &[]));
            v.push(put(&[], "", &c[i..]));
        }
        if i + 1 < c.len() {
            v.push(put(&c[..i], &format!("{}{}", c[i + 1], c[i]), &c[i + 2..]));
        }
    }
    v.sort();
    v.dedup();
    v
}

fn words(alpha: &[&str], len: usize, mut f: impl FnMut(&str) -> bool) {
    // depth first, shortest prefix first
    fn go(alpha: &[&str], len: usize, s: &mut String, f: &mut impl FnMut(&str) -> bool) -> bool {
        if !f(s) {
            return false;
        }
        if len == 0 {
            return true;
        }
        for a in alpha {
            s.push_str(a);
            let ok = go(alpha, len - 1, s, f);
            s.truncate(s.len() - a.len());
            if !ok {
                return false;
            }
        }
        true
    }
    go(alpha, len, &mut String::new(), &mut f);
}

pub fn c12(t: &mut Tasks) {
    let th = t.thorough;
    let nets = [
        "1.2.3.4/24", "192.168.2.255/255.255.255.0", "10.0.0.1/-0.0.0.255", "255.255.255.255/32", "0.0.0.0/0", "10.20.30.40/255.0.255.0",
        "::/0", "fe80::1/64", "2001:db8::/32", "1:2:3:4:5:6:7:8/128", "::1/ffff::", "2001:db8::5/-::ffff", "a:b:c:d:e:f:1::/ffff:ffff:ffff:ffff::1", "::ffff:ffff/-::",
    ];
    for s in nets {
        t.add(format!("edits of the network {s}"), move |r| {
            let first = edits(s, true);
            for e in &first {
                netspec(r, e, true);
            }
            if th && s.len() <= 14 {
                for e in &first {
                    for e2 in edits(e, false) {
                        netspec(r, &e2, false);
                    }
                    if r.stopped() {
                        return;
                    }
                }
            }
        });
    }
    t.bound(format!("every single edit (insertion, replacement and deletion at every position, swaps, truncations; every ASCII character and {} other insertions) of {} networks, in every place that takes a network{}", EDIT.len(), nets.len(), if th { "; every two edits of the short ones" } else { "" }));
    let addrs = ["1.2.3.4", "255.255.255.255", "192.168.10.0", "::", "::1", "1::", "1:2:3:4:5:6:7:8", "fe80::a:b", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8"];
    for s in addrs {
        t.add(format!("edits of the address {s}"), move |r| {
            let first = edits(s, true);
            for e in &first {
                address(r, e, true);
                target(r, e);
                target(r, &format!("-{e}"));
                count(r, e);
            }
            if th && s.len() <= 12 {
                for e in &first {
                    for e2 in edits(e, false) {
                        address(r, &e2, false);
                    }
                    if r.stopped() {
                        return;
                    }
                }
            }
        });
    }
    t.bound(format!("every single edit of {} addresses, as addresses, targets and host counts{}", addrs.len(), if th { "; every two edits of the short ones" } else { "" }));
    // all words over small alphabets
    let ws: Vec<(&'static str, Vec<&'static str>, usize)> = vec![
        ("IPv4 networks", vec!["1", ".", "/", "-"], if th { 11 } else { 9 }),
        ("IPv4 networks of octets", vec!["10", ".", "256", "/", "33", "-"], if th { 9 } else { 7 }),
        ("IPv6 networks", vec!["1", ":", "/"], if th { 14 } else { 11 }),
        ("IPv6 networks with colons", vec!["f", "::", ":", "/", "-", "129"], if th { 9 } else { 7 }),
    ];
    for (name, alpha, len) in ws {
        t.bound(format!("{name}: every word of up to {len} of {alpha:?}"));
        for a in alpha.clone() {
            for b in alpha.clone() {
                let alpha = alpha.clone();
                t.add(format!("{name}: words of {len} starting with {a}{b}"), move |r| {
                    words(&alpha, len - 2, |s| {
                        netspec(r, &format!("{a}{b}{s}"), false);
                        !r.stopped()
                    })
                });
            }
        }
    }
    let ws: Vec<(&'static str, Vec<&'static str>, usize)> = vec![
        ("addresses", vec!["1", ":", "."], if th { 13 } else { 10 }),
        ("IPv6 addresses", vec!["f", ":"], if th { 20 } else { 17 }),
        ("IPv4 addresses", vec!["2", "5", "6", "."], if th { 11 } else { 8 }),
        ("IPv6 groups", vec!["0", "F", ":", "::", "fffff"], if th { 10 } else { 8 }),
        ("IPv6 of groups", vec!["ab:", "cd", "::", ":"], if th { 11 } else { 9 }),
    ];
    for (name, alpha, len) in ws {
        t.bound(format!("{name}: every word of up to {len} of {alpha:?}"));
        for a in alpha.clone() {
            for b in alpha.clone() {
                let alpha = alpha.clone();
                t.add(format!("{name}: words of {len} starting with {a}{b}"), move |r| {
                    words(&alpha, len - 2, |s| {
                        address(r, &format!("{a}{b}{s}"), false);
                        !r.stopped()
                    })
                });
            }
        }
    }
    // numbers out of range, also where they wrap around in machine words
    t.add("numbers", move |r| {
        let mut big: Vec<String> = (0..if th { 4200u128 } else { 1100 }).map(|i| i.to_string()).collect();
        for sh in [8u32, 16, 31, 32, 63, 64, 127] {
            for d in 0..140u128 {
                big.push(((1u128 << sh) + d).to_string());
            }
            for d in 1..6u128 {
                big.push(((1u128 << sh) - d).to_string());
            }
        }
        for d in 0..140u32 {
            // 2^128 + d
            big.push(format!("340282366920938463463374607431768211{}", 456 + d));
        }
        // powers of ten and as many nines
        for k in 1..if th { 400 } else { 90 } {
            big.push(format!("1{}", "0".repeat(k)));
            big.push("9".repeat(k));
        }
        // leading zeros before what is out of range
        let all = big.clone();
        for z in [1usize, 2, 3, 4, 8, 20, 40] {
            for b in all.iter().filter(|b| th || b.len() > 3 || ["33", "34", "40", "64", "99", "129", "130", "160", "256", "264", "288", "384", "511", "512"].contains(&b.as_str())) {
                if th || z < 5 || b.starts_with('9') || b.len() % 7 == 1 {
                    big.push(format!("{}{b}", "0".repeat(z)));
                }
            }
        }
        for b in &big {
            netspec(r, &format!("10.1.2.3/{b}"), true);
            netspec(r, &format!("2001:db8::5/{b}"), true);
            target(r, b);
            for i in 0..4 {
                let s: Vec<String> = (0..4).map(|k| if k == i { b.clone() } else { "1".into() }).collect();
                address(r, &s.join("."), i == 0);
                netspec(r, &format!("{}/24", s.join(".")), i == 3);
                netspec(r, &format!("10.0.0.0/{}", s.join(".")), i == 2);
            }
        }
        for sh in [16u32, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127] {
            for d in [0u128, 1, 0xa, 0xffff] {
                let b = format!("{:x}", (1u128 << sh) + d);
                for i in 0..8 {
                    let s: Vec<String> = (0..8).map(|k| if k == i { b.clone() } else { "1".into() }).collect();
                    address(r, &s.join(":"), true);
                    netspec(r, &format!("{}/64", s.join(":")), true);
                    netspec(r, &format!("::/{}", s.join(":")), true);
                }
                address(r, &format!("::{b}"), true);
                address(r, &format!("{b}::"), true);
            }
        }
    });
    t.bound("octets, groups and prefixes out of range, around 2^8, 2^16, 2^31, 2^32, 2^63, 2^64, 2^127 and 2^128, and around the powers of ten, also behind 1 to 40 zeros, in every position");
    // what the sources mention
    let d = crate::dict::get();
    for (i, c) in d.words().chunks(24).enumerate() {
        let c = c.to_vec();
        t.add(format!("words of the sources {i}"), move |r| {
            for w in c {
                for w in [w.to_lowercase(), w.to_uppercase()].into_iter().filter(|x| *x != w).chain([w.clone()]) {
                    for s in ["W", "W/24", "10.0.0.1/W", "10.0.0.1/-W", "10.0.0.1W/24", "W10.0.0.1/24", "10.0.0.1/24W", "10.0.0.1/W24", "10.0.0.W/24", "10.0.W/24", "10.0.0.1/255.255.255.W", "fe80::1W/64", "fe80::W/64", "fe80::1/64W", "fe80::1/W64", "Wfe80::1/64", "fe80::1/W", "fe80::1/-W", "1:2:3:4:5:6:7:W/64"] {
                        netspec(r, &s.replace('W', &w), true);
                    }
                    for s in ["W", "10.0.0.1W", "W10.0.0.1", "10.0.0.W", "10.W.0.1", "10.0.0W1", "fe80::1W", "Wfe80::1", "fe80::W", "1:2:3:4:5:6:7W8", "1:2:3:4:5:6:7:W"] {
                        address(r, &s.replace('W', &w), true);
                    }
                    for s in ["W", "-W", "24W", "W24", "2W4", "255.255.255.0W", "W255.255.255.0", "255.255.255.W", "-0.0.0.W", "ffff::W"] {
                        target(r, &s.replace('W', &w));
                    }
                    for s in ["W", "-W", "5W", "W5", "5W5", "5 W", "W 5"] {
                        count(r, &s.replace('W', &w));
                    }
                    if r.stopped() {
                        return;
                    }
                }
            }
        });
    }
    t.add("numbers of the sources", move |r| {
        for n in d.numbers(u128::MAX - 2) {
            let b = n.to_string();
            netspec(r, &format!("10.1.2.3/{b}"), true);
            netspec(r, &format!("2001:db8::5/{b}"), true);
            target(r, &b);
            for i in 0..4 {
                let s: Vec<String> = (0..4).map(|k| if k == i { b.clone() } else { "1".into() }).collect();
                address(r, &s.join("."), i == 0);
                netspec(r, &format!("{}/24", s.join(".")), i == 3);
                netspec(r, &format!("10.0.0.0/{}", s.join(".")), i == 2);
            }
            for b in [b, format!("{n:x}")] {
                for i in 0..8 {
                    let s: Vec<String> = (0..8).map(|k| if k == i { b.clone() } else { "1".into() }).collect();
                    address(r, &s.join(":"), i == 0);
                    netspec(r, &format!("{}/64", s.join(":")), i == 7);
                }
            }
        }
    });
    t.bound(format!("{} words and characters in the literals of the sources, in three cases, in 47 places of networks, addresses, targets and counts; the numbers that the sources mention as prefixes, octets and groups", d.words().len()));
    // host counts and targets
    t.add("words as host counts and targets", move |r| {
        words(&["0", "7", "-", "+", "_", ".", " ", "x"], if th { 6 } else { 4 }, |s| {
            count(r, s);
            target(r, s);
            !r.stopped()
        });
        words(&["3", "2", "1", "-", ".", ":"], if th { 6 } else { 5 }, |s| {
            target(r, s);
            !r.stopped()
        });
        for base in ["4", "16", "24", "200", "65534", "1", "0"] {
            for e in edits(base, true) {
                count(r, &e);
                target(r, &e);
                netspec(r, &format!("10.1.2.3/{e}"), true);
                netspec(r, &format!("fe80::1/{e}"), true);
                if th {
                    for e2 in edits(&e, false) {
                        count(r, &e2);
                        target(r, &e2);
                    }
                }
            }
            // units, suffixes and prefixes of several letters
            for u in ["K", "k", "Ki", "KiB", "kB", "M", "Mi", "G", "T", "hosts", " hosts", "h", "e0", "E0", "e3", "u8", "u32", "_u8", "i32", "usize", "st", "th", ".0", ",0", "'000", "%", "^2", "*2", "+1", "-1", "/1", "<<1", "!", "#", "$"] {
                for e in [format!("{base}{u}"), format!("{u}{base}")] {
                    count(r, &e);
                    target(r, &e);
                    netspec(r, &format!("10.1.2.3/{e}"), true);
                }
            }
        }
        for s in ["1e3", "0x10", "1,000", "\u{661}", "\u{ff15}", "nan", "inf", "5 ", " 5", "5\n", "5h", "-1", "-5", "-340282366920938463463374607431768211456", "1/2", "255.255.255.0/24", "/24", "\u{2212}5"] {
            count(r, s);
            target(r, s);
        }
    });
    // the characters of all scripts, most of all their digits
    let chars: Vec<char> = (0x80..0x110000u32).filter_map(char::from_u32).filter(|c| th || (*c as u32) < 0x250 || c.is_numeric() || c.is_whitespace() || (0xff00..0xfff0).contains(&(*c as u32)) || (0x2000..0x2070).contains(&(*c as u32))).collect();
    t.bound(format!("{} characters beyond ASCII (quick: Latin, everything numeric, spaces, punctuation, full width; thorough: all) alone, behind and before digits: as counts, targets, prefixes, octets and groups", chars.len()));
    for (i, c) in chars.chunks(chars.len().div_ceil(32)).enumerate() {
        let c = c.to_vec();
        t.add(format!("characters beyond ASCII {i}"), move |r| {
            for x in c {
                for e in [x.to_string(), format!("2{x}"), format!("{x}2")] {
                    r.check(args(&["-s", "10.0.0.0/24", &e]), refused);
                    r.check(args(&["-r", "10.0.0.0/24", &e]), refused);
                    r.check(args(&[&format!("10.1.2.3/{e}")]), refused);
                    r.check(args(&["-d", &format!("10.1.2.{e}"), "10.1.2.9"]), refused);
                    r.check(args(&["-m", &format!("2001:db8::{e}/64")]), refused);
                }
                if r.stopped() {
                    return;
                }
            }
        });
    }
    t.bound("host counts, targets and prefixes: every single edit of 7 numbers (thorough: every two for counts and targets), units and suffixes");
    t.bound("host counts and targets: every word of up to 4 (thorough: 6) of [0 7 - + _ . space x] and up to 5 (6) of [3 2 1 - . :]");
}
