//! C18: families are never mixed, a malformed argument spoils the whole invocation, and the result
//! for several networks is made up of the results for each.
//! C22: options.
use super::addrtext::refused;
use crate::gen::*;
use crate::model::*;
use crate::parse;
use crate::run::*;
use crate::Tasks;

const NETS: &[&str] = &["192.168.2.4/24", "10.0.0.0/255.255.0.255", "0.0.0.0/0", "255.255.255.255/32", "fe80::1/10", "2001:db8::5/ffff:ffff::ffff", "::/0", "ffff::/128"];
const BAD: &[&str] = &["nonsense", "1.2.3.4", "1.2.3.4/33", "1.2.3.256/8", "1.2.3.4/ffff::", "fe80::1", "fe80::1/129", "::1::/64", "fe80::/255.0.0.0", "/24", "10.0.0.0/-", ""];

fn v6(s: &str) -> bool {
    s.contains(':')
}
fn net_of(s: &str) -> (Net, u128) {
    match super::addrtext::class_netspec(s) {
        super::addrtext::Class::Valid((f, a, m)) => (Net::new(f, a, m), a),
        c => panic!("{s}: {c:?}"),
    }
}

/// --enumerate with malformed arguments besides the valid ones.
fn enumerated(nets: &[Net], o: &Out) -> Verdict {
    if o.status == 0 || o.status == PANIC || o.status < 0 {
        return Err(format!("a malformed argument, but status {}", status_text(o.status)));
    }
    if o.err.lines().count() < 1 {
        return Err("a malformed argument is not reported".into());
    }
    // whatever is listed are members of the valid networks, in their order
    let mut fake = o.clone();
    fake.status = 0;
    super::enumerate::judge(nets, &fake)
}

pub fn c18(t: &mut Tasks) {
    let th = t.thorough;
    let all: Vec<&str> = NETS.iter().chain(BAD.iter()).copied().collect();
    let n_ok = NETS.len();
    let len = if th { 4 } else { 3 };
    for first in 0..all.len() {
        let all = all.clone();
        t.add(format!("sequences of arguments starting with {:?}", all[first]), move |r| {
            for s in sequences(all.len(), len - 1) {
                let mut idx = vec![first];
                idx.extend(&s);
                let words: Vec<String> = idx.iter().map(|i| all[*i].to_string()).collect();
                let bad = idx.iter().any(|i| *i >= n_ok);
                // --minimize
                let mut a = vec!["-m".to_string()];
                a.extend(words.iter().cloned());
                if bad {
                    r.check(a, refused);
                } else if words.iter().any(|w| v6(w)) && !words.iter().all(|w| v6(w)) {
                    r.check(a, |o| refused(o).map_err(|e| format!("IPv4 and IPv6 are mixed: {e}")));
                } else {
                    let nets: Vec<Net> = words.iter().map(|w| net_of(w).0).collect();
                    r.check(a, move |o| {
                        if o.status != 0 {
                            return Err(format!("valid networks of one family, status {}", status_text(o.status)));
                        }
                        let g = parse::networks(&o.out)?;
                        for n in &g {
                            if n.fam != nets[0].fam {
                                return Err(format!("{} is of another family than the arguments", n.text()));
                            }
                        }
                        if g.is_empty() {
                            return Err("nothing is left".into());
                        }
                        Ok(1)
                    });
                }
                // show: one block per network in the order of the arguments, or nothing at all
                if !words[0].is_empty() || words.len() > 1 {
                    if bad {
                        r.check(words.clone(), refused);
                    } else {
                        let mut runs = vec![words.clone()];
                        runs.extend(words.iter().map(|w| vec![w.clone()]));
                        r.check_many(runs, |o| {
                            if o.iter().any(|x| x.status != 0) {
                                return Err(format!("valid networks, status {}", status_text(o[0].status)));
                            }
                            let want: Vec<&str> = o[1..].iter().map(|x| x.out.as_str()).collect();
                            if o[0].out == want.join("\n") {
                                Ok(want.len() as u64)
                            } else {
                                Err("the output for several networks is not that for each of them, one after another and separated by empty lines".into())
                            }
                        });
                    }
                }
            }
        });
    }
    t.bound(format!("--minimize and the default mode: every sequence of up to {len} arguments out of {} networks of both families and {} malformed ones", NETS.len(), BAD.len()));
    // long sequences with one odd argument, wherever it stands
    let longest = if th { 300 } else { 70 };
    for fam in FAMS {
        let other: &str = if fam == V4 { "2001:db8::/33" } else { "10.0.0.0/9" };
        let (alien, whole, mapped) = if fam == V4 { ("::a00:1/128", "::/0", "::ffff:a00:0/112") } else { ("10.0.0.1/32", "0.0.0.0/0", "192.168.0.0/255.255.0.0") };
        let odd: Vec<&'static str> = vec![other, alien, whole, "nonsense", mapped, "1.2.3.4/33", if fam == V4 { "10.0.0.0/ffff::" } else { "fe80::/255.0.0.0" }, "fe80::/129", "10.0.0.300/8", ""];
        // disjoint, adjacent, identical
        let good = move |k: usize, i: usize| match (fam, k) {
            (V4, 0) => format!("10.{}.{}.0/25", i % 256, i / 256),
            (V4, 1) => format!("10.0.{}.{}/32", i / 256, i % 256),
            (V4, _) => "10.0.0.0/24".to_string(),
            (V6, 0) => format!("2001:db8:{i:x}::/49"),
            (V6, 1) => format!("fe80::{i:x}/128"),
            (V6, _) => "fe80::/64".to_string(),
        };
        for len in 5..=longest {
            if len > 24 && !th && ![25, 31, 32, 33, 34, 40, 48, 63, 64, 65, 66, 70].contains(&len) || len > 130 && len % 16 > 1 {
                continue;
            }
            let odd = odd.clone();
            t.add(format!("{fam:?} sequences of {len} with one odd argument"), move |r| {
                for k in 0..3 {
                    for (j, o) in odd.iter().enumerate() {
                        for at in 0..len {
                            if len > 40 && (j > 3 || k > 0) {
                                continue;
                            }
                            let words: Vec<String> = (0..len).map(|i| if i == at { o.to_string() } else { good(k, i) }).collect();
                            let mode = |m: &str| std::iter::once(m.to_string()).chain(words.iter().cloned()).collect::<Args>();
                            r.check(mode("-m"), move |o| refused(o).map_err(|e| format!("argument {at} is malformed or of the other family: {e}")));
                            if ![0, 1, 2, 4].contains(&j) && k == 0 && !(o.is_empty() && at == 0) {
                                r.check(words.clone(), move |o| refused(o).map_err(|e| format!("argument {at} is malformed: {e}")));
                            }
                        }
                    }
                }
                // the default mode of valid ones
                for k in 0..3 {
                    let words: Vec<String> = (0..len).map(|i| if k == 2 && i % 5 == 3 { other.to_string() } else { good(k, i) }).collect();
                    let mut runs = vec![words.clone()];
                    runs.extend(words.into_iter().map(|w| vec![w]));
                    r.check_many(runs, |o| {
                        let want: Vec<&str> = o[1..].iter().map(|x| x.out.as_str()).collect();
                        if o[0].out == want.join("\n") && o.iter().all(|x| x.status == 0) {
                            Ok(want.len() as u64)
                        } else {
                            Err("the output for several networks is not that for each of them, one after another and separated by empty lines".into())
                        }
                    });
                }
                // the counts of a split
                let net = if fam == V4 { "10.0.0.0/8" } else { "2001:db8::/40" };
                for (j, odd) in ["x", "-1", "1.5", "10.0.0.0/8", "4K", ""].iter().enumerate() {
                    for at in 0..len {
                        if len > 40 && j > 0 {
                            continue;
                        }
                        let a: Args = ["-s".to_string(), net.to_string()].into_iter().chain((0..len).map(|i| if i == at { odd.to_string() } else { (i % 5).to_string() })).collect();
                        r.check(a, move |o| refused(o).map_err(|e| format!("count {at} is malformed: {e}")));
                    }
                }
                // --enumerate: what is listed comes from the good ones, and the odd one is reported
                for at in 0..len {
                    for odd in if len > 40 { &["nonsense"][..] } else { &["nonsense", "10.0.0.0/33", ""] } {
                        let nets: Vec<Net> = (0..len).filter(|i| *i != at).map(|i| net_of(&good(1, i)).0).collect();
                        let a: Args = std::iter::once("-e".to_string()).chain((0..len).map(|i| if i == at { odd.to_string() } else { good(1, i) })).collect();
                        r.check(a, move |o| enumerated(&nets, o));
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: sequences of 5 to {longest} arguments (beyond 24, quick: selected lengths) that differ, adjoin or repeat, with one malformed one or one of the other family at every position: --minimize, the default mode, --split, --enumerate"));
    }
    // very many arguments, a network of its own each
    for fam in FAMS {
        for len in if th { vec![100usize, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 1000, 1024, 1025, 2000, 2049, 3001, 4095, 4096, 4097, 5000, 8193] } else { vec![100, 129, 200, 257, 300, 513, 1025, 2049, 4097] }.into_iter().chain(crate::dict::get().unusual(5000).into_iter().map(|n| n as usize).filter(|n| *n > 1)) {
            t.add(format!("{fam:?}: {len} arguments"), move |r| {
                let one = |i: usize| if fam == V4 { format!("10.{}.{}.{}/32", i % 7, i / 256, i % 256) } else { format!("fe80:{:x}::{i:x}/128", i % 7) };
                let words: Vec<String> = (0..len).map(one).collect();
                let mut runs = vec![words.clone()];
                runs.extend(words.iter().map(|w| vec![w.clone()]));
                r.check_many(runs, |o| {
                    let want: Vec<&str> = o[1..].iter().map(|x| x.out.as_str()).collect();
                    if o[0].out == want.join("\n") && o.iter().all(|x| x.status == 0) {
                        Ok(want.len() as u64)
                    } else {
                        Err("the output for several networks is not that for each of them, one after another and separated by empty lines".into())
                    }
                });
                let nets: Vec<Net> = words.iter().map(|w| net_of(w).0).collect();
                r.check(std::iter::once("-e".to_string()).chain(words.iter().cloned()).collect(), move |o| super::enumerate::judge(&nets, o));
                for at in [0, 1, len / 2, len - 1] {
                    for odd in ["x", if fam == V4 { "::1/128" } else { "0.0.0.1/32" }] {
                        let list: Vec<String> = (0..len).map(|i| if i == at { odd.to_string() } else { words[i].clone() }).collect();
                        if odd == "x" {
                            r.check(list.clone(), move |o| refused(o).map_err(|e| format!("argument {at} is malformed: {e}")));
                        }
                        r.check(std::iter::once("-m".to_string()).chain(list).collect(), move |o| refused(o).map_err(|e| format!("argument {at} is malformed or of the other family: {e}")));
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: {} different networks (as well as the numbers that the sources mention), also with one malformed or of the other family among them", if th { "100 to 8193" } else { "100 to 4097" }));
    }
    // --enumerate: each network on its own, malformed ones are reported
    let small = ["192.168.2.4/30", "10.0.0.1/255.254.255.254", "255.255.255.255/32", "fe80::1/127", "2001:db8::5/fffe:ffff:ffff:ffff:ffff:ffff:ffff:fffe", "::/128"];
    let e_all: Vec<&str> = small.iter().chain(BAD.iter()).copied().collect();
    for first in 0..e_all.len() {
        let all = e_all.clone();
        t.add(format!("--enumerate sequences starting with {:?}", all[first]), move |r| {
            for s in sequences(all.len(), len - 1) {
                let mut idx = vec![first];
                idx.extend(&s);
                let mut a = vec!["-e".to_string()];
                a.extend(idx.iter().map(|i| all[*i].to_string()));
                let nets: Vec<Net> = idx.iter().filter(|i| **i < small.len()).map(|i| net_of(all[*i]).0).collect();
                let bad = idx.len() - nets.len();
                r.check(a, move |o| {
                    if bad == 0 {
                        return super::enumerate::judge(&nets, o);
                    }
                    enumerated(&nets, o)
                });
            }
        });
    }
    t.bound(format!("--enumerate: every sequence of up to {len} arguments out of {} small networks and {} malformed ones", small.len(), BAD.len()));
    // --derange and --resize: the two arguments are of one family
    t.add("pairs of families", move |r| {
        let v4 = ["0.0.0.0", "255.255.255.255", "10.20.30.40", "0.0.0.1"];
        let v6 = ["::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::1", "::a14:1e28", "fe80::1:2"];
        for a in v4 {
            for b in v6 {
                r.check(args(&["-d", a, b]), refused);
                r.check(args(&["-d", b, a]), refused);
                for p in [0u32, 1, 8, 24, 31, 32] {
                    r.check(args(&["-r", &format!("{a}/{p}"), b]), refused);
                    r.check(args(&["-r", &format!("{a}/{p}"), &format!("-{b}")]), refused);
                    r.check(args(&["-r", &format!("{b}/{}", 4 * p), a]), refused);
                    r.check(args(&["-r", &format!("{b}/{}", 4 * p), &format!("-{a}")]), refused);
                    r.check(args(&[&format!("{a}/{b}")]), refused);
                    r.check(args(&[&format!("{b}/{a}")]), refused);
                    r.check(args(&["-s", &format!("{a}/{b}"), "1"]), refused);
                    r.check(args(&["-e", &format!("{a}/-{b}")]), refused);
                }
                // prefixes that exist in the other family only
                for p in 33..=128 {
                    r.check(args(&[&format!("{a}/{p}")]), refused);
                    r.check(args(&["-r", &format!("{a}/8"), &p.to_string()]), refused);
                    r.check(args(&["-m", &format!("{a}/8"), &format!("{a}/{p}")]), refused);
                }
            }
        }
    });
    // an IPv4 address embedded in an IPv6 one stays an IPv6 address
    type Embed = (&'static str, fn(u128) -> u128);
    let embed: &[Embed] = &[
        ("mapped", |a| 0xffff_0000_0000 | a),
        ("compatible", |a| a),
        ("translated", |a| 0xffff_0000_0000_0000 | a),
        ("6to4", |a| 0x2002 << 112 | a << 80),
        ("NAT64", |a| 0x64_ff9b << 96 | a),
        ("local NAT64", |a| 0x64_ff9b_0001 << 80 | a),
        ("ISATAP", |a| 0xfe80 << 112 | 0x5efe << 32 | a),
        ("Teredo", |a| 0x2001 << 112 | 0x4136_e378 << 64 | (a ^ 0xffff_ffff)),
        ("first 32 bits", |a| a << 96),
    ];
    for (how, f) in embed {
        let f = *f;
        t.add(format!("embedded IPv4 addresses: {how}"), move |r| {
            let mut all = place_addrs(V4);
            all.extend(edge_values(V4));
            all.sort();
            all.dedup();
            let masks: Vec<u128> = (0..=32).map(|p| V4.prefix_mask(p)).collect();
            for a in all {
                if r.stopped() {
                    return;
                }
                let (x, y) = (V4.fmt(a), V6.fmt(f(a)));
                for b in [x.clone(), V4.fmt(a ^ 0xff), V4.fmt(a ^ 0xff00_0000)] {
                    r.check(args(&["-d", &b, &y]), refused);
                    r.check(args(&["-d", &y, &b]), refused);
                }
                for p in [0u32, 8, 24, 31, 32] {
                    r.check(args(&["-r", &format!("{x}/{p}"), &y]), refused);
                    r.check(args(&["-r", &format!("{x}/{p}"), &format!("-{y}")]), refused);
                    r.check(args(&["-r", &format!("{y}/{}", 96 + p), &x]), refused);
                    r.check(args(&["-r", &format!("{y}/{}", 96 + p), &format!("-{x}")]), refused);
                    r.check(args(&[&format!("{x}/{}", 96 + p)]), refused);
                    r.check(args(&["-r", &format!("{x}/{p}"), &(96 + p).to_string()]), refused);
                }
                for q in [format!("{x}/{y}"), format!("{y}/{x}"), format!("{x}/-{y}"), format!("{y}/-{x}")] {
                    r.check(args(&[&q]), refused);
                    r.check(args(&["-m", &q]), refused);
                    r.check(args(&["-e", &q]), refused);
                    r.check(args(&["-s", &q, "1"]), refused);
                    r.check(args(&["-r", &q, "32"]), refused);
                }
            }
            let (x, y) = (V4.fmt(0x0a14_1e28), V6.fmt(f(0x0a14_1e28)));
            for m in &masks {
                for n in [*m, m ^ 0xffff_ffff] {
                    let (m4, m6) = (V4.fmt(n), V6.fmt(f(n)));
                    for sign in ["", "-"] {
                        for q in [format!("{x}/{sign}{m6}"), format!("{y}/{sign}{m4}")] {
                            r.check(args(&[&q]), refused);
                            r.check(args(&["-m", &q]), refused);
                        }
                        for p in [0, 8, 32] {
                            r.check(args(&["-r", &format!("{x}/{p}"), &format!("{sign}{m6}")]), refused);
                            r.check(args(&["-r", &format!("{y}/{}", 96 + p), &format!("{sign}{m4}")]), refused);
                        }
                    }
                }
            }
        });
    }
    t.bound("--derange, --resize and the network syntax with addresses and masks of different families, among them every well-known IPv4 address with itself embedded in IPv6 in 9 ways (mapped, compatible, 6to4, NAT64, ISATAP, Teredo …), and every contiguous mask and wildcard so embedded");
    // --split: a malformed count anywhere spoils the invocation
    t.add("malformed host counts", move |r| {
        let c = ["0", "2", "30", "x", "-1", "1.5", "10.0.0.0/8", "0x10", "5h"];
        for s in sequences(c.len(), if th { 5 } else { 4 }) {
            if s.is_empty() {
                continue;
            }
            for net in ["10.1.2.3/20", "2001:db8::/100"] {
                let mut a = args(&["-s", net]);
                a.extend(s.iter().map(|i| c[*i].to_string()));
                if s.iter().any(|i| *i > 2) {
                    r.check(a, refused);
                } else {
                    r.check(a, |o| if o.status == 0 { Ok(1) } else { Err(format!("valid counts that fit, status {}", status_text(o.status))) });
                }
            }
        }
    });
    t.bound("--split: every sequence of up to 4 (thorough: 5) host counts out of 3 valid and 6 malformed ones");
}

// ---- C22

const USAGE: &[&str] = &["usage", "--minimize", "--derange", "--split", "--resize", "--enumerate", "mask", "prefix", "wildcard"];

fn usage(o: &Out, status: i32) -> Verdict {
    if o.status != status {
        return Err(format!("expected the usage text and status {status}, but the status is {}", status_text(o.status)));
    }
    if !o.out.is_empty() {
        return Err("the usage text belongs on standard error, but something is on standard output".into());
    }
    let e = o.err.to_lowercase();
    for w in USAGE {
        if !e.contains(w) {
            return Err(format!("expected the usage text, but standard error does not mention {w:?}"));
        }
    }
    Ok(1)
}

pub fn c22(t: &mut Tasks) {
    let th = t.thorough;
    let opts = [("-m", "--minimize"), ("-d", "--derange"), ("-s", "--split"), ("-r", "--resize"), ("-e", "--enumerate")];
    // usage
    t.add("usage", move |r| {
        r.check(vec![], |o| usage(o, 1));
        r.check(args(&["--help"]), |o| usage(o, 0));
        let words = ["10.0.0.0/24", "10.0.0.1", "26", "x", "-m", "--help", "--", "-", "", " ", "--color-test"];
        for s in sequences(words.len(), if th { 5 } else { 4 }) {
            let w: Vec<String> = s.iter().map(|i| words[*i].to_string()).collect();
            if r.stopped() {
                return;
            }
            for (short, long) in opts {
                for o in [short, long] {
                    let mut a = vec![o.to_string()];
                    a.extend(w.iter().cloned());
                    let n = w.len();
                    let wrong = match short {
                        "-m" | "-e" => n < 1,
                        "-s" => n < 2,
                        _ => n != 2,
                    };
                    if wrong {
                        r.check(a, |o| usage(o, 1));
                    }
                }
            }
            // --help shows the usage text whatever follows
            let mut a = args(&["--help"]);
            a.extend(w);
            r.check(a, |o| usage(o, 0));
        }
        for n in 5..300 {
            for w in ["10.0.0.1", "::1", "24", "x", ""] {
                for (short, long) in opts {
                    for o in [short, long] {
                        if short == "-d" || short == "-r" {
                            let mut a = vec![o.to_string()];
                            a.extend((0..n).map(|i| if i == 0 && short == "-r" { "10.0.0.0/8".to_string() } else { w.to_string() }));
                            r.check(a, |o| usage(o, 1));
                        }
                    }
                }
            }
        }
    });
    t.bound("no argument, --help with anything after it, and every mode with the wrong number of arguments, out of all sequences of up to 4 (thorough: 5) of 11 words; and with 5 to 300 arguments");
    // long and short options
    let words = ["10.0.0.0/28", "10.0.0.16/255.255.255.240", "10.0.0.1", "10.0.0.9", "27", "5", "fe80::/126", "fe80::1", "-0.0.0.3", "x"];
    for first in 0..words.len() {
        t.add(format!("short and long options before {}", words[first]), move |r| {
            for s in sequences(words.len(), if th { 3 } else { 2 }) {
                let mut w = vec![words[first].to_string()];
                w.extend(s.iter().map(|i| words[*i].to_string()));
                for (short, long) in opts {
                    let mk = |o: &str| {
                        let mut a = vec![o.to_string()];
                        a.extend(w.iter().cloned());
                        a
                    };
                    r.check_many(vec![mk(short), mk(long)], |o| {
                        if o[0] == o[1] {
                            Ok(2)
                        } else {
                            Err("the short and the long option do not do the same".into())
                        }
                    });
                }
            }
        });
    }
    t.bound(format!("the short and the long form of every option before every sequence of up to {} out of {} words", if th { 4 } else { 3 }, words.len()));
    // anything else starting with a dash is not an option, and options count only in the first place
    t.add("unknown options", move |r| {
        let known: Vec<&str> = opts.iter().flat_map(|(a, b)| [*a, *b]).chain(["--help", "--color-test"]).collect();
        let mut l: Vec<String> = vec!["-".into(), "--".into(), "---".into(), "-h".into(), "-?".into(), "--version".into(), "-V".into(), "-v".into(), "/?".into(), "help".into(), "-help".into()];
        for c in (33..127u8).map(|c| c as char) {
            l.push(format!("-{c}"));
            l.push(format!("-m{c}"));
        }
        for (s, o) in opts {
            l.push(format!("-{s}"));
            l.push(o.to_uppercase());
            l.push(s.to_uppercase());
            l.push(format!("{o}="));
            l.push(format!("{o}=10.0.0.0/24"));
            l.push(format!("{s}10.0.0.0/24"));
            for i in 0..o.len() {
                l.push(o[..i].to_string());
                l.push(o[i..].to_string());
                l.push(format!("{}{}", &o[..i], &o[i + 1..]));
                l.push(format!("{}x{}", &o[..i], &o[i..]));
            }
            l.push(format!(" {o}"));
            l.push(format!("{o} "));
        }
        // the short options are of one letter, the long ones are not abbreviated or edited
        for o in &known {
            let c: Vec<char> = o.chars().collect();
            let put = |a: &[char], m: &str, b: &[char]| format!("{}{}{}", a.iter().collect::<String>(), m, b.iter().collect::<String>());
            for i in 0..=c.len() {
                l.push(put(&c[..i], "", &[]));
                l.push(put(&[], "", &c[i..]));
                if i < c.len() {
                    l.push(put(&c[..i], "", &c[i + 1..]));
                    let x = c[i];
                    let flip = if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
                    l.push(put(&c[..i], &flip.to_string(), &c[i + 1..]));
                }
                if i + 1 < c.len() {
                    l.push(put(&c[..i], &format!("{}{}", c[i + 1], c[i]), &c[i + 2..]));
                }
                for b in (1..128u8).map(|b| (b as char).to_string()).chain(["\u{2010}", "\u{2011}", "\u{2013}", "\u{2014}", "\u{2212}", "\u{e9}", "\u{a0}", "\u{feff}"].map(|s| s.to_string())) {
                    l.push(put(&c[..i], &b, &c[i..]));
                    if i < c.len() {
                        l.push(put(&c[..i], &b, &c[i + 1..]));
                    }
                }
            }
            l.push(o.to_uppercase());
            l.push(format!("{o}{o}"));
            for x in ["=true", "=1", "-all", "=10.0.0.0/24", ":10.0.0.0/24", "10.0.0.0/24"] {
                l.push(format!("{o}{x}"));
            }
        }
        // British spellings and other names for the same things
        for x in ["--minimise", "--min", "--merge", "--aggregate", "--colour-test", "--color", "--colour", "--no-color", "--list", "--range", "--deaggregate", "--subnet", "--json", "--quiet", "--verbose", "--usage", "--version", "-hv", "-mm", "-ms", "/h", "/help", "/m"] {
            l.push(x.to_string());
        }
        for w in crate::dict::get().words() {
            for x in [w.clone(), format!("-{w}"), format!("--{w}"), format!("--{}", w.to_lowercase())] {
                if super::addrtext::class_netspec(&x) == super::addrtext::Class::Invalid {
                    l.push(x);
                }
            }
        }
        l.retain(|x| x.starts_with('-') || x.chars().any(|c| !c.is_ascii_digit() && c != '.' && c != '/' && c != ':'));
        l.sort();
        l.dedup();
        l.retain(|x| !known.contains(&x.as_str()));
        for x in &l {
            for rest in [vec![], vec!["10.0.0.0/24"], vec!["10.0.0.1", "10.0.0.9"], vec!["10.0.0.0/24", "26"], vec!["--help"], vec!["-e", "10.0.0.0/30"]] {
                let mut a = vec![x.clone()];
                a.extend(rest.iter().map(|s| s.to_string()));
                r.check(a, |o| refused(o).map_err(|e| format!("an unknown option: {e}")));
            }
        }
        // what does not look like a network, and then an option with its arguments
        for x in ["", " ", "-", "--", "---", "\t", "\n", "x", "/", "--no-color", "-v", "+", "=", "ripcalc", "0", "0.0.0.0", "::", "10.0.0.0/33", "10.0.0.0/8 ", "'", "\"\"", "."] {
            for k in &known {
                for rest in [&[][..], &["10.0.0.0/30"], &["10.0.0.0", "10.0.0.3"], &["10.0.0.0/24", "26"], &["10.0.0.0/24", "5", "6"], &["::1/126", "fe80::/127"]] {
                    for n in 1..=3 {
                        let mut a = vec![x.to_string(); n];
                        a.push(k.to_string());
                        a.extend(rest.iter().map(|s| s.to_string()));
                        r.check(a, |o| refused(o).map_err(|e| format!("an option behind something that is no network: {e}")));
                    }
                }
            }
        }
        // an option after the first argument
        for k in &known {
            for place in 1..3 {
                let mut a = args(&["10.0.0.0/24", "fe80::1/10"]);
                a.insert(place, k.to_string());
                r.check(a, |o| refused(o).map_err(|e| format!("an option in the place of a network: {e}")));
                for (s, _) in opts.iter().filter(|o| o.0 == "-m") {
                    let mut a = args(&[s, "10.0.0.0/24", "10.0.1.0/24"]);
                    a.insert(place + 1, k.to_string());
                    r.check(a, |o| refused(o).map_err(|e| format!("an option in the place of a network: {e}")));
                }
            }
            for (s, _) in opts {
                if s == "-m" || s == "-e" {
                    r.check(args(&[s, k]), refused);
                }
                if s == "-s" || s == "-r" || s == "-d" {
                    r.check(args(&[s, k, "5"]), refused);
                    r.check(args(&[s, "10.0.0.0/24", k]), refused);
                }
            }
        }
    });
    t.bound("every single-letter option, near misses of the long options, every word and character in the literals of the sources (also with one or two dashes), and options behind the first argument: refused as malformed networks");
    // the first argument decides the mode
    t.add("the mode of the first argument", move |r| {
        let n = Net::cidr(V4, 0x0a000000, 30);
        for e in ["-e", "--enumerate"] {
            r.check(args(&[e, "10.0.0.0/30"]), move |o| super::enumerate::judge(&[n], o));
        }
        for e in ["-m", "--minimize"] {
            r.check(args(&[e, "10.0.0.0/30"]), move |o| if o.out == "10.0.0.0/30\n" && o.status == 0 { Ok(1) } else { Err("expected the network alone".into()) });
        }
        for e in ["-d", "--derange"] {
            r.check(args(&[e, "10.0.0.3", "10.0.0.0"]), move |o| if o.out == "10.0.0.0/30\n" && o.status == 0 { Ok(1) } else { Err("expected 10.0.0.0/30 alone".into()) });
        }
        for e in ["-s", "--split"] {
            r.check(args(&[e, "10.0.0.0/30", "2"]), move |o| if o.out.starts_with("Subnet to split:") && o.out.contains("Subnet for 2 hosts:") && o.status == 0 { Ok(1) } else { Err("expected a split".into()) });
        }
        for e in ["-r", "--resize"] {
            r.check(args(&[e, "10.0.0.0/30", "31"]), move |o| if o.out.starts_with("Original network:") && o.out.contains("Subnet 2:") && o.status == 0 { Ok(1) } else { Err("expected subnets".into()) });
        }
        r.check(args(&["10.0.0.0/30"]), move |o| {
            let (b, _) = parse::block(V4, &o.lines())?;
            parse::same_facts(V4, &b, &parse::expected_block(&n, Some(n.base)))
        });
    });
}
