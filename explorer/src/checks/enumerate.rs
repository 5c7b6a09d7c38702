//! C01: --enumerate prints exactly the members, ascending.
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use crate::Tasks;

/// Compares the output with the concatenation of the members of the networks.
pub fn judge(nets: &[Net], o: &Out) -> Verdict {
    if o.status != 0 {
        return Err(format!("enumerating a valid network ended with status {}", status_text(o.status)));
    }
    if !o.out.is_empty() && !o.out.ends_with('\n') {
        return Err("the last line is not terminated".into());
    }
    let mut lines = o.out.lines();
    let mut n = 0;
    for net in nets {
        let last = net.span();
        let mut i = 0u128;
        loop {
            let want = net.member(i);
            match lines.next() {
                None => return Err(format!("the list ends after {} addresses; member {} of {} ({}) is missing", n, i, net.text(), net.fam.fmt(want))),
                Some(l) => match parse_any(l.trim()) {
                    Some((f, a)) if f == net.fam && a == want => {},
                    _ => return Err(format!("line {} is {:?}, expected {} (member {} of {})", n + 1, l, net.fam.fmt(want), i, net.text())),
                },
            }
            n += 1;
            if i == last {
                break;
            }
            i += 1;
        }
    }
    if let Some(l) = lines.next() {
        return Err(format!("after the last member there is a line {l:?}"));
    }
    Ok(n)
}

fn one(r: &mut Runner, fam: Fam, addr: u128, mask: u128) {
    let net = Net::new(fam, addr, mask);
    r.check(args(&["-e", &spec(fam, addr, mask)]), move |o| judge(&[net], o));
}

/// Reads at most `limit` lines of the enumeration of a large network from a process.
fn large(r: &mut Runner, fam: Fam, addr: u128, mask: u128, limit: u64, env: Env) {
    let net = Net::new(fam, addr, mask);
    let a = args(&["-e", &spec(fam, addr, mask)]);
    let mut seen = 0u64;
    let see = |i: u64, l: &str| {
        seen = i + 1;
        if i >= limit {
            return Ok(false);
        }
        if i as u128 > net.span() {
            return Err(format!("after the last member there is a line {l:?}"));
        }
        let want = net.member(i as u128);
        match parse_any(l.trim()) {
            Some((f, a)) if f == fam && a == want => Ok(true),
            _ => Err(format!("line {} is {:?}, expected {}", i + 1, l, fam.fmt(want))),
        }
    };
    let long = std::time::Duration::from_secs(1200);
    let res = if env == Env::Release { r.stream_fast(&a, long, see) } else { r.stream(&a, long, see) };
    let n = (net.span()).min(limit as u128) as u64;
    r.book(hash_of(&a), n);
    r.sample(format!("{} => {} lines read", show_runs(&[(env, a.clone())]), n));
    let bad = match res {
        Err(e) => Some(e),
        Ok(None) => None,
        Ok(Some(0)) if net.span() < limit as u128 && seen as u128 == net.span() + 1 => None,
        Ok(Some(s)) => Some(format!("the enumeration of {} ended after {seen} lines with status {}", net.text(), status_text(s))),
    };
    if let Some(e) = bad {
        r.violation(e, vec![(env, a)], vec![], String::new());
    }
}

pub fn c01(t: &mut Tasks) {
    let th = t.thorough;
    // few host bits: everywhere
    for fam in FAMS {
        let k = match (fam, th) {
            (V4, false) => 6,
            (V4, true) => 8,
            (V6, false) => 3,
            (V6, true) => 5,
        };
        let hb = if th { 8 } else { 6 };
        for at in offsets(fam, k) {
            t.add(format!("{fam:?} window {k}@{at}, 0..={hb} host bits"), move |r| {
                for h in 0..=hb {
                    for bg in backgrounds(fam) {
                        for a in window(fam, at, k, bg) {
                            one(r, fam, a, fam.prefix_mask(fam.w() - h));
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?} CIDR: every value of every {k}-bit window on 4 backgrounds, 0..={hb} host bits"));
        let hi = if th { 16 } else { 12 };
        for h in hb + 1..=hi {
            t.add(format!("{fam:?} {h} host bits"), move |r| {
                let k = 2;
                for at in key_offsets(fam, k) {
                    for bg in backgrounds(fam).into_iter().take(if h > 10 { 2 } else { 4 }) {
                        for a in window(fam, at, k, bg) {
                            if r.stopped() {
                                return;
                            }
                            one(r, fam, a, fam.prefix_mask(fam.w() - h));
                        }
                    }
                }
            });
        }
        for h in hi + 1..=(if th { 20 } else { 17 }) {
            t.add(format!("{fam:?} {h} host bits"), move |r| {
                for bg in backgrounds(fam) {
                    one(r, fam, bg, fam.prefix_mask(fam.w() - h));
                    r.flush();
                }
            });
        }
        // lopsided: any few host bits
        let n = match (fam, th) {
            (V4, false) => 3,
            (V4, true) => 4,
            (V6, false) => 2,
            (V6, true) => 3,
        };
        let all = std::sync::Arc::new(sparse_wildcards(fam, n));
        let parts = 32;
        for p in 0..parts {
            let all = all.clone();
            t.add(format!("{fam:?} up to {n} host bits anywhere, part {p}"), move |r| {
                for (i, m) in all.iter().enumerate() {
                    if i % parts == p {
                        for bg in backgrounds(fam) {
                            one(r, fam, bg, *m);
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?} lopsided: every set of at most {n} host bits, 4 addresses each"));
        // lopsided: dense host bits in a window
        let k = if th { 10 } else { 8 };
        for at in key_offsets(fam, k) {
            t.add(format!("{fam:?} host bits any pattern of {k}@{at}"), move |r| {
                for p in 0..1u128 << k {
                    let mask = fam.full() & !(p << at);
                    let step = if th { 0 } else { 2 };
                    for bg in backgrounds(fam).into_iter().skip(step) {
                        one(r, fam, bg, mask);
                    }
                }
            });
        }
        t.bound(format!("{fam:?} lopsided: every pattern of host bits in {k}-bit windows"));
        // lopsided: scattered host bits, up to 12
        t.add(format!("{fam:?} scattered host bits"), move |r| {
            let w = fam.w();
            for stride in 1..=w / 3 {
                for n in 1..=(w / stride).min(if th { 14 } else { 11 }) {
                    for from in [0, 1, w - 1 - stride * (n - 1)] {
                        if from + stride * (n - 1) >= w {
                            continue;
                        }
                        let wild = (0..n).fold(0u128, |m, i| m | 1u128 << (from + i * stride));
                        for bg in backgrounds(fam).into_iter().skip(1).step_by(2) {
                            if r.stopped() {
                                return;
                            }
                            one(r, fam, bg, fam.full() & !wild);
                        }
                    }
                }
            }
        });
    }
    // where addresses have a meaning of their own
    for fam in FAMS {
        for (i, c) in place_addrs(fam).chunks(40).enumerate() {
            let c = c.to_vec();
            t.add(format!("{fam:?} places {i}"), move |r| {
                let w = fam.w();
                for a in c {
                    for h in 0..=if th { 11 } else { 8 } {
                        one(r, fam, a, fam.prefix_mask(w - h));
                    }
                    for wild in [0b10u128, 0b101, 0x100, 0x10001, 0x10100, 0x8000_0001, 0x0300_0003, 0xff00, 0xf0f0] {
                        one(r, fam, a, fam.full() & !wild);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: networks of up to 2^8 addresses and lopsided ones at {} addresses in and around the blocks of the IANA registries and usual private networks", place_addrs(fam).len()));
    }
    // several networks in one invocation
    let alpha: Vec<Net> = vec![
        Net::cidr(V4, 0xc0a80205, 32),
        Net::cidr(V4, 0xc0a80205, 30),
        Net::cidr(V4, 0xffff_ffff, 31),
        Net::new(V4, 0xc0a80002, 0xffff_fcff),
        Net::cidr(V4, 0, 29),
        Net::cidr(V6, 0x20010db8 << 96, 126),
        Net::cidr(V6, u128::MAX, 127),
        Net::cidr(V6, 1, 128),
        Net::new(V6, 5, !(5 << 63)),
        Net::new(V4, 0x0a000000, 0xff7f_fff7),
    ];
    let len = if th { 4 } else { 3 };
    t.bound(format!("every sequence of at most {len} networks over an alphabet of {}", alpha.len()));
    for first in 0..alpha.len() {
        let alpha = alpha.clone();
        t.add(format!("sequences starting with network {first}"), move |r| {
            for s in sequences(alpha.len(), len - 1) {
                let mut nets = vec![alpha[first]];
                nets.extend(s.iter().map(|i| alpha[*i]));
                let mut a = vec!["--enumerate".to_string()];
                a.extend(nets.iter().map(|n| spec(n.fam, n.base | (n.wildcard() & 0x5555), n.mask)));
                r.check(a, move |o| judge(&nets, o));
            }
        });
    }
    // two networks that differ in their masks alone, or in everything
    for fam in FAMS {
        let w = fam.w();
        let few: Vec<u128> = match fam {
            V4 => sparse_wildcards(V4, 2),
            V6 => (0..w).map(|i| V6.full() & !(1 << i)).chain(sparse_wildcards(V6, 2).into_iter().filter(|m| m.count_zeros() == 2).step_by(if th { 31 } else { 97 })).collect(),
        };
        let few = std::sync::Arc::new(few);
        for part in 0..16 {
            let few = few.clone();
            t.add(format!("{fam:?} pairs of few host bits, part {part}"), move |r| {
                for (i, a) in few.iter().enumerate().skip(part).step_by(16) {
                    for (j, b) in few.iter().enumerate() {
                        let x = backgrounds(fam)[1 + (i + j) % 3];
                        let nets = [Net::new(fam, x, *a), Net::new(fam, backgrounds(fam)[2], *b)];
                        r.check(vec!["-e".into(), spec(fam, x, *a), spec(fam, backgrounds(fam)[2], *b)], move |o| judge(&nets, o));
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every ordered pair of {} masks of one and two host bits in one invocation", few.len()));
        for at in key_offsets(fam, 5) {
            t.add(format!("{fam:?} pairs of patterns of 5@{at}"), move |r| {
                for p in 0..32u128 {
                    for q in 0..32u128 {
                        let (a, b) = (fam.full() & !(p << at), fam.full() & !(q << at));
                        let x = backgrounds(fam)[2];
                        let nets = [Net::new(fam, x, a), Net::new(fam, x, b)];
                        r.check(vec!["-e".into(), spec(fam, x, a), spec(fam, x, b)], move |o| judge(&nets, o));
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every ordered pair of the patterns of host bits in a 5-bit window at {:?}", key_offsets(fam, 5)));
    }
    // large networks
    let lim = if th { 1 << 25 } else { 1 << 19 };
    let big: Vec<(Fam, u128, u128)> = vec![
        (V4, 0, 0),
        (V4, 0xffff_ffff, 0xfffc_0000),
        (V4, 0x0a00_0001, 0xff00_0000),
        (V4, 0xc0a8_0001, 0xff00_00ff),
        (V4, 0x8000_0001, 0x0000_0001),
        (V4, 0x7fff_ffff, 0xffff_ffff ^ 0x5555_5550),
        (V6, 0, 0),
        (V6, 0x20010db8 << 96 | 1, V6.prefix_mask(64)),
        (V6, u128::MAX, V6.prefix_mask(109)),
        (V6, 0x20010db8 << 96 | 7, !(0xffff_ffffu128 << 48)),
        (V6, 7, !(0x5555_5555_5555u128 << 40)),
        (V6, u128::MAX, !(0x3ffffu128 << 55)),
    ];
    t.bound(format!("the first {lim} members of 12 large networks"));
    for (fam, a, m) in big {
        t.add(format!("large {}", spec(fam, a, m)), move |r| large(r, fam, a, m, lim, Env::Plain));
    }
    let whole: [(Fam, u128, u128); 4] = [(V4, 0xff00_0000, 0xff00_0000), (V4, 0x00ff_0001, 0xff), (V6, u128::MAX, V6.prefix_mask(if th { 104 } else { 106 })), (V6, 0x20010db8 << 96 | 7, !(if th { 0xff_ffffu128 << 52 } else { 0x3f_ffffu128 << 52 }))];
    for (fam, a, m) in whole {
        t.add(format!("the whole of {}", spec(fam, a, m)), move |r| large(r, fam, a, m, u64::MAX, if th { Env::Plain } else { Env::Release }));
    }
    t.bound(format!("four networks of 2^24 (IPv4) and {} addresses, each to its end{}", if th { "2^24 (IPv6)" } else { "2^22 (IPv6)" }, if th { "" } else { ", with the release build" }));
}

// ---- C24

const SPACE: u64 = 256 << 20;

/// The first `lines` lines of the enumeration of the networks, in little address space.
fn begin(r: &mut Runner, nets: Vec<Net>, texts: Vec<String>, lines: u64) {
    if r.stopped() {
        return;
    }
    let mut a = vec!["-e".to_string()];
    a.extend(texts);
    let mut at = (0usize, 0u128);
    let res = r.stream_in("ripcalc", &a, TIMEOUT, Some(SPACE), |i, l, _| {
        if i >= lines {
            return Ok(false);
        }
        let (k, m) = at;
        if k >= nets.len() {
            return Err(format!("after the last member there is a line {l:?}"));
        }
        let want = nets[k].member(m);
        at = if m == nets[k].span() { (k + 1, 0) } else { (k, m + 1) };
        match parse_any(l.trim()) {
            Some((f, x)) if f == nets[k].fam && x == want => Ok(true),
            _ => Err(format!("line {} is {:?}, expected {}", i + 1, l, nets[k].fam.fmt(want))),
        }
    });
    r.book(hash_of(&a), lines);
    r.sample(format!("{} in {} MiB => the first {lines} lines are as expected", show_runs(&[(Env::Plain, a.clone())]), SPACE >> 20));
    let bad = match res {
        Err(e) => Some(e),
        Ok(None) => None,
        Ok(Some(0)) if at.0 == nets.len() => None,
        Ok(Some(s)) => Some(format!("the listing stops before line {lines}: exit status {}", status_text(s))),
    };
    if let Some(e) = bad {
        let cmd = show_runs(&[(Env::Plain, a.clone())]);
        r.violation(e, vec![], vec![], format!("$ (ulimit -v {}; timeout 20 {cmd} | sed {lines}q | tail -n 3)", SPACE >> 10));
    }
}

/// Resident memory of a process of ours in pages.
fn resident(pid: u32) -> Option<i64> {
    std::fs::read_to_string(format!("/proc/{pid}/statm")).ok()?.split_whitespace().nth(1)?.parse().ok()
}

/// Does the process grow while it lists `upto` addresses?
fn flat(r: &mut Runner, texts: &[&str], upto: u64) {
    let mut a = vec!["-e".to_string()];
    a.extend(texts.iter().map(|s| s.to_string()));
    let mut before = None;
    let mut grown = None;
    let res = r.stream_in("ripcalc", &a, std::time::Duration::from_secs(300), Some(SPACE), |i, _, pid| {
        if i == 1 << 13 {
            before = resident(pid);
        }
        if i == upto - 1 {
            grown = resident(pid).and_then(|x| before.map(|b| (x - b) * 4096));
            return Ok(false);
        }
        Ok(true)
    });
    r.book(hash_of(&a), upto);
    let cmd = show_runs(&[(Env::Plain, a)]);
    let bad = match (res, grown) {
        (Ok(None), Some(g)) if g > 1 << 20 => Some(format!("the process grew by {g} bytes while it listed {upto} addresses")),
        (Ok(None), Some(g)) => {
            r.sample(format!("{cmd} => grew by {g} bytes between line {} and line {upto}", 1 << 13));
            None
        },
        (Ok(None), None) => None,
        (Ok(Some(s)), _) => Some(format!("the listing stops before line {upto}: exit status {}", status_text(s))),
        (Err(e), _) => Some(e),
    };
    if let Some(e) = bad {
        r.violation(e, vec![], vec![], format!("$ (ulimit -v {}; {cmd} | sed {upto}q | tail -n 3)", SPACE >> 10));
    }
}

pub fn c24(t: &mut Tasks) {
    let th = t.thorough;
    t.conform = 0;
    let lines = if th { 100_000 } else { 2500 };
    for fam in FAMS {
        let w = fam.w();
        let from = 20;
        for h in from..=w {
            t.add(format!("{fam:?} {h} host bits"), move |r| {
                for (i, bg) in backgrounds(fam).into_iter().enumerate() {
                    if th || i == (h % 4) as usize || h + 4 > w {
                        let m = fam.prefix_mask(w - h);
                        begin(r, vec![Net::new(fam, bg, m)], vec![spec(fam, bg, m)], lines);
                    }
                }
                // host bits apart: everything but one network bit, every other bit, scattered groups
                let full = fam.full();
                let alt = (0..w).step_by(2).fold(0u128, |x, i| x | 1 << i);
                for m in [1u128 << (w - h).min(w - 1), 1 << (h - 1), alt, !alt & full, 0x0f0f_0f0f_0f0f_0f0f_0f0f_0f0f_0f0f_0f0f & full, fam.prefix_mask(w - h) ^ full, fam.prefix_mask(w - h) ^ 1] {
                    if m.count_zeros() - (128 - w) >= from {
                        let bg = backgrounds(fam)[(h % 4) as usize];
                        begin(r, vec![Net::new(fam, bg, m)], vec![spec(fam, bg, m)], lines);
                    }
                }
                // behind small ones
                let (s, b) = (Net::new(fam, 5, full ^ 3), Net::cidr(fam, full, w - h));
                begin(r, vec![s, s, b], vec![spec(fam, 5, full ^ 3), spec(fam, 5, full ^ 3), format!("{}/{}", fam.fmt(full), w - h)], lines);
            });
        }
        t.bound(format!("{fam:?}: the first {lines} lines of the listing of networks with {from} to {w} host bits, together or apart, alone or behind small ones, in 256 MiB of address space and {} s", TIMEOUT.as_secs()));
    }
    for fam in FAMS {
        t.add(format!("{fam:?} large places"), move |r| {
            for (a, p) in places(fam) {
                if fam.w() - p >= 16 {
                    let m = fam.prefix_mask(p);
                    begin(r, vec![Net::new(fam, a, m)], vec![spec(fam, a, m)], lines);
                }
            }
        });
    }
    t.bound("the same of every block of 2^16 addresses or more of the IANA registries");
    // several large networks, disjoint, nested or overlapping
    for fam in FAMS {
        let w = fam.w();
        let sizes: Vec<u32> = if th { (20..=w).collect() } else { (20..=w).filter(|h| [20, 24, 31, 32, 33, 63, 64, 65, 96, 126, 127, 128].contains(h)).collect() };
        for h in sizes.clone() {
            let sizes = sizes.clone();
            t.add(format!("{fam:?} 2^{h} addresses and others"), move |r| {
                let bg = backgrounds(fam);
                let alt = (0..w).step_by(2).fold(0u128, |x, i| x | 1 << i);
                let m = fam.prefix_mask(w - h);
                let mut others: Vec<(u128, u128)> = vec![];
                for g in &sizes {
                    others.push((bg[2], fam.prefix_mask(w - g)));
                    others.push((bg[2] ^ 1 << (h - 1), fam.prefix_mask(w - g)));
                }
                for x in [alt, !alt & fam.full(), m ^ fam.full(), 1, 1 << (w - 1)] {
                    if w - x.count_ones() >= 16 {
                        others.push((bg[2], x));
                        others.push((!bg[2] & fam.full(), x));
                    }
                }
                for (a, o) in others {
                    let (n1, s1) = (Net::new(fam, bg[2], m), spec(fam, bg[2], m));
                    let (n2, s2) = (Net::new(fam, a, o), spec(fam, a, o));
                    begin(r, vec![n1, n2], vec![s1.clone(), s2.clone()], 100);
                    begin(r, vec![n2, n1, n2], vec![s2.clone(), s1, s2], 100);
                }
            });
        }
    }
    t.bound("the first lines of the listing of two and three networks, both large, the second equal, nested, overlapping, disjoint or lopsided");
    let upto = if th { 1u64 << 23 } else { 1 << 19 };
    for a in [&["10.0.0.0/8"][..], &["0.0.0.0/0"], &["10.0.0.1/0.85.85.85"], &["fe80::/64"], &["::/0"], &["2001:db8::/ffff:ffff::ffff"], &["10.0.0.0/20", "10.0.0.0/20", "10.0.0.0/8"], &["fe80::/112", "fe80::/110", "10.0.0.0/8"]] {
        t.add(format!("growth while listing {}", a.join(" ")), move |r| flat(r, a, upto));
    }
    t.bound(format!("resident memory grows by at most 1 MiB while {upto} addresses are listed (8 listings)"));
}
