//! C07: --resize to smaller networks.  C08: --resize to a network of the same size or larger.
use crate::gen::*;
use crate::model::*;
use crate::parse;
use crate::run::*;
use crate::Tasks;

/// A network as the blocks of --resize show it: the base, and the prefix or (lopsided) the last
/// address.
struct Shown {
    title: String,
    base: u128,
    prefix: Option<u32>,
    last: Option<u128>,
}

fn read(fam: Fam, o: &Out) -> Result<Vec<Shown>, String> {
    let lines = o.lines();
    let mut v: Vec<Shown> = vec![];
    let mut title: Option<String> = None;
    for l in lines {
        let t = l.trim();
        if t.is_empty() {
            continue;
        }
        let first = t.split_whitespace().next().unwrap();
        match first {
            "Network:" => {
                let x = t.split_whitespace().nth(1).unwrap_or("");
                let title = title.take().ok_or_else(|| format!("a network without a title: {l:?}"))?;
                let (a, p) = match x.split_once('/') {
                    None => (x, None),
                    Some((a, p)) => (a, Some(p.parse::<u32>().map_err(|_| format!("not a prefix: {l:?}"))?)),
                };
                let base = fam.parse(a).ok_or_else(|| format!("not an address: {l:?}"))?;
                v.push(Shown { title, base, prefix: p, last: None });
            },
            "Broadcast:" => {
                let x = t.split_whitespace().nth(1).unwrap_or("");
                let a = fam.parse(x).ok_or_else(|| format!("not an address: {l:?}"))?;
                match v.last_mut() {
                    Some(s) if s.last.is_none() => s.last = Some(a),
                    _ => return Err(format!("unexpected line {l:?}")),
                }
            },
            "HostMin:" | "HostMax:" | "Hosts/Net:" | "no" => {},
            _ => {
                if let Some(x) = t.strip_suffix(':') {
                    if let Some(x) = title {
                        return Err(format!("nothing follows the title {x:?}"));
                    }
                    title = Some(x.to_string());
                } else {
                    return Err(format!("unexpected line {l:?}"));
                }
            },
        }
    }
    Ok(v)
}

fn same(s: &Shown, n: &Net) -> Result<(), String> {
    if s.base != n.base || s.prefix != n.prefix() {
        let p = s.prefix.map(|p| format!("/{p}")).unwrap_or_default();
        return Err(format!("{:?} is {}{}, expected {}", s.title, n.fam.fmt(s.base), p, n.text()));
    }
    if let Some(l) = s.last {
        if l != n.last() {
            return Err(format!("{:?} ends at {}, expected {} ({})", s.title, n.fam.fmt(l), n.fam.fmt(n.last()), n.text()));
        }
    } else if n.host_bits() > 0 {
        return Err(format!("{:?} ({}) is shown without its last address", s.title, n.text()));
    }
    Ok(())
}

/// What --resize must print after the original network.
pub fn expected(net: &Net, mask: u128, i: u128) -> Net {
    let fam = net.fam;
    let n = net.mask.count_ones();
    let m = mask.count_ones();
    let nb = extract(net.base, net.mask);
    let bits = if m >= n {
        let k = m - n;
        (if k >= 128 { 0 } else { nb << k }) | i
    } else {
        let k = n - m;
        if k >= 128 {
            0
        } else {
            nb >> k
        }
    };
    Net { fam, base: deposit(bits, mask), mask }
}

/// judge for either property: `smaller`: C07, else C08
pub fn judge(net: &Net, mask: u128, smaller: bool, o: &Out) -> Verdict {
    let (n, m) = (net.mask.count_ones(), mask.count_ones());
    if (m > n) != smaller {
        return Ok(0);
    }
    if o.status != 0 {
        return Err(format!("valid arguments, but status {}", status_text(o.status)));
    }
    let v = read(net.fam, o)?;
    if v.is_empty() || v[0].title != "Original network" {
        return Err("the original network is not shown first".into());
    }
    same(&v[0], net)?;
    let v = &v[1..];
    if m > n {
        let count = 1u128 << (m - n);
        for (i, s) in v.iter().enumerate() {
            if s.title != format!("Subnet {}", i + 1) {
                return Err(format!("subnet {} is titled {:?}", i + 1, s.title));
            }
            if i as u128 >= count {
                return Err(format!("{} subnets are shown, there are {}", v.len(), count));
            }
            same(s, &expected(net, mask, i as u128))?;
        }
        if (v.len() as u128) != count {
            return Err(format!("{} subnets are shown, there are {}", v.len(), count));
        }
    } else {
        let title = if m == n { "Same-sized net" } else { "Supernet" };
        if v.len() != 1 {
            return Err(format!("{} networks are shown, expected one {:?}", v.len(), title));
        }
        if v[0].title != title {
            return Err(format!("the network is titled {:?}, expected {:?}", v[0].title, title));
        }
        same(&v[0], &expected(net, mask, 0))?;
    }
    Ok(v.len() as u64 + 1)
}

fn one(r: &mut Runner, smaller: bool, fam: Fam, addr: u128, from: u128, to: u128) {
    let (n, m) = (from.count_ones(), to.count_ones());
    if (m > n) != smaller || (smaller && m - n > 12) {
        return;
    }
    let net = Net::new(fam, addr, from);
    let new = match fam.mask_prefix(to) {
        Some(p) => p.to_string(),
        None => fam.fmt(to),
    };
    r.check(args(&["-r", &spec(fam, addr, from), &new]), move |o| judge(&net, to, smaller, o));
}

fn spaces(t: &mut Tasks, smaller: bool) {
    let th = t.thorough;
    for fam in FAMS {
        let w = fam.w();
        // CIDR to CIDR, all pairs of prefixes
        let deep = if th { 10 } else { 6 };
        for p in 0..=w {
            t.add(format!("{fam:?} /{p} to every prefix"), move |r| {
                for q in 0..=w {
                    if q > p + deep {
                        continue;
                    }
                    for bg in backgrounds(fam) {
                        one(r, smaller, fam, bg, fam.prefix_mask(p), fam.prefix_mask(q));
                    }
                }
                // addresses around every bit
                for i in 0..w {
                    for q in [p.saturating_sub(1), p, p + 1, p.saturating_sub(3), p + 2, 0, p / 2] {
                        if q <= w {
                            for a in [1u128 << i, fam.full() ^ 1u128 << i] {
                                one(r, smaller, fam, a, fam.prefix_mask(p), fam.prefix_mask(q));
                            }
                        }
                    }
                }
            });
        }
        t.bound(if smaller {
            format!("{fam:?} CIDR to CIDR: every pair of prefixes up to {deep} bits apart, on 4 backgrounds; single set or cleared bits")
        } else {
            format!("{fam:?} CIDR to CIDR: every pair of prefixes, on 4 backgrounds; single set or cleared bits")
        });
        // any mask to any mask in a window
        let (k, at_list): (u32, Vec<u32>) = match (fam, th) {
            (V4, false) => (4, key_offsets(V4, 4)),
            (V4, true) => (5, offsets(V4, 5)),
            (V6, false) => (3, key_offsets(V6, 3)),
            (V6, true) => (4, key_offsets(V6, 4)),
        };
        for at in at_list {
            t.add(format!("{fam:?} any masks in window {k}@{at}"), move |r| {
                let win = ((1u128 << k) - 1) << at;
                for bgi in [1usize, 2] {
                    let bg = backgrounds(fam)[bgi];
                    for other in [fam.full() & !win, fam.prefix_mask(w - at - k)] {
                        for m1 in 0..1u128 << k {
                            for m2 in 0..1u128 << k {
                                let (a, b) = (other | m1 << at, other | m2 << at);
                                // all network values in the window
                                let mut sub = 0u128;
                                loop {
                                    one(r, smaller, fam, bg & !win | sub << at, a, b);
                                    if sub == m1 {
                                        break;
                                    }
                                    sub = sub.wrapping_sub(m1) & m1;
                                }
                            }
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?} any mask to any mask: all pairs of masks that differ inside a {k}-bit window (the rest network bits, or CIDR), all values there"));
        // where addresses have a meaning of their own
        for (i, c) in place_addrs(fam).chunks(64).enumerate() {
            let c = c.to_vec();
            t.add(format!("{fam:?} places {i}"), move |r| {
                for a in c {
                    for p in 0..=w {
                        if fam == V6 && !th && p % 8 != 0 && !(60..68).contains(&p) && p < 120 {
                            continue;
                        }
                        for q in if smaller { [p + 1, p + 2, p + 3, p + 4] } else { [p, p.saturating_sub(1), p.saturating_sub(8), 0] } {
                            if q <= w {
                                one(r, smaller, fam, a, fam.prefix_mask(p), fam.prefix_mask(q));
                            }
                        }
                    }
                    let (full, cl) = (fam.full(), fam.full() << (w / 2) & fam.full());
                    for (x, y) in [(cl, full & !0x0101_0101), (full & !0x0101_0101, cl), (full & !0xff, full & !0xff00), (full & !0xff00, full & !0xff), (full & !0x0f, full & !0xf0f0 | 0xf0), (cl, cl >> 4), (cl >> 3, cl)] {
                        one(r, smaller, fam, a, x, y);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: {} addresses in and around the blocks of the IANA registries and usual private networks, {} prefixes to four others, and some lopsided masks", place_addrs(fam).len(), if fam == V6 && !th { "selected" } else { "all" }));
        // block masks: sparse pairs out of a large set of mixed masks
        let masks: Vec<u128> = {
            let b = block_masks(fam);
            let mut m: Vec<u128> = b.into_iter().step_by(match (fam, th) { (V4, false) => 13, (V4, true) => 3, (V6, false) => 37, (V6, true) => 11 }).collect();
            for p in (0..=w).step_by(if fam == V4 { 3 } else { 9 }) {
                m.push(fam.prefix_mask(p));
                m.push(!fam.prefix_mask(p) & fam.full());
            }
            m.sort();
            m.dedup();
            m
        };
        let masks = std::sync::Arc::new(masks);
        t.bound(format!("{fam:?} any mask to any mask: all pairs of {} masks made of byte or group patterns, two addresses", masks.len()));
        let parts = 16;
        for part in 0..parts {
            let masks = masks.clone();
            t.add(format!("{fam:?} pairs of block masks, part {part}"), move |r| {
                for a in masks.iter().skip(part).step_by(parts) {
                    for b in masks.iter() {
                        let d = b.count_ones() as i32 - a.count_ones() as i32;
                        if d > if th { 8 } else { 5 } {
                            continue;
                        }
                        for bgi in [2, 3] {
                            one(r, smaller, fam, backgrounds(fam)[bgi], *a, *b);
                        }
                    }
                }
            });
        }
        // very many subnets: past every 16-bit counter (thorough: more)
        if smaller {
            let k = if th { 18u32 } else { 16 };
            let spread = (0..k + 1).fold(0u128, |m, i| m | 1u128 << (i + i / 5 * if fam == V4 { 1 } else { 5 }));
            let hole = fam.full() & !(0b101 << (w / 2)) & !(fam.full() >> (w - k / 2 - 1));
            for (addr, from, to) in [
                (backgrounds(fam)[2], fam.prefix_mask(8), fam.prefix_mask(8 + k + 1)),
                (backgrounds(fam)[3], fam.full() & !spread, fam.full()),
                (backgrounds(fam)[1], hole & fam.prefix_mask(w - k - 5), hole),
            ] {
                let d = to.count_ones() as i64 - from.count_ones() as i64;
                if d < 1 || d > k as i64 + 1 {
                    continue;
                }
                t.add(format!("{fam:?} {} subnets of {}", 1u64 << d, spec(fam, addr, from)), move |r| {
                    let net = Net::new(fam, addr, from);
                    let new = fam.mask_prefix(to).map(|p| p.to_string()).unwrap_or(fam.fmt(to));
                    let a = args(&["-r", &spec(fam, addr, from), &new]);
                    let rel = r.sh.bin.join("ripcalc-rel");
                    let bin = if rel.exists() { rel } else { r.sh.bin.join("ripcalc") };
                    let o = r.exec_with(&bin, &a, &[], std::time::Duration::from_secs(300));
                    r.book(hash_of(&a), 1 << d);
                    if let Err(e) = judge(&net, to, true, &o) {
                        let o = Out { out: clip(&o.out, 2000), ..o };
                        r.violation(e, vec![(Env::Release, a)], vec![o], String::new());
                        return;
                    }
                    r.sample(format!("{} => {} subnets, all as expected", show_runs(&[(Env::Release, a)]), 1u64 << d));
                });
            }
            t.bound(format!("{fam:?}: up to 2^{} subnets at once (release build)", k + 1));
        }
        // many subnets
        if smaller {
            t.add(format!("{fam:?} many subnets"), move |r| {
                for p in [0u32, 1, 7, w / 2 - 4, w / 2 - 1, w - 12, w - 11] {
                    for k in [7u32, 8, 9, 10, 11, 12] {
                        if p + k <= w && (th || k < 11) {
                            one(r, smaller, fam, backgrounds(fam)[2], fam.prefix_mask(p), fam.prefix_mask(p + k));
                            // and with the new network bits spread out
                            let spread = (0..k).fold(0u128, |m, i| m | 1u128 << (i * ((w - p) / k)));
                            if (spread & fam.prefix_mask(p)) == 0 {
                                one(r, smaller, fam, backgrounds(fam)[1], fam.prefix_mask(p), fam.prefix_mask(p) | spread);
                            }
                        }
                    }
                }
            });
            t.bound(format!("{fam:?}: up to {} subnets", if th { 4096 } else { 1024 }));
            // and many from and to every shape of mask
            let ks: Vec<u32> = if th { (6..=12).collect() } else { vec![6, 8, 9, 10] };
            for k in ks {
                t.add(format!("{fam:?} {} subnets of masks of every shape", 1u64 << k), move |r| {
                    let mut firsts: Vec<u128> = backgrounds(fam);
                    firsts.extend([0x0b, 0xac, 0x64, 0xc1].map(|b: u128| b << (w - 8) | 0x05_0607));
                    let full = fam.full();
                    // k bits of the host part of a mask, taken in four ways
                    let take = |host: u128, way: u32| -> Option<u128> {
                        let bits: Vec<u32> = (0..w).filter(|b| host >> b & 1 == 1).collect();
                        let n = bits.len();
                        if n < k as usize {
                            return None;
                        }
                        let k = k as usize;
                        let pick: Vec<u32> = match way {
                            0 => bits[n - k..].to_vec(),
                            1 => bits[..k].to_vec(),
                            2 => (0..k).map(|i| bits[i * n / k]).collect(),
                            _ => bits[..k / 2].iter().chain(&bits[n - (k - k / 2)..]).copied().collect(),
                        };
                        Some(pick.iter().fold(0, |m, b| m | 1u128 << b))
                    };
                    let hosts: Vec<u128> = {
                        let mut h: Vec<u128> = vec![];
                        for at in [0, w / 2 - k, w - k - 1, 3] {
                            // one run of host bits; two; every second bit
                            h.push(((1 << k) - 1) << at & full);
                            h.push((((1u128 << (k / 2)) - 1) | ((1u128 << (k - k / 2)) - 1) << (w / 2 + 1)) & full);
                            h.push((0..k).fold(0, |m, i| m | 1u128 << (i * (w / k))) & full);
                            h.push((((1u128 << k) - 1) << at | 0b11) & full);
                        }
                        h.sort();
                        h.dedup();
                        h
                    };
                    for host in hosts {
                        for way in 0..4 {
                            let Some(new) = take(host, way) else { continue };
                            let to = (full & !host) | new;
                            for a in &firsts {
                                if r.stopped() {
                                    return;
                                }
                                one(r, smaller, fam, *a, full & !host, to);
                            }
                        }
                    }
                    // a lopsided network cut into CIDR networks
                    for to in (k + 2..=w).step_by(if th || w == 32 { 1 } else { 7 }) {
                        let net = fam.prefix_mask(to);
                        for way in 1..4 {
                            if let Some(host) = take(net & !(1 << (w - 1)), way) {
                                for a in firsts.iter().skip(way as usize % 2).step_by(2) {
                                    if r.stopped() {
                                        return;
                                    }
                                    one(r, smaller, fam, *a, net & !host, net);
                                }
                            }
                        }
                    }
                });
            }
            t.bound(format!("{fam:?}: 64, 256, 512 and 1024 (thorough: every power of two up to 4096) subnets of 8 addresses, from masks with one run of host bits, two, and scattered ones, to ones with the highest, lowest, evenly chosen and outermost of these added, and from lopsided masks to CIDR prefixes"));
        }
    }
}

pub fn c07(t: &mut Tasks) {
    spaces(t, true);
}
pub fn c08(t: &mut Tasks) {
    spaces(t, false);
    let _ = parse::binary;
}
