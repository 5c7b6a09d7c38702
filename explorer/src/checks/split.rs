//! C05: the slices of --split.  C06: the unused rest of --split.
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use crate::Tasks;

/// Bits of the smallest block for so many hosts; None: larger than any block.
fn host_bits(fam: Fam, count: &Count) -> Option<u32> {
    let c = match count {
        Count::Huge(_) => return None,
        Count::N(c) => *c,
    };
    // a block of 2^h addresses has 2^h - 2 hosts; a single address has none (two too few), so a
    // slice for no hosts is the smallest block with at least zero hosts, of two addresses
    for h in 1..=fam.w() {
        let hosts = if h == 128 { u128::MAX - 1 } else { (1u128 << h) - 2 };
        if hosts >= c {
            return Some(h);
        }
    }
    None
}

#[derive(Clone, Debug)]
pub enum Count {
    N(u128),
    /// more than u128 holds
    Huge(String),
}
impl Count {
    fn text(&self) -> String {
        match self {
            Count::N(n) => n.to_string(),
            Count::Huge(s) => s.clone(),
        }
    }
}

fn count_list(c: &[u128]) -> Vec<Count> {
    c.iter().map(|x| Count::N(*x)).collect()
}

pub struct Printed {
    pub whole: Net,
    pub slices: Vec<(String, Net)>,
    pub refused: bool,
    pub unused: Option<Vec<Net>>,
}

pub fn read(fam: Fam, o: &Out) -> Result<Printed, String> {
    let lines = o.lines();
    let mut p = Printed { whole: Net { fam, base: 0, mask: 0 }, slices: vec![], refused: false, unused: None };
    let mut title: Option<String> = None;
    let mut seen_whole = false;
    for l in &lines {
        let t = l.trim();
        if t.contains("Not enough addresses available") || t.contains("Network is too small") {
            p.refused = true;
        } else if t == "Unused networks:" {
            if p.unused.is_some() {
                return Err("two lists of unused networks".into());
            }
            p.unused = Some(vec![]);
        } else if let Some(u) = &mut p.unused {
            if t.is_empty() {
                continue;
            }
            u.push(parse_net(t)?);
        } else if t == "Subnet to split:" {
            title = Some(String::new());
        } else if let Some(x) = t.strip_prefix("Subnet for ").and_then(|x| x.strip_suffix(" hosts:")) {
            title = Some(x.to_string());
        } else if let Some(v) = t.strip_prefix("Network:") {
            let v = v.split_whitespace().next().unwrap_or("");
            let n = parse_net(v)?;
            match title.take() {
                None => return Err(format!("a network without a title: {l:?}")),
                Some(x) if x.is_empty() && !seen_whole => {
                    seen_whole = true;
                    p.whole = n;
                },
                Some(x) => p.slices.push((x, n)),
            }
        }
    }
    if !seen_whole {
        return Err("the network to split is not printed".into());
    }
    Ok(p)
}

fn argv(net: &Net, addr: u128, counts: &[Count]) -> Args {
    let mut a = vec!["-s".to_string(), spec(net.fam, addr, net.mask)];
    a.extend(counts.iter().map(|c| c.text()));
    a
}

/// Sum of the block sizes at most the size of the network?
pub fn fits(net: &Net, counts: &[Count]) -> bool {
    let room = net.host_bits();
    let mut left: Option<u128> = net.size(); // None: 2^128
    for c in counts {
        let h = match host_bits(net.fam, c) {
            None => return false,
            Some(h) => h,
        };
        if h > room {
            return false;
        }
        if h == 128 {
            // fills the IPv6 space
            if left.is_some() {
                return false;
            }
            left = Some(0);
            continue;
        }
        let s = 1u128 << h;
        left = match left {
            None => Some(u128::MAX - s + 1),
            Some(l) if l >= s => Some(l - s),
            _ => return false,
        };
    }
    true
}

fn judge_slices(net: &Net, counts: &[Count], o: &Out) -> Verdict {
    if o.status == PANIC || o.status < 0 {
        return Err(format!("status {}", status_text(o.status)));
    }
    let p = read(net.fam, o)?;
    if p.whole != *net {
        return Err(format!("the network to split is printed as {}, it is {}", p.whole.text(), net.text()));
    }
    if !fits(net, counts) {
        if !p.refused {
            return Err("the slices do not fit into the network, but nothing says so".into());
        }
        if p.unused.is_some() {
            return Err("the slices do not fit, but unused networks are listed".into());
        }
        return Ok(2);
    }
    if o.status != 0 {
        return Err(format!("the slices fit, but the status is {}", status_text(o.status)));
    }
    if p.refused {
        return Err("the slices fit, but the split is refused".into());
    }
    if p.slices.len() != counts.len() {
        return Err(format!("{} slices are printed for {} host counts", p.slices.len(), counts.len()));
    }
    let mut used: Vec<(u128, u128)> = vec![];
    for (i, ((title, s), c)) in p.slices.iter().zip(counts).enumerate() {
        if *title != c.text() {
            return Err(format!("slice {} is titled {:?}, requested was {}", i + 1, title, c.text()));
        }
        let h = host_bits(net.fam, c).unwrap();
        let got = match s.prefix() {
            None => return Err(format!("slice {} is {}, not a CIDR network", i + 1, s.text())),
            Some(q) => net.fam.w() - q,
        };
        if got != h {
            return Err(format!("slice {} ({}) for {} hosts has {} host bits, the smallest block has {}", i + 1, s.text(), c.text(), got, h));
        }
        if s.base < net.base || s.last() > net.last() {
            return Err(format!("slice {} ({}) lies outside of {}", i + 1, s.text(), net.text()));
        }
        used.push((s.base, s.last()));
    }
    used.sort();
    for w in used.windows(2) {
        if w[0].1 >= w[1].0 {
            return Err(format!("two slices overlap: one ends at {}, another starts at {}", net.fam.fmt(w[0].1), net.fam.fmt(w[1].0)));
        }
    }
    Ok(counts.len() as u64 + 1)
}

fn judge_rest(net: &Net, counts: &[Count], o: &Out) -> Verdict {
    if !fits(net, counts) {
        return Ok(0);
    }
    if o.status != 0 {
        return Ok(0); // C05
    }
    let p = read(net.fam, o)?;
    if p.refused {
        return Ok(0); // C05
    }
    // what the slices leave over, whatever they are
    let mut used: Vec<(u128, u128)> = p.slices.iter().map(|(_, s)| (s.base.max(net.base), s.last().min(net.last()))).collect();
    used.sort();
    let mut want: Vec<Net> = vec![];
    let mut at = Some(net.base);
    for (a, b) in &used {
        if let Some(x) = at {
            if *a > x {
                want.extend(range_blocks(net.fam, x, a - 1));
            }
            if *b >= x {
                at = b.checked_add(1).filter(|y| *y <= net.last());
            }
        }
    }
    if let Some(x) = at {
        want.extend(range_blocks(net.fam, x, net.last()));
    }
    let got = p.unused.clone().unwrap_or_default();
    if got != want {
        let show = |v: &[Net]| v.iter().map(|n| n.text()).collect::<Vec<_>>().join(" ");
        return Err(format!("listed as unused: {:?}; left over is: {:?}", show(&got), show(&want)));
    }
    Ok(got.len() as u64 + 1)
}

type Judge = fn(&Net, &[Count], &Out) -> Verdict;

fn one(r: &mut Runner, judge: Judge, fam: Fam, addr: u128, p: u32, counts: Vec<Count>) {
    let net = Net::cidr(fam, addr, p);
    r.check(argv(&net, addr, &counts), move |o| judge(&net, &counts, o));
}

fn spaces(t: &mut Tasks, judge: Judge) {
    let th = t.thorough;
    for fam in FAMS {
        let w = fam.w();
        // one slice: every prefix, counts around every power of two
        for p in 0..=w {
            t.add(format!("{fam:?} one slice in /{p}"), move |r| {
                for bg in backgrounds(fam) {
                    for k in 0..=w {
                        for d in -3i32..=1 {
                            let c = if k == 128 {
                                match d {
                                    0 => Count::Huge("340282366920938463463374607431768211456".into()),
                                    1 => Count::Huge("340282366920938463463374607431768211457".into()),
                                    d => Count::N(u128::MAX - (-d - 1) as u128),
                                }
                            } else {
                                match (1u128 << k).checked_add_signed(d as i128) {
                                    None => continue,
                                    Some(c) => Count::N(c),
                                }
                            };
                            one(r, judge, fam, bg, p, vec![c]);
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: one slice, every prefix length, host counts 2^k-3 .. 2^k+1 for every k, 4 addresses (with host bits, at both ends of the space)"));
        t.add(format!("{fam:?} huge counts"), move |r| {
            for p in [0, 1, 8, w - 8, w] {
                for c in ["4294967296", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "680564733841876926926749214863536422912", "99999999999999999999999999999999999999999999999999999999999999999999999999999999999999"] {
                    let c = c.parse::<u128>().map(Count::N).unwrap_or(Count::Huge(c.into()));
                    for bg in backgrounds(fam) {
                        one(r, judge, fam, bg, p, vec![c.clone()]);
                        one(r, judge, fam, bg, p, vec![Count::N(1), c.clone()]);
                        one(r, judge, fam, bg, p, vec![c.clone(), Count::N(3)]);
                    }
                }
            }
        });
        // sequences of counts over small alphabets
        for hb in 0..=6u32 {
            let (len, alpha): (usize, Vec<u128>) = match hb {
                0..=2 => (4, vec![0, 1, 2, 3, 6, 7]),
                3..=4 => (if th { 5 } else { 4 }, vec![0, 1, 2, 3, 6, 7, 14]),
                _ => (if th { 5 } else { 4 }, vec![0, 2, 3, 6, 14, 15, 30, 31]),
            };
            for bgi in 0..4 {
                let alpha = alpha.clone();
                t.add(format!("{fam:?} sequences in {hb} host bits on background {bgi}"), move |r| {
                    let bg = backgrounds(fam)[bgi];
                    for s in sequences(alpha.len(), len) {
                        if s.is_empty() {
                            continue;
                        }
                        one(r, judge, fam, bg, w - hb, count_list(&s.iter().map(|i| alpha[*i]).collect::<Vec<_>>()));
                    }
                });
            }
        }
        t.bound(format!("{fam:?}: networks of 0..6 host bits, every sequence of up to {} host counts over alphabets of 6 to 8", if th { 5 } else { 4 }));
        // all multisets (non-increasing and in all orders up to 3) of block sizes in bigger networks,
        // placed at every bit offset
        for base_bits in (0..w - 6).step_by(if fam == V4 || th { 1 } else { 3 }) {
            t.add(format!("{fam:?} sizes from 2^{base_bits}"), move |r| {
                let p = w - base_bits - 5;
                // block sizes 2^base_bits .. 2^(base_bits+5)
                for s in sequences(6, if th { 4 } else { 3 }) {
                    if s.is_empty() {
                        continue;
                    }
                    let c: Vec<u128> = s.iter().map(|i| (1u128 << (base_bits + *i as u32)).saturating_sub(2)).collect();
                    for bgi in [1, 2] {
                        one(r, judge, fam, backgrounds(fam)[bgi], p, count_list(&c));
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every sequence of up to {} block sizes out of six successive ones, in a network of the largest size or smaller, at every scale", if th { 4 } else { 3 }));
        // large counts that differ little, or in one of their machine words, in all orders
        let ks: Vec<u32> = if fam == V4 { vec![8, 16, 24, 30] } else { vec![16, 31, 32, 33, 48, 53, 62, 63, 64, 65, 66, 80, 95, 96, 97, 112, 120, 126] };
        for k in ks {
            t.add(format!("{fam:?} large counts around 2^{k}"), move |r| {
                let q = 1u128 << k;
                let mut alpha: Vec<u128> = vec![q - 3, q - 2, q - 1, q, q + 1, q / 2 - 2, q / 2 - 1, q / 2 + 5, 2 * q - 2, 2 * q - 1, 6];
                for b in [32, 64] {
                    if b < k {
                        alpha.extend([q | 1 << b, q - (1 << b), (q >> 1) | (1 << b) | 1]);
                    }
                }
                for s in sequences(alpha.len(), 3) {
                    if s.len() < 2 || s.len() == 3 && !th && s.iter().any(|i| *i > 10) {
                        continue;
                    }
                    let c: Vec<u128> = s.iter().map(|i| alpha[*i]).collect();
                    for hb in [k + 1, k + 3] {
                        if hb <= w {
                            one(r, judge, fam, backgrounds(fam)[2], w - hb, count_list(&c));
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every sequence of two or three large counts around a power of two, half and double of it, and with a lower machine word changed"));
        // where addresses have a meaning of their own
        for (i, (a, p)) in places(fam).into_iter().enumerate() {
            t.add(format!("{fam:?} place {i}"), move |r| {
                for q in p.saturating_sub(1)..=w.min(p + 9) {
                    for d in [0u128, 1, 1u128.checked_shl(w - q).unwrap_or(0) & fam.full()] {
                        for c in [&[0u128][..], &[1, 1], &[2, 2, 2, 2], &[6, 14, 2], &[100, 50, 20], &[254], &[253, 255], &[1000, 500, 60, 2], &[65534], &[65535, 1]] {
                            one(r, judge, fam, a ^ d, q, count_list(c));
                        }
                    }
                }
                let h = w - p;
                if h > 1 {
                    for k in 1..=h.min(4) {
                        let c = (1u128 << (h - k)).saturating_sub(2);
                        for n in 1..=(1usize << k) + 1 {
                            one(r, judge, fam, a, p, count_list(&vec![c; n]));
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: {} blocks of the IANA registries and usual private networks and their parts, into ten lists of counts and into 1 to 17 equal parts", places(fam).len()));
        // every count
        let upto: u128 = if th { 1 << 20 } else { 70_000 };
        for part in 0..8u128 {
            t.add(format!("{fam:?} every count, part {part}"), move |r| {
                for c in (part..upto).step_by(8) {
                    let h = 128 - (c + 1).leading_zeros();
                    one(r, judge, fam, backgrounds(fam)[(c % 4) as usize], w - (h + (c % 3) as u32).clamp(1, w), count_list(&[c]));
                }
            });
        }
        t.bound(format!("{fam:?}: every single host count below {upto} in a network of the least size or up to four times that"));
        // long lists, permuted sizes, repeated sizes
        t.add(format!("{fam:?} long lists"), move |r| {
            let lens: Vec<usize> = if th { vec![17, 21, 32, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257, 300, 512] } else { vec![17, 20, 21, 32, 33, 50, 64, 65, 100, 129, 256, 300] };
            let patterns: Vec<Vec<u128>> = vec![
                vec![0],
                vec![2],
                vec![6],
                vec![2, 6],
                vec![6, 2],
                vec![30, 2, 6, 14],
                vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10],
                vec![10, 9, 8, 7, 6, 5, 4, 3, 2, 1],
                vec![0, 100, 0, 50],
                vec![126, 2, 2, 2, 2],
            ];
            for n in lens {
                for pat in &patterns {
                    let c: Vec<u128> = (0..n).map(|i| pat[i % pat.len()]).collect();
                    let need: u128 = c.iter().map(|x| 1u128 << host_bits(fam, &Count::N(*x)).unwrap()).sum();
                    let hb = 128 - (need - 1).leading_zeros();
                    for h in [hb.saturating_sub(1), hb, hb + 1, hb + 3] {
                        for bgi in [1, 2] {
                            one(r, judge, fam, backgrounds(fam)[bgi], w - h, count_list(&c));
                        }
                    }
                }
            }
        });
        for n in if th { vec![513usize, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4096, 4097, 8193] } else { vec![513, 1025, 2049, 4097] } {
            t.add(format!("{fam:?} {n} host counts"), move |r| {
                for pat in [&[2u128][..], &[0, 6, 1], &[14, 2, 6, 0, 2, 2]] {
                    let c: Vec<u128> = (0..n).map(|i| pat[i % pat.len()]).collect();
                    let need: u128 = c.iter().map(|x| 1u128 << host_bits(fam, &Count::N(*x)).unwrap()).sum();
                    let hb = 128 - (need - 1).leading_zeros();
                    for h in [hb - 1, hb, hb + 2] {
                        one(r, judge, fam, backgrounds(fam)[2], w - h, count_list(&c));
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: lists of 513 to {} host counts in three patterns", if th { 8193 } else { 4097 }));
        t.bound(format!("{fam:?}: lists of 17 to 512 host counts in ten patterns, in networks too small by one bit, exactly large enough and larger"));
        // numbers that the sources mention
        let d = crate::dict::get();
        let (numbers, lens) = (d.numbers(u128::MAX - 2), d.unusual(4100));
        t.add(format!("{fam:?} numbers of the sources as counts"), move |r| {
            for c in numbers {
                for l in [vec![c], vec![c, c], vec![2, c], vec![c, 2], vec![c, 2, c, 0], vec![c / 2, c], vec![c + 1, c, 2]] {
                    let hs: Vec<u32> = l.iter().map(|x| host_bits(fam, &Count::N(*x)).unwrap_or(w)).collect();
                    let most = *hs.iter().max().unwrap();
                    for b in [most, most + 1, most + 2, most + 5] {
                        if b <= w {
                            one(r, judge, fam, backgrounds(fam)[2], w - b, count_list(&l));
                        }
                    }
                }
            }
        });
        for n in lens.into_iter().filter(|n| *n > 0) {
            t.add(format!("{fam:?} {n} host counts, a number of the sources"), move |r| {
                for pat in [&[2u128][..], &[0, 6, 1], &[14, 2, 6, 0, 2, 2]] {
                    let c: Vec<u128> = (0..n as usize).map(|i| pat[i % pat.len()]).collect();
                    let need: u128 = c.iter().map(|x| 1u128 << host_bits(fam, &Count::N(*x)).unwrap()).sum();
                    let hb = 128 - (need - 1).leading_zeros();
                    for h in [hb, hb + 2] {
                        one(r, judge, fam, backgrounds(fam)[2], w - h, count_list(&c));
                    }
                }
            });
        }
        for (i, a) in d.addrs(fam).chunks(40).enumerate() {
            let a = a.to_vec();
            t.add(format!("{fam:?} addresses of the sources {i}"), move |r| {
                for a in a {
                    for q in [0, 1, 3, w / 4, w / 2, w - 17, w - 9, w - 8, w - 5, w - 2, w] {
                        for c in [&[0u128][..], &[1, 1], &[2, 2, 2, 2], &[6, 14, 2], &[100, 50, 20], &[1000, 500, 60, 2], &[65534]] {
                            one(r, judge, fam, a, q, count_list(c));
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: {} addresses with values that the sources mention, and these numbers as counts and as lengths of the list", d.addrs(fam).len()));
        // how far a list goes at every size
        for h in 0..=w {
            t.add(format!("{fam:?} longer lists at 2^{h}"), move |r| {
                let count = |h: u32| match h {
                    0 | 1 => 0u128,
                    128 => u128::MAX - 1,
                    h => (1u128 << h) - 2,
                };
                let room = |r: &mut Runner, hosts: &[u32], bgi: usize| {
                    let c: Vec<u128> = hosts.iter().map(|x| if *x == 0 { 0 } else { count(*x) }).collect();
                    // the actual sizes, in units of the least one
                    let hs: Vec<u32> = c.iter().map(|x| host_bits(fam, &Count::N(*x)).unwrap_or(w)).collect();
                    let low = *hs.iter().min().unwrap();
                    let need: u128 = hs.iter().map(|x| 1u128 << (x - low).min(100)).sum();
                    let hb = low + 128 - (need - 1).leading_zeros();
                    for b in [hb, hb + 1, hb + 7] {
                        if b <= w {
                            one(r, judge, fam, backgrounds(fam)[bgi], w - b, count_list(&c));
                        }
                    }
                };
                for n in 2..=if th { 33usize } else { 17 } {
                    for bgi in [0, 2] {
                        room(r, &vec![h; n], bgi);
                    }
                    if h > 0 {
                        let mut v = vec![h; n];
                        v.push(h - 1);
                        room(r, &v, 2);
                        v.rotate_right(1);
                        room(r, &v, 1);
                        v.push(h - 1);
                        room(r, &v, 3);
                    }
                }
                if h + 1 < w {
                    for s in sequences(3, if th { 6 } else { 5 }) {
                        if s.len() < 4 {
                            continue;
                        }
                        let v: Vec<u32> = s.iter().map(|i| (h + *i as u32).saturating_sub(1)).collect();
                        room(r, &v, (h % 3) as usize + 1);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every sequence of 4 and 5 counts out of three successive sizes, and up to {} slices of one size with a smaller one before or behind them, for every size, in the least network that has room, twice and 128 times that", if th { 33 } else { 17 }));
        // filling a network with distinct sizes in every order
        t.add(format!("{fam:?} distinct sizes in every order"), move |r| {
            let n = if th { 7 } else { 6 };
            let base: Vec<u128> = (0..n).map(|i| (1u128 << (i + 1)) - 2).collect();
            let mut perms: Vec<Vec<u128>> = vec![];
            permute(&mut base.clone(), 0, &mut perms);
            for c in perms {
                for hb in [n as u32, n as u32 + 1, n as u32 + 2] {
                    one(r, judge, fam, backgrounds(fam)[2], w - hb, count_list(&c));
                }
            }
        });
        t.bound(format!("{fam:?}: six or seven distinct sizes in every order"));
    }
}

fn permute(v: &mut Vec<u128>, k: usize, out: &mut Vec<Vec<u128>>) {
    if k == v.len() {
        out.push(v.clone());
        return;
    }
    for i in k..v.len() {
        v.swap(k, i);
        permute(v, k + 1, out);
        v.swap(k, i);
    }
}

pub fn c05(t: &mut Tasks) {
    spaces(t, judge_slices);
}

pub fn c06(t: &mut Tasks) {
    spaces(t, judge_rest);
}
