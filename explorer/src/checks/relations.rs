//! Relations between invocations, without a reference model: C25: the address chosen inside a
//! network does not matter.  C26: the same rules in both families and at every place.  C27: resizing
//! in steps.  C29: the order of the host counts.
use super::split;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use crate::Tasks;

fn mk(opt: &str, rest: impl IntoIterator<Item = String>) -> Args {
    std::iter::once(opt.to_string()).chain(rest).collect()
}

// ---- C25

/// The ways to use the network in which an address of it stands.
fn uses(n: &Net) -> Vec<Box<dyn Fn(&str) -> Args>> {
    let fam = n.fam;
    let w = fam.w();
    let bits = n.mask.count_ones();
    let mut v: Vec<Box<dyn Fn(&str) -> Args>> = vec![];
    v.push(Box::new(|s| vec![s.to_string()]));
    v.push(Box::new(|s| mk("-m", [s.to_string()])));
    // with its neighbour and with the network that is one bit larger
    let low = n.mask & n.mask.wrapping_neg();
    let near = spec(fam, n.base ^ low, n.mask);
    let larger = spec(fam, n.base & !low, n.mask & !low);
    v.push(Box::new(move |s| mk("-m", [s.to_string(), near.clone()])));
    v.push(Box::new(move |s| mk("-m", [larger.clone(), s.to_string()])));
    // with a part of it before and after it
    let host = n.wildcard();
    if host != 0 {
        let top = 1u128 << (127 - host.leading_zeros());
        let half = spec(fam, n.base | top, n.mask | top);
        v.push(Box::new(move |s| mk("-m", [half.clone(), s.to_string()])));
        let low = host & host.wrapping_neg();
        let half = spec(fam, n.base, n.mask | low);
        v.push(Box::new(move |s| mk("-m", [half.clone(), s.to_string()])));
        let one = spec(fam, n.base | host & fam.full() / 3, fam.full());
        v.push(Box::new(move |s| mk("-m", [s.to_string(), one.clone()])));
    }
    for q in [bits, bits.saturating_sub(1), bits.saturating_sub(8), 0, bits + 1, bits + 2] {
        if q <= w {
            v.push(Box::new(move |s| mk("-r", [s.to_string(), q.to_string()])));
        }
    }
    if n.host_bits() <= 4 {
        v.push(Box::new(|s| mk("-e", [s.to_string()])));
    }
    if n.prefix().is_some() {
        for c in [&["0"][..], &["1", "2"], &["5", "1", "9"], &["99"]] {
            v.push(Box::new(move |s| mk("-s", std::iter::once(s.to_string()).chain(c.iter().map(|x| x.to_string())))));
        }
    }
    v
}

fn without_address(o: &Out) -> Option<String> {
    let rest: Vec<&str> = o.out.split_inclusive('\n').filter(|l| !l.starts_with("Address:")).collect();
    let r: String = rest.concat();
    if rest.len() + 1 == o.out.split_inclusive('\n').count() {
        Some(r)
    } else {
        None
    }
}

/// `hosts`: the host bits of the addresses by which the network is named.
fn named(r: &mut Runner, n: Net, hosts: &[u128]) {
    let fam = n.fam;
    for u in uses(&n) {
        let default = u("x").len() == 1;
        let runs: Vec<Args> = std::iter::once(n.base).chain(hosts.iter().map(|h| n.base | h & n.wildcard())).map(|a| u(&spec(fam, a, n.mask))).collect();
        r.check_many(runs, move |o| {
            if o[0].status < 0 || o[0].status > 1 {
                return Err(format!("status {}", status_text(o[0].status)));
            }
            for (i, x) in o.iter().enumerate() {
                let ok = x.status == o[0].status
                    && x.err == o[0].err
                    && if default && x.status == 0 {
                        match (without_address(x), without_address(&o[0])) {
                            (Some(a), Some(b)) => a == b,
                            _ => return Err("not exactly one address line".into()),
                        }
                    } else {
                        x.out == o[0].out
                    };
                if !ok {
                    return Err(format!("named by another of its addresses ({}), the network gives another result: {} instead of {}", i, clip(&x.brief(), 400), clip(&o[0].brief(), 400)));
                }
            }
            Ok(o.len() as u64)
        });
    }
}

pub fn c25(t: &mut Tasks) {
    let th = t.thorough;
    for fam in FAMS {
        let w = fam.w();
        let k = if th { 4 } else { 3 };
        let offs = if fam == V4 || th { offsets(fam, k) } else { key_offsets(fam, k) };
        for at in offs {
            t.add(format!("{fam:?}: masks and members in the {k}-bit window at {at}"), move |r| {
                let win = ((1u128 << k) - 1) << at;
                for mask in window_masks(fam, at, k) {
                    for (i, bg) in backgrounds(fam).into_iter().enumerate() {
                        if fam == V6 && i % 2 == 1 && !r.thorough() {
                            continue;
                        }
                        let wild = !mask & fam.full();
                        let mut hosts: Vec<u128> = window(fam, at, k, 0).collect();
                        hosts.extend([wild, wild & !win, wild & bg]);
                        let nets: Vec<u128> = if i == 0 { window(fam, at, k, bg).collect() } else { vec![bg & !win, bg | win] };
                        let mut nets: Vec<Net> = nets.into_iter().map(|a| Net::new(fam, a, mask)).collect();
                        nets.sort();
                        nets.dedup();
                        hosts.iter_mut().for_each(|h| *h &= wild);
                        hosts.sort();
                        hosts.dedup();
                        hosts.retain(|h| *h != 0);
                        for n in nets {
                            if r.stopped() {
                                return;
                            }
                            named(r, n, &hosts);
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every mask pattern in every {k}-bit window ({}), ones or zeros on either side; the network is named by every value of the window's host bits, and with all host bits outside it; default mode, --minimize alone, with its sibling, with the next larger network and with parts of it, --resize up and down, --split, --enumerate", if fam == V4 || th { "at every place" } else { "around group boundaries" }));
        for p in 0..=w {
            t.add(format!("{fam:?}: /{p}, each host bit"), move |r| {
                let bgs = backgrounds(fam);
                for a in if fam == V4 || r.thorough() { vec![bgs[0], bgs[1], bgs[2], bgs[3]] } else { vec![bgs[p as usize % 2], bgs[2]] } {
                    let thin = fam == V6 && !r.thorough();
                    let mut hosts: Vec<u128> = (0..w - p).filter(|i| !thin || i % 8 < 2 || i % 8 == 7 || i + p + 2 > w).map(|i| 1u128 << i).collect();
                    hosts.extend((0..w - p).filter(|i| !thin || i % 16 == p % 16).map(|i| (1u128 << i) - 1));
                    hosts.extend([fam.full(), a, 0x5555_5555_5555_5555_5555_5555_5555_5555]);
                    named(r, Net::cidr(fam, a, p), &hosts);
                }
            });
        }
        t.bound(format!("{fam:?}: every prefix, named with single host bits and runs of low host bits (IPv4, thorough: each; IPv6, quick: around byte boundaries)"));
        for chunk in places(fam).chunks(5) {
        let chunk = chunk.to_vec();
        t.add(format!("{fam:?}: places from {}", fam.fmt(chunk[0].0)), move |r| {
            for (a, p) in chunk.iter().copied() {
                let inside: Vec<u128> = place_addrs(fam).into_iter().filter(|x| Net::cidr(fam, a, p).contains(*x)).collect();
                named(r, Net::cidr(fam, a, p), &inside);
                for q in [p.saturating_sub(1), p.saturating_sub(4), (p + 1).min(w), (p + 8).min(w), w - 8, w - 2, w - 1] {
                    let n = Net::cidr(fam, a, q);
                    let inside: Vec<u128> = place_addrs(fam).into_iter().filter(|x| n.contains(*x)).step_by(3).collect();
                    named(r, n, &inside);
                    named(r, n, &[1, 2, fam.full(), fam.full() - 1]);
                }
            }
        });
        }
        t.bound(format!("{fam:?}: the blocks of the IANA registries, named by every well-known address inside"));
        t.add(format!("{fam:?}: lopsided masks"), move |r| {
            let full = fam.full();
            let masks = if r.thorough() { sparse_wildcards(fam, 2) } else { sparse_wildcards(fam, if fam == V4 { 2 } else { 1 }) };
            for m in masks {
                for a in [backgrounds(fam)[2], backgrounds(fam)[3]] {
                    let wild = !m & full;
                    let one = wild & wild.wrapping_neg();
                    named(r, Net::new(fam, a, m), &[wild, one, wild & !one]);
                    // and the complement: few network bits
                    named(r, Net::new(fam, a, wild), &[full, 1, full >> 1, 0x5555_5555_5555_5555_5555_5555_5555_5555, a]);
                }
            }
            for (i, m) in block_masks(fam).into_iter().enumerate() {
                if r.thorough() || i % 3 == 0 {
                    named(r, Net::new(fam, backgrounds(fam)[3], m), &[full, 1, backgrounds(fam)[3], 0x0101_0101_0101_0101_0101_0101_0101_0101]);
                }
            }
        });
        t.bound(format!("{fam:?}: masks with few host bits or few network bits anywhere; masks of byte or group patterns"));
    }
}

// ---- C26

/// An invocation inside a block of k bits: values and prefixes are relative to the block.
#[derive(Clone, Debug)]
pub enum Shape {
    /// addresses and masks
    Show(Vec<(u128, u128)>),
    Minimize(Vec<(u128, u128)>),
    Enumerate(Vec<(u128, u128)>),
    Derange(u128, u128),
    Split(u128, u128, Vec<u64>),
    Resize(u128, u128, u128),
}

/// Where a block of k bits lies: the family, and the bits above.
#[derive(Clone, Copy, Debug)]
pub struct Place {
    pub fam: Fam,
    pub k: u32,
    pub high: u128,
}
impl Place {
    fn low(&self) -> u128 {
        if self.k == 128 {
            u128::MAX
        } else {
            (1u128 << self.k) - 1
        }
    }
    fn a(&self, x: u128) -> u128 {
        self.high & !self.low() | x
    }
    fn m(&self, x: u128) -> u128 {
        self.fam.full() & !self.low() | x
    }
    fn n(&self, (a, m): (u128, u128)) -> String {
        spec(self.fam, self.a(a), self.m(m))
    }
    fn text_mask(&self, m: u128) -> String {
        let m = self.m(m);
        match self.fam.mask_prefix(m) {
            Some(p) => p.to_string(),
            None => self.fam.fmt(m),
        }
    }
    pub fn args(&self, s: &Shape) -> Args {
        let list = |v: &Vec<(u128, u128)>| v.iter().map(|x| self.n(*x)).collect::<Vec<_>>();
        match s {
            Shape::Show(v) => list(v),
            Shape::Minimize(v) => mk("-m", list(v)),
            Shape::Enumerate(v) => mk("-e", list(v)),
            Shape::Derange(a, b) => mk("-d", [self.fam.fmt(self.a(*a)), self.fam.fmt(self.a(*b))]),
            Shape::Split(a, m, c) => mk("-s", std::iter::once(self.n((*a, *m))).chain(c.iter().map(|x| x.to_string()))),
            Shape::Resize(a, m, t) => mk("-r", [self.n((*a, *m)), self.text_mask(*t)]),
        }
    }
    /// The output, relative to the block: no binary forms, no class names.
    fn relative(&self, o: &Out) -> Result<String, String> {
        let fam = self.fam;
        let shift = fam.w() - self.k;
        let addr = |s: &str| -> Result<String, String> {
            let x = fam.parse(s).ok_or_else(|| format!("not an address of the family: {s:?}"))?;
            if (x ^ self.high) & !self.low() & fam.full() != 0 {
                return Err(format!("{s} is outside the block"));
            }
            Ok(format!("{:x}", x & self.low()))
        };
        let mask = |s: &str| -> Result<String, String> {
            let x = fam.parse(s).ok_or_else(|| format!("not a mask of the family: {s:?}"))?;
            if !x & !self.low() & fam.full() != 0 {
                return Err(format!("the mask {s} reaches out of the block"));
            }
            Ok(format!("{:x}", x & self.low()))
        };
        let prefix = |s: &str| -> Result<String, String> {
            let p: u32 = s.parse().map_err(|_| format!("not a prefix: {s:?}"))?;
            if p < shift {
                return Err(format!("/{s} reaches out of the block"));
            }
            Ok((p - shift).to_string())
        };
        let any = |s: &str| -> Result<String, String> {
            match s.split_once('/') {
                None => addr(s),
                Some((a, m)) if m.contains(['.', ':']) => Ok(format!("{}/{}", addr(a)?, mask(m)?)),
                Some((a, p)) => Ok(format!("{}/{}", addr(a)?, prefix(p)?)),
            }
        };
        // what is said about a split that does not fit may reach beyond the block
        if o.status >= 0 && o.status <= 1 && (o.out.contains("Not enough addresses available") || o.out.contains("Network is too small")) {
            return Ok("does not fit".into());
        }
        let mut r = format!("status {}, {} on standard error\n", o.status, if o.err.is_empty() { "nothing" } else { "a message" });
        for l in o.out.lines() {
            let t: Vec<&str> = l.split_whitespace().collect();
            match t.first().copied() {
                Some(x @ ("Network:" | "HostMin:" | "HostMax:" | "Broadcast:" | "Address:")) if t.len() == 3 => r += &format!("{x} {}", any(t[1])?),
                Some(x @ "Netmask:") if t.len() == 5 && t[2] == "=" => r += &format!("{x} {} = {}", mask(t[1])?, prefix(t[3])?),
                Some(x @ "Netmask:") if t.len() == 3 => r += &format!("{x} {}", mask(t[1])?),
                Some(x @ "Wildcard:") if t.len() == 3 => r += &format!("{x} {}", addr_low(fam, t[1], self.low())?),
                Some(x @ "Hosts/Net:") if t.len() > 1 => r += &format!("{x} {}", t[1]),
                Some(x) if t.len() == 1 && (x.contains('.') || x.contains("::") || x.matches(':').count() >= 7) => r += &any(x)?,
                _ => r += l.trim_end(),
            }
            r.push('\n');
        }
        Ok(r)
    }
}
fn addr_low(fam: Fam, s: &str, low: u128) -> Result<String, String> {
    let x = fam.parse(s).ok_or_else(|| format!("not an address of the family: {s:?}"))?;
    if x & !low != 0 {
        return Err(format!("the wildcard {s} reaches out of the block"));
    }
    Ok(format!("{x:x}"))
}

/// The same shape at two or more places.
fn moved(r: &mut Runner, s: &Shape, at: &[Place]) {
    let places = at.to_vec();
    let runs: Vec<Args> = at.iter().map(|p| p.args(s)).collect();
    r.check_many(runs, move |o| {
        let first = places[0].relative(&o[0])?;
        for (p, x) in places.iter().zip(o).skip(1) {
            let y = p.relative(x).map_err(|e| format!("{e}, unlike at the place {}", places[0].fam.fmt(places[0].high)))?;
            if y != first {
                let (a, b) = first.lines().zip(y.lines()).find(|(a, b)| a != b).unwrap_or(("", ""));
                return Err(format!("relative to {:?} {} another result than relative to {:?} {}: {b:?} instead of {a:?}", p.fam, p.fam.fmt(p.a(0)), places[0].fam, places[0].fam.fmt(places[0].a(0))));
            }
        }
        Ok(o.len() as u64)
    });
}

fn pmask(k: u32, p: u32) -> u128 {
    if p == 0 {
        0
    } else {
        (if k == 128 { u128::MAX } else { (1u128 << k) - 1 }) & !((1u128 << (k - p)) - 1)
    }
}

/// Shapes of every mode in a block of k bits; `fine`: of how many bits the windows are.
pub fn shapes(k: u32, th: bool) -> Vec<Shape> {
    let full = if k == 128 { u128::MAX } else { (1u128 << k) - 1 };
    let mut v = vec![];
    let mixed = full / 3 ^ full / 17;
    // the default mode, --resize, --split, --enumerate of every prefix
    for p in 0..=k {
        let m = pmask(k, p);
        for a in [0, full, mixed, 1, 1u128 << (k - 1)] {
            v.push(Shape::Show(vec![(a, m)]));
            if k - p <= 5 {
                v.push(Shape::Enumerate(vec![(a, m)]));
            }
            for q in [0, p.saturating_sub(9), p.saturating_sub(1), p, p + 1, p + 3] {
                if q <= k {
                    v.push(Shape::Resize(a, m, pmask(k, q)));
                }
            }
        }
        let size = if k - p >= 63 { u64::MAX } else { 1u64 << (k - p) };
        for c in [vec![0], vec![1], vec![2, 3], vec![size.saturating_sub(2)], vec![size.saturating_sub(1)], vec![size], vec![size / 2, size / 4], vec![size / 2 - size / 2 % 2, 1], vec![(size / 2).saturating_sub(2); 2], vec![(size / 4).saturating_sub(2), (size / 2).saturating_sub(2), (size / 4).saturating_sub(2)], vec![6; 4], vec![1, 5, 2, 14, 0]] {
            v.push(Shape::Split(mixed, m, c));
        }
    }
    // lopsided masks
    let mut odd: Vec<u128> = vec![full / 3, full / 15, full ^ 1 << (k / 2), 1 << (k / 2), full & !6, full >> 1, full & 0x0ff0_0ff0_0ff0_0ff0_0ff0_0ff0_0ff0_0ff0, (1 << (k / 2)) - 1];
    for i in 0..k {
        odd.push(full ^ 1 << i);
        odd.push(full ^ 3 << i & full);
        odd.push(full ^ 5 << i & full);
        odd.push(full ^ (1 << i | 1 << (k - 1)));
    }
    odd.sort();
    odd.dedup();
    for m in odd {
        for a in [0, full, mixed] {
            v.push(Shape::Show(vec![(a, m)]));
        }
        if k - m.count_ones() <= 5 {
            v.push(Shape::Enumerate(vec![(mixed, m)]));
        }
        let one = m & m.wrapping_neg();
        v.push(Shape::Resize(mixed, m, m & !one));
        v.push(Shape::Resize(mixed, m, m));
        let host = !m & full;
        v.push(Shape::Resize(mixed, m, m | host & host.wrapping_neg()));
        v.push(Shape::Resize(mixed, m, pmask(k, m.count_ones())));
        v.push(Shape::Minimize(vec![(mixed, m), (mixed ^ one, m)]));
        v.push(Shape::Minimize(vec![(mixed, m), (mixed, m | host & host.wrapping_neg())]));
        v.push(Shape::Minimize(vec![(mixed, m), (mixed, pmask(k, k / 2))]));
    }
    // networks and ranges in windows
    let wk = 3;
    let step = if k <= 8 || th { 1 } else { 3 };
    for at in (0..=k - wk).step_by(step) {
        let win = |x: u128, bg: u128| bg & !(7 << at) | x << at;
        let mut nets = vec![];
        for p in 0..=wk {
            for i in 0..1u128 << p {
                nets.push((win(i << (wk - p), 0), pmask(k, k - at - wk + p)));
            }
        }
        for (i, a) in nets.iter().enumerate() {
            for (j, b) in nets.iter().enumerate() {
                v.push(Shape::Minimize(vec![*a, *b]));
                if (i + j) % if th { 1 } else { 3 } == 0 {
                    v.push(Shape::Minimize(vec![*b, nets[(i * 7 + j * 3 + 1) % nets.len()], *a]));
                }
            }
        }
        for bg in [0, full, mixed] {
            for x in 0..8 {
                for y in 0..8 {
                    v.push(Shape::Derange(win(x, bg), win(y, bg)));
                    v.push(Shape::Derange(win(x, bg), win(y, !bg & full)));
                }
            }
        }
    }
    v.push(Shape::Derange(0, full));
    v.push(Shape::Show(vec![(0, 0), (full, full), (mixed, pmask(k, 3))]));
    v.push(Shape::Minimize((0..8).map(|i| (i << (k - 3), pmask(k, 3))).collect()));
    v
}

/// Few shapes about the block as a whole and its halves, quarters and eighths.
fn coarse(k: u32) -> Vec<Shape> {
    let full = if k == 128 { u128::MAX } else { (1u128 << k) - 1 };
    let mut v = vec![];
    for p in 0..=k {
        v.push(Shape::Show(vec![(0, pmask(k, p))]));
        if p % 4 == k % 4 || p < 4 {
            v.push(Shape::Show(vec![(full, pmask(k, p))]));
            v.push(Shape::Split(0, pmask(k, p), vec![5, 1]));
        }
        if k - p <= 3 {
            v.push(Shape::Enumerate(vec![(0, pmask(k, p)), (full, pmask(k, p))]));
        }
        if p > 0 {
            v.push(Shape::Resize(0, pmask(k, p), pmask(k, p - 1)));
            v.push(Shape::Resize(full, pmask(k, p - 1), pmask(k, p)));
        }
        if p > 2 {
            v.push(Shape::Resize(full, pmask(k, p), pmask(k, p / 2)));
        }
    }
    let top = 3.min(k);
    let mut nets = vec![];
    for p in 0..=top {
        for i in 0..1u128 << p {
            nets.push((i << (k - p), pmask(k, p)));
        }
    }
    for (i, a) in nets.iter().enumerate() {
        for b in &nets[i..] {
            v.push(Shape::Minimize(vec![*a, *b]));
        }
    }
    v.push(Shape::Minimize(nets[nets.len() - (1 << top)..].to_vec()));
    // from and to the eighths, and those addresses beside them
    let step = 1u128 << (k - top);
    let mut ends: Vec<u128> = vec![];
    for i in 0..1u128 << top {
        ends.extend([i * step, i * step + (step - 1), i * step + 1 & full]);
    }
    ends.sort();
    ends.dedup();
    for (i, a) in ends.iter().enumerate() {
        for b in &ends[i..] {
            v.push(Shape::Derange(*a, *b));
        }
    }
    for c in [vec![0], vec![1, 2, 3], vec![6; 5]] {
        v.push(Shape::Split(0, 0, c.clone()));
        v.push(Shape::Split(full, pmask(k, 1), c));
    }
    let size = |d: u32| if k - d >= 64 { u64::MAX } else { (1u64 << (k - d)).saturating_sub(2) };
    if k > 4 {
        v.push(Shape::Split(0, 0, vec![size(1), size(2)]));
        v.push(Shape::Split(0, 0, vec![size(2), size(3), size(1)]));
    }
    v
}

pub fn c26(t: &mut Tasks) {
    let th = t.thorough;
    // IPv4 as a whole, and in the last 32 bits of IPv6
    let whole = Place { fam: V4, k: 32, high: 0 };
    let heads: Vec<u128> = {
        let mut v: Vec<u128> = vec![0, 0xffff, 0x2001_0db8_0000_0000_0000_0000, u128::MAX >> 32, 0x5a3c_a596_0ff0_8001_7ffe_1248];
        if th {
            v.extend(places(V6).into_iter().map(|(a, _)| a >> 32));
            v.extend((0..96).map(|i| 1u128 << i));
        } else {
            v.extend([0xfe80_0000_0000_0000_0000_0000, 0x0064_ff9b_0000_0000_0000_0000, 0x2002_0000_0000_0000_0000_0000, 0xfe80_0000_0000_0000_0000_5efe, 0xffff_0000, 0x0200_5eff]);
        }
        v.sort();
        v.dedup();
        v.into_iter().map(|x| x << 32).collect()
    };
    let all = shapes(32, th);
    for (i, chunk) in all.chunks(all.len().div_ceil(24)).enumerate() {
        let chunk = chunk.to_vec();
        let heads = heads.clone();
        t.add(format!("IPv4 in IPv6, part {i}"), move |r| {
            for (n, s) in chunk.iter().enumerate() {
                if r.stopped() {
                    return;
                }
                let mut at = vec![whole];
                for (j, h) in heads.iter().enumerate() {
                    if j < 3 || r.thorough() || (n + j) % 4 == 0 {
                        at.push(Place { fam: V6, k: 32, high: *h });
                    }
                }
                moved(r, s, &at);
            }
        });
    }
    t.bound(format!("{} invocations of all modes on IPv4 (every prefix, lopsided masks, all pairs and some triples of networks and all ranges in 3-bit windows{}), each against the same in the last 32 bits of IPv6 networks /96, {} of them (quick: three always, the others in turn)", all.len(), if th { "" } else { " at every third bit" }, heads.len()));

    // blocks of every size around the registered ones
    let mut groups = 0usize;
    let mut count = 0usize;
    for k in 3..128u32 {
        let mut at: Vec<Place> = vec![];
        for fam in FAMS {
            if k >= fam.w() {
                continue;
            }
            let mut highs: Vec<u128> = vec![];
            for (a, p) in places(fam) {
                let own = fam.w() - p;
                let near = k >= own.saturating_sub(1) && k <= own + 3 || fam == V6 && (62..=66).contains(&k) || fam == V6 && k % 16 == 0;
                if th || near || fam == V4 && k % 2 == 0 {
                    highs.push(a & !((1u128 << k) - 1));
                    if a & (1 << k) != 0 && near {
                        highs.push(a & !((2u128 << k) - 1));
                    }
                }
            }
            highs.sort();
            highs.dedup();
            highs.retain(|h| *h != 0);
            at.extend(highs.into_iter().map(|high| Place { fam, k, high }));
        }
        if at.is_empty() {
            continue;
        }
        groups += 1;
        count += at.len();
        let zero = Place { fam: if k < 32 { V4 } else { V6 }, k, high: 0 };
        t.add(format!("blocks of {k} bits around the registered ones"), move |r| {
            for s in coarse(k) {
                for few in at.chunks(20) {
                    if r.stopped() {
                        return;
                    }
                    let mut p = vec![zero];
                    p.extend(few);
                    moved(r, &s, &p);
                }
            }
        });
    }
    t.bound(format!("{groups} sizes of blocks from 3 to 127 bits, {count} blocks in all that hold registered ones (quick: of their size up to 8 times that, and of selected other sizes), against the one at 0.0.0.0 or ::: every prefix shown, resized and split, all pairs of halves, quarters and eighths minimized, all ranges that begin and end at eighths or beside them"));

    // blocks of 8 and 16 bits all over the address space
    for k in [8u32, 16] {
        let mut small = shapes(k, th);
        if !th {
            let mut i = 0;
            small.retain(|s| {
                i += 1;
                match s {
                    Shape::Minimize(_) | Shape::Derange(..) => i % if k == 8 { 9 } else { 31 } == 0,
                    _ => i % if k == 8 { 2 } else { 7 } == 0,
                }
            });
        }
        let mut spots: Vec<Place> = vec![];
        for fam in FAMS {
            let low = (1u128 << k) - 1;
            let mut h: Vec<u128> = place_addrs(fam).into_iter().map(|a| a & !low).collect();
            h.extend(edge_values(fam).into_iter().map(|a| a & !low));
            if fam == V4 {
                for a in 0..256u128 {
                    h.extend([a << 24, a << 24 | 0xffffff & !low, a << 24 | a << 16, a << 24 | 0xa80000 | a << 8 & !low]);
                }
                if th {
                    h.extend((0..65536u128).map(|a| a << 16));
                }
            } else {
                for g in 0..256u128 {
                    h.push(g << 120);
                }
            }
            h.sort();
            h.dedup();
            h.retain(|a| a & low == 0);
            spots.extend(h.into_iter().map(|high| Place { fam, k, high }));
        }
        let zero = Place { fam: V4, k, high: 0 };
        let n = spots.len();
        let m = small.len();
        for (i, chunk) in spots.chunks(n.div_ceil(32)).enumerate() {
            let chunk = chunk.to_vec();
            let small = small.clone();
            t.add(format!("blocks of {k} bits, part {i}"), move |r| {
                for s in &small {
                    for few in chunk.chunks(20) {
                        if r.stopped() {
                            return;
                        }
                        let mut at = vec![zero];
                        at.extend(few);
                        moved(r, s, &at);
                    }
                }
            });
        }
        t.bound(format!("{m} invocations inside a block of {k} bits, at each of {n} places of both families (in and around all registered blocks, at both sides of every power of two, every first octet, every first byte) against the same at 0.0.0.0"));
    }
}

// ---- C27

/// The base addresses of the blocks of --resize, the first one being the original network.
fn bases(fam: Fam, mask: u128, o: &Out) -> Result<Vec<u128>, String> {
    if o.status != 0 {
        return Err(format!("status {}, stderr {:?}", status_text(o.status), clip(&o.err, 200)));
    }
    let mut v = vec![];
    for l in o.out.lines() {
        if let Some(x) = l.strip_prefix("Network:") {
            let x = x.split_whitespace().next().unwrap_or("");
            let a = match x.split_once('/') {
                Some((a, p)) => {
                    if !v.is_empty() && fam.mask_prefix(mask).map(|q| q.to_string()) != Some(p.to_string()) {
                        return Err(format!("{x} is not of the size asked for"));
                    }
                    a
                },
                None => x,
            };
            v.push(fam.parse(a).ok_or_else(|| format!("not an address: {a:?}"))?);
        }
    }
    if v.len() < 2 {
        return Err("no network is shown".into());
    }
    Ok(v)
}
/// From `from` by way of `via` to `to`; the numbers of network bits ascend or descend, or those of
/// `from` and `to` are the same.
fn steps(r: &mut Runner, fam: Fam, addr: u128, from: u128, via: u128, to: u128) {
    let tm = move |m: u128| fam.mask_prefix(m).map(|p| p.to_string()).unwrap_or_else(|| fam.fmt(m));
    let (f, v, t) = (from.count_ones(), via.count_ones(), to.count_ones());
    debug_assert!((f <= v && v <= t) || (f >= v && v >= t) || (v >= f && v >= t));
    r.chain(
        vec![mk("-r", [spec(fam, addr, from), tm(via)]), mk("-r", [spec(fam, addr, from), tm(to)])],
        move |o| {
            let b = bases(fam, via, &o[0])?;
            Ok(b[1..].iter().map(|a| mk("-r", [spec(fam, *a, via), tm(to)])).collect())
        },
        move |a, b| {
            let mut got = vec![];
            for x in b {
                let y = bases(fam, to, x)?;
                got.extend_from_slice(&y[1..]);
            }
            let want = bases(fam, to, &a[1])?;
            let down = v >= f && v > t;
            if down {
                // there and back: each subnet leads to the same network
                got.dedup();
            }
            if got != want[1..] {
                let show = |l: &[u128]| clip(&l.iter().map(|x| fam.fmt(*x)).collect::<Vec<_>>().join(" "), 300);
                return Err(format!("resized in two steps: {}; at once: {}", show(&got), show(&want[1..])));
            }
            Ok(b.len() as u64 + 2)
        },
    );
}

pub fn c27(t: &mut Tasks) {
    let th = t.thorough;
    for fam in FAMS {
        let w = fam.w();
        for p in 0..=w {
            t.add(format!("{fam:?}: from /{p}"), move |r| {
                let pm = |p| fam.prefix_mask(p);
                let deep = if r.thorough() { 8 } else { 5 };
                let bgs = backgrounds(fam);
                for (i, a) in bgs.iter().enumerate() {
                    if r.stopped() {
                        return;
                    }
                    for q in p..=w.min(p + deep) {
                        for s in q..=w.min(p + deep) {
                            steps(r, fam, *a, pm(p), pm(q), pm(s));
                        }
                        // there and back again, or beyond
                        for s in [p, p.saturating_sub(1), p.saturating_sub(7), 0] {
                            if q > p {
                                steps(r, fam, *a, pm(p), pm(q), pm(s));
                            }
                        }
                    }
                    let thin = fam == V6 && !r.thorough();
                    for q in 0..=p {
                        for s in 0..=q {
                            if thin && (q % 16 > 1 && p - q > 2 || s % 16 > 1 && q - s > 2 || i % 2 == 1) {
                                continue;
                            }
                            steps(r, fam, *a, pm(p), pm(q), pm(s));
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every prefix, in two steps to every pair of prefixes up to {} longer, back, and to {} pair of shorter ones, on 4 addresses", if th { 8 } else { 5 }, if fam == V4 || th { "every" } else { "selected" }));
        let k = if th { 4 } else { 3 };
        let offs = if fam == V4 || th { offsets(fam, k) } else { key_offsets(fam, k) };
        for at in offs {
            t.add(format!("{fam:?}: lopsided masks in the {k}-bit window at {at}"), move |r| {
                let masks: Vec<u128> = window_masks(fam, at, k);
                let keys: Vec<u128> = masks.iter().copied().step_by(if r.thorough() { 2 } else { 5 }).collect();
                for (i, a) in masks.iter().enumerate() {
                    for (j, b) in keys.iter().enumerate() {
                        for (l, c) in masks.iter().enumerate() {
                            if !r.thorough() && (i + j * 3 + l * 5) % if fam == V4 { 7 } else { 13 } != 0 {
                                continue;
                            }
                            if r.stopped() {
                                return;
                            }
                            let (x, y, z) = (a.count_ones(), b.count_ones(), c.count_ones());
                            if y > x + 5 || z > x + 5 || !((x <= y && y <= z) || (x >= y && y >= z) || (y >= x && y >= z)) {
                                continue;
                            }
                            steps(r, fam, backgrounds(fam)[2 + i % 2], *a, *b, *c);
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: masks of every pattern in {k}-bit windows ({}), ones or zeros on either side, in triples{}", if fam == V4 || th { "at every place" } else { "around group boundaries" }, if th { "" } else { ", a fixed selection of them" }));
        t.add(format!("{fam:?}: places"), move |r| {
            for (a, p) in places(fam) {
                let pm = |p| fam.prefix_mask(p);
                for q in p..=w.min(p + 4) {
                    for s in q..=w.min(p + 5) {
                        steps(r, fam, a, pm(p), pm(q), pm(s));
                    }
                    if q > p {
                        steps(r, fam, a, pm(p), pm(q), pm(p / 2));
                    }
                }
                for q in 0..p {
                    steps(r, fam, a, pm(p), pm(q), pm(q / 2));
                }
            }
        });
        for (p, q, s) in [(0, 8, 16), (0, 1, 13), (w - 16, w - 8, w), (w - 13, w - 1, w), (8, 12, 20), (w / 2, w / 2 + 7, w / 2 + 12), (w / 2 - 6, w / 2, w / 2 + 6), (0, 11, 12)] {
            t.add(format!("{fam:?}: many subnets, /{p} to /{s}"), move |r| {
                for a in &backgrounds(fam)[2..3] {
                    steps(r, fam, *a, fam.prefix_mask(p), fam.prefix_mask(q), fam.prefix_mask(s));
                }
            });
        }
        t.add(format!("{fam:?}: many subnets, lopsided"), move |r| {
            let a = backgrounds(fam)[2];
            // the middle half of the low 24 bits, then bits from either side
            let m = |x: u128| fam.full() & !0xffffff | x;
            steps(r, fam, a, m(0), m(0x0000f0), m(0x00fff0));
            steps(r, fam, a, m(0xfff000), m(0xfff555), m(0xffffff));
            steps(r, fam, a, m(0x555000), m(0x555111), m(0x555fff));
        });
        t.bound(format!("{fam:?}: 2^12, 2^13 and 2^16 subnets at 8 places, and in lopsided networks"));
        t.bound(format!("{fam:?}: the blocks of the IANA registries, up to 5 bits longer in two steps and to every shorter prefix in two steps"));
    }
}

// ---- C29

/// The counts in several orders.
fn orders(r: &mut Runner, fam: Fam, addr: u128, p: u32, lists: Vec<Vec<u128>>) {
    let net = Net::cidr(fam, addr, p);
    let runs = lists.iter().map(|l| mk("-s", std::iter::once(spec(fam, addr, net.mask)).chain(l.iter().map(|c| c.to_string())))).collect();
    r.check_many(runs, move |o| {
        let mut first: Option<(bool, Vec<(String, u32)>, Vec<Net>, Option<Vec<Net>>, i32)> = None;
        for (x, l) in o.iter().zip(&lists) {
            if x.status < 0 || x.status > 1 {
                return Err(format!("status {}", status_text(x.status)));
            }
            let s = split::read(fam, x)?;
            let mut sizes: Vec<(String, u32)> = s.slices.iter().map(|(n, b)| (n.clone(), b.host_bits())).collect();
            let mut blocks: Vec<Net> = s.slices.iter().map(|b| b.1).collect();
            if !s.refused {
                let asked: Vec<String> = l.iter().map(|c| c.to_string()).collect();
                if s.slices.iter().map(|x| x.0.clone()).collect::<Vec<_>>() != asked {
                    return Err("the slices are not in the order of the counts".into());
                }
            } else {
                sizes.clear();
                blocks.clear();
            }
            sizes.sort();
            blocks.sort();
            let me = (s.refused, sizes, blocks, s.unused, x.status);
            match &first {
                None => first = Some(me),
                Some(f) => {
                    if f.0 != me.0 {
                        return Err(format!("in the order {l:?} the counts {}, in the order {:?} not", if me.0 { "are refused" } else { "fit" }, lists[0]));
                    }
                    if *f != me {
                        return Err(format!("in the order {l:?} the blocks or the unused networks are others than in the order {:?}", lists[0]));
                    }
                },
            }
        }
        Ok(o.len() as u64)
    });
}
/// All different orders, or for long lists some: rotations, reversed, and pairs swapped.
fn all_orders(c: &[u128]) -> Vec<Vec<u128>> {
    let mut v: Vec<Vec<u128>> = vec![];
    if c.len() <= 4 {
        fn go(c: &mut Vec<u128>, k: usize, v: &mut Vec<Vec<u128>>) {
            if k == c.len() {
                v.push(c.clone());
                return;
            }
            for i in k..c.len() {
                c.swap(k, i);
                go(c, k + 1, v);
                c.swap(k, i);
            }
        }
        go(&mut c.to_vec(), 0, &mut v);
    } else {
        for i in 0..c.len() {
            let mut x = c.to_vec();
            x.rotate_left(i);
            v.push(x.clone());
            x.reverse();
            v.push(x);
        }
        for i in 1..c.len() {
            let mut x = c.to_vec();
            x.swap(i - 1, i);
            v.push(x);
        }
    }
    v.sort();
    v.dedup();
    let at = v.iter().position(|x| x == c).unwrap();
    v.swap(0, at);
    v
}

pub fn c29(t: &mut Tasks) {
    let th = t.thorough;
    for fam in FAMS {
        let w = fam.w();
        let counts: Vec<u128> = vec![0, 1, 2, 3, 5, 6, 7, 14, 15, 30, 31, 62];
        for hb in 0..=if th { 9 } else { 7 } {
            let counts = counts.clone();
            t.add(format!("{fam:?}: /{}", w - hb), move |r| {
                let a = backgrounds(fam)[2];
                let n = counts.iter().filter(|c| **c < 1 << hb).count().max(2);
                // multisets of up to so many counts
                let mut sets: Vec<Vec<usize>> = vec![];
                let max = if r.thorough() { 5 } else { 4 };
                let mut layer: Vec<Vec<usize>> = vec![vec![]];
                for _ in 0..max {
                    let mut next = vec![];
                    for s in &layer {
                        for i in s.last().copied().unwrap_or(0)..n {
                            let mut x = s.clone();
                            x.push(i);
                            next.push(x);
                        }
                    }
                    sets.extend(next.iter().filter(|s| s.len() > 1).cloned());
                    layer = next;
                }
                for s in sets {
                    if r.stopped() {
                        return;
                    }
                    let c: Vec<u128> = s.iter().map(|i| counts[*i]).collect();
                    let l = all_orders(&c);
                    if l.len() > 1 {
                        orders(r, fam, a, w - hb, l);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: networks of 1 to {} addresses, every multiset of up to {} of 12 counts that may fit, in every order (five counts: rotations, reversals, swaps)", if th { 512 } else { 128 }, if th { 5 } else { 4 }));
        for part in 0..8 {
        t.add(format!("{fam:?}: large networks, part {part}"), move |r| {
            for p in (part..=w).step_by(8) {
                let hb = w - p;
                let size = |h: u32| if h == 0 { 0 } else { (1u128 << h) - 2 };
                let h = |d: u32| size(hb.saturating_sub(d).min(127));
                for a in backgrounds(fam) {
                    for c in [vec![h(1), h(2)], vec![h(1), h(1)], vec![h(1), h(2), h(3)], vec![h(2), h(1), h(2)], vec![h(1), h(2), h(3), h(3)], vec![1, h(1)], vec![1, h(1), h(3), 0], vec![h(0), 1], vec![h(2), h(2) + 1], vec![h(3), h(3) + 1, h(4), h(4) + 1], vec![1, 2, 3, 4, 5], vec![h(1), 7, h(5), 1, h(3), 2, 100], vec![h(3), h(3), h(3), h(4)], vec![h(4), h(4), h(4), h(5), h(5)], vec![h(3), h(4), h(4), h(4), h(5)], vec![h(4), h(4), h(4), h(4), h(5), 1], vec![h(3), h(3), h(3), h(3), h(3), h(4), h(4)]] {
                        let l = all_orders(&c);
                        if l.len() > 1 {
                            orders(r, fam, a, p, l);
                        }
                    }
                }
            }
        });
        }
        t.bound(format!("{fam:?}: networks of every prefix, 17 lists of 2 to 7 counts around the halves to thirty-seconds of the network"));
        t.add(format!("{fam:?}: many counts"), move |r| {
            for n in [8usize, 16, 17, 33, 64, 100] {
                let c: Vec<u128> = (0..n).map(|i| [1u128, 6, 2, 14, 0, 3, 30, 9][i % 8] + (i / 8) as u128 * 3).collect();
                orders(r, fam, backgrounds(fam)[2], w - 14, all_orders(&c));
                let same: Vec<u128> = (0..n).map(|i| 3 + (i % 4) as u128).collect();
                orders(r, fam, backgrounds(fam)[2], w - 14, all_orders(&same));
                orders(r, fam, backgrounds(fam)[2], w - 7, all_orders(&same));
            }
        });
        let mut longer: Vec<usize> = vec![128, 129, 200, 256, 257, 300, 512, 513];
        longer.extend(crate::dict::get().unusual(if th { 2000 } else { 700 }).into_iter().map(|n| n as usize).filter(|n| *n > 1));
        longer.extend(if th { vec![1000, 1025, 2049] } else { vec![1000] });
        for n in longer {
            t.add(format!("{fam:?}: {n} counts"), move |r| {
                for m in [7u32, 11, 2] {
                    let c: Vec<u128> = (0..n as u128).map(|i| 1 + (i * i + i / 3) % m as u128).collect();
                    let mut up = c.clone();
                    up.sort();
                    let down: Vec<u128> = up.iter().rev().cloned().collect();
                    let turned: Vec<u128> = c[n / 2..].iter().chain(&c[..n / 2]).cloned().collect();
                    orders(r, fam, backgrounds(fam)[2], w - 16, vec![c, up, down, turned]);
                }
            });
        }
        t.bound(format!("{fam:?}: lists of 8 to 100 counts rotated, reversed and with neighbours swapped, lists of 128 to 1000 (and other lengths that the sources mention) in four orders"));
        t.add(format!("{fam:?}: places"), move |r| {
            for (a, p) in places(fam) {
                let hb = (w - p).min(126);
                let s = |d: u32| (1u128 << hb.saturating_sub(d).max(1)) - 2;
                for c in [vec![s(1), s(2), 1], vec![s(2), s(1), s(3), 5], vec![0, 1, 2], vec![s(1), s(1), 1]] {
                    let l = all_orders(&c);
                    orders(r, fam, a, p, l);
                }
            }
        });
        t.bound(format!("{fam:?}: the blocks of the IANA registries"));
    }
}
