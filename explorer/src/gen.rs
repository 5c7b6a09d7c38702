//! Finite alphabets of addresses and masks.
use crate::model::*;

/// Backgrounds on which the windows are laid.
pub fn backgrounds(fam: Fam) -> Vec<u128> {
    match fam {
        V4 => vec![0, 0xffff_ffff, 0xc0a8_0205, 0x5a3c_a596],
        V6 => vec![
            0,
            u128::MAX,
            0x2001_0db8_0000_0000_0000_00ff_fe12_0456,
            0x5a3c_a596_0ff0_8001_7ffe_1248_c3a5_69db,
        ],
    }
}

/// All values of a window of k bits at bit `at` (counted from the least significant) on a background.
pub fn window(fam: Fam, at: u32, k: u32, bg: u128) -> impl Iterator<Item = u128> {
    let m = ((1u128 << k) - 1) << at;
    let full = fam.full();
    (0..1u128 << k).map(move |v| (bg & !m | v << at) & full)
}

pub fn offsets(fam: Fam, k: u32) -> Vec<u32> {
    (0..=fam.w() - k).collect()
}
/// Window positions around the places where the code changes representation: byte, chunk, half.
pub fn key_offsets(fam: Fam, k: u32) -> Vec<u32> {
    let w = fam.w();
    let mut v: Vec<u32> = vec![];
    let marks: Vec<u32> = match fam {
        V4 => vec![0, 4, 8, 12, 16, 24, 28, 32],
        V6 => vec![0, 8, 16, 32, 48, 56, 64, 72, 80, 96, 112, 120, 128],
    };
    for m in marks {
        for d in [0i64, -1, -2, -(k as i64) / 2, -(k as i64), 1] {
            let x = m as i64 + d;
            if x >= 0 && x as u32 + k <= w {
                v.push(x as u32);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Masks that differ from all-ones, all-zeros, ones-then-zeros and zeros-then-ones in a window.
pub fn window_masks(fam: Fam, at: u32, k: u32) -> Vec<u128> {
    let w = fam.w();
    let high = if at + k >= w { 0 } else { fam.full() << (at + k) & fam.full() };
    let low = (1u128 << at) - 1;
    let mut v = vec![];
    for (h, l) in [(high, 0), (high, low), (0, 0), (0, low)] {
        for p in 0..1u128 << k {
            v.push((h | l | p << at) & fam.full());
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Masks whose host bits are any set of at most n bit positions.
pub fn sparse_wildcards(fam: Fam, n: u32) -> Vec<u128> {
    let w = fam.w();
    let mut v: Vec<u128> = vec![0];
    let mut layer: Vec<(u128, u32)> = vec![(0, 0)];
    for _ in 0..n {
        let mut next = vec![];
        for (m, from) in &layer {
            for b in *from..w {
                next.push((m | 1u128 << b, b + 1));
            }
        }
        v.extend(next.iter().map(|x| x.0));
        layer = next;
    }
    v.into_iter().map(|x| !x & fam.full()).collect()
}

/// Masks put together from an alphabet of bytes (IPv4) or 16-bit groups (IPv6, repeated patterns).
pub fn block_masks(fam: Fam) -> Vec<u128> {
    let mut v = vec![];
    match fam {
        V4 => {
            let o = [0u128, 255, 254, 128, 1, 0xf0, 0x0f, 0xaa];
            for a in o {
                for b in o {
                    for c in o {
                        for d in o {
                            v.push(a << 24 | b << 16 | c << 8 | d);
                        }
                    }
                }
            }
        },
        V6 => {
            // every pattern of all-ones / all-zeros groups, and patterns with one odd group
            for p in 0..256u128 {
                let mut m = 0;
                for i in 0..8 {
                    if p >> i & 1 == 1 {
                        m |= 0xffffu128 << (16 * i);
                    }
                }
                v.push(m);
                for i in 0..8 {
                    for g in [0x8000u128, 0x0001, 0xfffe, 0x7fff, 0xf00f, 0xaaaa] {
                        v.push(m & !(0xffff << (16 * i)) | g << (16 * i));
                    }
                }
            }
        },
    }
    v.sort();
    v.dedup();
    v
}

/// 2^i - 1, 2^i, 2^i + 1 and their complements, for every bit i.
pub fn edge_values(fam: Fam) -> Vec<u128> {
    let mut v = vec![];
    for i in 0..fam.w() {
        let p = 1u128 << i;
        for x in [p - 1, p, p + 1] {
            v.push(x & fam.full());
            v.push(!x & fam.full());
        }
    }
    v.push(fam.full());
    v.sort();
    v.dedup();
    v
}

/// The fewest CIDR networks that make up the range, ascending.
pub fn range_blocks(fam: Fam, lo: u128, hi: u128) -> Vec<Net> {
    let mut v = vec![];
    let mut a = lo;
    loop {
        // the largest block that starts at a and ends no later than hi
        let mut h = 0;
        while h < fam.w() {
            let span = if h + 1 == 128 { u128::MAX } else { (1u128 << (h + 1)) - 1 };
            if a & span != 0 || hi - a < span {
                break;
            }
            h += 1;
        }
        let n = Net::cidr(fam, a, fam.w() - h);
        v.push(n);
        if n.last() == hi {
            return v;
        }
        a = n.last() + 1;
    }
}

/// Disjoint, non-adjacent, ascending ranges covering the same addresses as the CIDR networks.
pub fn ranges_of(nets: &[Net]) -> Vec<(u128, u128)> {
    let mut v: Vec<(u128, u128)> = nets.iter().map(|n| (n.base, n.last())).collect();
    v.sort();
    let mut r: Vec<(u128, u128)> = vec![];
    for (a, b) in v {
        if let Some(l) = r.last_mut() {
            if l.1 == u128::MAX || a <= l.1 + 1 {
                l.1 = l.1.max(b);
                continue;
            }
        }
        r.push((a, b));
    }
    r
}

/// All sequences over 0..n of length 0..=len, shortest first.
pub fn sequences(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for s in &layer {
            for i in 0..n {
                let mut t = s.clone();
                t.push(i);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        layer = next;
    }
    all
}

/// All subsets of 0..n with 1..=k elements, ascending inside, smallest first.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut all = vec![];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for s in &layer {
            let from = s.last().map(|x| x + 1).unwrap_or(0);
            for i in from..n {
                let mut t = s.clone();
                t.push(i);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        layer = next;
    }
    all
}

/// Blocks with a meaning of their own (IANA's registries of special-purpose, multicast and reserved
/// addresses, what documents use, and what is usual in private networks): address and prefix.
pub fn places(fam: Fam) -> Vec<(u128, u32)> {
    let text: &[&str] = match fam {
        V4 => &[
            "0.0.0.0/8", "10.0.0.0/8", "100.64.0.0/10", "127.0.0.0/8", "169.254.0.0/16", "172.16.0.0/12", "192.0.0.0/24", "192.0.0.0/29", "192.0.2.0/24",
            "192.31.196.0/24", "192.52.193.0/24", "192.88.99.0/24", "192.168.0.0/16", "192.175.48.0/24", "198.18.0.0/15", "198.51.100.0/24", "203.0.113.0/24", "224.0.0.0/4", "224.0.0.0/24",
            "232.0.0.0/8", "233.252.0.0/24", "239.0.0.0/8", "240.0.0.0/4", "255.255.255.255/32", "192.168.0.0/24", "192.168.1.0/24", "172.17.0.0/16", "10.0.0.0/24", "8.8.8.0/24",
            "1.1.1.0/24", "128.0.0.0/16", "191.255.0.0/16", "223.255.255.0/24", "14.0.0.0/8", "24.0.0.0/8", "39.0.0.0/8",
        ],
        V6 => &[
            "0:0:0:0:0:0:0:0/128", "0:0:0:0:0:0:0:1/128", "0:0:0:0:0:0:0:0/96", "0:0:0:0:0:0:0:0/8", "0:0:0:0:0:ffff:0:0/96", "0:0:0:0:ffff:0:0:0/96", "64:ff9b:0:0:0:0:0:0/96",
            "64:ff9b:1:0:0:0:0:0/48", "100:0:0:0:0:0:0:0/64", "2000:0:0:0:0:0:0:0/3", "2001:0:0:0:0:0:0:0/23", "2001:0:0:0:0:0:0:0/32", "2001:2:0:0:0:0:0:0/48",
            "2001:3:0:0:0:0:0:0/32", "2001:10:0:0:0:0:0:0/28", "2001:20:0:0:0:0:0:0/28", "2001:db8:0:0:0:0:0:0/32", "2002:0:0:0:0:0:0:0/16", "2620:4f:8000:0:0:0:0:0/48", "3ffe:0:0:0:0:0:0:0/16",
            "3fff:0:0:0:0:0:0:0/20", "5f00:0:0:0:0:0:0:0/16", "fc00:0:0:0:0:0:0:0/7", "fd00:0:0:0:0:0:0:0/8", "fe80:0:0:0:0:0:0:0/10", "fe80:0:0:0:0:0:0:0/64", "fec0:0:0:0:0:0:0:0/10", "ff00:0:0:0:0:0:0:0/8",
            "ff02:0:0:0:0:0:0:0/16", "ff02:0:0:0:0:1:ff00:0/104", "2001:db8:0:1:0:0:0:0/64", "2001:4860:4860:0:0:0:0:0/48", "fe80:0:0:0:0:5efe:0:0/96",
        ],
    };
    text.iter()
        .map(|t| {
            let n = parse_net(t).expect(t);
            (n.base, n.prefix().unwrap())
        })
        .collect()
}

/// Addresses in and around the places, and those with values that the sources mention.
pub fn place_addrs(fam: Fam) -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    for (a, p) in places(fam) {
        let n = Net::cidr(fam, a, p);
        let s = n.span();
        let (lo, hi) = (a, n.last());
        for d in [0u128, 1, 2, 10, 254, 255, s / 2, s / 2 + 1, s / 3] {
            if d <= s {
                v.push(lo + d);
                v.push(hi - d);
            }
        }
        v.extend(lo.checked_sub(1));
        v.extend(fam.add(hi, 1));
        // the low byte, or the interface, of usual routers
        let host = fam.w() - p;
        if host >= 16 {
            v.push(lo | 1 << 8 | 1);
        }
        if host >= 64 {
            v.push(lo | 0x0200_5eff_fe00_5301);
            v.push(lo | 1 << 64 | 1);
        }
    }
    v.extend(crate::dict::get().addrs(fam));
    v.sort();
    v.dedup();
    v
}
