//! C04: --derange prints the fewest CIDR networks that make up the range, ascending.
use crate::gen::*;
use crate::model::*;
use crate::parse;
use crate::run::*;
use crate::Tasks;

fn judge(fam: Fam, a: u128, b: u128, o: &Out) -> Verdict {
    if o.status != 0 {
        return Err(format!("two addresses of the same family, but status {}", status_text(o.status)));
    }
    let got = parse::networks(&o.out)?;
    let want = range_blocks(fam, a.min(b), a.max(b));
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if g != w {
            return Err(format!("network {} is {}, expected {}", i + 1, g.text(), w.text()));
        }
        if g.prefix().is_none() {
            return Err(format!("{} is not a CIDR network", g.text()));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} networks are printed, expected {}: {}", got.len(), want.len(), want.iter().map(|n| n.text()).collect::<Vec<_>>().join(" ")));
    }
    Ok(got.len() as u64)
}

fn pair(r: &mut Runner, fam: Fam, a: u128, b: u128) {
    r.check(args(&["-d", &fam.fmt(a), &fam.fmt(b)]), move |o| judge(fam, a, b, o));
}

pub fn c04(t: &mut Tasks) {
    let th = t.thorough;
    for fam in FAMS {
        // both ends in the same window
        let (k, at_list): (u32, Vec<u32>) = match (fam, th) {
            (V4, false) => (5, offsets(V4, 5)),
            (V4, true) => (7, offsets(V4, 7)),
            (V6, false) => (4, offsets(V6, 4)),
            (V6, true) => (5, offsets(V6, 5)),
        };
        for at in at_list {
            t.add(format!("{fam:?} pairs in window {k}@{at}"), move |r| {
                for bg in backgrounds(fam) {
                    for a in window(fam, at, k, bg) {
                        for b in window(fam, at, k, bg) {
                            pair(r, fam, a, b);
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: both orders of all pairs of addresses that differ inside a window of {k} bits, at every bit offset, on 4 backgrounds"));
        // the ends near powers of two, anywhere
        let e = edge_values(fam);
        let n = e.len();
        let parts = 16;
        for part in 0..parts {
            let e = e.clone();
            t.add(format!("{fam:?} pairs of edge values, part {part}"), move |r| {
                for i in (part..n).step_by(parts) {
                    for j in 0..n {
                        if fam == V6 && !th && (i + j) % 8 != 0 && i.abs_diff(j) > 3 {
                            continue;
                        }
                        pair(r, fam, e[i], e[j]);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: all pairs{} of the {n} values 2^i-1, 2^i, 2^i+1 and their complements", if fam == V6 && !th { " (an eighth, and all near each other)" } else { "" }));
        // where addresses have a meaning of their own
        let pl = place_addrs(fam);
        let n = pl.len();
        // the sources may mention many addresses
        let step = (if fam == V4 { 1 } else { 16 }).max(n * n / 1_500_000);
        for part in 0..16 {
            let pl = pl.clone();
            t.add(format!("{fam:?} places, part {part}"), move |r| {
                for i in (part..n).step_by(16) {
                    for j in 0..n {
                        let close = i.abs_diff(j) < 24;
                        if th || j <= i && (close || (i + j) % step == 0) {
                            pair(r, fam, pl[j], pl[i]);
                        } else if close {
                            pair(r, fam, pl[i], pl[j]);
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every pair{} of {n} addresses in and around the blocks of the IANA registries and usual private networks", if fam == V6 && !th { " (a sixteenth, and all near each other)" } else { "" }));
        // the two ends in two different windows: a low part for each end under a high difference
        let k2 = if th { 4 } else if fam == V4 { 3 } else { 2 };
        for hi in key_offsets(fam, 3) {
            t.add(format!("{fam:?} low windows {k2} and high window 3@{hi}"), move |r| {
                if hi < k2 {
                    return;
                }
                for bg in [backgrounds(fam)[2], backgrounds(fam)[1]].into_iter().take(if fam == V4 || th { 2 } else { 1 }) {
                    for (x, a0) in window(fam, hi, 3, bg).enumerate() {
                        for (y, b0) in window(fam, hi, 3, bg).enumerate() {
                            if x > y {
                                continue;
                            }
                            for la in 0..1u128 << k2 {
                                for lb in 0..1u128 << k2 {
                                    let m = (1u128 << k2) - 1;
                                    // the bits between are those of the background, or zeros, or ones
                                    let mid = ((1u128 << hi) - 1) & !m;
                                    for f in 0..3 {
                                        let set = |v: u128, up: bool| match (f, up) {
                                            (0, _) => v,
                                            (1, false) | (2, true) => v & !mid,
                                            _ => v | mid,
                                        };
                                        pair(r, fam, set(a0, false) & !m | la, set(b0, true) & !m | lb);
                                    }
                                }
                            }
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: ends with every {k2}-bit low part, every pair of 3-bit parts at the byte and group boundaries, and zeros, ones or the background between"));
    }
}
