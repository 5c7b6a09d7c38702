//! C13: prefix, mask and wildcard notation of the same network mean the same in every mode.
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use crate::Tasks;

fn same(o: &[Out]) -> Verdict {
    for x in o {
        if x.status != 0 {
            return Err(format!("a valid network is refused or fails: status {}", status_text(x.status)));
        }
    }
    alike(o)
}
fn alike(o: &[Out]) -> Verdict {
    for x in o {
        if x.status != o[0].status || x.status == PANIC || x.status < 0 {
            return Err(format!("the notations end with status {} and {}", status_text(o[0].status), status_text(x.status)));
        }
        if x.out != o[0].out {
            return Err("the notations lead to different output".into());
        }
    }
    if o[0].out.is_empty() {
        return Err("nothing is printed".into());
    }
    Ok(o.len() as u64)
}

/// The subnet part in every notation.
pub fn notations(fam: Fam, mask: u128) -> Vec<String> {
    let mut v = vec![];
    if let Some(p) = fam.mask_prefix(mask) {
        v.push(p.to_string());
    }
    v.push(fam.fmt(mask));
    v.push(format!("-{}", fam.fmt(!mask & fam.full())));
    v
}
/// The mask and the wildcard spelt out and in capitals as well.
fn spelt(mask: u128) -> Vec<String> {
    let fam = V6;
    let full = |x: u128| (0..8).map(|g| format!("{:04x}", x >> (112 - 16 * g) & 0xffff)).collect::<Vec<_>>().join(":");
    let wild = !mask & fam.full();
    let mut v = notations(fam, mask);
    v.push(full(mask));
    v.push(format!("-{}", full(wild)));
    v.push(full(mask).to_uppercase());
    v.push(format!("-{}", fam.fmt(wild).to_uppercase()));
    v
}

fn in_mode(r: &mut Runner, make: impl Fn(&str) -> Args, ns: &[String]) {
    r.check_many(ns.iter().map(|n| make(n)).collect(), same);
}

/// A network may give the number of its host bits after the minus sign as well.
fn of_network(fam: Fam, mask: u128) -> Vec<String> {
    let mut v = notations(fam, mask);
    if let Some(p) = fam.mask_prefix(mask) {
        v.push(format!("-{}", fam.w() - p));
    }
    v
}

fn everywhere(r: &mut Runner, fam: Fam, a: u128, mask: u128, modes: u32) {
    let targets = notations(fam, mask);
    let ns = of_network(fam, mask);
    let ad = fam.fmt(a);
    let hb = fam.w() - mask.count_ones();
    let on = |b: u32| modes >> b & 1 == 1;
    if on(0) {
        in_mode(r, |n| vec![format!("{ad}/{n}")], &ns);
    }
    if on(1) {
        in_mode(r, |n| vec!["-m".into(), format!("{ad}/{n}")], &ns);
    }
    if on(2) {
        // with its neighbour in the next notation
        let other = fam.fmt(a ^ deposit(1, mask));
        let at = |n: &str| ns.iter().position(|x| x == n).unwrap();
        let ns2 = ns.clone();
        in_mode(r, |n| vec!["-m".into(), format!("{ad}/{n}"), format!("{other}/{}", ns2[(at(n) + 1) % ns2.len()])], &ns);
    }
    if on(3) && hb <= 7 {
        in_mode(r, |n| vec!["-e".into(), format!("{ad}/{n}")], &ns);
    }
    if on(4) && fam.mask_prefix(mask).is_some() {
        let c = if hb >= 3 { "5" } else { "0" };
        // it may not fit
        r.check_many(ns.iter().map(|n| vec!["-s".into(), format!("{ad}/{n}"), c.into(), "0".into()]).collect(), alike);
    }
    if on(5) {
        // to and from this subnet
        let w = fam.w();
        for p in [mask.count_ones().saturating_sub(3), mask.count_ones(), (mask.count_ones() + 3).min(w)] {
            in_mode(r, |n| vec!["-r".into(), format!("{ad}/{n}"), p.to_string()], &ns);
            if p + 5 >= mask.count_ones() {
                in_mode(r, |n| vec!["-r".into(), format!("{ad}/{p}"), n.into()], &targets);
            }
        }
    }
}

pub fn c13(t: &mut Tasks) {
    let th = t.thorough;
    for fam in FAMS {
        let w = fam.w();
        for p in 0..=w {
            t.add(format!("{fam:?} prefix {p}"), move |r| {
                let mut addrs = backgrounds(fam);
                addrs.extend(edge_values(fam).into_iter().step_by(if th || fam == V4 { 1 } else { 17 }));
                // the bits around the end of the prefix
                let k = if th { 8 } else if fam == V4 { 5 } else { 4 };
                let at = (w - p).saturating_sub(k / 2).min(w - k);
                for bg in backgrounds(fam) {
                    addrs.extend(window(fam, at, k, bg));
                }
                for a in addrs {
                    everywhere(r, fam, a, fam.prefix_mask(p), 0x3f);
                }
            });
        }
        t.bound(format!("{fam:?}: every prefix length with its mask and wildcard, at the edge addresses and with every bit pattern around the end of the prefix, as the network of every mode and as the target of --resize"));
        for (i, c) in place_addrs(fam).chunks(48).enumerate() {
            let c = c.to_vec();
            t.add(format!("{fam:?} places {i}"), move |r| {
                for a in c {
                    for p in 0..=w {
                        if th || fam == V4 || p % 16 == 0 || p > 124 {
                            everywhere(r, fam, a, fam.prefix_mask(p), if th || p % 4 == 0 { 0x3f } else { 0x1b });
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: the same at {} addresses in and around the blocks of the IANA registries and usual private networks", place_addrs(fam).len()));
        let n = if fam == V4 || th { 3 } else { 2 };
        let mut masks = sparse_wildcards(fam, n);
        masks.extend(sparse_wildcards(fam, 2).into_iter().map(|m| !m & fam.full()));
        masks.extend(block_masks(fam));
        let k = if th { 10 } else { 6 };
        for at in if th || fam == V4 { offsets(fam, k) } else { key_offsets(fam, k) } {
            masks.extend(window_masks(fam, at, k));
        }
        masks.sort();
        masks.dedup();
        let masks = std::sync::Arc::new(masks);
        let parts = 48;
        for part in 0..parts {
            let masks = masks.clone();
            t.add(format!("{fam:?} lopsided masks, part {part}"), move |r| {
                for (i, m) in masks.iter().skip(part).step_by(parts).enumerate() {
                    for (j, a) in backgrounds(fam).into_iter().enumerate() {
                        if th {
                            everywhere(r, fam, a, *m, 0x3f);
                        } else if j == 2 + i % 2 {
                            everywhere(r, fam, a, *m, if i % 5 < 2 { 0x2f } else { 0x03 });
                        }
                    }
                    if fam == V6 {
                        let ns = spelt(*m);
                        let a = fam.fmt(backgrounds(fam)[3]);
                        in_mode(r, |n| vec![format!("{a}/{n}")], &ns);
                        if i % 3 == 0 {
                            in_mode(r, |n| vec!["-m".into(), format!("{a}/{n}")], &ns);
                            in_mode(r, |n| vec!["-r".into(), format!("{a}/127"), n.into()], &ns);
                        }
                    }
                    if r.stopped() {
                        return;
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: {} lopsided masks (up to {n} host bits, up to 2 network bits, block patterns, windows of {k} bits) with their wildcards{}", masks.len(), if fam == V6 { ", also spelt out and in capitals" } else { "" }));
    }
}
