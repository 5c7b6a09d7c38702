//! C02: --minimize keeps exactly the addresses.  C03: its result is minimal and canonical.
use crate::cubes::*;
use crate::gen::*;
use crate::model::*;
use crate::parse;
use crate::run::*;
use crate::Tasks;

fn ok(o: &Out) -> Result<Vec<Net>, String> {
    if o.status != 0 {
        return Err(format!("minimizing valid networks ended with status {}", status_text(o.status)));
    }
    parse::networks(&o.out)
}

fn argv(opt: &str, nets: &[Net]) -> Args {
    let mut a = vec![opt.to_string()];
    a.extend(nets.iter().map(|n| spec(n.fam, n.base, n.mask)));
    a
}

fn keep(r: &mut Runner, nets: Vec<Net>) {
    r.check(argv("-m", &nets), move |o| {
        let out = ok(o)?;
        same_union(&nets, &out)?;
        Ok(out.len() as u64 + nets.len() as u64)
    });
}

/// The shortest ascending list of CIDR networks with the same addresses.
pub fn canonical(fam: Fam, nets: &[Net]) -> Vec<Net> {
    ranges_of(nets).into_iter().flat_map(|(a, b)| range_blocks(fam, a, b)).collect()
}

fn judge_min(nets: &[Net], o: &Out) -> Verdict {
    let out = ok(o)?;
    if out.is_empty() {
        return Err("nothing is printed".into());
    }
    if let Some(n) = out.iter().find(|n| n.fam != nets[0].fam) {
        return Err(format!("{} is of the other family", n.text()));
    }
    for w in out.windows(2) {
        if w[0] == w[1] {
            return Err(format!("{} is printed twice", w[0].text()));
        }
        if (w[0].base, w[0].mask) > (w[1].base, w[1].mask) {
            return Err(format!("{} is printed before {}", w[0].text(), w[1].text()));
        }
    }
    let cidr_in = nets.iter().all(|n| n.prefix().is_some());
    if cidr_in {
        if let Some(n) = out.iter().find(|n| n.prefix().is_none()) {
            return Err(format!("the lopsided {} is printed for CIDR networks", n.text()));
        }
        // minimal for the addresses it does cover (that these are the right ones is C02)
        let want = canonical(nets[0].fam, &out);
        if out != want {
            return Err(format!(
                "printed {}, but {} networks would do: {}",
                out.iter().map(|n| n.text()).collect::<Vec<_>>().join(" "),
                want.len(),
                want.iter().map(|n| n.text()).collect::<Vec<_>>().join(" ")
            ));
        }
    } else {
        for (i, a) in out.iter().enumerate() {
            for (j, b) in out.iter().enumerate() {
                if i != j && a.superset(b) {
                    return Err(format!("{} is printed although {} contains it", b.text(), a.text()));
                }
                if i < j && a.mask == b.mask && a.mask != 0 {
                    // neighbours: they differ in their least significant network bit only
                    let low = a.mask & a.mask.wrapping_neg();
                    if a.base ^ b.base == low {
                        return Err(format!("the neighbours {} and {} are not merged", a.text(), b.text()));
                    }
                }
            }
        }
    }
    Ok(out.len() as u64)
}

fn minimal(r: &mut Runner, nets: Vec<Net>) {
    r.check(argv("--minimize", &nets), move |o| judge_min(&nets, o));
}

/// The same set in another order, with repetitions, has the same result; and the result is a fixed
/// point.
fn orderless(r: &mut Runner, variants: Vec<Vec<Net>>) {
    let runs: Vec<Args> = variants.iter().map(|v| argv("-m", v)).collect();
    let nets = variants[0].clone();
    r.check_many(runs, move |o| {
        let mut n = judge_min(&nets, &o[0])?;
        for (i, x) in o.iter().enumerate().skip(1) {
            if x.status != 0 || x.out != o[0].out {
                return Err(format!("the result depends on order or repetition: variant {} prints {:?}, the first {:?}", i, clip(&x.out, 300), clip(&o[0].out, 300)));
            }
            n += 1;
        }
        Ok(n)
    });
}

type Emit = fn(&mut Runner, Vec<Net>);

/// All subsets of the CIDR networks of a window, all small sets of arbitrary networks of a window,
/// and so on: the spaces that C02 and C03 share.
fn spaces(t: &mut Tasks, emit: Emit) {
    let th = t.thorough;
    for fam in FAMS {
        // every subset of a complete binary tree of 15 networks
        let at_list: Vec<u32> = match (fam, th) {
            (V4, true) => offsets(V4, 3),
            (V4, false) => vec![0, 1, 6, 7, 14, 22, 28, 29],
            (V6, true) => key_offsets(V6, 3),
            (V6, false) => vec![0, 15, 62, 63, 125],
        };
        for &at in &at_list {
            for part in 0..4usize {
                t.add(format!("{fam:?} all sets in the tree of depth 3@{at} part {part}"), move |r| {
                    let bg = backgrounds(fam)[(at as usize) % 4];
                    let u = window_cidrs(fam, at, 3, bg);
                    let bits = if th || at == 0 || at == 29 { 15 } else { 13 };
                    for s in 1u32..1 << 15 {
                        if s as usize % 4 != part || (bits < 15 && s & 0x6000 != 0 && s & 0x1fff != 0 && s.count_ones() > 6) {
                            continue;
                        }
                        emit(r, (0..15).filter(|i| s >> i & 1 == 1).map(|i| u[i as usize]).collect());
                    }
                });
            }
        }
        t.bound(format!("{fam:?} CIDR: sets of networks of the binary tree of depth 3 at the bit offsets {at_list:?} (quick: away from the ends, sets with one of the two largest networks only up to 6 elements)"));
        // all sets of leaves of a deeper tree
        for &at in &[0u32, 5, fam.w() / 2 - 2, fam.w() - 4] {
            t.add(format!("{fam:?} all sets of 16 leaves @{at}"), move |r| {
                let bg = backgrounds(fam)[2];
                let u = window_cidrs(fam, at, 4, bg);
                for s in 1u32..1 << 16 {
                    if !th && s % 4 != 3 && s.count_ones() > 5 {
                        continue;
                    }
                    emit(r, (0..16).filter(|i| s >> i & 1 == 1).map(|i| u[i as usize]).collect());
                }
            });
        }
        t.bound(format!("{fam:?} CIDR: sets of the 16 equal networks of a 4-bit window (quick: all of up to 5, a quarter of the rest)"));
        // small sequences in any order with repetitions
        let u = window_cidrs(fam, 3, 2, backgrounds(fam)[1]);
        let len = if th { 5 } else { 4 };
        for first in 0..u.len() {
            let u = u.clone();
            t.add(format!("{fam:?} sequences over 7 networks, first {first}"), move |r| {
                for s in sequences(u.len(), len - 1) {
                    let mut v = vec![u[first]];
                    v.extend(s.iter().map(|i| u[*i]));
                    emit(r, v);
                }
            });
        }
        t.bound(format!("{fam:?} CIDR: every sequence of at most {len} over the 7 networks of a 2-bit tree"));
        // pairs and triples of networks of every prefix around edges
        t.add(format!("{fam:?} pairs of prefixes"), move |r| {
            let w = fam.w();
            for p in 0..=w {
                for q in 0..=w {
                    for bg in backgrounds(fam) {
                        let a = Net::cidr(fam, bg, p);
                        let flips = [0u128, 1u128.checked_shl(w - q).unwrap_or(0) & fam.full(), 1u128.checked_shl(w - p).unwrap_or(0) & fam.full()];
                        for f in flips {
                            emit(r, vec![a, Net::cidr(fam, bg ^ f, q)]);
                        }
                    }
                }
            }
        });
        t.bound(format!("{fam:?} CIDR: every pair of prefixes, on 4 backgrounds, nested, adjacent or apart"));
        // arbitrary networks of a window
        let at_list: Vec<u32> = match (fam, th) {
            (V4, true) => offsets(V4, 3),
            (V4, false) => vec![0, 6, 15, 29],
            (V6, true) => key_offsets(V6, 3),
            (V6, false) => vec![0, 62, 125],
        };
        for &at in &at_list {
            let n = if th { 4 } else { 3 };
            t.add(format!("{fam:?} up to {n} arbitrary networks in 3 bits@{at}"), move |r| {
                let u = window_nets(fam, at, 3, backgrounds(fam)[(at as usize + 1) % 4]);
                for s in subsets(u.len(), n) {
                    emit(r, s.iter().map(|i| u[*i]).collect());
                }
            });
        }
        t.bound(format!("{fam:?} any masks: all sets of at most {} of the 27 networks of a 3-bit window at {at_list:?}", if th { 4 } else { 3 }));
        for &at in &[0u32, fam.w() / 2 - 1, fam.w() - 2] {
            t.add(format!("{fam:?} all sets of 9 networks in 2 bits@{at}"), move |r| {
                let u = window_nets(fam, at, 2, backgrounds(fam)[3]);
                for s in 1u32..1 << 9 {
                    emit(r, (0..9).filter(|i| s >> i & 1 == 1).map(|i| u[i as usize]).collect());
                }
            });
        }
        // bits that lie far apart: the same 27 networks with the three bits scattered, other bits
        // being host bits or network bits
        t.add(format!("{fam:?} scattered bits"), move |r| {
            let w = fam.w();
            let sets: Vec<[u32; 3]> = match fam {
                V4 => vec![[0, 8, 16], [7, 8, 31], [0, 15, 31], [3, 12, 25], [1, 2, 30]],
                V6 => vec![[0, 63, 64], [15, 64, 127], [1, 63, 126], [0, 64, 127], [31, 32, 96]],
            };
            for pos in sets {
                for other in [fam.full(), fam.full() << 4 & fam.full(), fam.full() ^ 0x30 ^ 1 << (w - 4)] {
                    let win = pos.iter().fold(0u128, |m, p| m | 1 << p);
                    let bg = backgrounds(fam)[2] & other & !win;
                    let mut u = vec![];
                    for n in window_nets(fam, 0, 3, 0) {
                        u.push(Net { fam, base: bg | deposit(n.base, win), mask: other & !win | deposit(n.mask & 7, win) });
                    }
                    for s in subsets(u.len(), if th { 4 } else { 2 }) {
                        emit(r, s.iter().map(|i| u[*i]).collect());
                    }
                }
            }
        });
        t.bound(format!("{fam:?} any masks: sets of at most {} of 27 networks over three scattered bits", if th { 4 } else { 2 }));
        // many networks
        t.add(format!("{fam:?} long lists"), move |r| {
            for n in if th { vec![33usize, 64, 100, 200, 255, 256, 300] } else { vec![33, 64, 100, 150] } {
                for stride in [1u128, 2, 3] {
                    for h in [0u32, 5] {
                        let bg = backgrounds(fam)[2] & !0xffff_ffu128;
                        let mut v: Vec<Net> = (0..n as u128).map(|i| Net::cidr(fam, bg + (i * stride << h), fam.w() - h)).collect();
                        emit(r, v.clone());
                        v.reverse();
                        emit(r, v.clone());
                        v.rotate_left(n / 3);
                        emit(r, v);
                    }
                }
            }
        });
        t.bound(format!("{fam:?}: lists of up to {} equal networks with stride 1, 2, 3", if th { 300 } else { 150 }));
        t.add(format!("{fam:?} very long lists"), move |r| {
            for n in if th { vec![255usize, 256, 257, 300, 511, 512, 513, 520, 1024, 1025] } else { vec![256, 257, 513] } {
                for stride in [1u128, 2] {
                    let bg = backgrounds(fam)[2] & !0xffffu128;
                    let v: Vec<Net> = (0..n as u128).map(|i| Net::cidr(fam, bg + i * stride, fam.w())).collect();
                    emit(r, v.clone());
                    // the same network over and over, and one more at every end
                    let mut same: Vec<Net> = vec![v[0]; n];
                    emit(r, same.clone());
                    same.push(v[1]);
                    emit(r, same.clone());
                    same.rotate_right(1);
                    emit(r, same);
                    // one that contains them all, at either end and in the middle
                    for at in [0, n / 2, n] {
                        let mut x = v.clone();
                        x.insert(at, Net::cidr(fam, bg, fam.w() - 12));
                        emit(r, x);
                    }
                    // lopsided: every other network bit away
                    let m = fam.full() & !0b10010_0001_0000_0000_0100;
                    let mut x: Vec<Net> = (0..n as u128 / 4).map(|i| Net::new(fam, bg + (i & 3) + ((i >> 2) << 3), m)).collect();
                    emit(r, x.clone());
                    x.reverse();
                    emit(r, x);
                }
            }
        });
        for n in [1025usize, 1500, 2049] {
            t.add(format!("{fam:?} {n} networks"), move |r| {
                let h = 4;
                let bg = backgrounds(fam)[2] & !0xff_ffffu128;
                let mut v: Vec<Net> = (0..n as u128).map(|i| Net::cidr(fam, bg + (i * 2 << h), fam.w() - h)).collect();
                emit(r, v.clone());
                v.rotate_left(n / 3);
                v.push(Net::cidr(fam, v[0].base, fam.w()));
                emit(r, v);
            });
        }
        t.bound(format!("{fam:?}: 1025, 1500 and 2049 separate networks"));
        // numbers that the sources mention
        let d = crate::dict::get();
        for n in d.unusual(4100) {
            t.add(format!("{fam:?} {n} networks, a number of the sources"), move |r| {
                let n = n as usize;
                if n == 0 {
                    return;
                }
                let bg = backgrounds(fam)[2] & !0xff_ffffu128;
                let apart = |h: u32| -> Vec<Net> { (0..n as u128).map(|i| Net::cidr(fam, bg + (i * 2 << h), fam.w() - h)).collect() };
                emit(r, apart(0));
                let mut v = apart(4);
                v.rotate_left(n / 3);
                v.push(Net::cidr(fam, v[0].base, fam.w()));
                emit(r, v.clone());
                v.push(Net::cidr(fam, bg, fam.w() - 20));
                emit(r, v);
                if n <= 700 {
                    emit(r, (0..n as u128).map(|i| Net::cidr(fam, bg + i, fam.w())).collect());
                }
            });
        }
        for (i, a) in d.addrs(fam).chunks(30).enumerate() {
            let a = a.to_vec();
            t.add(format!("{fam:?} addresses of the sources {i}"), move |r| {
                let w = fam.w();
                for a in a {
                    for q in 1..=w {
                        if fam == V6 && q % 8 > 1 && q % 8 < 7 && q < 120 && !th {
                            continue;
                        }
                        let (x, y) = (Net::cidr(fam, a, q), Net::cidr(fam, a ^ 1 << (w - q), q));
                        emit(r, vec![x, y]);
                        emit(r, vec![y, Net::cidr(fam, a, w), x]);
                        let lop = Net::new(fam, a, fam.prefix_mask(q) & !(1 << (w / 2)) | 1);
                        emit(r, vec![x, lop, y]);
                        emit(r, vec![lop, Net::new(fam, a ^ 1, lop.mask), Net::cidr(fam, a, w)]);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: {} addresses with values that the sources mention, and lists as long as these numbers (up to 4100)", d.addrs(fam).len()));
        // many networks that cannot be merged, and few that can, contain each other or are lopsided
        for n in if th { vec![130usize, 260, 520, 600, 1030, 1100] } else { vec![260, 600, 1100] } {
            for at in if th || n == 600 { vec![0u32, 3, 7, fam.w() - 20] } else { vec![6u32] } {
                for part in 0..if n >= 600 { 8usize } else { 2 } {
                t.add(format!("{fam:?} ballast of {n}, 27 networks in 3 bits@{at}, part {part}"), move |r| {
                    let bg = backgrounds(fam)[2] & !(0xff_ffffu128 << 4) & !0xfff;
                    // every second network of a size, in a place of their own
                    let far = bg ^ 1 << (fam.w() - 1);
                    let ballast: Vec<Net> = (0..n as u128).map(|i| Net::cidr(fam, far ^ i << 3, fam.w() - 2)).collect();
                    let u = window_nets(fam, at, 3, bg);
                    let most = if th || n == 260 || n == 600 && at == 3 { 2 } else { 1 };
                    for s in subsets(u.len(), most).iter().skip(part).step_by(if n >= 600 { 8 } else { 2 }) {
                        let mut v = ballast.clone();
                        let few: Vec<Net> = s.iter().map(|i| u[*i]).collect();
                        match few.len() % 2 {
                            0 => v.extend(few),
                            _ => {
                                v.extend(ballast.iter().take(3));
                                v.splice(n / 2..n / 2, few);
                            },
                        }
                        emit(r, v);
                        if r.stopped() {
                            return;
                        }
                    }
                });
                }
            }
            // and a lopsided one that spans the ballast without containing any of it
            t.add(format!("{fam:?} ballast of {n} within the span of a lopsided network"), move |r| {
                let bg = backgrounds(fam)[2] & !0xff_ffffu128;
                let ballast: Vec<Net> = (0..n as u128).map(|i| Net::cidr(fam, bg ^ i << 3 ^ 1, fam.w())).collect();
                for wild in [0xfff8u128, 0x0ff2, 0x3ffe, 0x10008, 0x8002, 0xffff] {
                    let lop = Net::new(fam, bg, fam.full() & !wild);
                    let mut v = ballast.clone();
                    v.push(lop);
                    emit(r, v.clone());
                    v.rotate_right(1);
                    emit(r, v.clone());
                    v.push(Net::new(fam, bg ^ 1, fam.full() & !wild));
                    emit(r, v);
                }
            });
        }
        t.bound(format!("{fam:?}: lists of 260 to 1100 networks of which none merge, with every one and (at one offset) every two of the 27 networks of a 3-bit window elsewhere, and with lopsided networks around or through them"));
        t.bound(format!("{fam:?}: lists of {} networks, repeated, contained in one of them, and lopsided", if th { "up to 1025" } else { "256, 257 and 513" }));
        // a network and its neighbour at every level: as many rounds of merging as there are bits
        for part in 0..8u32 {
            t.add(format!("{fam:?} cascades {part}"), move |r| {
                let w = fam.w();
                for lo in (part..=w).step_by(8) {
                    for hi in lo..=w {
                        if fam == V6 && !th && hi - lo > 12 && (hi * 7 + lo) % 5 != 0 {
                            continue;
                        }
                        let bg = backgrounds(fam)[((lo + hi) % 4) as usize];
                        let mut v = vec![Net::cidr(fam, bg, hi)];
                        v.extend((lo + 1..=hi).map(|p| Net::cidr(fam, bg ^ 1u128 << (w - p), p)));
                        emit(r, v.clone());
                        v.reverse();
                        emit(r, v.clone());
                        // one is missing
                        let gone = v.len() / 2;
                        v.remove(gone);
                        if !v.is_empty() {
                            emit(r, v.clone());
                        }
                        // and every network that contains the innermost one
                        v = (lo..=hi).map(|p| Net::cidr(fam, bg, p)).collect();
                        v.rotate_left(((hi - lo) / 3) as usize);
                        emit(r, v);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: a network of every size with its neighbour at every level up to every other size (quick: IPv6 distances over 12, a fifth of them), one missing, and every chain of nested networks"));
        // the same with bits in a scattered order
        t.add(format!("{fam:?} lopsided cascades"), move |r| {
            let w = fam.w();
            for gap in 2..if th { 9u32 } else { 5 } {
                for off in 0..gap {
                    for n in 1..=(w / gap).min(12) {
                        // host bits are collected from the lowest on, each time skipping some
                        let bg = backgrounds(fam)[2];
                        let hosts: Vec<u128> = (0..n).map(|i| 1u128 << (i * gap + off).min(w - 1)).collect();
                        let all = (0..n).filter(|i| i * gap + off < w).fold(0u128, |m, i| m | 1u128 << (i * gap + off));
                        let below = (1u128 << off) - 1;
                        let mask = fam.full() & !all & !below;
                        let mut v = vec![];
                        for sub in 0..hosts.len() {
                            let m = mask | hosts[sub..].iter().fold(0, |a, b| a | b);
                            v.push(Net::new(fam, bg ^ hosts[sub], m & fam.full()));
                        }
                        v.push(Net::new(fam, bg, mask | all));
                        emit(r, v.clone());
                        v.reverse();
                        emit(r, v);
                    }
                }
            }
        });
        // where addresses have a meaning of their own
        let blocks = places(fam);
        let n = blocks.len();
        for first in 0..n {
            let blocks = blocks.clone();
            t.add(format!("{fam:?} places {first}"), move |r| {
                let net = |i: usize| Net::cidr(fam, blocks[i].0, blocks[i].1);
                let w = fam.w();
                for j in first..n {
                    emit(r, vec![net(first), net(j)]);
                    for k in j..n {
                        emit(r, vec![net(first), net(j), net(k)]);
                    }
                }
                // with neighbours, halves, single addresses and what contains it
                let (a, p) = blocks[first];
                let me = net(first);
                let mut near = vec![me];
                for q in 0..=w {
                    near.push(Net::cidr(fam, a, q));
                    near.push(Net::cidr(fam, me.last(), q));
                    if q > 0 {
                        near.push(Net::cidr(fam, a ^ 1 << (w - q), q));
                    }
                    if q > p + 6 && q + 3 < w && !th {
                        continue;
                    }
                    let x = near[near.len() - 1];
                    emit(r, vec![me, x]);
                    emit(r, vec![x, near[near.len() - 2], me, near[near.len() - 3]]);
                }
                near.sort();
                near.dedup();
                for (i, x) in near.iter().enumerate() {
                    for y in &near[i..] {
                        if x.mask.count_ones().abs_diff(y.mask.count_ones()) <= 2 {
                            emit(r, vec![*y, *x]);
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every set of up to three of {n} blocks of the IANA registries and usual private networks; each with its neighbours, parts and the networks around it"));
        // pools of typical mixed masks at wide distance
        t.add(format!("{fam:?} block masks in pairs"), move |r| {
            let m: Vec<u128> = block_masks(fam);
            let step = if th { 7 } else { 41 };
            for (i, a) in m.iter().enumerate().step_by(step) {
                for (j, b) in m.iter().enumerate().step_by(step) {
                    if i <= j {
                        let bg = backgrounds(fam)[2];
                        let low = b & b.wrapping_neg();
                        emit(r, vec![Net::new(fam, bg, *a), Net::new(fam, bg, *b), Net::new(fam, bg ^ low, *b)]);
                    }
                }
            }
        });
    }
}

pub fn c02(t: &mut Tasks) {
    spaces(t, keep);
}

pub fn c03(t: &mut Tasks) {
    spaces(t, minimal);
    let th = t.thorough;
    for fam in FAMS {
        for &at in &[0u32, fam.w() / 2 - 1, fam.w() - 3] {
            t.add(format!("{fam:?} order and repetition in the tree @{at}"), move |r| {
                let u = window_cidrs(fam, at, 2, backgrounds(fam)[1]);
                for s in 1u32..1 << 7 {
                    let v: Vec<Net> = (0..7).filter(|i| s >> i & 1 == 1).map(|i| u[i as usize]).collect();
                    orderless(r, variants(&v, if th { 5 } else { 4 }));
                }
            });
            t.add(format!("{fam:?} order and repetition in any networks @{at}"), move |r| {
                let u = window_nets(fam, at, 2, backgrounds(fam)[2]);
                for s in subsets(u.len(), if th { 5 } else { 4 }) {
                    let v: Vec<Net> = s.iter().map(|i| u[*i]).collect();
                    orderless(r, variants(&v, 4));
                }
                let u = window_nets(fam, at, 3, backgrounds(fam)[2]);
                for s in subsets(u.len(), if th { 3 } else { 2 }) {
                    let v: Vec<Net> = s.iter().map(|i| u[*i]).collect();
                    orderless(r, variants(&v, 3));
                }
            });
        }
        t.bound(format!("{fam:?}: all permutations of the subsets of a 2-bit tree and of small sets of arbitrary networks, with repetitions"));
        // idempotence: the result of the result
        t.add(format!("{fam:?} idempotence"), move |r| {
            let u = window_nets(fam, 4, 3, backgrounds(fam)[0]);
            for s in subsets(u.len(), if th { 3 } else { 2 }) {
                if r.stopped() {
                    return;
                }
                let v: Vec<Net> = s.iter().map(|i| u[*i]).collect();
                let first = r.run(&argv("-m", &v));
                if let Ok(out) = ok(&first) {
                    let want = first.out.clone();
                    if !out.is_empty() {
                        r.check(argv("-m", &out), move |o| {
                            ok(o)?;
                            if o.out == want {
                                Ok(1)
                            } else {
                                Err(format!("minimizing a minimized list changes it: {:?} becomes {:?}", want, o.out))
                            }
                        });
                    }
                }
            }
        });
    }
}

/// The list itself, its permutations (all if it is short, rotations and reversal otherwise), and
/// repetitions.
fn variants(v: &[Net], all_up_to: usize) -> Vec<Vec<Net>> {
    let mut r = vec![v.to_vec()];
    if v.len() <= all_up_to {
        permute(&mut v.to_vec(), 0, &mut r);
        r.remove(1);
    } else {
        for i in 1..v.len() {
            let mut x = v.to_vec();
            x.rotate_left(i);
            r.push(x);
        }
        let mut x = v.to_vec();
        x.reverse();
        r.push(x);
    }
    let mut x = v.to_vec();
    x.extend_from_slice(v);
    r.push(x);
    let mut x: Vec<Net> = v.iter().flat_map(|n| [*n, *n]).collect();
    x.push(v[0]);
    r.push(x);
    r
}
fn permute(v: &mut Vec<Net>, k: usize, out: &mut Vec<Vec<Net>>) {
    if k == v.len() {
        out.push(v.clone());
        return;
    }
    for i in k..v.len() {
        v.swap(k, i);
        permute(v, k + 1, out);
        v.swap(k, i);
    }
}
