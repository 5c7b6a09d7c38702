//! C14: address arithmetic is integer arithmetic.
//! C15: networks have the bounds, the counts and the relations of the sets of addresses they are.
//! C19: rearranging bits and converting masks loses nothing.
use crate::gen::*;
use crate::model::*;
use crate::parse;
use crate::run::*;
use crate::Tasks;
use std::cmp::Ordering;
use std::sync::Arc;

fn opt(fam: Fam, x: Option<u128>) -> Vec<u8> {
    match x {
        None => vec![0],
        Some(v) => {
            let mut r = vec![1];
            r.extend(fam.bytes(v));
            r
        },
    }
}
fn cat(fam: Fam, v: &[u128]) -> Vec<u8> {
    v.iter().flat_map(|x| fam.bytes(*x)).collect()
}
fn ord(o: Ordering) -> u8 {
    (o as i8 + 1) as u8
}

fn unary(r: &mut Runner, fam: Fam, a: u128) {
    let f = fam.code();
    let b = fam.bytes(a);
    r.api(2, f, b.clone(), text(fam, a).into_bytes());
}
/// The text is judged by C11; here only for IPv4, where there is one text only.
fn text(fam: Fam, a: u128) -> String {
    fam.fmt(a)
}

fn values(r: &mut Runner, fam: Fam, a: u128) {
    let f = fam.code();
    let b = fam.bytes(a);
    if fam == V4 {
        unary(r, fam, a);
    }
    r.api(3, f, b.clone(), b.clone());
    r.api(4, f, b.clone(), opt(fam, Some(a)));
    r.api(5, f, b.clone(), vec![a.count_ones() as u8, (fam.w() - a.count_ones()) as u8, (fam.w() / 8) as u8]);
    r.api(6, f, b.clone(), fam.bytes(!a & fam.full()));
    if fam == V6 {
        let full: Vec<String> = (0..8).map(|i| format!("{:04x}", a >> (112 - 16 * i) & 0xffff)).collect();
        r.api(30, f, b.clone(), full.join(":").into_bytes());
        r.api(31, f, b.clone(), b.clone());
        r.api(32, f, b.clone(), opt(fam, Some(a)));
    }
}
fn pairs(r: &mut Runner, fam: Fam, a: u128, b: u128) {
    let f = fam.code();
    let rec = cat(fam, &[a, b]);
    let mut e = cat(fam, &[a & b, a | b, a ^ b]);
    e.extend([ord(a.cmp(&b)), ord(a.cmp(&b)), (a == b) as u8]);
    r.api(7, f, rec.clone(), e);
    r.api(8, f, rec.clone(), opt(fam, fam.add(a, b)));
    r.api(9, f, rec, opt(fam, a.checked_sub(b)));
}
fn offs(r: &mut Runner, fam: Fam, a: u128, d: i32) {
    let f = fam.code();
    let mut rec = fam.bytes(a);
    rec.extend(d.to_be_bytes());
    let m = d.unsigned_abs() as u128;
    let up = fam.add(a, m);
    let down = a.checked_sub(m);
    let (p, q) = if d >= 0 { (up, down) } else { (down, up) };
    r.api(10, f, rec.clone(), opt(fam, p));
    r.api(11, f, rec, opt(fam, q));
}

fn all_offsets(th: bool) -> Vec<i32> {
    let mut v: Vec<i32> = (-20..=20).collect();
    for i in 0..31 {
        for d in if th { vec![-2i64, -1, 0, 1, 2] } else { vec![-1, 0, 1] } {
            let x = (1i64 << i) + d;
            for y in [x, -x] {
                if y >= i32::MIN as i64 && y <= i32::MAX as i64 {
                    v.push(y as i32);
                }
            }
        }
    }
    v.extend([i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 0x5555_5555, -0x5555_5555, 0x0f0f_f0f1]);
    v.sort();
    v.dedup();
    v
}

pub fn c14(t: &mut Tasks) {
    let th = t.thorough;
    t.conform = 40;
    let api = t.has("addr");
    // what the command line shows of it: the next address, the last address, the order of addresses
    for fam in FAMS {
        for i in 0..fam.w() {
            t.add(format!("{fam:?} carries at bit {i}"), move |r| {
                let p = 1u128 << i;
                let full = fam.full();
                let d = if th { 9 } else { 5 };
                for hi in [0u128, full & !(p | (p - 1)), backgrounds(fam)[2] & !(p | (p - 1))] {
                    for x in 0..d {
                        for y in 0..d {
                            // from below to above the place where all lower bits carry
                            let a = (hi | p).wrapping_sub(x) & full;
                            let b = (hi | p).wrapping_add(y) & full;
                            let want = range_blocks(fam, a.min(b), a.max(b));
                            r.check(args(&["-d", &fam.fmt(a), &fam.fmt(b)]), move |o| {
                                let g = parse::networks(&o.out)?;
                                if o.status == 0 && g == want {
                                    Ok(g.len() as u64)
                                } else {
                                    Err(format!("expected {}", want.iter().map(|n| n.text()).collect::<Vec<_>>().join(" ")))
                                }
                            });
                        }
                    }
                    // members across the carry: a lopsided network with this bit and the lowest ones as host bits
                    let m = full & !(p | 3);
                    let n = Net::new(fam, hi | p, m);
                    r.check(args(&["-e", &spec(fam, hi | p, m)]), move |o| super::enumerate::judge(&[n], o));
                    // first and last host, last address
                    for m in [fam.prefix_mask(fam.w() - 1 - i), m] {
                        let n = Net::new(fam, hi | p, m);
                        r.check(vec![spec(fam, hi | p, m)], move |o| {
                            let (b, _) = parse::block(fam, &o.lines())?;
                            parse::same_facts(fam, &b, &parse::expected_block(&n, Some(hi | p)))
                        });
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: ranges, members, hosts and last addresses across a carry at every bit, observed at the command line"));
    }
    if !api {
        return;
    }
    for fam in FAMS {
        let e = Arc::new(edge_values(fam));
        let n = e.len();
        let parts = 32;
        for part in 0..parts {
            let e = e.clone();
            t.add(format!("{fam:?} pairs of edge values, part {part}"), move |r| {
                for i in (part..n).step_by(parts) {
                    values(r, fam, e[i]);
                    for j in 0..n {
                        pairs(r, fam, e[i], e[j]);
                    }
                    if r.stopped() {
                        return;
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: all pairs of the {n} values 2^i-1, 2^i, 2^i+1 and their complements: and, or, exclusive or, comparison, sum, difference"));
        let k = if th { 6 } else { 4 };
        for at in offsets(fam, k) {
            t.add(format!("{fam:?} pairs in window {k}@{at}"), move |r| {
                for x in backgrounds(fam) {
                    for y in backgrounds(fam) {
                        for a in window(fam, at, k, x) {
                            for b in window(fam, at, k, y) {
                                pairs(r, fam, a, b);
                            }
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: all pairs of addresses from a window of {k} bits at every offset, on each pair of 4 backgrounds"));
        let os = Arc::new(all_offsets(th));
        let k = if th { 8 } else { 4 };
        for at in offsets(fam, k) {
            let os = os.clone();
            t.add(format!("{fam:?} offsets from window {k}@{at}"), move |r| {
                for bg in backgrounds(fam) {
                    for a in window(fam, at, k, bg) {
                        values(r, fam, a);
                        for d in os.iter() {
                            offs(r, fam, a, *d);
                        }
                    }
                    if r.stopped() {
                        return;
                    }
                }
            });
        }
        for part in 0..8 {
            let (e, os) = (e.clone(), os.clone());
            t.add(format!("{fam:?} offsets from edge values, part {part}"), move |r| {
                for a in e.iter().skip(part).step_by(8) {
                    for d in os.iter() {
                        offs(r, fam, *a, *d);
                    }
                    // results at the ends of the space and of the lower half
                    for d in os.iter() {
                        let m = d.unsigned_abs() as u128;
                        for x in [m, m.wrapping_sub(1), fam.full() - m, (fam.full() - m).wrapping_add(1), (1u128 << 64) - m, (1u128 << 64) + m] {
                            offs(r, fam, x & fam.full(), *d);
                            offs(r, fam, x & fam.full(), d.wrapping_neg());
                        }
                    }
                    if r.stopped() {
                        return;
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: {} offsets (small ones, around every power of two, the extremes) from every address of a window of {k} bits at every offset, from the edge values, and across both ends of the space and the middle of an IPv6 address", os.len()));
        // where addresses have a meaning of their own
        let pl = Arc::new(place_addrs(fam));
        for part in 0..8usize {
            let (pl, os) = (pl.clone(), os.clone());
            t.add(format!("{fam:?} places, part {part}"), move |r| {
                for a in pl.iter().skip(part).step_by(8) {
                    values(r, fam, *a);
                    for b in pl.iter() {
                        pairs(r, fam, *a, *b);
                    }
                    for d in os.iter().step_by(if th { 1 } else { 9 }) {
                        offs(r, fam, *a, *d);
                    }
                    if r.stopped() {
                        return;
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: the same for every pair of {} addresses in and around the blocks of the IANA registries and usual private networks", pl.len()));
        // bytes of the wrong length, chunks of the wrong length
        t.add(format!("{fam:?} wrong lengths"), move |r| {
            for l in 0..40usize {
                if l != fam.w() as usize / 8 {
                    r.api(4, fam.code(), vec![0xa5; l], vec![0]);
                }
                if fam == V6 && l % 2 == 0 && l != 16 {
                    r.api(32, 6, vec![0xa5; l], vec![0]);
                }
            }
        });
    }
}

// ---- C15

fn put(v: &mut Vec<u8>, s: &str) {
    v.push(s.len() as u8);
    v.extend_from_slice(s.as_bytes());
}

fn described(n: &Net) -> (Vec<u8>, Vec<u8>) {
    let fam = n.fam;
    let h = n.host_bits();
    let mut v = cat(fam, &[n.base, n.mask]);
    match n.prefix() {
        None => v.extend([0, 0]),
        Some(p) => v.extend([1, p as u8]),
    }
    v.extend(fam.bytes(n.wildcard()));
    v.extend(opt(fam, (h >= 2).then(|| n.member(1))));
    v.extend(opt(fam, (h >= 2).then(|| n.member(n.span() - 1))));
    v.extend(opt(fam, (h >= 1).then(|| n.last())));
    let nb = extract(n.base, n.mask);
    let c = n.mask.count_ones();
    let ones = if c == 128 { u128::MAX } else { (1u128 << c) - 1 };
    v.extend(opt(fam, (nb != ones).then(|| deposit(nb.wrapping_add(1), n.mask))));
    v.extend(fam.bytes(n.last()));
    let count = match n.size() {
        None => "340282366920938463463374607431768211456".to_string(),
        Some(s) => s.to_string(),
    };
    put(&mut v, &count);
    let hosts = match h {
        0 => "-1".to_string(),
        128 => "340282366920938463463374607431768211454".to_string(),
        _ => ((1u128 << h) - 2).to_string(),
    };
    put(&mut v, &hosts);
    // the text is checked apart, as IPv6 text is not unique: everything before it is the prefix
    let t = v.len();
    let mut w = v.clone();
    put(&mut w, &n.text());
    let _ = t;
    (v, w)
}

/// Networks are compared field by field; the text must denote the network.
fn batch(r: &mut Runner, op: u8, fam: Fam, recs: Vec<(Vec<u8>, Option<Net>)>) {
    if r.stopped() || recs.is_empty() {
        return;
    }
    let raw: Vec<Vec<u8>> = recs.iter().map(|x| x.0.clone()).collect();
    let got = r.call(op, fam.code(), &raw);
    for ((rec, want), (st, g)) in recs.into_iter().zip(got) {
        let strict = op >= 14;
        r.book(hash_of(&(op, fam.code(), &rec)), 1);
        r.st.runs += 1;
        r.st.outcomes.insert(hash_of(&g));
        let call = crate::api::describe(op, fam.code(), &rec)();
        let bad = if st != 0 {
            Some("panicked".to_string())
        } else {
            match want {
                None => (g != vec![0]).then(|| "returned a network".to_string()),
                Some(n) => {
                    let (mut head, _) = described(&n);
                    if strict {
                        head.insert(0, 1);
                    }
                    if !g.starts_with(&head) {
                        Some(format!("has the facts {}, expected {}", hex(&g), hex(&head)))
                    } else {
                        let s = String::from_utf8_lossy(&g[head.len() + 1..]).to_string();
                        match parse_net(&s) {
                            Ok(m) if m == n && (n.prefix().is_some() == !s.split('/').nth(1).unwrap_or("").contains(['.', ':'])) => None,
                            _ => Some(format!("is printed as {s}, expected {}", n.text())),
                        }
                    }
                },
            }
        };
        r.sample(format!("{call} => {}", hex(&g)));
        if let Some(b) = bad {
            r.violation(format!("{call} {b}"), vec![], vec![], format!("api op={op} fam={} rec={}", fam.code(), hex(&rec)));
            return;
        }
    }
}

fn networks_of(r: &mut Runner, fam: Fam, list: &[(u128, u128)]) {
    for c in list.chunks(400) {
        if r.stopped() {
            return;
        }
        let n = |a: u128, m: u128| Net::new(fam, a, m);
        batch(r, 12, fam, c.iter().map(|(a, m)| (cat(fam, &[*a, *m]), Some(n(*a, *m)))).collect());
        batch(r, 14, fam, c.iter().map(|(a, m)| (cat(fam, &[*a, *m]), (a & !m == 0).then(|| n(*a, *m)))).collect());
        let p: Vec<(Vec<u8>, u128, u128)> = c
            .iter()
            .filter_map(|(a, m)| {
                let p = fam.mask_prefix(*m)?;
                let mut rec = fam.bytes(*a);
                rec.push(p as u8);
                Some((rec, *a, *m))
            })
            .collect();
        batch(r, 13, fam, p.iter().map(|(q, a, m)| (q.clone(), Some(n(*a, *m)))).collect());
        batch(r, 15, fam, p.iter().map(|(q, a, m)| (q.clone(), (a & !m == 0).then(|| n(*a, *m)))).collect());
    }
}

fn relate(r: &mut Runner, a: &Net, b: &Net) {
    let fam = a.fam;
    let sup = |x: &Net, y: &Net| x.superset(y) as u8;
    let meet = ((a.base ^ b.base) & a.mask & b.mask == 0) as u8;
    let e = vec![sup(a, b), sup(b, a), sup(b, a), sup(a, b), meet, meet, (a == b) as u8];
    r.api(16, fam.code(), cat(fam, &[a.base, a.mask, b.base, b.mask]), e);
}
/// The same by listing the members, which differ only inside the window.
fn relate_members(r: &mut Runner, a: &Net, b: &Net) {
    let members = |n: &Net| (0..=n.span()).map(|i| n.member(i)).collect::<Vec<_>>();
    let (x, y) = (members(a), members(b));
    let sup = |p: &[u128], q: &[u128]| q.iter().all(|v| p.contains(v)) as u8;
    let meet = x.iter().any(|v| y.contains(v)) as u8;
    let e = vec![sup(&x, &y), sup(&y, &x), sup(&y, &x), sup(&x, &y), meet, meet, (x == y) as u8];
    r.api(16, a.fam.code(), cat(a.fam, &[a.base, a.mask, b.base, b.mask]), e);
}

pub fn c15(t: &mut Tasks) {
    let th = t.thorough;
    t.conform = 300;
    let api = t.has("net");
    // at the command line: a network that contains another one swallows it
    for fam in FAMS {
        let k = if th { 4 } else { 3 };
        for at in key_offsets(fam, k) {
            t.add(format!("{fam:?} containment seen by --minimize, window {k}@{at}"), move |r| {
                let mut nets = vec![];
                for m in 0..1u128 << k {
                    let mask = fam.full() & !(((1u128 << k) - 1) << at) | m << at;
                    for bg in backgrounds(fam).into_iter().skip(2).take(1) {
                        for a in window(fam, at, k, bg) {
                            nets.push(Net::new(fam, a, mask));
                        }
                    }
                }
                nets.sort();
                nets.dedup();
                for a in &nets {
                    for b in &nets {
                        if a.superset(b) {
                            let a = *a;
                            for l in [[a, *b], [*b, a]] {
                                r.check(args(&["-m", &l[0].text(), &l[1].text()]), move |o| {
                                    let g = parse::networks(&o.out)?;
                                    if o.status == 0 && g == vec![a] {
                                        Ok(1)
                                    } else {
                                        Err(format!("{} contains the other network, so it alone is expected", a.text()))
                                    }
                                });
                            }
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every pair of networks of which one contains the other, with host bits inside a window of {k} bits, as seen by --minimize"));
        // the facts of a network at the command line
        for p in 0..=fam.w() {
            t.add(format!("{fam:?} facts of prefix {p}"), move |r| {
                for a in edge_values(fam).into_iter().step_by(if th { 1 } else { 7 }).chain(backgrounds(fam)) {
                    let n = Net::cidr(fam, a, p);
                    r.check(vec![spec(fam, a, n.mask)], move |o| {
                        let (b, _) = parse::block(fam, &o.lines())?;
                        parse::same_facts(fam, &b, &parse::expected_block(&n, Some(a)))
                    });
                }
            });
        }
    }
    if !api {
        return;
    }
    for fam in FAMS {
        // construction and facts
        let k = if th { 7 } else { 4 };
        for at in offsets(fam, k) {
            t.add(format!("{fam:?} networks with masks in window {k}@{at}"), move |r| {
                let mut l = vec![];
                for m in window_masks(fam, at, k) {
                    for a in backgrounds(fam) {
                        l.push((a, m));
                        l.push((a & m, m));
                        l.push((m, m));
                        // all network bits but the last
                        l.push((m & m.wrapping_sub(1), m));
                    }
                }
                networks_of(r, fam, &l);
            });
        }
        t.bound(format!("{fam:?}: networks of every mask that is any pattern in a window of {k} bits between uniform bits, at every offset; strict and lax construction"));
        let n = if th { 3 } else { 2 };
        let mut masks = sparse_wildcards(fam, n);
        masks.extend(sparse_wildcards(fam, n).into_iter().map(|m| !m & fam.full()));
        masks.extend(block_masks(fam));
        let masks = Arc::new(masks);
        let parts = 32;
        for part in 0..parts {
            let masks = masks.clone();
            t.add(format!("{fam:?} networks of sparse masks, part {part}"), move |r| {
                let mut l = vec![];
                for m in masks.iter().skip(part).step_by(parts) {
                    for a in backgrounds(fam) {
                        l.push((a, *m));
                        l.push((a & m, *m));
                    }
                    if l.len() > 4000 {
                        networks_of(r, fam, &l);
                        l.clear();
                    }
                }
                networks_of(r, fam, &l);
            });
        }
        t.bound(format!("{fam:?}: networks of {} masks with up to {n} host or network bits anywhere, or block patterns", masks.len()));
        for p in 0..=fam.w() {
            t.add(format!("{fam:?} networks of prefix {p}"), move |r| {
                let l: Vec<(u128, u128)> = edge_values(fam).into_iter().flat_map(|a| [(a, fam.prefix_mask(p)), (a & fam.prefix_mask(p), fam.prefix_mask(p))]).collect();
                networks_of(r, fam, &l);
            });
        }
        t.bound(format!("{fam:?}: networks of every prefix length at the values around powers of two"));
        // relations, decided by listing the members
        let k = 4;
        for at in if th { offsets(fam, k) } else { key_offsets(fam, k) } {
            t.add(format!("{fam:?} relations in window {k}@{at}"), move |r| {
                let win = ((1u128 << k) - 1) << at;
                let bg = backgrounds(fam)[3] & !win;
                let mut nets = vec![];
                for m in 0..1u128 << k {
                    for b in 0..1u128 << k {
                        nets.push(Net::new(fam, bg | b << at, fam.full() & !win | m << at));
                    }
                }
                nets.sort();
                nets.dedup();
                for a in &nets {
                    for b in &nets {
                        relate_members(r, a, b);
                    }
                    for v in window(fam, at, k, bg) {
                        r.api(17, fam.code(), cat(fam, &[a.base, a.mask, v]), vec![a.contains(v) as u8]);
                    }
                    if r.stopped() {
                        return;
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: containment, intersection, equality and membership of all pairs of networks that differ inside a window of {k} bits, decided by listing the members"));
        // where addresses have a meaning of their own
        t.add(format!("{fam:?} places"), move |r| {
            let nets: Vec<Net> = places(fam).into_iter().flat_map(|(a, p)| {
                let l = Net::cidr(fam, a, p).last();
                [Net::cidr(fam, a, p), Net::cidr(fam, a, p.saturating_sub(1)), Net::cidr(fam, a, (p + 1).min(fam.w())), Net::cidr(fam, l, (p + 9).min(fam.w())), Net::new(fam, a, fam.prefix_mask(p) & !0x0101)]
            }).collect();
            for a in &nets {
                for b in &nets {
                    relate(r, a, b);
                }
                if r.stopped() {
                    return;
                }
            }
            let mut l = vec![];
            for a in place_addrs(fam) {
                for p in (0..=fam.w()).step_by(if th { 1 } else { 4 }) {
                    l.push((a, fam.prefix_mask(p)));
                }
                for n in &nets {
                    r.api(17, fam.code(), cat(fam, &[n.base, n.mask, a]), vec![n.contains(a) as u8]);
                }
            }
            networks_of(r, fam, &l);
        });
        t.bound(format!("{fam:?}: the same for the blocks of the IANA registries and usual private networks, their halves and what contains them, and the addresses in and around them"));
        // relations of networks whose differing bits are far apart
        let w = fam.w();
        for i in 0..w {
            t.add(format!("{fam:?} relations, host bits from {i}"), move |r| {
                for j in (0..w).step_by(if th || fam == V4 { 1 } else { 3 }) {
                    for bg in backgrounds(fam).into_iter().take(if th { 4 } else { 2 }) {
                        let (p, q) = (1u128 << i, 1u128 << j);
                        let masks = [fam.full(), !p & fam.full(), !q & fam.full(), !(p | q) & fam.full(), p, q, p | q, 0, fam.prefix_mask(i), fam.prefix_mask(j)];
                        let bases = [bg, bg ^ p, bg ^ q, bg ^ p ^ q];
                        for m in masks {
                            for n in masks {
                                for b in bases {
                                    relate(r, &Net::new(fam, bg, m), &Net::new(fam, b, n));
                                }
                                r.api(17, fam.code(), cat(fam, &[bg, m, bg ^ p ^ q]), vec![Net::new(fam, bg, m).contains(bg ^ p ^ q) as u8]);
                            }
                        }
                    }
                    if r.stopped() {
                        return;
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: the same for networks that differ in two bits anywhere, with 10 masks each"));
    }
}

// ---- C19

fn unravel(fam: Fam, a: u128, m: u128) -> u128 {
    let h = fam.w() - m.count_ones();
    let hi = extract(a, m).checked_shl(h).unwrap_or(0);
    hi | extract(a, !m & fam.full())
}
fn weave(fam: Fam, a: u128, m: u128) -> u128 {
    let h = fam.w() - m.count_ones();
    let low = if h == 128 { u128::MAX } else { (1u128 << h) - 1 };
    deposit(a.checked_shr(h).unwrap_or(0), m) | deposit(a & low, !m & fam.full())
}

fn rearrange(r: &mut Runner, fam: Fam, a: u128, m: u128) {
    let u = unravel(fam, a, m);
    r.api(18, fam.code(), cat(fam, &[a, m]), fam.bytes(u));
    r.api(19, fam.code(), cat(fam, &[u, m]), fam.bytes(a));
    let v = weave(fam, a, m);
    r.api(19, fam.code(), cat(fam, &[a, m]), fam.bytes(v));
    r.api(18, fam.code(), cat(fam, &[v, m]), fam.bytes(a));
}

/// --resize to a mask with as many ones, and back.
fn there_and_back(r: &mut Runner, fam: Fam, a: u128, m1: u128, m2: u128) {
    let n1 = Net::new(fam, a, m1);
    let n2 = Net::new(fam, deposit(extract(n1.base, m1), m2), m2);
    let want = [n2, n1];
    r.check_many(vec![args(&["-r", &spec(fam, a, m1), &fam.fmt(m2)]), args(&["-r", &spec(fam, n2.base, m2), &fam.fmt(m1)])], move |o| {
        for (o, want) in o.iter().zip(&want) {
            if o.status != 0 {
                return Err(format!("status {}", status_text(o.status)));
            }
            let l = o.lines();
            let at: Vec<usize> = (0..l.len()).filter(|i| l[*i].starts_with("Network:")).collect();
            if at.len() != 2 {
                return Err(format!("{} networks are printed, expected the original and one of the same size", at.len()));
            }
            let (b, _) = parse::block(fam, &l[at[1]..])?;
            parse::same_facts(fam, &b, &parse::expected_block(want, None))?;
        }
        Ok(2)
    });
}

pub fn c19(t: &mut Tasks) {
    let th = t.thorough;
    t.conform = 300;
    let api = t.has("bits");
    for fam in FAMS {
        let k = if th { 5 } else { 4 };
        for at in if th || fam == V4 { offsets(fam, k) } else { key_offsets(fam, k) } {
            t.add(format!("{fam:?} there and back, window {k}@{at}"), move |r| {
                let ms = window_masks(fam, at, k);
                for (i, m1) in ms.iter().enumerate() {
                    for (j, m2) in ms.iter().enumerate() {
                        if m1.count_ones() == m2.count_ones() && (th || fam == V4 || (i + j) % 2 == 0) {
                            let bg = backgrounds(fam);
                            there_and_back(r, fam, bg[3], *m1, *m2);
                            if th {
                                there_and_back(r, fam, bg[2], *m1, *m2);
                            }
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: --resize to a mask of the same size and back, for the pairs of masks that are any pattern in a window of {k} bits between uniform bits"));
        let bm: Vec<u128> = block_masks(fam);
        let bm = Arc::new(bm);
        for part in 0..16 {
            let bm = bm.clone();
            t.add(format!("{fam:?} there and back between block masks, part {part}"), move |r| {
                let n = bm.len();
                for i in (part..n).step_by(if th { 16 } else { 64 }) {
                    for s in [1, 7, 40, 333] {
                        let m1 = bm[i];
                        // the next mask with as many ones
                        if let Some(m2) = (1..n).map(|d| bm[(i + d * s) % n]).find(|m| m.count_ones() == m1.count_ones()) {
                            there_and_back(r, fam, backgrounds(fam)[3], m1, m2);
                            there_and_back(r, fam, backgrounds(fam)[3], m1, fam.prefix_mask(m1.count_ones()));
                        }
                    }
                }
            });
        }
        if !api {
            continue;
        }
        let k = if th { 7 } else { 5 };
        for at in offsets(fam, k) {
            t.add(format!("{fam:?} rearranged by masks in window {k}@{at}"), move |r| {
                for m in window_masks(fam, at, k) {
                    for a in backgrounds(fam) {
                        rearrange(r, fam, a, m);
                    }
                    // each bit on its own
                    for i in at.saturating_sub(1)..(at + k + 1).min(fam.w()) {
                        rearrange(r, fam, 1u128 << i, m);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: rearrangement and its inverse under every mask of a window of {k} bits, at every offset"));
        let mut masks = sparse_wildcards(fam, if th || fam == V4 { 3 } else { 2 });
        masks.extend(sparse_wildcards(fam, 2).into_iter().map(|m| !m & fam.full()));
        masks.extend(block_masks(fam));
        for s in 1..fam.w() {
            for f in 0..s {
                masks.push((f..fam.w()).step_by(s as usize).fold(0, |m, i| m | 1u128 << i));
            }
        }
        let masks = Arc::new(masks);
        for part in 0..32 {
            let masks = masks.clone();
            t.add(format!("{fam:?} rearranged by sparse masks, part {part}"), move |r| {
                for m in masks.iter().skip(part).step_by(32) {
                    for a in backgrounds(fam) {
                        rearrange(r, fam, a, *m);
                    }
                    for i in (0..fam.w()).step_by(if th { 1 } else { 5 }) {
                        rearrange(r, fam, 1u128 << i, *m);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: rearrangement under {} sparse, periodic and block masks; single bits", masks.len()));
        t.add(format!("{fam:?} places rearranged"), move |r| {
            let w = fam.w();
            for a in place_addrs(fam) {
                for p in 0..=w {
                    let m = fam.prefix_mask(p);
                    rearrange(r, fam, a, m);
                    rearrange(r, fam, a, !m & fam.full());
                    rearrange(r, fam, a, m & !0x0101_0101 | 0x10);
                }
                if r.stopped() {
                    return;
                }
            }
        });
        t.bound(format!("{fam:?}: rearrangement of the addresses in and around the blocks of the IANA registries"));
    }
    if !api {
        return;
    }
    // masks and prefixes
    t.add("masks of every prefix", |r| {
        for n in 0..=20u32 {
            for p in 0..=8 * n {
                let b: Vec<u8> = (0..n).map(|i| if p >= 8 * (i + 1) { 255 } else if p <= 8 * i { 0 } else { !(255u8 >> (p - 8 * i)) }).collect();
                r.api(34, 6, vec![p as u8, n as u8], b.clone());
                r.api(33, 6, b, vec![1, p as u8]);
            }
        }
    });
    let alpha: Vec<u8> = vec![0, 255, 128, 254, 192, 1, 127, 0xf0, 0x0f, 0xaa, 0xfd];
    for first in 0..alpha.len() {
        let alpha = alpha.clone();
        t.add(format!("prefix of byte sequences starting with {}", alpha[first]), move |r| {
            let want = |b: &[u8]| {
                let bits: Vec<bool> = b.iter().flat_map(|x| (0..8).map(move |i| x >> (7 - i) & 1 == 1)).collect();
                let p = bits.iter().take_while(|x| **x).count();
                if bits[p..].iter().all(|x| !x) {
                    vec![1, p as u8]
                } else {
                    vec![0]
                }
            };
            for s in sequences(alpha.len(), if th { 5 } else { 3 }) {
                let mut b = vec![alpha[first]];
                b.extend(s.iter().map(|i| alpha[*i]));
                // also far into a long mask
                for l in [0usize, 4, 12] {
                    let mut c = vec![255u8; l];
                    c.extend(&b);
                    r.api(33, 6, c.clone(), want(&c));
                    c.extend(vec![0; 3]);
                    r.api(33, 6, c.clone(), want(&c));
                }
            }
            if first == 0 {
                for x in 0..=255u8 {
                    for y in 0..=255u8 {
                        r.api(33, 6, vec![x, y], want(&[x, y]));
                        r.api(33, 6, vec![255, x, y, 0], want(&[255, x, y, 0]));
                    }
                }
            }
        });
    }
    t.bound("masks of every prefix length for up to 20 bytes, and the prefix of all byte pairs and of byte sequences over 11 bytes");
    t.add("bits and bytes", move |r| {
        for n in 0..if th { 20u32 } else { 17 } {
            for v in 0..1u32 << n {
                let bits: Vec<u8> = (0..n).map(|i| (v >> (n - 1 - i) & 1) as u8).collect();
                let mut bytes = vec![0u8; (n as usize + 7) / 8];
                for (i, b) in bits.iter().enumerate() {
                    bytes[i / 8] |= b << (7 - i % 8);
                }
                r.api(37, 6, bits.clone(), bytes.clone());
                if n % 8 == 0 {
                    r.api(36, 6, bytes.clone(), bits.clone());
                    r.api(35, 6, bytes, bits.iter().map(|b| b'0' + b).collect());
                }
            }
        }
        for i in 0..128 {
            let mut bits = vec![0u8; 128];
            bits[i] = 1;
            let mut bytes = vec![0u8; 16];
            bytes[i / 8] = 128 >> (i % 8);
            r.api(37, 6, bits.clone(), bytes.clone());
            r.api(36, 6, bytes.clone(), bits.clone());
            r.api(35, 6, bytes, bits.iter().map(|b| b'0' + b).collect());
        }
    });
    t.bound("bit sequences to bytes and back: all of up to 16 (thorough: 19) bits, and single bits of 128");
}
