//! C20: the modes agree with one another: what one of them prints is handed, as printed, to others.
//! No reference model is involved here; only the outputs are compared.
use crate::cubes;
use crate::gen::*;
use crate::model::*;
use crate::parse;
use crate::run::*;
use crate::Tasks;

fn ok<'a>(o: &'a Out, what: &str) -> Result<Vec<&'a str>, String> {
    if o.status != 0 {
        return Err(format!("{what}: status {}, stderr {:?}", status_text(o.status), clip(&o.err, 200)));
    }
    Ok(o.out.lines().collect())
}
fn mk(opt: &str, rest: impl IntoIterator<Item = String>) -> Args {
    std::iter::once(opt.to_string()).chain(rest).collect()
}
/// The value behind a label, without the binary column.
fn field<'a>(lines: &[&'a str], label: &str) -> Option<&'a str> {
    lines.iter().find(|l| l.starts_with(label)).and_then(|l| l[label.len()..].split_whitespace().next())
}
/// Blocks of a --split or --resize output: title and lines.
fn blocks<'a>(lines: &[&'a str]) -> Vec<(String, Vec<&'a str>)> {
    let mut v: Vec<(String, Vec<&str>)> = vec![];
    for l in lines {
        if l.trim().is_empty() {
            continue;
        }
        let fact = ["Network:", "HostMin:", "HostMax:", "Broadcast:", "Hosts/Net:", "no "].iter().any(|p| l.starts_with(p));
        if !fact && l.trim_end().ends_with(':') {
            v.push((l.trim_end().trim_end_matches(':').to_string(), vec![]));
        } else if let Some(b) = v.last_mut() {
            b.1.push(l);
        }
    }
    v
}
fn after_arrow<'a>(lines: &[&'a str]) -> Vec<&'a str> {
    lines.iter().skip_while(|l| l.trim() != "=>").skip(1).copied().collect()
}
/// Two lists of addresses, one ascending, as sets.
fn sorted(fam: Fam, lines: &[&str]) -> Result<Vec<u128>, String> {
    let mut v = vec![];
    for l in lines {
        v.push(fam.parse(l).ok_or_else(|| format!("not an address: {l:?}"))?);
    }
    v.sort();
    Ok(v)
}

/// derange: --minimize leaves its result alone, and --enumerate of it counts from one end to the other.
fn range(r: &mut Runner, fam: Fam, a: u128, b: u128) {
    let (ta, tb) = (fam.fmt(a), fam.fmt(b));
    let long = b - a > 100;
    r.chain(
        vec![mk("-d", [ta.clone(), tb.clone()])],
        move |o| {
            let l = ok(&o[0], "--derange")?;
            if l.is_empty() {
                return Err("--derange prints nothing".into());
            }
            let own = || l.iter().map(|s| s.to_string());
            let mut v = vec![mk("-m", own()), mk("-m", own().rev())];
            if !long {
                v.push(mk("-e", own()));
                v.push(mk("-m", (a..=b).map(|x| format!("{}/{}", fam.fmt(x), fam.w()))));
            }
            Ok(v)
        },
        move |a1, b1| {
            for (i, x) in b1.iter().enumerate() {
                if x.status != 0 {
                    return Err(format!("what --derange prints is not accepted: {}", x.brief()));
                }
                if i != 2 && x.out != a1[0].out {
                    return Err(if i == 3 { "--minimize of the single addresses of the range prints other networks than --derange" } else { "--minimize changes the result of --derange" }.into());
                }
                if i == 2 {
                    let l = sorted(fam, &x.lines())?;
                    if l.len() as u128 != b - a + 1 || l.first() != Some(&a) || l.last() != Some(&b) || l.windows(2).any(|w| w[0] + 1 != w[1]) {
                        return Err(format!("--enumerate of the networks of --derange is not the range from {ta} to {tb}"));
                    }
                }
            }
            Ok(1 + b1.len() as u64)
        },
    );
}

/// Two adjacent ranges make up one.
fn adjacent(r: &mut Runner, fam: Fam, a: u128, b: u128, c: u128) {
    let f = |x: u128| fam.fmt(x);
    r.chain(
        vec![mk("-d", [f(a), f(b)]), mk("-d", [f(b + 1), f(c)]), mk("-d", [f(c), f(a)])],
        move |o| {
            let mut l: Vec<String> = vec![];
            for x in &o[..2] {
                l.extend(ok(x, "--derange")?.iter().map(|s| s.to_string()));
            }
            Ok(vec![mk("-m", l)])
        },
        move |a1, b1| {
            if a1[2].out == b1[0].out {
                Ok(4)
            } else {
                Err("--minimize of the networks of two adjacent ranges is not --derange of the whole range".into())
            }
        },
    );
}

/// The default mode against --enumerate, --derange, --minimize and --resize.
fn facts(r: &mut Runner, fam: Fam, addr: u128, mask: u128) {
    let s = spec(fam, addr, mask);
    let h = fam.w() - mask.count_ones();
    let prefix = fam.mask_prefix(mask);
    let small = h <= 6;
    r.chain(
        vec![vec![s.clone()]],
        move |o| {
            let l = ok(&o[0], "the default mode")?;
            let net = field(&l, "Network:").ok_or("no network is shown")?.to_string();
            let m = field(&l, "Netmask:").ok_or("no mask is shown")?.to_string();
            let w = field(&l, "Wildcard:").ok_or("no wildcard is shown")?.to_string();
            let base = net.split('/').next().unwrap().to_string();
            let last = field(&l, "Broadcast:").map(|s| s.split('/').next().unwrap().to_string()).unwrap_or(base.clone());
            let full = if net.contains('/') { net.clone() } else { format!("{net}/{m}") };
            Ok(vec![
                vec![full.clone()],
                vec![format!("{}/{m}", fam.fmt(addr))],
                vec![format!("{}/-{w}", fam.fmt(addr))],
                mk("-m", [full.clone()]),
                mk("-r", [s.clone(), m.clone()]),
                if prefix.is_some() { mk("-d", [base.clone(), last]) } else { mk("-m", [s.clone()]) },
                if small { mk("-e", [full.clone()]) } else { mk("-m", [full.clone(), full.clone()]) },
                if prefix.is_some() { mk("-s", [full, "0".into()]) } else { mk("-m", [s.clone()]) },
            ])
        },
        move |a, b| {
            let shown = a[0].lines();
            let net = field(&shown, "Network:").unwrap().to_string();
            if b[0].out.is_empty() || after_arrow(&b[0].lines()) != after_arrow(&shown) {
                return Err("the network shown has other facts than the one asked for".into());
            }
            if b[1].out != a[0].out || b[2].out != a[0].out {
                return Err("the mask or the wildcard shown, used as an argument, gives another result".into());
            }
            let min = b[3].out.trim_end();
            if net.contains('/') && min != net {
                return Err(format!("--minimize prints {min:?} for the network shown as {net:?}"));
            }
            let re = b[4].lines();
            let bl = blocks(&re);
            let want: Vec<&str> = after_arrow(&shown);
            if bl.len() != 2 || bl.iter().any(|x| x.1 != want) {
                return Err("--resize to the same mask does not show the same facts twice".into());
            }
            if prefix.is_some() {
                if b[5].out.trim_end() != net {
                    return Err(format!("--derange from the first to the last address prints {:?} for {net}", b[5].out));
                }
                let sp = b[7].lines();
                if blocks(&sp).first().map(|x| x.1 != want).unwrap_or(true) {
                    return Err("--split shows other facts for the network to split".into());
                }
            } else if b[5].out != b[3].out || b[7].out != b[3].out {
                return Err("--minimize prints different things for one network".into());
            }
            if !small {
                if b[6].out != b[3].out {
                    return Err("--minimize does not drop a duplicate".into());
                }
                return Ok(9);
            }
            let e = b[6].lines();
            let same = |label: &str, i: usize| match field(&shown, label) {
                None => Ok(()),
                Some(x) if e.get(i) == Some(&x.split('/').next().unwrap()) => Ok(()),
                Some(x) => Err(format!("{label} {x} is not address {i} of {} of --enumerate", e.len())),
            };
            if e.len() != 1 << h {
                return Err(format!("--enumerate lists {} addresses", e.len()));
            }
            same("Network:", 0)?;
            same("Broadcast:", e.len() - 1)?;
            if e.len() > 2 {
                same("HostMin:", 1)?;
                same("HostMax:", e.len() - 2)?;
                if field(&shown, "Hosts/Net:").and_then(|s| s.parse::<usize>().ok()) != Some(e.len() - 2) {
                    return Err(format!("{} addresses are listed, but Hosts/Net is {:?}", e.len(), field(&shown, "Hosts/Net:")));
                }
            }
            Ok(9 + e.len() as u64)
        },
    );
}

/// --enumerate and then --minimize of the single addresses.
fn again(r: &mut Runner, fam: Fam, addr: u128, mask: u128) {
    let s = spec(fam, addr, mask);
    let cidr = fam.mask_prefix(mask).is_some();
    let n = Net::new(fam, addr, mask);
    r.chain(
        vec![mk("-e", [s.clone()]), mk("-m", [s.clone()])],
        move |o| {
            let l = ok(&o[0], "--enumerate")?;
            let own = || l.iter().map(|x| format!("{x}/{}", fam.w()));
            Ok(vec![mk("-m", own()), mk("-m", own().rev())])
        },
        move |a, b| {
            if b[0].out != b[1].out {
                return Err("--minimize depends on the order of the addresses".into());
            }
            if cidr && b[0].out != a[1].out {
                return Err("--minimize of all addresses is not the network".into());
            }
            if !cidr {
                cubes::same_union(&[n], &parse::networks(&b[0].out)?)?;
            }
            Ok(4)
        },
    );
}

/// --minimize of any two networks, whose result is enumerated, shown, resized and minimized again.
fn two(r: &mut Runner, fam: Fam, nets: [(u128, u128); 2]) {
    let s: Vec<String> = nets.iter().map(|(a, m)| spec(fam, *a, *m)).collect();
    r.chain(
        vec![mk("-m", s.clone()), mk("-e", s)],
        move |o| {
            let l: Vec<String> = ok(&o[0], "--minimize")?.iter().map(|x| x.to_string()).collect();
            if l.is_empty() {
                return Err("--minimize prints nothing".into());
            }
            let mut v = vec![mk("-e", l.clone()), mk("-m", l.clone()), l.clone()];
            for x in &l {
                let new = x.split('/').nth(1).ok_or_else(|| format!("--minimize prints {x:?}"))?.to_string();
                v.push(mk("-r", [x.clone(), new]));
            }
            Ok(v)
        },
        move |a, b| {
            let mut want = sorted(fam, &a[1].lines())?;
            want.dedup();
            let mut got = sorted(fam, &ok(&b[0], "--enumerate")?)?;
            got.dedup();
            if want != got {
                return Err(format!("--enumerate of what --minimize prints lists {} addresses, of its arguments {}, and not the same", got.len(), want.len()));
            }
            if b[1].out != a[0].out || b[1].status != 0 {
                return Err("--minimize of what it printed is something else".into());
            }
            ok(&b[2], "the default mode")?;
            let shown: Vec<Vec<&str>> = b[2].out.split("\n\n").map(|x| after_arrow(&x.lines().collect::<Vec<_>>())).collect();
            if shown.len() != b.len() - 3 {
                return Err(format!("the default mode shows {} networks for {}", shown.len(), b.len() - 3));
            }
            for (s, o) in shown.iter().zip(&b[3..]) {
                let l = ok(o, "--resize")?;
                if blocks(&l).iter().any(|x| &x.1 != s) {
                    return Err("--resize to the same mask does not show the facts of the default mode".into());
                }
            }
            Ok(5 + b.len() as u64)
        },
    );
}

/// --split: slices and rest are the network again; each slice is what the default mode and
/// --resize show for it.
fn split(r: &mut Runner, fam: Fam, addr: u128, p: u32, counts: &[u64]) {
    let s = format!("{}/{}", fam.fmt(addr), p);
    let me = Net::cidr(fam, addr, p);
    let n = counts.len();
    r.chain(
        vec![mk("-s", std::iter::once(s.clone()).chain(counts.iter().map(|c| c.to_string())))],
        move |o| {
            let l = ok(&o[0], "--split")?;
            if o[0].out.contains("too small") {
                return Ok(vec![]);
            }
            let mut nets: Vec<String> = vec![];
            let mut slices: Vec<String> = vec![];
            for (t, b) in blocks(&l) {
                if t.starts_with("Subnet for") {
                    slices.push(field(&b, "Network:").ok_or("a slice without a network")?.to_string());
                }
                if t == "Unused networks" {
                    nets.extend(b.iter().map(|x| x.trim().to_string()));
                }
            }
            if slices.len() != n {
                return Err(format!("{} slices for {} counts", slices.len(), n));
            }
            nets.extend(slices.iter().cloned());
            let mut v = vec![mk("-m", nets), slices.clone()];
            for x in &slices {
                let q: u32 = x.split('/').nth(1).and_then(|q| q.parse().ok()).ok_or_else(|| format!("not a CIDR network: {x:?}"))?;
                v.push(mk("-r", [if q > p && q - p <= 6 { s.clone() } else { x.clone() }, q.to_string()]));
            }
            Ok(v)
        },
        move |a, b| {
            if b.is_empty() {
                return Ok(1);
            }
            if parse_net(b[0].out.trim_end()) != Ok(me) {
                return Err(format!("slices and unused networks together are {:?}, not {}", b[0].out, me.text()));
            }
            let la = a[0].lines();
            let sl: Vec<Vec<&str>> = blocks(&la).into_iter().filter(|x| x.0.starts_with("Subnet for")).map(|x| x.1).collect();
            let shown: Vec<Vec<&str>> = b[1].out.split("\n\n").map(|x| after_arrow(&x.lines().collect::<Vec<_>>())).collect();
            if sl != shown {
                return Err("--split shows other facts for its slices than the default mode".into());
            }
            for (s, o) in sl.iter().zip(&b[2..]) {
                let lo = o.lines();
                if !blocks(&lo).iter().any(|x| &x.1 == s) {
                    return Err(format!("the slice {:?} is not among the subnets that --resize shows", field(s, "Network:")));
                }
            }
            Ok(3 + n as u64)
        },
    );
}

/// --resize: the subnets are the network again, list the same addresses, and lead back to it.
fn resize(r: &mut Runner, fam: Fam, addr: u128, p: u32, q: u32) {
    let s = format!("{}/{}", fam.fmt(addr), p);
    let me = Net::cidr(fam, addr, p);
    let small = fam.w() - p <= 7;
    let s2 = s.clone();
    let far = p > q + 6; // the way back is too long
    r.chain(
        vec![mk("-r", [s.clone(), q.to_string()])],
        move |o| {
            let l = ok(&o[0], "--resize")?;
            let nets: Vec<String> = blocks(&l).iter().skip(1).map(|b| field(&b.1, "Network:").map(|x| x.to_string()).ok_or("no network".to_string())).collect::<Result<_, _>>()?;
            if nets.is_empty() {
                return Err("no network is shown".into());
            }
            let mut v = vec![nets.clone(), mk("-m", nets.clone()), mk("-r", [nets[nets.len() - 1].clone(), if far { q } else { p }.to_string()]), mk("-m", nets.iter().cloned().chain([s2.clone()]))];
            if small && q > p {
                v.push(mk("-e", [s2.clone()]));
                v.push(mk("-e", nets));
            }
            Ok(v)
        },
        move |a, b| {
            let la = a[0].lines();
            let bl = blocks(&la);
            let shown: Vec<Vec<&str>> = b[0].out.split("\n\n").map(|x| after_arrow(&x.lines().collect::<Vec<_>>())).collect();
            let mine: Vec<Vec<&str>> = bl.iter().skip(1).map(|x| x.1.clone()).collect();
            if mine != shown {
                return Err("--resize shows other facts for its networks than the default mode".into());
            }
            if q >= p && parse_net(b[1].out.trim_end()) != Ok(me) {
                return Err(format!("the subnets together are {:?}, not {}", b[1].out, me.text()));
            }
            if b[3].out != b[1].out {
                return Err("the network itself is not covered by what it was resized to".into());
            }
            let lb = b[2].lines();
            if !far && !blocks(&lb).iter().skip(1).any(|x| field(&x.1, "Network:").map(parse_net) == Some(Ok(me))) {
                return Err(format!("resizing back does not lead to {}", me.text()));
            }
            if b.len() > 4 && b[4].out != b[5].out {
                return Err("--enumerate of the subnets is not that of the network".into());
            }
            Ok(1 + b.len() as u64)
        },
    );
}

/// --minimize of parts, and then of everything.
fn parts(r: &mut Runner, a: Vec<Net>, b: Vec<Net>) {
    let t = |v: &[Net]| v.iter().map(|n| n.text()).collect::<Vec<_>>();
    let (ta, tb) = (t(&a), t(&b));
    r.chain(
        vec![mk("-m", ta.clone()), mk("-m", tb.clone()), mk("-m", ta.iter().chain(&tb).cloned()), mk("-m", tb.iter().chain(&ta).cloned())],
        |o| {
            let mut l = vec![];
            for x in &o[..2] {
                l.extend(ok(x, "--minimize")?.iter().map(|s| s.to_string()));
            }
            let whole: Vec<String> = ok(&o[2], "--minimize")?.iter().map(|s| s.to_string()).collect();
            Ok(vec![mk("-m", l), mk("-m", whole)])
        },
        |a, b| {
            if a[2].out != a[3].out {
                return Err("--minimize depends on the order of its arguments".into());
            }
            if b[0].out != a[2].out {
                return Err("--minimize of minimized parts is not --minimize of everything".into());
            }
            if b[1].out != a[2].out {
                return Err("--minimize of a minimized list changes it".into());
            }
            Ok(6)
        },
    );
}

/// What --minimize prints for one network is that network, and is accepted.
fn printed(r: &mut Runner, fam: Fam, addr: u128, mask: u128) {
    let n = Net::new(fam, addr, mask);
    r.chain(
        vec![mk("-m", [spec(fam, addr, mask)])],
        |o| {
            let l = ok(&o[0], "--minimize")?;
            Ok(vec![mk("-m", l.iter().map(|x| x.to_string()))])
        },
        move |a, b| {
            if b[0] != a[0] {
                return Err(format!("--minimize of the network it printed: {}", b[0].brief()));
            }
            let got = parse::networks(&a[0].out)?;
            if got != [n] {
                return Err(format!("--minimize prints {:?} for {}", clip(&a[0].out, 200), n.text()));
            }
            Ok(2)
        },
    );
}

/// --enumerate of a large network, and --minimize of all that it lists.
fn whole(r: &mut Runner, fam: Fam, addr: u128, mask: u128) {
    let s = spec(fam, addr, mask);
    let rel = r.sh.bin.join("ripcalc-rel").exists();
    let env = if rel { Env::Release } else { Env::Plain };
    let long = std::time::Duration::from_secs(300);
    let bin = r.sh.bin.join(if rel { "ripcalc-rel" } else { "ripcalc" });
    let (e, m) = (mk("-e", [s.clone()]), mk("-m", [s.clone()]));
    let (oe, om) = (r.exec_with(&bin, &e, &[], long), r.exec_with(&bin, &m, &[], long));
    let back = mk("-m", oe.out.lines().map(|x| format!("{x}/{}", fam.w())));
    let ob = r.exec_with(&bin, &back, &[], long);
    let n = oe.out.lines().count() as u64;
    r.book(hash_of(&(&s, "whole")), n + 2);
    r.sample(format!("the {n} addresses of {s} => {}", clip(&ob.brief(), 100)));
    let lopsided = fam.mask_prefix(mask).is_none();
    let bad = if oe.status != 0 || n != 1 << (fam.w() - mask.count_ones()) {
        Some(format!("--enumerate lists {n} addresses, status {}", status_text(oe.status)))
    } else if ob.status != 0 || !lopsided && ob.out != om.out {
        Some(format!("--minimize of all {n} addresses of {s} is {}", clip(&ob.brief(), 300)))
    } else if lopsided {
        parse::networks(&ob.out).and_then(|l| cubes::same_union(&[Net::new(fam, addr, mask)], &l)).err()
    } else {
        None
    };
    if let Some(x) = bad {
        let cut = |o: Out| Out { out: clip(&o.out, 2000), ..o };
        r.violation(x, vec![(env, e), (env, back)], vec![cut(oe), cut(ob)], String::new());
    }
}

pub fn c20(t: &mut Tasks) {
    let th = t.thorough;
    t.conform = 2000;
    for fam in FAMS {
        let w = fam.w();
        // large networks as a whole
        for (i, h) in if th { vec![9u32, 10, 11, 12] } else { vec![9, 10] }.into_iter().enumerate() {
            t.add(format!("{fam:?} all of 2^{h} addresses"), move |r| {
                whole(r, fam, backgrounds(fam)[i % 4], fam.prefix_mask(w - h));
                if h < 11 {
                    whole(r, fam, backgrounds(fam)[(i + 1) % 4], fam.prefix_mask(w - h - 1) | 1 << 4);
                }
            });
        }
        t.bound(format!("{fam:?}: --enumerate of networks of 2^9 and 2^10 (thorough: up to 2^12) addresses, and --minimize of all that it lists"));
        // every mask of ones, zeros, ones, zeros
        for a in 0..w {
            t.add(format!("{fam:?} masks of {a} ones, zeros, ones, zeros"), move |r| {
                let ones = fam.prefix_mask(a);
                for b in a + 1..w {
                    for c in b + 1..=w {
                        let m = ones | (fam.prefix_mask(c) & !fam.prefix_mask(b));
                        let bg = backgrounds(fam)[((a + b + c) % 4) as usize];
                        printed(r, fam, bg, m);
                        if fam == V4 {
                            facts(r, fam, bg, m);
                            facts(r, fam, bg, !m & fam.full());
                        }
                        printed(r, fam, bg, !m & fam.full());
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every mask that consists of ones, zeros, ones and zeros (or the other way round): what --minimize prints is accepted and is that network"));
        // ranges
        let k = if th { 6 } else { 5 };
        for at in if fam == V4 || th { offsets(fam, k) } else { key_offsets(fam, k) } {
            t.add(format!("{fam:?} ranges at {at}"), move |r| {
                for (i, bg) in backgrounds(fam).into_iter().enumerate() {
                    if !th && i != (at % 4) as usize && i != 3 {
                        continue;
                    }
                    let v: Vec<u128> = window(fam, at, k, bg).collect();
                    for (i, a) in v.iter().enumerate() {
                        for b in &v[i..] {
                            range(r, fam, *a, *b);
                            if *b < fam.full() && (th || (a ^ b) >> at & 3 != 0) {
                                adjacent(r, fam, *a, *b, v[v.len() - 1].max(b + 1));
                            }
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: ranges whose ends differ in a window of {k} bits ({}): --derange, then --minimize and --enumerate; two adjacent ranges against one", if fam == V4 || th { "at every place" } else { "at byte and group boundaries" }));
        // facts
        let mut masks = sparse_wildcards(fam, if fam == V4 { 3 } else { 2 });
        masks.extend((0..=w).map(|p| fam.prefix_mask(p)));
        masks.extend((0..w - 8).flat_map(|p| (0..8).map(move |x| fam.full() & !(x << p))));
        masks.sort();
        masks.dedup();
        for (i, c) in masks.chunks(masks.len().div_ceil(24)).enumerate() {
            let c = c.to_vec();
            t.add(format!("{fam:?} facts {i}"), move |r| {
                for m in c {
                    for a in backgrounds(fam) {
                        if th || fam == V4 || m.count_ones() % 4 == 0 || fam.mask_prefix(m).is_some() || a == fam.full() {
                            facts(r, fam, a, m);
                        }
                        if w - m.count_ones() <= 5 && (fam == V4 || th || a == fam.full()) {
                            again(r, fam, a, m);
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: all CIDR masks, all masks with up to {} host bits and short runs of host bits anywhere, on 4 addresses: the default mode, its network, mask and wildcard handed to every other mode; --enumerate, then --minimize", if fam == V4 { 3 } else { 2 }));
        // where addresses have a meaning of their own
        for (i, c) in place_addrs(fam).chunks(48).enumerate() {
            let c = c.to_vec();
            t.add(format!("{fam:?} places {i}"), move |r| {
                for a in c {
                    for p in 0..=w {
                        if th || p % 8 == 0 || fam == V4 && p > 8 || p > 124 {
                            facts(r, fam, a, fam.prefix_mask(p));
                        }
                    }
                    again(r, fam, a, fam.prefix_mask(w - 4));
                    facts(r, fam, a, fam.full() & !0x0101);
                }
            });
        }
        t.bound(format!("{fam:?}: the same at {} addresses in and around the blocks of the IANA registries and usual private networks", place_addrs(fam).len()));
        // any two networks of a window
        let k = if th { 4u32 } else { 3 };
        for at in if fam == V4 || th { offsets(fam, k) } else { key_offsets(fam, k) } {
            t.add(format!("{fam:?} two of any networks at {at}"), move |r| {
                let bgs = backgrounds(fam);
                for bg in [bgs[1], bgs[(at % 4) as usize]] {
                    let mut nets = vec![];
                    for m in window(fam, at, k, fam.full()) {
                        let hole = fam.full() & !m;
                        for x in window(fam, at, k, bg) {
                            if x & hole == bg & hole {
                                nets.push((x, m));
                            }
                        }
                    }
                    for (i, a) in nets.iter().enumerate() {
                        for b in &nets[i..] {
                            two(r, fam, [*a, *b]);
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: --minimize of every two networks (any mask) of a {k}-bit window, the result to --enumerate, --minimize, the default mode and --resize"));
        // split
        let counts: Vec<u64> = vec![0, 1, 3, 6, 7, 14, 30, 31, 62];
        for p in 0..=w - 1 {
            if fam == V6 && !th && p % 8 > 1 && p < 118 {
                continue;
            }
            let counts = counts.clone();
            t.add(format!("{fam:?} split /{p}"), move |r| {
                for (j, s) in sequences(counts.len(), if th { 4 } else { 3 }).into_iter().enumerate() {
                    if s.is_empty() {
                        continue;
                    }
                    let c: Vec<u64> = s.iter().map(|i| counts[*i]).collect();
                    let sum: u64 = c.iter().map(|x| (x + 2).next_power_of_two()).sum();
                    if w - p < 60 && sum > 1 << (w - p) {
                        continue; // that does not fit, and how it is refused is the subject of C05
                    }
                    let bg = backgrounds(fam);
                    if th || w - p <= 8 || j % 3 == 0 {
                        split(r, fam, bg[j % 4], p, &c);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: --split of networks of {} prefixes into every sequence of up to {} out of 9 counts that fits, then --minimize, the default mode and --resize", if th || fam == V4 { "all" } else { "selected" }, if th { 4 } else { 3 }));
        // resize
        for p in 0..=w {
            t.add(format!("{fam:?} resize /{p}"), move |r| {
                for q in 0..=w.min(p + if th { 8 } else { 5 }) {
                    for (i, a) in backgrounds(fam).into_iter().enumerate() {
                        if th || fam == V4 || (q + p) as usize % 4 == i {
                            resize(r, fam, a, p, q);
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: --resize from every prefix to every smaller one and to those up to {} larger, then the default mode, --minimize, --enumerate and back with --resize", if th { 8 } else { 5 }));
        // minimize of parts
        let k = 3;
        for at in if fam == V4 { offsets(fam, k) } else { key_offsets(fam, k) } {
            if !th && fam == V4 && at % 2 == 1 {
                continue;
            }
            t.add(format!("{fam:?} parts at {at}"), move |r| {
                for bg in [backgrounds(fam)[1], backgrounds(fam)[3]] {
                    let nets = cubes::window_cidrs(fam, at, k, bg);
                    let sets = subsets(nets.len(), 2);
                    for (i, a) in sets.iter().enumerate() {
                        for b in &sets[i..] {
                            if !th && bg == fam.full() && a.len() + b.len() == 4 {
                                continue;
                            }
                            parts(r, a.iter().map(|i| nets[*i]).collect(), b.iter().map(|i| nets[*i]).collect());
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: --minimize of two lists of up to 2 of the 15 CIDR networks of a 3-bit window, of both together, and of their minimized forms"));
    }
}
