//! C09: the facts of show-net.  C10: its layout, and colours.
use crate::gen::*;
use crate::model::*;
use crate::parse;
use crate::run::*;
use crate::Tasks;

fn facts(nets: &[(Fam, u128, u128)], o: &Out) -> Verdict {
    if o.status != 0 {
        return Err(format!("valid networks, but status {}", status_text(o.status)));
    }
    let lines = o.lines();
    let mut at = 0;
    let mut n = 0;
    for (fam, addr, mask) in nets {
        while at < lines.len() && lines[at].trim().is_empty() {
            at += 1;
        }
        if at >= lines.len() {
            return Err(format!("no block for {}", spec(*fam, *addr, *mask)));
        }
        let (b, used) = parse::block(*fam, &lines[at..])?;
        at += used;
        let net = Net::new(*fam, *addr, *mask);
        n += parse::same_facts(*fam, &b, &parse::expected_block(&net, Some(*addr))).map_err(|e| format!("{}: {e}", spec(*fam, *addr, *mask)))?;
    }
    if lines[at..].iter().any(|l| !l.trim().is_empty()) {
        return Err("there are more blocks than networks".into());
    }
    Ok(n)
}

fn one(r: &mut Runner, fam: Fam, addr: u128, mask: u128) {
    r.check(vec![spec(fam, addr, mask)], move |o| facts(&[(fam, addr, mask)], o));
}

pub fn c09(t: &mut Tasks) {
    let th = t.thorough;
    for fam in FAMS {
        let w = fam.w();
        // every prefix
        let k = match (fam, th) {
            (V4, false) => 4,
            (V4, true) => 8,
            (V6, false) => 2,
            (V6, true) => 4,
        };
        for p in 0..=w {
            t.add(format!("{fam:?} /{p}"), move |r| {
                for at in offsets(fam, k) {
                    for bg in backgrounds(fam) {
                        for a in window(fam, at, k, bg) {
                            one(r, fam, a, fam.prefix_mask(p));
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?} CIDR: every prefix, every value of every {k}-bit window on 4 backgrounds"));
        if fam == V4 {
            // the class: every first octet with every first mask octet
            t.add("every first octet and first mask octet", move |r| {
                for a in 0..256u128 {
                    for m in 0..256u128 {
                        for rest in [0u128, 0xffff00, 0xf0f0f0, 0xffff_ff] {
                            one(r, V4, a << 24 | 0x00a8_0201, m << 24 | rest);
                        }
                    }
                }
            });
            t.bound("IPv4: every first octet with every first octet of the mask and four remainders");
        }
        // lopsided
        let n = match (fam, th) {
            (V4, false) => 4,
            (V4, true) => 6,
            (V6, false) => 2,
            (V6, true) => 3,
        };
        for part in 0..16usize {
            t.add(format!("{fam:?} few host bits anywhere, part {part}"), move |r| {
                let all = sparse_wildcards(fam, n);
                for m in all.iter().skip(part).step_by(16) {
                    for bg in [backgrounds(fam)[1], backgrounds(fam)[2]] {
                        one(r, fam, bg, *m);
                    }
                    one(r, fam, backgrounds(fam)[3], !*m & fam.full());
                }
            });
        }
        t.bound(format!("{fam:?} lopsided: at most {n} host bits anywhere, and at most {n} network bits anywhere"));
        let k = match (fam, th) {
            (V4, false) => 5,
            (V4, true) => 8,
            (V6, false) => 4,
            (V6, true) => 7,
        };
        for at in offsets(fam, k) {
            t.add(format!("{fam:?} mask window {k}@{at}"), move |r| {
                for m in window_masks(fam, at, k) {
                    for bg in backgrounds(fam) {
                        one(r, fam, bg, m);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every mask pattern in every {k}-bit window, ones or zeros on either side, 4 addresses"));
        for part in 0..8usize {
            t.add(format!("{fam:?} block masks, part {part}"), move |r| {
                for m in block_masks(fam).iter().skip(part).step_by(8) {
                    for bg in [backgrounds(fam)[2], backgrounds(fam)[3]] {
                        one(r, fam, bg, *m);
                    }
                }
            });
        }
        t.add(format!("{fam:?} edge values as masks"), move |r| {
            for m in edge_values(fam) {
                for a in edge_values(fam).into_iter().step_by(if th { 1 } else { 7 }) {
                    one(r, fam, a, m);
                }
            }
        });
        t.bound(format!("{fam:?}: masks of byte or group patterns; 2^i and 2^i±1 and complements as masks and addresses"));
    }
    // where addresses have a meaning of their own
    for fam in FAMS {
        place_tasks(t, fam, th, |r, fam, a, m| one(r, fam, a, m));
    }
    // two networks in one invocation that differ in their masks alone, or in everything
    for fam in FAMS {
        let few: Vec<u128> = match fam {
            V4 => sparse_wildcards(V4, 2),
            V6 => (0..128).map(|i| V6.full() & !(1 << i)).chain(sparse_wildcards(V6, 2).into_iter().filter(|m| m.count_zeros() == 2).step_by(97)).collect(),
        };
        let few: std::sync::Arc<Vec<u128>> = std::sync::Arc::new(few.into_iter().step_by(if th { 1 } else { 2 }).collect());
        for part in 0..16 {
            let few = few.clone();
            t.add(format!("{fam:?} pairs of masks, part {part}"), move |r| {
                for (i, a) in few.iter().enumerate().skip(part).step_by(16) {
                    for (j, b) in few.iter().enumerate() {
                        let v = [(fam, backgrounds(fam)[1 + (i + j) % 3], *a), (fam, backgrounds(fam)[2], *b)];
                        r.check(v.iter().map(|(f, a, m)| spec(*f, *a, *m)).collect(), move |o| facts(&v, o));
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every ordered pair of {} masks of one and two host bits in one invocation", few.len()));
        for at in key_offsets(fam, 5) {
            t.add(format!("{fam:?} pairs of patterns of 5@{at}"), move |r| {
                for p in 0..32u128 {
                    for q in 0..32u128 {
                        let x = backgrounds(fam)[2];
                        let v = [(fam, x, fam.full() & !(p << at)), (fam, x, fam.full() & !(q << at))];
                        r.check(v.iter().map(|(f, a, m)| spec(*f, *a, *m)).collect(), move |o| facts(&v, o));
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every ordered pair of the patterns of host bits in a 5-bit window at {:?}", key_offsets(fam, 5)));
    }
    // several networks
    let u = mixed_alphabet();
    t.bound("every sequence of up to 3 (thorough: 4) networks over an alphabet of 8, families mixed");
    for first in 0..u.len() {
        let u = u.clone();
        t.add(format!("several networks, first {first}"), move |r| {
            for s in sequences(u.len(), if th { 3 } else { 2 }) {
                let mut v = vec![u[first]];
                v.extend(s.iter().map(|i| u[*i]));
                let a: Args = v.iter().map(|(f, a, m)| spec(*f, *a, *m)).collect();
                r.check(a, move |o| facts(&v, o));
            }
        });
    }
}

/// Every prefix and some lopsided masks at the addresses that have a meaning of their own.
fn place_tasks(t: &mut Tasks, fam: Fam, th: bool, f: impl Fn(&mut Runner, Fam, u128, u128) + Copy + Send + 'static) {
    let w = fam.w();
    for (i, c) in place_addrs(fam).chunks(48).enumerate() {
        let c = c.to_vec();
        t.add(format!("{fam:?} places {i}"), move |r| {
            for a in c {
                for p in 0..=w {
                    if fam == V4 || th || p % 8 == 0 || p % 16 < 2 || p > 120 {
                        f(r, fam, a, fam.prefix_mask(p));
                    }
                }
                for x in [0x01u128, 0xff00, 0x0101, 0x00ff_0000, 0xf000_0000, 0xaaaa_aaaa, 1 << (w - 1), 0xff << (w - 8)] {
                    f(r, fam, a, fam.full() & !x);
                    f(r, fam, a, x);
                }
            }
        });
    }
    t.bound(format!("{fam:?}: {} addresses in and around the blocks of the IANA registries and usual private networks, with {} prefixes and some lopsided masks", place_addrs(fam).len(), if fam == V4 || th { "all" } else { "selected" }));
}

fn mixed_alphabet() -> Vec<(Fam, u128, u128)> {
    vec![
        (V4, 0xc0a80204, 0xffff_ff00),
        (V4, 0xffff_ffff, 0xffff_ffff),
        (V4, 0x0a000001, 0xffff_fffe),
        (V4, 0xe0000001, 0xf0ff_00ff),
        (V4, 0, 0),
        (V6, 0x20010db8 << 96 | 1, V6.prefix_mask(64)),
        (V6, u128::MAX, !1),
        (V6, 7, !(7 << 60)),
    ]
}

/// Layout of one block; `head`: with the address lines.
fn layout(fam: Fam, lines: &[&str], head: bool) -> Result<(u64, usize), String> {
    let (b, used) = parse::block(fam, lines)?;
    let mut want: Vec<&str> = vec![];
    if head {
        want.extend(["Address:", "Netmask:", "Wildcard:", "=>"]);
    }
    want.push("Network:");
    if b.no_hosts {
        want.push("no hosts");
    } else {
        want.extend(["HostMin:", "HostMax:"]);
    }
    want.push(if b.no_broadcast { "no broadcast" } else { "Broadcast:" });
    want.push(if b.no_hosts_net { "no hosts/net" } else { "Hosts/Net:" });
    if b.labels != want {
        return Err(format!("the lines are {:?}, expected {:?}", b.labels, want));
    }
    let mut col = None;
    for (label, v, bits, at) in &b.bits {
        let x = parse::binary(fam, *v);
        if *bits != x {
            return Err(format!("{label} {} has the binary column {bits}, expected {x}", fam.fmt(*v)));
        }
        match col {
            None => col = Some(*at),
            Some(c) if c == *at => {},
            Some(c) => return Err(format!("the binary column of {label} starts at column {at}, above it at {c}")),
        }
    }
    Ok((b.labels.len() as u64, used))
}

fn layout_all(fams: &[Fam], text: &str) -> Verdict {
    if !text.ends_with('\n') {
        return Err("the last line is not terminated".into());
    }
    let lines: Vec<&str> = text.lines().collect();
    let mut at = 0;
    let mut n = 0;
    for (i, f) in fams.iter().enumerate() {
        if i > 0 {
            if at >= lines.len() || !lines[at].is_empty() {
                return Err("the blocks are not separated by an empty line".into());
            }
            at += 1;
        }
        let (k, used) = layout(*f, &lines[at..], true)?;
        n += k;
        at += used;
    }
    if at != lines.len() {
        return Err(format!("after the last block there is a line {:?}", lines[at]));
    }
    Ok(n)
}

fn colours(o: &[Out], plain_check: impl Fn(&str) -> Verdict) -> Verdict {
    if o[0].out.contains('\x1b') {
        return Err("escape sequences without colours".into());
    }
    let n = plain_check(&o[0].out)?;
    if o[0].status != o[1].status {
        return Err(format!("status {} without colours, {} with", status_text(o[0].status), status_text(o[1].status)));
    }
    let (text, _esc) = parse::strip_escapes(&o[1].out);
    if text != o[0].out {
        return Err(format!("with colours the text is {:?}, without it is {:?}", clip(&text, 400), clip(&o[0].out, 400)));
    }
    if o[0].err != o[1].err {
        return Err("with colours the error output differs".into());
    }
    Ok(n + 1)
}

pub fn c10(t: &mut Tasks) {
    let th = t.thorough;
    let both = |r: &mut Runner, v: Vec<(Fam, u128, u128)>| {
        let a: Args = v.iter().map(|(f, a, m)| spec(*f, *a, *m)).collect();
        let fams: Vec<Fam> = v.iter().map(|x| x.0).collect();
        r.check_env(vec![(Env::Plain, a.clone()), (Env::Color, a)], move |o| {
            if o[0].status != 0 {
                return Err(format!("valid networks, but status {}", status_text(o[0].status)));
            }
            colours(o, |s| layout_all(&fams, s))
        });
    };
    for fam in FAMS {
        let w = fam.w();
        let k = match (fam, th) {
            (V4, false) => 3,
            (V4, true) => 7,
            (V6, false) => 2,
            (V6, true) => 3,
        };
        for p in 0..=w {
            t.add(format!("{fam:?} /{p}"), move |r| {
                for at in if fam == V4 || th { offsets(fam, k) } else { key_offsets(fam, k) } {
                    for bg in backgrounds(fam) {
                        for a in window(fam, at, k, bg) {
                            both(r, vec![(fam, a, fam.prefix_mask(p))]);
                        }
                    }
                }
            });
        }
        t.bound(format!("{fam:?} CIDR: every prefix, every value of {k}-bit windows on 4 backgrounds, with and without colours"));
        for part in 0..8usize {
            t.add(format!("{fam:?} mixed masks, part {part}"), move |r| {
                let mut m = sparse_wildcards(fam, 2);
                m.extend(sparse_wildcards(fam, 2).into_iter().map(|x| !x & fam.full()));
                m.extend(block_masks(fam));
                for m in m.iter().skip(part).step_by(8) {
                    for bg in [backgrounds(fam)[1], backgrounds(fam)[2]] {
                        both(r, vec![(fam, bg, *m)]);
                    }
                }
            });
        }
        t.bound(format!("{fam:?} lopsided: masks with at most two host or two network bits, masks of byte or group patterns"));
        // the widest and the narrowest texts
        t.add(format!("{fam:?} widths"), move |r| {
            let vals: Vec<u128> = match fam {
                V4 => {
                    let o = [0u128, 9, 10, 99, 100, 255];
                    let mut v = vec![];
                    for a in o {
                        for b in o {
                            for c in o {
                                for d in o {
                                    v.push(a << 24 | b << 16 | c << 8 | d);
                                }
                            }
                        }
                    }
                    v
                },
                V6 => {
                    let mut v = vec![];
                    for pat in 0..6561u32 {
                        let g = [0u128, 0xf, 0xabcd];
                        let mut x = 0u128;
                        let mut q = pat;
                        for _ in 0..8 {
                            x = x << 16 | g[(q % 3) as usize];
                            q /= 3;
                        }
                        v.push(x);
                    }
                    v
                },
            };
            for a in vals {
                for p in [0, w / 2, w - 1, w] {
                    both(r, vec![(fam, a, fam.prefix_mask(p))]);
                }
                both(r, vec![(fam, a, fam.full() ^ 0x10)]);
            }
        });
        t.bound(format!("{fam:?}: texts of every width of every part"));
    }
    for fam in FAMS {
        place_tasks(t, fam, th, move |r, fam, a, m| both(r, vec![(fam, a, m)]));
    }
    let u = mixed_alphabet();
    t.bound("every sequence of up to 3 (thorough: 4) networks over an alphabet of 8");
    for first in 0..u.len() {
        let u = u.clone();
        t.add(format!("several networks, first {first}"), move |r| {
            for s in sequences(u.len(), if th { 3 } else { 2 }) {
                let mut v = vec![u[first]];
                v.extend(s.iter().map(|i| u[*i]));
                both(r, v);
            }
        });
    }
    // the blocks of the other modes
    for (mode, cases) in other_modes(th) {
        t.add(format!("blocks of {mode}"), move |r| {
            for (fam, a) in cases {
                r.check_env(vec![(Env::Plain, a.clone()), (Env::Color, a)], move |o| {
                    colours(o, |s| blocks_with_titles(fam, s))
                });
            }
        });
    }
    t.bound("the blocks of --split and --resize over small alphabets, with and without colours; --minimize, --derange and --enumerate with and without colours");
}

/// Titles, each followed by a block; then possibly other lines.
fn blocks_with_titles(fam: Fam, text: &str) -> Verdict {
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let mut n = 0;
    while i < lines.len() {
        if lines[i].ends_with(':') && i + 1 < lines.len() && lines[i + 1].starts_with("Network:") {
            let (k, used) = layout(fam, &lines[i + 1..], false)?;
            n += k;
            i += 1 + used;
            if i < lines.len() && !lines[i].is_empty() {
                return Err("a block is not followed by an empty line".into());
            }
        } else if lines[i].starts_with("Network:") {
            return Err("a block without a title".into());
        }
        i += 1;
    }
    Ok(n)
}

fn other_modes(th: bool) -> Vec<(&'static str, Vec<(Fam, Args)>)> {
    let mut split = vec![];
    let mut resize = vec![];
    let mut plain = vec![];
    let nets: Vec<(Fam, u128)> = vec![(V4, 0xc0a8_0203), (V4, u32::MAX as u128), (V6, 0x20010db8 << 96 | 5), (V6, u128::MAX)];
    for (fam, a) in nets {
        let w = fam.w();
        for hb in 0..=if th { 9 } else { 6 } {
            let s = spec(fam, a, fam.prefix_mask(w - hb));
            for c in sequences(5, 3) {
                if c.is_empty() {
                    continue;
                }
                let mut v = vec!["-s".to_string(), s.clone()];
                v.extend(c.iter().map(|i| ["0", "2", "5", "14", "60"][*i].to_string()));
                split.push((fam, v));
            }
        }
        let mut masks: Vec<u128> = (0..=w).map(|p| fam.prefix_mask(p)).collect();
        masks.extend(sparse_wildcards(fam, 1));
        masks.extend(block_masks(fam).into_iter().step_by(if fam == V4 { 60 } else { 160 }));
        for m1 in masks.iter().step_by(if th { 1 } else { 3 }) {
            for m2 in masks.iter().step_by(if th { 1 } else { 2 }) {
                if m2.count_ones() > m1.count_ones() + 3 {
                    continue;
                }
                resize.push((fam, vec!["-r".into(), spec(fam, a, *m1), fam.mask_prefix(*m2).map(|p| p.to_string()).unwrap_or(fam.fmt(*m2))]));
            }
        }
        for hb in 0..=6 {
            let s = spec(fam, a, fam.prefix_mask(w - hb));
            plain.push((fam, vec!["-e".into(), s.clone()]));
            plain.push((fam, vec!["-m".into(), s.clone(), spec(fam, a ^ 1 << hb, fam.prefix_mask(w - hb))]));
            plain.push((fam, vec!["-d".into(), fam.fmt(a), fam.fmt(a ^ 5 << hb)]));
        }
        plain.push((fam, vec!["-m".into(), "nonsense".into()]));
        plain.push((fam, vec!["--help".into()]));
        plain.push((fam, vec![]));
    }
    vec![("--split", split), ("--resize", resize), ("the plain modes", plain)]
}

// ---- C23: what the colours mean

/// The leading bits that make up the class of an IPv4 network, if they all belong to the network.
fn class_bits(n: &Net) -> usize {
    if n.fam == V6 {
        return 0;
    }
    let ones = (n.base as u32).leading_ones().min(4) as usize;
    let need = (ones + 1).min(4);
    if (n.mask as u32).leading_ones() as usize >= need {
        need
    } else {
        0
    }
}

/// The colours of the binary columns of one block for a known network.
fn block_colours(n: &Net, lines: &[Vec<(char, String)>]) -> Verdict {
    let w = n.fam.w() as usize;
    let mut net_colour: Option<String> = None;
    let mut host_colour: Option<String> = None;
    let mut class_colour: Option<String> = None;
    let mut count = 0;
    let mut set = |slot: &mut Option<String>, what: &str, c: &str, at: usize, label: &str| -> Result<(), String> {
        count += 1;
        match slot {
            None => {
                *slot = Some(c.to_string());
                Ok(())
            },
            Some(x) if x == c => Ok(()),
            Some(x) => Err(format!("bit {at} (from the left) of {label} is a {what} bit, but has the colour {c:?}, unlike others, which have {x:?}")),
        }
    };
    for l in lines {
        let text: String = l.iter().map(|c| c.0).collect();
        let label = text.split_whitespace().next().unwrap_or("").to_string();
        if label == "Hosts/Net:" {
            if let Some(i) = text.find("Class") {
                // byte and character positions are the same: the line is ASCII
                let c = &l[i].1;
                set(&mut class_colour, "class", c, i, "the class name")?;
            }
            continue;
        }
        if !label.ends_with(':') || !["Address:", "Netmask:", "Wildcard:", "Network:", "HostMin:", "HostMax:", "Broadcast:"].contains(&label.as_str()) {
            continue;
        }
        // the last word is the binary column
        let start = text.rfind(' ').map(|i| i + 1).unwrap_or(0);
        let bits: Vec<&(char, String)> = l[start..].iter().filter(|c| c.0 == '0' || c.0 == '1').collect();
        if bits.len() != w {
            return Err(format!("{label} has {} binary digits", bits.len()));
        }
        if label == "Address:" || label == "Network:" {
            let k = if label == "Network:" && l.iter().any(|c| !c.1.is_empty()) { class_bits(n) } else { 0 };
            for (i, b) in bits.iter().enumerate() {
                if i < k {
                    set(&mut class_colour, "class", &b.1, i, &label)?;
                } else if n.mask >> (w - 1 - i) & 1 == 1 {
                    set(&mut net_colour, "network", &b.1, i, &label)?;
                } else {
                    set(&mut host_colour, "host", &b.1, i, &label)?;
                }
            }
        } else {
            // nothing is told apart on the other lines
            let mut one: Option<String> = None;
            for (i, b) in bits.iter().enumerate() {
                set(&mut one, "plain", &b.1, i, &label)?;
            }
        }
    }
    for (a, b, what) in [(&net_colour, &host_colour, "network and host bits"), (&net_colour, &class_colour, "network and class bits"), (&host_colour, &class_colour, "host and class bits")] {
        if a.is_some() && a == b {
            return Err(format!("{what} have the same colour"));
        }
    }
    for c in [&net_colour, &host_colour, &class_colour].into_iter().flatten() {
        if c.is_empty() {
            return Err("some bits have no colour although colours are on".into());
        }
    }
    Ok(count as u64)
}

pub fn c23(t: &mut Tasks) {
    let th = t.thorough;
    let one = |r: &mut Runner, fam: Fam, a: u128, m: u128| {
        let n = Net::new(fam, a, m);
        r.check_env(vec![(Env::Color, vec![spec(fam, a, m)])], move |o| {
            if o[0].status != 0 {
                return Err(format!("a valid network, but status {}", status_text(o[0].status)));
            }
            block_colours(&n, &parse::styled_lines(&o[0].out))
        });
    };
    // the first byte decides about the class
    for top in 0..=255u128 {
        t.add(format!("first byte {top}"), move |r| {
            let mut masks: Vec<u128> = (0..=32).map(|p| V4.prefix_mask(p)).collect();
            for m in 0..=255u128 {
                if th || m % 16 == 0 || m & 15 == 15 {
                    masks.push(m << 24 | 0xffffff);
                    masks.push(m << 24);
                }
            }
            masks.sort();
            masks.dedup();
            for m in masks {
                for low in if th { vec![0u128, 0xffffff, 0x5a3ca5] } else { vec![if m & 1 == 0 { 0x5a3ca5 } else { 0xffffff }] } {
                    one(r, V4, top << 24 | low, m);
                }
            }
        });
    }
    t.bound(format!("IPv4: every first byte with every prefix and every mask whose first byte is {} and whose rest is all ones or all zeros", if th { "anything" } else { "any upper half with a lower half of zeros or ones" }));
    for fam in FAMS {
        let mut masks = sparse_wildcards(fam, if th { 3 - (fam == V6) as u32 } else { 2 - (fam == V6) as u32 });
        let inv: Vec<u128> = masks.iter().map(|x| !x & fam.full()).collect();
        masks.extend(inv);
        masks.extend((0..=fam.w()).map(|p| fam.prefix_mask(p)));
        if th {
            masks.extend(block_masks(fam));
        } else {
            masks.extend(block_masks(fam).into_iter().step_by(7));
        }
        masks.sort();
        masks.dedup();
        for (i, c) in masks.chunks(masks.len().div_ceil(16)).enumerate() {
            let c = c.to_vec();
            t.add(format!("{fam:?} masks, part {i}"), move |r| {
                for m in c {
                    for a in backgrounds(fam) {
                        one(r, fam, a, m);
                    }
                }
            });
        }
        t.bound(format!("{fam:?}: every prefix, masks with few host or few network bits anywhere, and masks of byte or group patterns, on 4 addresses"));
    }
    for fam in FAMS {
        place_tasks(t, fam, th, one);
    }
    // the same in the blocks of the other modes
    for fam in FAMS {
        t.add(format!("{fam:?} --resize and --split"), move |r| {
            let w = fam.w();
            for p in 0..=w {
                for q in 0..=w {
                    if q > p + 2 {
                        continue;
                    }
                    for a in backgrounds(fam) {
                        if fam == V6 && !th && (p + q) % 8 != 0 {
                            continue;
                        }
                        let fa = vec!["-r".to_string(), format!("{}/{p}", fam.fmt(a)), q.to_string()];
                        let fb = vec!["-s".to_string(), format!("{}/{p}", fam.fmt(a)), "0".to_string()];
                        for x in [fa, fb] {
                            r.check_env(vec![(Env::Color, x)], move |o| {
                                let l = parse::styled_lines(&o[0].out);
                                let mut n = 0;
                                for (i, x) in l.iter().enumerate() {
                                    let text: String = x.iter().map(|c| c.0).collect();
                                    if let Some(v) = text.strip_prefix("Network:") {
                                        let net = parse_net(v.split_whitespace().next().unwrap_or(""))?;
                                        let end = (i..l.len()).find(|j| l[*j].is_empty()).unwrap_or(l.len());
                                        n += block_colours(&net, &l[i..end])?;
                                    }
                                }
                                Ok(n)
                            });
                        }
                    }
                }
            }
        });
    }
    t.bound("the blocks of --resize to every smaller and up to 2 larger prefixes, and of --split");
}
