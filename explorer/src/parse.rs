//! Reads what ripcalc prints, and compares it with the model.
use crate::model::*;

/// Lines that each hold one address.
pub fn addresses(out: &str) -> Result<Vec<(Fam, u128)>, String> {
    if !out.is_empty() && !out.ends_with('\n') {
        return Err("the last line is not terminated".into());
    }
    out.lines().map(|l| parse_any(l.trim()).ok_or_else(|| format!("not an address: {l:?}"))).collect()
}

/// Lines that each hold one network.
pub fn networks(out: &str) -> Result<Vec<Net>, String> {
    if !out.is_empty() && !out.ends_with('\n') {
        return Err("the last line is not terminated".into());
    }
    out.lines().map(|l| parse_net(l.trim())).collect()
}

#[derive(Default, Clone, Debug, PartialEq)]
pub struct Block {
    pub address: Option<u128>,
    pub netmask: Option<(u128, Option<u32>)>,
    pub wildcard: Option<u128>,
    pub network: Option<(u128, Option<u32>)>,
    pub host_min: Option<u128>,
    pub host_max: Option<u128>,
    pub no_hosts: bool,
    pub broadcast: Option<u128>,
    pub no_broadcast: bool,
    pub hosts: Option<String>,
    pub no_hosts_net: bool,
    pub class: Option<String>,
    /// label, value printed as an address, binary column as printed, column where it starts
    pub bits: Vec<(String, u128, String, usize)>,
    pub labels: Vec<String>,
}

/// One block of network facts: all lines up to an empty line or the end.
pub fn block(fam: Fam, lines: &[&str]) -> Result<(Block, usize), String> {
    let mut b = Block::default();
    let mut n = 0;
    for l in lines {
        if l.trim().is_empty() {
            break;
        }
        let dup = |b: &Block, l: &str| b.labels.iter().any(|x| x == l);
        n += 1;
        let t = l.trim();
        match t {
            "=>" => {
                b.labels.push("=>".into());
                continue;
            },
            "no hosts" => {
                if b.no_hosts {
                    return Err("two lines \"no hosts\"".into());
                }
                b.no_hosts = true;
                b.labels.push(t.into());
                continue;
            },
            "no broadcast" => {
                if b.no_broadcast {
                    return Err("two lines \"no broadcast\"".into());
                }
                b.no_broadcast = true;
                b.labels.push(t.into());
                continue;
            },
            "no hosts/net" => {
                if b.no_hosts_net {
                    return Err("two lines \"no hosts/net\"".into());
                }
                b.no_hosts_net = true;
                b.labels.push(t.into());
                continue;
            },
            _ => {},
        }
        let tok: Vec<&str> = l.split_whitespace().collect();
        let label = tok[0].to_string();
        if dup(&b, &label) {
            return Err(format!("two lines {label}"));
        }
        let bad = || format!("cannot read the line {l:?}");
        if label == "Hosts/Net:" {
            if tok.len() < 2 {
                return Err(bad());
            }
            b.hosts = Some(tok[1].to_string());
            if tok.len() > 2 {
                b.class = Some(tok[2..].join(" "));
            }
            b.labels.push(label);
            continue;
        }
        if tok.len() < 3 {
            return Err(bad());
        }
        let bits = tok[tok.len() - 1].to_string();
        let at = l.rfind(&bits).unwrap();
        let value: Vec<&str> = tok[1..tok.len() - 1].to_vec();
        let addr = |s: &str| fam.parse(s).ok_or_else(|| format!("not an address: {s:?} in {l:?}"));
        let v;
        match label.as_str() {
            "Netmask:" => {
                v = addr(value[0])?;
                let p = match value.len() {
                    1 => None,
                    3 if value[1] == "=" => Some(value[2].parse().map_err(|_| bad())?),
                    _ => return Err(bad()),
                };
                b.netmask = Some((v, p));
            },
            "Network:" => {
                if value.len() != 1 {
                    return Err(bad());
                }
                let p;
                match value[0].split_once('/') {
                    Some((a, q)) => {
                        v = addr(a)?;
                        p = Some(q.parse().map_err(|_| bad())?);
                    },
                    None => {
                        v = addr(value[0])?;
                        p = None;
                    },
                }
                b.network = Some((v, p));
            },
            "Address:" | "Wildcard:" | "HostMin:" | "HostMax:" | "Broadcast:" => {
                if value.len() != 1 {
                    return Err(bad());
                }
                v = addr(value[0])?;
                match label.as_str() {
                    "Address:" => b.address = Some(v),
                    "Wildcard:" => b.wildcard = Some(v),
                    "HostMin:" => b.host_min = Some(v),
                    "HostMax:" => b.host_max = Some(v),
                    _ => b.broadcast = Some(v),
                }
            },
            _ => return Err(bad()),
        }
        b.bits.push((label.clone(), v, bits, at));
        b.labels.push(label);
    }
    Ok((b, n))
}

/// The binary column of an address.
pub fn binary(fam: Fam, a: u128) -> String {
    let (group, sep) = match fam {
        V4 => (8, '.'),
        V6 => (16, ':'),
    };
    let mut s = String::new();
    for i in 0..fam.w() {
        if i > 0 && i % group == 0 {
            s.push(sep);
        }
        s.push(if a >> (fam.w() - 1 - i) & 1 == 1 { '1' } else { '0' });
    }
    s
}

pub fn hosts_text(n: &Net) -> Option<String> {
    if n.host_bits() < 2 {
        return None;
    }
    Some((n.span() - 1).to_string())
}

pub fn class_of(n: &Net) -> Option<&'static str> {
    if n.fam == V6 {
        return None;
    }
    let ones = |k: u32| (0..k).all(|i| n.mask >> (31 - i) & 1 == 1);
    let top = (n.base >> 28) as u32;
    if top & 8 == 0 {
        return ones(1).then_some("Class A");
    }
    // the first bit is known to be one only if it is a network bit
    if !ones(1) {
        return None;
    }
    if top & 4 == 0 {
        return ones(2).then_some("Class B");
    }
    if top & 2 == 0 {
        return ones(3).then_some("Class C");
    }
    if !ones(4) {
        return None;
    }
    Some(if top & 1 == 0 { "Class D (multicast)" } else { "Class E (reserved)" })
}

/// The block of the network n; addr: the address line is expected, too.
pub fn expected_block(n: &Net, addr: Option<u128>) -> Block {
    let mut b = Block::default();
    if let Some(a) = addr {
        b.address = Some(a);
        b.netmask = Some((n.mask, n.prefix()));
        b.wildcard = Some(n.wildcard());
    }
    b.network = Some((n.base, n.prefix()));
    if n.host_bits() >= 2 {
        b.host_min = Some(n.member(1));
        b.host_max = Some(n.member(n.span() - 1));
    } else {
        b.no_hosts = true;
    }
    if n.host_bits() >= 1 {
        b.broadcast = Some(n.last());
    } else {
        b.no_broadcast = true;
    }
    b.hosts = hosts_text(n);
    if b.hosts.is_none() {
        b.no_hosts_net = true;
    } else {
        b.class = class_of(n).map(|s| s.to_string());
    }
    b
}

fn show<T: std::fmt::Debug>(t: &T) -> String {
    format!("{t:?}")
}

/// Compares the facts of two blocks (not the layout).
pub fn same_facts(fam: Fam, got: &Block, want: &Block) -> Result<u64, String> {
    let a = |x: &Option<u128>| match x {
        None => "nothing".to_string(),
        Some(v) => fam.fmt(*v),
    };
    let ap = |x: &Option<(u128, Option<u32>)>| match x {
        None => "nothing".to_string(),
        Some((v, p)) => format!("{} prefix {}", fam.fmt(*v), show(p)),
    };
    let mut bad = vec![];
    let mut cmp = |name: &str, g: String, w: String| {
        if g != w {
            bad.push(format!("{name}: printed {g}, expected {w}"));
        }
    };
    cmp("address", a(&got.address), a(&want.address));
    cmp("netmask", ap(&got.netmask), ap(&want.netmask));
    cmp("wildcard", a(&got.wildcard), a(&want.wildcard));
    cmp("network", ap(&got.network), ap(&want.network));
    cmp("first host", a(&got.host_min), a(&want.host_min));
    cmp("last host", a(&got.host_max), a(&want.host_max));
    cmp("\"no hosts\"", show(&got.no_hosts), show(&want.no_hosts));
    cmp("broadcast", a(&got.broadcast), a(&want.broadcast));
    cmp("\"no broadcast\"", show(&got.no_broadcast), show(&want.no_broadcast));
    cmp("hosts/net", show(&got.hosts), show(&want.hosts));
    cmp("\"no hosts/net\"", show(&got.no_hosts_net), show(&want.no_hosts_net));
    cmp("class", show(&got.class), show(&want.class));
    if bad.is_empty() {
        Ok(12)
    } else {
        Err(bad.join("; "))
    }
}

/// Removes terminal escape sequences (ESC [ ... final byte).
pub fn strip_escapes(s: &str) -> (String, usize) {
    let mut r = String::with_capacity(s.len());
    let mut n = 0;
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            it.next();
            n += 1;
            for d in it.by_ref() {
                if ('\x40'..='\x7e').contains(&d) {
                    break;
                }
            }
        } else {
            r.push(c);
        }
    }
    (r, n)
}

/// The characters of each line with the escape sequences in force (those since the last reset).
pub fn styled_lines(s: &str) -> Vec<Vec<(char, String)>> {
    let mut lines = vec![vec![]];
    let mut style = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            it.next();
            let mut e = String::new();
            for d in it.by_ref() {
                e.push(d);
                if ('\x40'..='\x7e').contains(&d) {
                    break;
                }
            }
            if e == "0m" || e == "m" {
                style.clear();
            } else {
                style.push_str(&e);
            }
        } else if c == '\n' {
            lines.push(vec![]);
        } else {
            lines.last_mut().unwrap().push((c, style.clone()));
        }
    }
    lines
}
