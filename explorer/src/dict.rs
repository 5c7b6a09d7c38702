//! Values that the sources of the tree under test mention: the numbers, texts and characters in the
//! literals outside of its test modules. They widen the spaces that are enumerated (they only
//! choose inputs; what is right for an input is decided by the model alone).
use crate::model::Fam::{self, *};
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// integer literals
    pub ints: Vec<u128>,
    /// integer literals that stand next to each other: `[192, 168, 1]`
    pub rows: Vec<Vec<u128>>,
    pub texts: Vec<String>,
    pub chars: Vec<char>,
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let f = std::env::current_exe().ok().and_then(|p| p.parent().map(|d| d.join("source")));
        read(&f.and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default())
    })
}

/// End of the block or statement that starts at i.
fn item_end(c: &[char], mut i: usize) -> usize {
    let mut depth = 0;
    while i < c.len() {
        match c[i] {
            '{' => depth += 1,
            '}' => {
                depth -= 1;
                if depth <= 0 {
                    return i + 1;
                }
            },
            ';' if depth == 0 => return i + 1,
            '"' => i = string_end(c, i) - 1,
            _ => (),
        }
        i += 1;
    }
    i
}

fn string_end(c: &[char], mut i: usize) -> usize {
    i += 1;
    while i < c.len() && c[i] != '"' {
        if c[i] == '\\' {
            i += 1;
        }
        i += 1;
    }
    i + 1
}

fn unescape(s: &[char]) -> String {
    let mut t = String::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == '\\' && i + 1 < s.len() {
            i += 1;
            match s[i] {
                'n' => t.push('\n'),
                't' => t.push('\t'),
                'r' => t.push('\r'),
                '0' => t.push('\0'),
                'x' => {
                    let h: String = s[i + 1..].iter().take(2).collect();
                    t.extend(u8::from_str_radix(&h, 16).ok().map(|b| b as char));
                    i += 2;
                },
                'u' => {
                    let h: String = s[i + 1..].iter().take_while(|c| **c != '}').filter(|c| c.is_ascii_hexdigit()).collect();
                    t.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                    while i < s.len() && s[i] != '}' {
                        i += 1;
                    }
                },
                '\n' => {
                    while i + 1 < s.len() && s[i + 1].is_whitespace() {
                        i += 1;
                    }
                },
                c => t.push(c),
            }
        } else {
            t.push(s[i]);
        }
        i += 1;
    }
    t
}

fn number(t: &str) -> Option<u128> {
    let t: String = t.chars().filter(|c| *c != '_').collect();
    let (radix, rest) = match t.get(..2) {
        Some("0x") => (16, &t[2..]),
        Some("0o") => (8, &t[2..]),
        Some("0b") => (2, &t[2..]),
        _ => (10, &t[..]),
    };
    let digits: String = rest.chars().take_while(|c| c.is_digit(radix)).collect();
    u128::from_str_radix(&digits, radix).ok()
}

pub fn read(source: &str) -> Dict {
    let c: Vec<char> = source.chars().collect();
    let at = |i: usize, t: &str| t.chars().enumerate().all(|(k, x)| c.get(i + k) == Some(&x));
    let mut d = Dict::default();
    let mut row: Vec<u128> = vec![];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if at(i, "//") {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if at(i, "#[cfg(test)]") {
            i = item_end(&c, i + "#[cfg(test)]".len());
        } else if x == 'r' && (at(i, "r\"") || at(i, "r#\"")) && !c.get(i.wrapping_sub(1)).map_or(false, |p| p.is_alphanumeric() || *p == '_') {
            let hash = c[i + 1] == '#';
            let start = i + if hash { 3 } else { 2 };
            let mut j = start;
            while j < c.len() && !(c[j] == '"' && (!hash || c.get(j + 1) == Some(&'#'))) {
                j += 1;
            }
            d.texts.push(c[start.min(j)..j.min(c.len())].iter().collect());
            i = j + if hash { 2 } else { 1 };
        } else if x == '"' {
            let e = string_end(&c, i).min(c.len());
            d.texts.push(unescape(&c[i + 1..(e - 1).max(i + 1)]));
            i = e;
        } else if x == '\'' && c.get(i + 1) == Some(&'\\') {
            let mut j = i + 3;
            while j < c.len() && c[j] != '\'' {
                j += 1;
            }
            d.chars.extend(unescape(&c[i + 1..j.min(c.len())]).chars());
            i = j + 1;
        } else if x == '\'' && c.get(i + 2) == Some(&'\'') {
            d.chars.push(c[i + 1]);
            i += 3;
        } else if x.is_ascii_digit() {
            let mut j = i;
            while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            let t: String = c[i..j].iter().collect();
            if let Some(n) = number(&t) {
                d.ints.push(n);
                row.push(n);
            }
            i = j;
        } else if x.is_alphanumeric() || x == '_' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else {
            if matches!(x, ';' | '{' | '}') || at(i, "=>") {
                if row.len() > 1 {
                    d.rows.push(std::mem::take(&mut row));
                }
                row.clear();
            }
            i += 1;
        }
    }
    for v in [&mut d.ints] {
        v.sort();
        v.dedup();
    }
    d.rows.sort();
    d.rows.dedup();
    d.texts.sort();
    d.texts.dedup();
    d.chars.sort();
    d.chars.dedup();
    d
}

/// The literals of the tree that this was written for; what is new goes first where there is a
/// limit.
const USUAL: &[u128] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 21, 24, 32, 33, 40, 46, 48, 56, 64, 112, 128, 192, 224, 240, 248, 252, 254, 255, 256, 0xffff, 0xffffffff, 0xffff_ffff_ffff_ffff];

impl Dict {
    fn ordered(&self) -> Vec<u128> {
        let mut v = self.ints.clone();
        v.sort_by_key(|n| (USUAL.contains(n), *n));
        v
    }

    /// The numbers and their neighbours, sums and multiples, at most `max`.
    pub fn numbers(&self, max: u128) -> Vec<u128> {
        let mut v = vec![];
        for n in self.ordered().into_iter().take(400) {
            v.extend(n.checked_sub(1));
            v.push(n);
            v.extend(n.checked_add(1));
            v.extend(n.checked_mul(2));
            v.extend(n.checked_mul(2).and_then(|x| x.checked_add(1)));
        }
        v.retain(|n| *n <= max);
        v.sort();
        v.dedup();
        v
    }

    /// The same for the numbers that are not mentioned everywhere.
    pub fn unusual(&self, max: u128) -> Vec<u128> {
        let d = Dict { ints: self.ints.iter().filter(|n| !USUAL.contains(n)).take(60).cloned().collect(), ..Dict::default() };
        d.numbers(max)
    }

    /// Addresses that are, begin with, end with or contain a number, a row of numbers or a text.
    pub fn addrs(&self, fam: Fam) -> Vec<u128> {
        let (w, full) = (fam.w(), fam.full());
        let mut v: Vec<u128> = vec![];
        // so many from each kind; a bound on the cost, whatever the sources look like
        let cap = std::cell::Cell::new(400usize);
        let put = |v: &mut Vec<u128>, a: u128| {
            if v.len() < cap.get() {
                v.push(a & full);
                v.push(a.wrapping_add(1) & full);
                v.push(a.wrapping_sub(1) & full);
            }
        };
        // texts: whole addresses and networks, and beginnings of them
        for t in &self.texts {
            for word in t.split(|c: char| !(c.is_ascii_hexdigit() || c == '.' || c == ':')) {
                if word.len() < 2 || !word.contains(['.', ':']) {
                    continue;
                }
                let end: &[&str] = match fam {
                    V4 => &["", "0", "1", "0.0", "0.0.0", "1.1", "255.255.255", ".0", ".0.0.0", ".7.9.1"],
                    V6 => &["", ":", "::", "1", "0", ":1", "::1", "1::1"],
                };
                for e in end {
                    let all = format!("{word}{e}");
                    let a = match fam {
                        V4 => all.parse::<std::net::Ipv4Addr>().ok().map(|a| u32::from(a) as u128),
                        V6 => all.parse::<std::net::Ipv6Addr>().ok().map(u128::from),
                    };
                    if let Some(a) = a {
                        put(&mut v, a);
                    }
                }
            }
        }
        // rows: neighbouring octets or groups
        cap.set(v.len() + 800);
        let mut rows: Vec<&Vec<u128>> = self.rows.iter().filter(|r| r.iter().any(|n| !USUAL.contains(n))).collect();
        rows.sort_by_key(|r| r.len());
        for r in rows {
            // also without the indices in between
            let every: [Vec<u128>; 3] = [r.clone(), r.iter().step_by(2).cloned().collect(), r.iter().skip(1).step_by(2).cloned().collect()];
            for (r, len) in every.iter().flat_map(|r| (2..=8usize).rev().map(move |len| (r, len))) {
                for part in r.windows(len).take(40) {
                    for unit in [8u32, 16, 32, 64] {
                        if part.iter().any(|n| *n >> unit != 0) || unit * len as u32 > w {
                            continue;
                        }
                        let x = part.iter().fold(0u128, |x, n| x << unit | n);
                        put(&mut v, x << (w - unit * len as u32));
                        put(&mut v, x);
                        // and in the middle of another address
                        let field = if unit * len as u32 == 128 { u128::MAX } else { (1 << (unit * len as u32)) - 1 };
                        for at in (1..w / unit).map(|k| k * unit).filter(|at| at + unit * len as u32 <= w) {
                            put(&mut v, (0x2001_0db8_0001_0002_0003_0004_0a01_0203u128 & !(field << at)) & full | x << at);
                        }
                    }
                }
            }
        }
        cap.set(v.len() + 1200);
        for n in self.ordered() {
            if n < 3 || n > full {
                continue;
            }
            if USUAL.contains(&n) {
                // edges, windows and places have most of these
                let unit = w / 8;
                if n > 8 && n >> (if fam == V4 { 8 } else { unit }) == 0 {
                    v.extend((0..w / unit).step_by(if fam == V4 { 2 } else { 1 }).map(|k| 0x2001_0db8_0a01_0203_0003_0004_0a01_0203u128 & full & !((if fam == V4 { 0xff } else { 0xffff }) << (unit * k)) | n << (unit * k)));
                }
                continue;
            }
            put(&mut v, n);
            // as each octet, group, or half that holds it
            for unit in [8u32, 16, 32, 64] {
                if unit > w || n >> unit != 0 || (unit > 8 && n >> (unit / 2) == 0 && !(fam == V6 && unit == 16)) {
                    continue;
                }
                for k in 0..w / unit {
                    let at = w - unit * (k + 1);
                    put(&mut v, n << at);
                    if unit == 8 {
                        put(&mut v, (0x0a01_0203u128 | 0x2001_0db8_0001_0002_0003_0004_0005_0006 * (fam == V6) as u128) & !(0xff << at) | n << at);
                    }
                    if unit == 16 {
                        put(&mut v, 0x2001_0db8_0001_0002_0003_0004_0005_0006 & !(0xffff << at) & full | n << at);
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }

    /// Words to be given as arguments: the texts, their parts, and single characters.
    pub fn words(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for t in &self.texts {
            if t.len() <= 60 {
                v.push(t.clone());
            }
            for w in t.split(|c: char| c.is_whitespace() || "{}()[]<>|,;\"'=".contains(c)) {
                v.push(w.to_string());
                v.push(w.trim_matches(|c: char| !c.is_alphanumeric() && c != '-').to_string());
            }
        }
        v.extend(self.chars.iter().map(|c| c.to_string()));
        v.retain(|w| !w.is_empty() && w.len() <= 60 && !w.contains('\0'));
        v.sort();
        v.dedup();
        v.truncate(800);
        v
    }
}
