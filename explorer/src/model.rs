//! The reference model: addresses are unsigned integers of 32 or 128 bits, a network is a pair
//! (base, mask) of such integers, and everything else is defined from these by plain arithmetic.

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Fam {
    V4,
    V6,
}
pub use Fam::*;

pub const FAMS: [Fam; 2] = [V4, V6];

impl Fam {
    pub fn w(self) -> u32 {
        match self {
            V4 => 32,
            V6 => 128,
        }
    }
    pub fn full(self) -> u128 {
        match self {
            V4 => 0xffff_ffff,
            V6 => u128::MAX,
        }
    }
    pub fn prefix_mask(self, p: u32) -> u128 {
        if p == 0 {
            0
        } else {
            (self.full() << (self.w() - p)) & self.full()
        }
    }
    /// The prefix of a mask whose ones all precede its zeros.
    pub fn mask_prefix(self, mask: u128) -> Option<u32> {
        let p = mask.count_ones();
        if self.prefix_mask(p) == mask {
            Some(p)
        } else {
            None
        }
    }
    pub fn fmt(self, a: u128) -> String {
        match self {
            V4 => format!("{}.{}.{}.{}", (a >> 24) & 255, (a >> 16) & 255, (a >> 8) & 255, a & 255),
            V6 => {
                let mut s = String::with_capacity(40);
                use std::fmt::Write;
                for i in 0..8 {
                    if i > 0 {
                        s.push(':');
                    }
                    let _ = write!(s, "{:x}", (a >> (112 - 16 * i)) & 0xffff);
                }
                s
            }
        }
    }
    pub fn bytes(self, a: u128) -> Vec<u8> {
        let b = a.to_be_bytes();
        b[(16 - self.w() as usize / 8)..].to_vec()
    }
    pub fn code(self) -> u8 {
        match self {
            V4 => 4,
            V6 => 6,
        }
    }
    pub fn add(self, a: u128, b: u128) -> Option<u128> {
        a.checked_add(b).filter(|x| *x <= self.full())
    }
    pub fn parse(self, s: &str) -> Option<u128> {
        match self {
            V4 => parse_v4(s),
            V6 => parse_v6(s),
        }
    }
}

/// Four decimal octets.
pub fn parse_v4(s: &str) -> Option<u128> {
    let mut v = 0u128;
    let mut n = 0;
    for part in s.split('.') {
        if part.is_empty() || part.len() > 3 || !part.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let x: u32 = part.parse().ok()?;
        if x > 255 {
            return None;
        }
        v = v << 8 | x as u128;
        n += 1;
    }
    if n == 4 {
        Some(v)
    } else {
        None
    }
}

/// RFC 4291 text without an embedded IPv4 address: eight groups of one to four hexadecimal digits,
/// or fewer with exactly one "::".
pub fn parse_v6(s: &str) -> Option<u128> {
    fn groups(s: &str) -> Option<Vec<u128>> {
        if s.is_empty() {
            return Some(vec![]);
        }
        s.split(':')
            .map(|g| {
                if g.is_empty() || g.len() > 4 || !g.bytes().all(|b| b.is_ascii_hexdigit()) {
                    None
                } else {
                    u128::from_str_radix(g, 16).ok()
                }
            })
            .collect()
    }
    let all = match s.find("::") {
        None => groups(s)?,
        Some(i) => {
            let a = groups(&s[..i])?;
            let b = groups(&s[i + 2..])?;
            if a.len() + b.len() > 7 {
                return None;
            }
            let mut v = a.clone();
            v.resize(8 - b.len(), 0);
            v.extend(b);
            v
        }
    };
    if all.len() != 8 {
        return None;
    }
    Some(all.into_iter().fold(0, |v, g| v << 16 | g))
}

/// An address of either family, recognised by its separators.
pub fn parse_any(s: &str) -> Option<(Fam, u128)> {
    if s.contains(':') {
        parse_v6(s).map(|a| (V6, a))
    } else {
        parse_v4(s).map(|a| (V4, a))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Net {
    pub fam: Fam,
    pub base: u128,
    pub mask: u128,
}

impl Net {
    pub fn new(fam: Fam, addr: u128, mask: u128) -> Net {
        Net { fam, base: addr & mask, mask }
    }
    pub fn cidr(fam: Fam, addr: u128, p: u32) -> Net {
        Net::new(fam, addr, fam.prefix_mask(p))
    }
    pub fn prefix(&self) -> Option<u32> {
        self.fam.mask_prefix(self.mask)
    }
    pub fn host_bits(&self) -> u32 {
        self.fam.w() - self.mask.count_ones()
    }
    /// Number of addresses; None for the whole IPv6 space.
    pub fn size(&self) -> Option<u128> {
        1u128.checked_shl(self.host_bits())
    }
    /// Size minus one, which always fits.
    pub fn span(&self) -> u128 {
        let h = self.host_bits();
        if h == 128 {
            u128::MAX
        } else {
            (1u128 << h) - 1
        }
    }
    pub fn wildcard(&self) -> u128 {
        !self.mask & self.fam.full()
    }
    /// The address whose host bits, most significant first, are the binary digits of i.
    pub fn member(&self, i: u128) -> u128 {
        self.base | deposit(i, self.wildcard())
    }
    pub fn last(&self) -> u128 {
        self.base | self.wildcard()
    }
    pub fn contains(&self, a: u128) -> bool {
        a & self.mask == self.base
    }
    pub fn superset(&self, o: &Net) -> bool {
        self.contains(o.base) && self.contains(o.last())
    }
    /// As the program prints it.
    pub fn text(&self) -> String {
        match self.prefix() {
            Some(p) => format!("{}/{}", self.fam.fmt(self.base), p),
            None => format!("{}/{}", self.fam.fmt(self.base), self.fam.fmt(self.mask)),
        }
    }
}

/// Puts the low bits of v into the positions of the ones of mask, least significant first.
pub fn deposit(mut v: u128, mut mask: u128) -> u128 {
    let mut r = 0;
    while mask != 0 {
        let b = mask & mask.wrapping_neg();
        if v & 1 != 0 {
            r |= b;
        }
        v >>= 1;
        mask &= mask - 1;
    }
    r
}
/// Gathers the bits of v at the ones of mask into the low bits, least significant first.
pub fn extract(v: u128, mut mask: u128) -> u128 {
    let mut r = 0;
    let mut i = 0;
    while mask != 0 {
        let b = mask & mask.wrapping_neg();
        if v & b != 0 {
            r |= 1 << i;
        }
        i += 1;
        mask &= mask - 1;
    }
    r
}

/// Text of an argument: "address/mask" in CIDR form if the mask allows it, else mask form.
pub fn spec(fam: Fam, addr: u128, mask: u128) -> String {
    match fam.mask_prefix(mask) {
        Some(p) => format!("{}/{}", fam.fmt(addr), p),
        None => format!("{}/{}", fam.fmt(addr), fam.fmt(mask)),
    }
}

/// A printed network: "address/prefix" or "address/mask".  The base must have no host bits.
pub fn parse_net(s: &str) -> Result<Net, String> {
    let (a, m) = s.split_once('/').ok_or_else(|| format!("not a network: {s:?}"))?;
    let (fam, a) = parse_any(a).ok_or_else(|| format!("not an address: {a:?}"))?;
    let mask = if m.contains('.') || m.contains(':') {
        let (f, m2) = parse_any(m).ok_or_else(|| format!("not a mask: {m:?}"))?;
        if f != fam {
            return Err(format!("mask of the other family: {s:?}"));
        }
        m2
    } else {
        if m.is_empty() || !m.bytes().all(|b| b.is_ascii_digit()) {
            return Err(format!("not a prefix: {m:?}"));
        }
        let p: u32 = m.parse().map_err(|_| format!("not a prefix: {m:?}"))?;
        if p > fam.w() {
            return Err(format!("prefix out of range: {s:?}"));
        }
        fam.prefix_mask(p)
    };
    if a & !mask != 0 {
        return Err(format!("network with host bits set: {s:?}"));
    }
    Ok(Net { fam, base: a, mask })
}
