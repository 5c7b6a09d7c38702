//! Exact set operations on unions of networks (a network is a cube: some bits fixed, others free).
use crate::model::*;

/// Is every address of `n` in one of `list`?  Otherwise an address that is not.
pub fn uncovered(n: &Net, list: &[Net]) -> Option<u128> {
    let near: Vec<Net> = list.iter().filter(|m| m.fam == n.fam && (m.base ^ n.base) & m.mask & n.mask == 0).cloned().collect();
    if near.is_empty() {
        return Some(n.base);
    }
    if near.iter().any(|m| m.mask & !n.mask == 0) {
        return None;
    }
    // split n at the highest bit that some of them fix and n leaves free
    let free = near.iter().fold(0u128, |b, m| b | (m.mask & !n.mask));
    let bit = 1u128 << (127 - free.leading_zeros());
    for v in [0, bit] {
        let half = Net { fam: n.fam, base: n.base | v, mask: n.mask | bit };
        if let Some(a) = uncovered(&half, &near) {
            return Some(a);
        }
    }
    None
}

/// The same addresses?
pub fn same_union(input: &[Net], output: &[Net]) -> Result<(), String> {
    for n in input {
        if let Some(a) = uncovered(n, output) {
            return Err(format!("{} is in the input network {} but in none of the printed networks", n.fam.fmt(a), n.text()));
        }
    }
    for n in output {
        if let Some(a) = uncovered(n, input) {
            return Err(format!("{} is in the printed network {} but in none of the input networks", n.fam.fmt(a), n.text()));
        }
    }
    Ok(())
}

/// All networks whose mask bits outside the window are ones and whose base there is the background.
/// Every pattern of fixed/free bits in the window (3^k networks).
pub fn window_nets(fam: Fam, at: u32, k: u32, bg: u128) -> Vec<Net> {
    let win = ((1u128 << k) - 1) << at;
    let mut v = vec![];
    for m in (0..1u128 << k).rev() {
        let mask = fam.full() & !win | m << at;
        let mut sub = 0u128;
        loop {
            v.push(Net { fam, base: bg & fam.full() & !win | sub << at, mask });
            if sub == m {
                break;
            }
            sub = (sub.wrapping_sub(m)) & m;
        }
    }
    v
}

/// The CIDR networks with host bits reaching up to the top of the window: 2^(k+1)-1 networks whose
/// prefix ends in the window.
pub fn window_cidrs(fam: Fam, at: u32, k: u32, bg: u128) -> Vec<Net> {
    let win = ((1u128 << k) - 1) << at;
    let mut v = vec![];
    for h in 0..=k {
        // h host bits inside the window, all below it are host bits
        let mask = fam.prefix_mask(fam.w() - at - h);
        for x in 0..1u128 << (k - h) {
            let x = x.checked_shl(at + h).unwrap_or(0); // h = k = w - at: the whole space, x = 0
            let base = (bg & fam.full() & !win | x) & mask;
            v.push(Net { fam, base, mask });
        }
    }
    v
}
