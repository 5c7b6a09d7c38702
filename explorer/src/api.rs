//! Names and arguments of the calls the server answers (server/mc_server.rs).
use crate::model::*;

fn addr(fam: u8, b: &[u8]) -> String {
    let f = if fam == 4 { V4 } else { V6 };
    let v = b.iter().fold(0u128, |v, x| v << 8 | *x as u128);
    f.fmt(v)
}

pub fn describe(op: u8, fam: u8, rec: &[u8]) -> impl Fn() -> String {
    let rec = rec.to_vec();
    move || {
        let w = if fam == 4 { 4 } else { 16 };
        let a = |i: usize| addr(fam, rec.get(i * w..(i + 1) * w).unwrap_or(&[]));
        let off = || i32::from_be_bytes(rec[w..w + 4].try_into().unwrap());
        match op {
            1 => format!("parse({:?})", String::from_utf8_lossy(&rec)),
            2 => format!("to_string({})", a(0)),
            3 => format!("to_bytes({})", a(0)),
            4 => format!("Ipv{}Address::from_bytes({:?})", fam, rec),
            5 => format!("count_ones/count_zeros/byte_count({})", a(0)),
            6 => format!("bitwise_negate({})", a(0)),
            7 => format!("and/or/xor/cmp/partial_cmp/eq({}, {})", a(0), a(1)),
            8 => format!("add_addr({}, {})", a(0), a(1)),
            9 => format!("subtract_addr({}, {})", a(0), a(1)),
            10 => format!("add_offset({}, {})", a(0), off()),
            11 => format!("subtract_offset({}, {})", a(0), off()),
            12 => format!("new_with_mask({}, {}) and its accessors", a(0), a(1)),
            13 => format!("new_with_prefix({}, {}) and its accessors", a(0), rec[w]),
            14 => format!("new_with_mask_strict({}, {})", a(0), a(1)),
            15 => format!("new_with_prefix_strict({}, {})", a(0), rec[w]),
            16 => format!("superset/superset'/subset/subset'/intersects/intersects'/eq({}/{}, {}/{})", a(0), a(1), a(2), a(3)),
            17 => format!("contains({}/{}, {})", a(0), a(1), a(2)),
            18 => format!("unravel_address({}, {})", a(0), a(1)),
            19 => format!("weave_address({}, {})", a(0), a(1)),
            30 => format!("to_full_string({})", a(0)),
            31 => format!("to_chunks({})", a(0)),
            32 => format!("from_chunks(bytes {:?})", rec),
            33 => format!("prefix_from_subnet_mask_bytes({:?})", rec),
            34 => format!("subnet_mask_bytes_from_prefix({}, {})", rec[0], rec[1]),
            35 => format!("bytes_to_binary({:?})", rec),
            36 => format!("bytes_to_bits({:?})", rec),
            37 => format!("bits_to_bytes({:?})", rec),
            _ => format!("op {op}"),
        }
    }
}
