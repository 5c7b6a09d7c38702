// Included into ripcalc's crate root when it is built with `--cfg ripcalc_mc`.
//
// Turns the binary into a server that runs ripcalc's own `do_main` over and over in one process,
// once per request, with the argument vector of the request placed into the process's real argv
// (so that `std::env::args` returns it).  Standard output and standard error of the process are
// append-only files shared with the explorer; requests and responses travel over the Unix
// socket that it gets as descriptor 0.  With `--cfg ripcalc_mc_addr`, `ripcalc_mc_net` and `ripcalc_mc_bits` it also answers
// batches of calls to the address type, the network type and the bit functions.
#[allow(dead_code)]
mod mc_server {
    use std::fs::File;
    use std::io::{Read, Write};
    use std::mem::ManuallyDrop;
    use std::os::fd::FromRawFd;
    use std::os::raw::{c_char, c_int};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

    static ARGC: AtomicUsize = AtomicUsize::new(0);
    static ARGV: AtomicPtr<*const c_char> = AtomicPtr::new(std::ptr::null_mut());

    extern "C" fn capture(argc: c_int, argv: *mut *const c_char, _envp: *mut *const c_char) {
        ARGC.store(argc as usize, Ordering::Relaxed);
        ARGV.store(argv, Ordering::Relaxed);
    }
    #[used]
    #[link_section = ".init_array"]
    static CAPTURE: extern "C" fn(c_int, *mut *const c_char, *mut *const c_char) = capture;

    #[repr(C)]
    struct RLimit { cur: u64, max: u64 }
    extern "C" {
        fn setrlimit(resource: c_int, limit: *const RLimit) -> c_int;
        fn dup2(from: c_int, to: c_int) -> c_int;
        fn syscall(nr: i64, ...) -> i64;
    }

    /// The descriptor of the socket to the explorer.
    static SOCK: AtomicUsize = AtomicUsize::new(0);
    fn sock_fd() -> i32 { SOCK.load(Ordering::Relaxed) as i32 }

    /// Moves the socket away from standard input, which becomes empty.  (The last argument is known
    /// to inject/confine.c.)
    fn clear_stdin() {
        if let Ok(null) = File::open("/dev/null") {
            use std::os::fd::AsRawFd;
            const F_DUPFD_CLOEXEC: i64 = 1030;
            let n = unsafe { syscall(72, 0i64, F_DUPFD_CLOEXEC, 700i64, 0i64, 0i64, 0x52c5a1ci64) };
            if n > 0 && unsafe { dup2(null.as_raw_fd(), 0) } == 0 {
                SOCK.store(n as usize, Ordering::Relaxed);
            }
        }
    }

    fn raw(fd: i32) -> ManuallyDrop<File> {
        ManuallyDrop::new(unsafe { File::from_raw_fd(fd) })
    }

    fn read_n(sock: &mut impl Read, n: usize) -> Option<Vec<u8>> {
        let mut v = vec![0u8; n];
        sock.read_exact(&mut v).ok()?;
        Some(v)
    }
    fn read_u32(sock: &mut impl Read) -> Option<usize> {
        Some(u32::from_le_bytes(read_n(sock, 4)?.try_into().unwrap()) as usize)
    }

    fn respond(status: i32, payload: &[u8]) {
        let _ = std::io::stdout().flush();
        let out_len = raw(1).metadata().map(|m| m.len()).unwrap_or(0);
        let err_len = raw(2).metadata().map(|m| m.len()).unwrap_or(0);
        let mut buf = Vec::with_capacity(24 + payload.len());
        buf.extend_from_slice(&status.to_le_bytes());
        buf.extend_from_slice(&(payload.len() as u32).to_le_bytes());
        buf.extend_from_slice(&out_len.to_le_bytes());
        buf.extend_from_slice(&err_len.to_le_bytes());
        buf.extend_from_slice(payload);
        if raw(sock_fd()).write_all(&buf).is_err() {
            std::process::exit(0);
        }
    }

    pub fn serve(do_main: fn() -> i32) {
        if std::env::var_os("RIPCALC_MC_SERVE").is_none() {
            return;
        }
        clear_stdin();
        let lim = RLimit { cur: 3 << 30, max: 3 << 30 };
        unsafe { setrlimit(9, &lim); } // RLIMIT_AS
        let lim = RLimit { cur: 192 << 20, max: 192 << 20 };
        unsafe { setrlimit(1, &lim); } // RLIMIT_FSIZE
        let argc = ARGC.load(Ordering::Relaxed);
        let argv = ARGV.load(Ordering::Relaxed);
        let mut sock = std::io::BufReader::with_capacity(1 << 16, raw_reader());
        loop {
            let kind = match read_n(&mut sock, 1) {
                Some(k) => k[0],
                None => std::process::exit(0),
            };
            if kind == 0 {
                let n = read_u32(&mut sock).unwrap();
                let mut store: Vec<Vec<u8>> = Vec::with_capacity(n);
                for _ in 0..n {
                    let l = read_u32(&mut sock).unwrap();
                    let mut b = read_n(&mut sock, l).unwrap();
                    b.push(0);
                    store.push(b);
                }
                if n + 1 > argc {
                    std::process::exit(77);
                }
                for (i, b) in store.iter().enumerate() {
                    unsafe { *argv.add(i) = b.as_ptr() as *const c_char; }
                }
                unsafe { *argv.add(n) = std::ptr::null(); }
                let status = match catch_unwind(AssertUnwindSafe(do_main)) {
                    Ok(s) => s & 0xff,
                    Err(_) => 101,
                };
                unsafe { *argv = std::ptr::null(); }
                respond(status, &[]);
            } else {
                let op = read_n(&mut sock, 2).unwrap();
                let count = read_u32(&mut sock).unwrap();
                let len = read_u32(&mut sock).unwrap();
                let data = read_n(&mut sock, len).unwrap();
                let mut at = 0;
                let mut payload = Vec::new();
                for _ in 0..count {
                    let l = u16::from_le_bytes([data[at], data[at + 1]]) as usize;
                    let rec = &data[at + 2..at + 2 + l];
                    at += 2 + l;
                    let res = catch_unwind(AssertUnwindSafe(|| api(op[0], op[1], rec)));
                    let (st, bytes) = match res {
                        Ok(Some(b)) => (0u8, b),
                        Ok(None) => (2u8, Vec::new()),
                        Err(_) => (1u8, Vec::new()),
                    };
                    payload.extend_from_slice(&((bytes.len() + 1) as u16).to_le_bytes());
                    payload.push(st);
                    payload.extend_from_slice(&bytes);
                }
                respond(0, &payload);
            }
        }
    }

    struct RawReader;
    impl Read for RawReader {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            loop {
                match raw(sock_fd()).read(buf) {
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                    r => return r,
                }
            }
        }
    }
    fn raw_reader() -> RawReader { RawReader }

    fn api(op: u8, fam: u8, rec: &[u8]) -> Option<Vec<u8>> {
        let _ = (op, fam, rec);
        #[cfg(ripcalc_mc_addr)]
        if let Some(r) = api_addr(op, fam, rec) { return Some(r); }
        #[cfg(ripcalc_mc_net)]
        if let Some(r) = api_net(op, fam, rec) { return Some(r); }
        #[cfg(ripcalc_mc_bits)]
        if let Some(r) = api_bits(op, fam, rec) { return Some(r); }
        None
    }

    #[cfg(any(ripcalc_mc_addr, ripcalc_mc_net, ripcalc_mc_bits))]
    mod conv {
        use crate::addr::{Ipv4Address, Ipv6Address};
        pub fn v4(b: &[u8]) -> Ipv4Address {
            Ipv4Address::new(u32::from_be_bytes(b[..4].try_into().unwrap()))
        }
        pub fn v6(b: &[u8]) -> Ipv6Address {
            Ipv6Address::new(
                u64::from_be_bytes(b[..8].try_into().unwrap()),
                u64::from_be_bytes(b[8..16].try_into().unwrap()),
            )
        }
        // The value of an address, read back without its serialization: bit by bit through the
        // bitwise AND and comparison with single-bit addresses made by `new`.
        pub fn v4b(a: Ipv4Address) -> Vec<u8> {
            let mut v = 0u32;
            for i in 0..32 {
                let bit = Ipv4Address::new(1 << i);
                if a & bit == bit { v |= 1 << i; }
            }
            if a == Ipv4Address::new(v) { v.to_be_bytes().to_vec() } else { vec![0xEE; 4] }
        }
        pub fn v6b(a: Ipv6Address) -> Vec<u8> {
            let mut v = 0u128;
            for i in 0..128 {
                let w = 1u128 << i;
                let bit = Ipv6Address::new((w >> 64) as u64, w as u64);
                if a & bit == bit { v |= w; }
            }
            if a == Ipv6Address::new((v >> 64) as u64, v as u64) { v.to_be_bytes().to_vec() } else { vec![0xEE; 16] }
        }
        pub fn opt<A>(a: Option<A>, enc: fn(A) -> Vec<u8>) -> Vec<u8> {
            match a {
                None => vec![0],
                Some(x) => { let mut v = vec![1]; v.extend(enc(x)); v },
            }
        }
    }

    // ---- addresses

    #[cfg(ripcalc_mc_addr)]
    fn api_addr(op: u8, fam: u8, rec: &[u8]) -> Option<Vec<u8>> {
        use conv::*;
        use crate::addr::{Ipv4Address, Ipv6Address};
        match (op, fam) {
            (30, 6) => Some(v6(rec).to_full_string().into_bytes()),
            (31, 6) => {
                let mut r = Vec::new();
                for c in v6(rec).to_chunks() { r.extend_from_slice(&c.to_be_bytes()); }
                Some(r)
            },
            (32, 6) => {
                let ch: Vec<u16> = rec.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
                Some(opt(Ipv6Address::from_chunks(&ch), v6b))
            },
            (_, 4) => addr_generic(op, rec, 4, v4, v4b, |s| s.parse::<Ipv4Address>().ok()),
            (_, 6) => addr_generic(op, rec, 16, v6, v6b, |s| s.parse::<Ipv6Address>().ok()),
            _ => None,
        }
    }
    #[cfg(ripcalc_mc_addr)]
    fn addr_generic<A: crate::addr::IpAddress>(
        op: u8, rec: &[u8], w: usize,
        dec: fn(&[u8]) -> A, enc: fn(A) -> Vec<u8>, parse: fn(&str) -> Option<A>,
    ) -> Option<Vec<u8>> {
        use conv::opt;
        let arg = |i: usize| dec(&rec[i * w..]);
        let off = |at: usize| i32::from_be_bytes(rec[at..at + 4].try_into().unwrap());
        let ord = |o: std::cmp::Ordering| (o as i8 + 1) as u8;
        Some(match op {
            1 => opt(parse(std::str::from_utf8(rec).ok()?), enc),
            2 => arg(0).to_string().into_bytes(),
            3 => arg(0).to_bytes(),
            4 => opt(A::from_bytes(rec), enc),
            5 => { let a = arg(0); vec![a.count_ones() as u8, a.count_zeros() as u8, a.byte_count() as u8] },
            6 => enc(arg(0).bitwise_negate()),
            7 => {
                let (a, b) = (arg(0), arg(1));
                let mut r = enc(a & b);
                r.extend(enc(a | b));
                r.extend(enc(a ^ b));
                r.push(ord(a.cmp(&b)));
                r.push(match a.partial_cmp(&b) { None => 9, Some(o) => ord(o) });
                r.push((a == b) as u8);
                r
            },
            8 => opt(arg(0).add_addr(&arg(1)), enc),
            9 => opt(arg(0).subtract_addr(&arg(1)), enc),
            10 => opt(arg(0).add_offset(off(w)), enc),
            11 => opt(arg(0).subtract_offset(off(w)), enc),
            _ => return None,
        })
    }

    // ---- networks

    #[cfg(ripcalc_mc_net)]
    fn api_net(op: u8, fam: u8, rec: &[u8]) -> Option<Vec<u8>> {
        use conv::*;
        match fam {
            4 => net_generic(op, rec, 4, v4, v4b),
            6 => net_generic(op, rec, 16, v6, v6b),
            _ => None,
        }
    }
    #[cfg(ripcalc_mc_net)]
    fn put_str(out: &mut Vec<u8>, s: &str) {
        out.push(s.len() as u8);
        out.extend_from_slice(s.as_bytes());
    }
    #[cfg(ripcalc_mc_net)]
    fn net_generic<A: crate::addr::IpAddress>(
        op: u8, rec: &[u8], w: usize, dec: fn(&[u8]) -> A, enc: fn(A) -> Vec<u8>,
    ) -> Option<Vec<u8>> {
        use conv::opt;
        use crate::net::IpNetwork;
        let arg = |i: usize| dec(&rec[i * w..]);
        let describe = |n: IpNetwork<A>| {
            let mut r = Vec::new();
            r.extend(enc(n.base_addr()));
            r.extend(enc(n.subnet_mask()));
            r.extend(match n.cidr_prefix() { None => vec![0, 0], Some(p) => vec![1, p as u8] });
            r.extend(enc(n.cisco_wildcard()));
            r.extend(opt(n.first_host_addr(), enc));
            r.extend(opt(n.last_host_addr(), enc));
            r.extend(opt(n.broadcast_addr(), enc));
            r.extend(opt(n.next_subnet_base_addr(), enc));
            r.extend(enc(n.last_addr_of_subnet()));
            put_str(&mut r, &n.address_count().to_string());
            put_str(&mut r, &n.host_count().to_string());
            put_str(&mut r, &n.to_string());
            r
        };
        let strict = |n: Option<IpNetwork<A>>| match n {
            None => vec![0],
            Some(n) => { let mut v = vec![1]; v.extend(describe(n)); v },
        };
        Some(match op {
            12 => describe(IpNetwork::new_with_mask(arg(0), arg(1))),
            13 => describe(IpNetwork::new_with_prefix(arg(0), rec[w] as usize)),
            14 => strict(IpNetwork::new_with_mask_strict(arg(0), arg(1))),
            15 => strict(IpNetwork::new_with_prefix_strict(arg(0), rec[w] as usize)),
            16 => {
                // two networks by mask: all relations in both directions
                let a = IpNetwork::new_with_mask(arg(0), arg(1));
                let b = IpNetwork::new_with_mask(arg(2), arg(3));
                vec![
                    a.is_superset_of(&b) as u8, b.is_superset_of(&a) as u8,
                    a.is_subset_of(&b) as u8, b.is_subset_of(&a) as u8,
                    a.intersects(&b) as u8, b.intersects(&a) as u8,
                    (a == b) as u8,
                ]
            },
            17 => vec![IpNetwork::new_with_mask(arg(0), arg(1)).contains(&arg(2)) as u8],
            _ => return None,
        })
    }

    // ---- bits

    #[cfg(ripcalc_mc_bits)]
    fn api_bits(op: u8, fam: u8, rec: &[u8]) -> Option<Vec<u8>> {
        use conv::*;
        use crate::bit_manip::{bits_to_bytes, bytes_to_binary, bytes_to_bits, unravel_address, weave_address};
        use crate::cidr::{prefix_from_subnet_mask_bytes, subnet_mask_bytes_from_prefix};
        Some(match (op, fam) {
            (18, 4) => v4b(unravel_address(v4(rec), v4(&rec[4..]))),
            (18, 6) => v6b(unravel_address(v6(rec), v6(&rec[16..]))),
            (19, 4) => v4b(weave_address(v4(rec), v4(&rec[4..]))),
            (19, 6) => v6b(weave_address(v6(rec), v6(&rec[16..]))),
            (33, 6) => prefix_from_subnet_mask_bytes(rec).map(|p| vec![1, p as u8]).unwrap_or(vec![0]),
            (34, 6) => subnet_mask_bytes_from_prefix(rec[0] as usize, rec[1] as usize),
            (35, 6) => bytes_to_binary(rec).into_bytes(),
            (36, 6) => bytes_to_bits(rec).into_iter().map(|b| b as u8).collect(),
            (37, 6) => {
                let bits: Vec<bool> = rec.iter().map(|b| *b != 0).collect();
                bits_to_bytes(&bits)
            },
            _ => return None,
        })
    }
}
