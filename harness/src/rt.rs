//! Harness interface: symbolic inputs, assumptions and checks.

mod ffi {
    extern "C" {
        pub fn vf_native_open(p: *const u8);
        pub fn vf_native_failed() -> i32;
        pub fn vf_u64(n: *const u8, nl: usize, lo: u64, hi: u64) -> u64;
        pub fn vf_dec(n: *const u8, nl: usize, nd: u64) -> u64;
        pub fn vf_choose(n: *const u8, nl: usize, c: u64) -> u64;
        pub fn vf_bytes(n: *const u8, nl: usize, p: *mut u8, l: usize, lo: u64, hi: u64);
        pub fn vf_assume(c: u64);
        pub fn vf_check(c: u64, id: *const u8, l: usize);
        pub fn vf_reach(id: *const u8, l: usize);
        pub fn vf_observe(p: *const u8, l: usize);
        pub fn vf_allow_panic(b: u64);
        pub fn vf_concrete(v: u64) -> u64;
        pub fn vf_concrete_bytes(p: *const u8, l: usize);
        pub fn vf_is_sym(p: *const u8, l: usize) -> u64;
        pub fn vf_limit(n: u64);
        pub fn vf_tier() -> u64;
        pub fn vf_eq(a: *const u8, al: usize, b: *const u8, bl: usize) -> u64;
        pub fn vf_f64_parts(bits: u64, m: *mut i64, k: *mut u32) -> u64;
        pub fn vf_file(n: *const u8, nl: usize, p: *const u8, l: usize, out: *mut u8) -> u64;
        pub fn vf_incomplete(n: *const u8, nl: usize);
    }
}

/// unsigned input in lo..=hi
pub fn u64_in(n: &str, lo: u64, hi: u64) -> u64 {
    unsafe { ffi::vf_u64(n.as_ptr(), n.len(), lo, hi) }
}
pub fn any_u64(n: &str) -> u64 {
    u64_in(n, 0, u64::MAX)
}
pub fn any_i64(n: &str) -> i64 {
    u64_in(n, 0, u64::MAX) as i64
}
pub fn any_u32(n: &str) -> u32 {
    u64_in(n, 0, u32::MAX as u64) as u32
}
pub fn any_i32(n: &str) -> i32 {
    u64_in(n, 0, u32::MAX as u64) as u32 as i32
}
pub fn any_u8(n: &str) -> u8 {
    u64_in(n, 0, 255) as u8
}
pub fn any_bool(n: &str) -> bool {
    u64_in(n, 0, 1) != 0
}
/// signed input in lo..=hi
pub fn i64_in(n: &str, lo: i64, hi: i64) -> i64 {
    lo.wrapping_add(u64_in(n, 0, hi.wrapping_sub(lo) as u64) as i64)
}
/// number with exactly nd decimal digits
pub fn dec(n: &str, nd: u32) -> u64 {
    unsafe { ffi::vf_dec(n.as_ptr(), n.len(), nd as u64) }
}
/// number of nd decimal digits, leading zeros allowed
pub fn dec0(n: &str, nd: u32) -> u64 {
    unsafe { ffi::vf_dec(n.as_ptr(), n.len(), nd as u64 | 256) }
}
/// every number in 0..=bound, case-split so that each case is a string of decimal digits
pub fn dec_upto(n: &str, bound: u64) -> u64 {
    let mut len = 1u32;
    while len < 20 && bound >= 10u64.pow(len) {
        len += 1;
    }
    // cases: fewer digits; a common prefix with the bound and then a smaller digit; the bound
    let mut alts = 0;
    let mut case: [(u32, u64, u64); 48] = [(0, 0, 0); 48];
    for nd in 1..len {
        case[alts] = (nd, 0, 0);
        alts += 1;
    }
    for j in 0..len {
        let k = len - 1 - j;
        let d = bound / 10u64.pow(k) % 10;
        let lo = if j == 0 && len > 1 { 1 } else { 0 };
        if d > lo {
            case[alts] = (100 + k, lo, d - 1);
            alts += 1;
        }
    }
    case[alts] = (1000, 0, 0);
    alts += 1;
    let (k, lo, hi) = case[choose("digits", alts as u64) as usize];
    if k < 100 {
        return dec(n, k);
    }
    if k == 1000 {
        return bound;
    }
    let k = k - 100;
    let d = u64_in("d", lo, hi);
    let p = 10u64.pow(k);
    let rest = if k > 0 { dec0(n, k) } else { 0 };
    bound / (p * 10) * (p * 10) + d * p + rest
}
/// case split: the engine explores every alternative
pub fn choose(n: &str, c: u64) -> u64 {
    unsafe { ffi::vf_choose(n.as_ptr(), n.len(), c) }
}
pub fn bytes(n: &str, l: usize, lo: u8, hi: u8) -> Vec<u8> {
    let mut v = vec![0u8; l];
    unsafe { ffi::vf_bytes(n.as_ptr(), n.len(), v.as_mut_ptr(), l, lo as u64, hi as u64) };
    v
}
pub fn assume(c: bool) {
    unsafe { ffi::vf_assume(c as u64) }
}
pub fn check(c: bool, id: &str) {
    unsafe { ffi::vf_check(c as u64, id.as_ptr(), id.len()) }
}
pub fn reach(id: &str) {
    unsafe { ffi::vf_reach(id.as_ptr(), id.len()) }
}
pub fn observe(b: &[u8]) {
    unsafe { ffi::vf_observe(b.as_ptr(), b.len()) }
}
pub fn allow_panic(b: bool) {
    unsafe { ffi::vf_allow_panic(b as u64) }
}
pub fn concrete(v: u64) -> u64 {
    unsafe { ffi::vf_concrete(v) }
}
pub fn concrete_bytes(b: &[u8]) {
    unsafe { ffi::vf_concrete_bytes(b.as_ptr(), b.len()) }
}
pub fn is_sym(b: &[u8]) -> bool {
    unsafe { ffi::vf_is_sym(b.as_ptr(), b.len()) != 0 }
}
/// the code run until `limit(0)` must finish within n IR instructions
pub fn limit(n: u64) {
    unsafe { ffi::vf_limit(n) }
}
pub fn thorough() -> bool {
    unsafe { ffi::vf_tier() > 0 }
}
/// equality without branching on the contents
pub fn same(a: &[u8], b: &[u8]) -> bool {
    unsafe { ffi::vf_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len()) != 0 }
}
pub fn same_str(a: &str, b: &str) -> bool {
    same(a.as_bytes(), b.as_bytes())
}
/// assert that two strings are equal (bytes compared by the solver)
pub fn check_str(a: &str, b: &str, id: &str) {
    check(same_str(a, b), id)
}
/// the path of a file with this content (in a scratch directory when replayed)
pub fn file(name: &str, d: &[u8]) -> String {
    let mut out = [0u8; 256];
    let l = unsafe { ffi::vf_file(name.as_ptr(), name.len(), d.as_ptr(), d.len(), out.as_mut_ptr()) };
    String::from_utf8_lossy(&out[..l as usize]).into_owned()
}
pub fn incomplete(r: &str) {
    unsafe { ffi::vf_incomplete(r.as_ptr(), r.len()) }
}
pub fn native_open(p: &str) {
    let p = format!("{}\0", p);
    unsafe { ffi::vf_native_open(p.as_ptr()) }
}
pub fn native_failed() -> bool {
    unsafe { ffi::vf_native_failed() != 0 }
}

// ---------------------------------------------------------------- decimal text of doubles
//
// The engine calls these instead of core's <f64 as Display>::fmt / <f64 as FromStr>::from_str
// when the data is symbolic. They use exact facts about correctly rounded conversion:
//  * a double equal to m/10^k (rounded) with |m| < 10^15 prints as the decimal m/10^k
//    without trailing zeros;
//  * a decimal literal with mantissa m < 2^53 and at most 22 fractional digits parses to
//    (m as f64) / 10^k (Clinger's exact fast path).
// Everything else is made concrete and goes through the real functions.

use std::fmt::Write;

#[no_mangle]
#[inline(never)]
pub fn vf_fmt_f64(v: &f64, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    let mut m = 0i64;
    let mut k = 0u32;
    let plain = f.width().is_none() && f.precision().is_none() && !f.sign_plus();
    if plain && unsafe { ffi::vf_f64_parts(v.to_bits(), &mut m, &mut k) } != 0 {
        let neg = m < 0;
        let mut a = if neg { (-m) as u64 } else { m as u64 };
        if a == 0 {
            // sign of zero comes from the integer, which has none
            return f.write_str("0");
        }
        let mut k = k;
        let mut frac: [u8; 32] = [0; 32];
        let mut n = 0usize;
        let mut started = false;
        while k > 0 {
            let d = (a % 10) as u8;
            a /= 10;
            k -= 1;
            if !started && d == 0 {
                continue;
            }
            started = true;
            frac[n] = b'0' + d;
            n += 1;
        }
        if neg {
            f.write_char('-')?;
        }
        write!(f, "{}", a)?;
        if n > 0 {
            f.write_char('.')?;
            let mut o: [u8; 32] = [0; 32];
            for i in 0..n {
                o[i] = frac[n - 1 - i];
            }
            f.write_str(unsafe { std::str::from_utf8_unchecked(&o[..n]) })?;
        }
        return Ok(());
    }
    // a value without that shape: fall back to concrete execution of the real code
    concrete_bytes(unsafe { std::slice::from_raw_parts(v as *const f64 as *const u8, 8) });
    std::fmt::Display::fmt(v, f)
}

#[no_mangle]
#[inline(never)]
pub fn vf_parse_f64(s: &str) -> Result<f64, std::num::ParseFloatError> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut neg = false;
    if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
        neg = b[i] == b'-';
        i += 1;
    }
    let mut m = 0u64;
    let mut k = 0usize;
    let mut nd = 0;
    let mut seen_dot = false;
    let mut ok = true;
    while i < b.len() {
        let c = b[i];
        if c == b'.' && !seen_dot {
            seen_dot = true;
        } else if c >= b'0' && c <= b'9' && nd < 15 {
            m = m.wrapping_mul(10).wrapping_add((c - b'0') as u64);
            nd += 1;
            if seen_dot {
                k += 1;
            }
        } else {
            ok = false;
            break;
        }
        i += 1;
    }
    if ok && nd > 0 {
        const P: [f64; 16] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15];
        if neg && m == 0 {
            return Ok(-0.0);
        }
        let x = if neg { -(m as i64) } else { m as i64 };
        let f = x as f64;
        return Ok(if k == 0 { f } else { f / P[k] });
    }
    concrete_bytes(b);
    s.parse()
}

/// declares entry functions and the module's table of them
#[macro_export]
macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $name() {
                $body
            }
        )*
        pub const ENTRIES: &[(&'static str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}

// ---------------------------------------------------------------- strings

/// string of l symbolic ASCII bytes in lo..=hi
pub fn ascii_in(n: &str, l: usize, lo: u8, hi: u8) -> String {
    assert!(hi < 128);
    unsafe { String::from_utf8_unchecked(bytes(n, l, lo, hi)) }
}
/// string of l symbolic ASCII bytes
pub fn ascii(n: &str, l: usize) -> String {
    ascii_in(n, l, 0, 127)
}
/// any Unicode scalar value, as a string (case-split by encoded length)
pub fn uchar(n: &str) -> String {
    let mut v = Vec::new();
    match choose("utf8-len", 5) {
        0 => v.push(u64_in(n, 0, 0x7f) as u8),
        1 => {
            let c = u64_in(n, 0x80, 0x7ff);
            v.push(0xc0 | (c >> 6) as u8);
            v.push(0x80 | (c & 63) as u8);
        }
        k @ (2 | 3) => {
            let c = if k == 2 { u64_in(n, 0x800, 0xd7ff) } else { u64_in(n, 0xe000, 0xffff) };
            v.push(0xe0 | (c >> 12) as u8);
            v.push(0x80 | (c >> 6 & 63) as u8);
            v.push(0x80 | (c & 63) as u8);
        }
        _ => {
            let c = u64_in(n, 0x10000, 0x10ffff);
            v.push(0xf0 | (c >> 18) as u8);
            v.push(0x80 | (c >> 12 & 63) as u8);
            v.push(0x80 | (c >> 6 & 63) as u8);
            v.push(0x80 | (c & 63) as u8);
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// optional u32
pub fn opt_u32(n: &str) -> Option<u32> {
    if choose("some", 2) == 1 {
        Some(any_u32(n))
    } else {
        None
    }
}
pub fn same_opt(a: Option<&str>, b: Option<&str>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same_str(a, b),
        _ => false,
    }
}
