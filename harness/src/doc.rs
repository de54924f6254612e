//! XML text with symbolic parts, built together with what it means.
use crate::rt::*;

/// any printable ASCII byte that stands for itself in a double-quoted attribute
pub fn plain(n: &str) -> u8 {
    let mut b = 0x20 + u64_in(n, 0, 91);
    b += (b >= 0x22) as u64;
    b += (b >= 0x26) as u64;
    b += (b >= 0x3c) as u64;
    b as u8
}
/// letters only
pub fn letter(n: &str) -> u8 {
    b'a' + u64_in(n, 0, 25) as u8
}

pub const PLAIN: u64 = 0;
/// one character of attribute text: what is written, and what it means
/// kinds: 0 plain, 1-5 entities, 6 decimal and 7 hexadecimal reference, 8 any non-ASCII character,
/// 9 white space
pub fn unit(n: &str, kind: u64, raw: &mut Vec<u8>, val: &mut Vec<u8>) {
    match kind {
        0 => {
            let b = plain(n);
            raw.push(b);
            val.push(b);
        }
        1..=5 => {
            let (r, v) = [(&b"&amp;"[..], b'&'), (b"&lt;", b'<'), (b"&gt;", b'>'), (b"&quot;", b'"'), (b"&apos;", b'\'')][kind as usize - 1];
            raw.extend_from_slice(r);
            val.push(v);
        }
        6 => {
            // 32..=99 and 100..=126
            let c = if choose("ref-len", 2) == 0 { u64_in(n, 32, 99) } else { u64_in(n, 100, 126) };
            raw.extend_from_slice(b"&#");
            if c >= 100 {
                raw.push(b'1');
            }
            raw.push(b'0' + (c / 10 % 10) as u8);
            raw.push(b'0' + (c % 10) as u8);
            raw.push(b';');
            val.push(c as u8);
        }
        7 => {
            let c = u64_in(n, 0x20, 0x7e) as u8;
            raw.extend_from_slice(b"&#x");
            raw.push(b'0' + (c >> 4));
            let l = c & 15;
            raw.push(b'0' + l + 39 * (l > 9) as u8);
            raw.push(b';');
            val.push(c);
        }
        8 => {
            let s = wide(n);
            raw.extend_from_slice(s.as_bytes());
            val.extend_from_slice(s.as_bytes());
        }
        _ => {
            // XML reads a literal tab or line feed in an attribute as a space
            raw.push([b'\t', b'\n'][choose("space", 2) as usize]);
            val.push(b' ');
        }
    }
}
/// any non-ASCII character XML permits (not U+FFFE, U+FFFF), in four classes
pub fn wide(n: &str) -> String {
    let mut v = Vec::new();
    match choose("wide", 4) {
        0 => {
            // from U+00A0: the C1 controls are discouraged
            let c = u64_in(n, 0xa0, 0x7ff);
            v.push(0xc0 | (c >> 6) as u8);
            v.push(0x80 | (c & 63) as u8);
        }
        k @ (1 | 2) => {
            let c = if k == 1 { u64_in(n, 0x800, 0xd7ff) } else { u64_in(n, 0xe000, 0xfffd) };
            v.push(0xe0 | (c >> 12) as u8);
            v.push(0x80 | (c >> 6 & 63) as u8);
            v.push(0x80 | (c & 63) as u8);
        }
        _ => {
            let c = u64_in(n, 0x10000, 0x10fffd);
            v.push(0xf0 | (c >> 18) as u8);
            v.push(0x80 | (c >> 12 & 63) as u8);
            v.push(0x80 | (c >> 6 & 63) as u8);
            v.push(0x80 | (c & 63) as u8);
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn st(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}

/// decimal text of a number known to have nd digits
pub fn digits(mut v: u64, nd: u32) -> Vec<u8> {
    let mut o = vec![b'0'; nd as usize];
    for i in 0..nd as usize {
        o[nd as usize - 1 - i] = b'0' + (v % 10) as u8;
        v /= 10;
    }
    o
}
/// every number up to bound with its decimal text
pub fn number(n: &str, bound: u64) -> (u64, Vec<u8>) {
    let v = dec_upto(n, bound);
    (v, v.to_string().into_bytes())
}
