//! C13, C14: coordinates.
use crate::rt::*;
use osmio::{Lat, Lon};
use std::str::FromStr;

/// every 32-bit value, case-split by sign and number of decimal digits
fn any_inner(n: &str) -> i32 {
    let neg = choose("neg", 2) == 1;
    let a = dec_upto(n, if neg { 1 << 31 } else { (1 << 31) - 1 }) as i64;
    let x = if neg { -a } else { a };
    x as i32
}

fn degrees_round_trip() {
    let x = any_i32("x");
    let lat = Lat::from_inner(x);
    let lon = Lon::from_inner(x);
    check(lat.inner() == x, "C13.lat-inner");
    check(lon.inner() == x, "C13.lon-inner");
    let d = lat.degrees();
    observe(&d.to_bits().to_le_bytes());
    check(d.to_bits() == (x as f64 / 1e7).to_bits(), "C13.lat-degrees-nearest");
    check(lon.degrees().to_bits() == (x as f64 / 1e7).to_bits(), "C13.lon-degrees-nearest");
    check(f64::from(lat).to_bits() == d.to_bits(), "C13.lat-into-f64");
    check(f64::from(lon).to_bits() == d.to_bits(), "C13.lon-into-f64");
    match Lat::try_from(d) {
        Ok(l) => {
            reach("lat-ok");
            check(l.inner() == x, "C13.lat-degrees-back")
        }
        Err(_) => check(false, "C13.lat-degrees-rejected"),
    }
    match Lon::try_from(d) {
        Ok(l) => check(l.inner() == x, "C13.lon-degrees-back"),
        Err(_) => check(false, "C13.lon-degrees-rejected"),
    }
}

fn degrees_order() {
    let x = any_i32("x");
    let y = any_i32("y");
    let (a, b) = (Lat::from_inner(x), Lat::from_inner(y));
    check((a.degrees() < b.degrees()) == (x < y), "C13.lat-degrees-order");
    check((a.degrees() == b.degrees()) == (x == y), "C13.lat-degrees-distinct");
    check((a < b) == (x < y), "C13.lat-order");
    let (a, b) = (Lon::from_inner(x), Lon::from_inner(y));
    check((a.degrees() < b.degrees()) == (x < y), "C13.lon-degrees-order");
    check((a.degrees() == b.degrees()) == (x == y), "C13.lon-degrees-distinct");
    check((a < b) == (x < y), "C13.lon-order");
    reach("order");
}

fn text_round_trip() {
    let x = any_inner("x");
    let s = if choose("type", 2) == 0 {
        let s = Lat::from_inner(x).to_string();
        match Lat::from_str(&s) {
            Ok(l) => check(l.inner() == x, "C13.lat-text-back"),
            Err(_) => check(false, "C13.lat-text-rejected"),
        }
        s
    } else {
        let s = Lon::from_inner(x).to_string();
        match Lon::from_str(&s) {
            Ok(l) => check(l.inner() == x, "C13.lon-text-back"),
            Err(_) => check(false, "C13.lon-text-rejected"),
        }
        s
    };
    reach("text");
    observe(s.as_bytes());
}

// ---------------------------------------------------------------- C14

/// Lat and Lon agree, and the result for d = (-1)^neg * m * 2^k (d == f) is the nearest value:
/// |result * 2 - d * 2e7| <= 1 + relative error of one rounding, decided in integers
fn judge(r: Result<i32, ()>, neg: bool, m: u64, k: i32, bits: u32) {
    // d in units: a/2^s with a = m * 10^7 (* 2^k for k >= 0)
    if k >= 0 {
        // |d| >= 2^52
        if m == 0 {
            check(r == Ok(0), "C14.zero");
        } else {
            check(r.is_err(), "C14.huge-accepted");
        }
        return;
    }
    let s = (-k) as u32;
    let a = m as i128 * 10_000_000;
    if s >= 80 {
        // a < 2^77, so d * 10^7 < 1/8
        check(r == Ok(0), "C14.tiny");
        reach("tiny");
        return;
    }
    // one rounding to 53 bits is off by less than a * 2^-53 <= 10^7 / 2^s for m < 2^53; a single
    // precision m < 2^24 is scaled without any error
    let slack = if bits == 64 { 10_000_000 * 4i128 } else { 1 };
    let lim: i128 = if neg { 1 << 31 } else { (1 << 31) - 1 };
    // 2 * (lim + 1/2) scaled
    let edge = (2 * lim + 1) << s;
    match r {
        Ok(v) => {
            let v = v as i128;
            let b = if neg { -v } else { v } * (2i128 << s);
            check(b >= 0, "C14.sign");
            check(b <= 2 * a + (1 << s) + slack, "C14.nearest-above");
            check(2 * a <= b + (1 << s) + slack, "C14.nearest-below");
            check(2 * a <= edge + slack, "C14.too-big-accepted");
            reach("nearest");
        }
        Err(()) => {
            check(2 * a + slack >= edge, "C14.in-range-rejected");
            reach("rejected");
        }
    }
}

fn from_f64(f: f64, lat: bool) -> Result<i32, ()> {
    if lat {
        Lat::try_from(f).map(|x| x.inner()).map_err(|_| ())
    } else {
        Lon::try_from(f).map(|x| x.inner()).map_err(|_| ())
    }
}
fn from_f32(f: f32, lat: bool) -> Result<i32, ()> {
    if lat {
        Lat::try_from(f).map(|x| x.inner()).map_err(|_| ())
    } else {
        Lon::try_from(f).map(|x| x.inner()).map_err(|_| ())
    }
}

/// every f64 bit pattern: the sign and the exponent are a case split, the significand is symbolic
fn nearest_f64() {
    let lat = choose("lat", 2) == 0;
    let neg = choose("neg", 2) == 1;
    let e = choose("exponent", 2048);
    let m = u64_in("significand", 0, (1 << 52) - 1);
    let f = f64::from_bits((neg as u64) << 63 | e << 52 | m);
    let r = from_f64(f, lat);
    if e == 2047 {
        check(r.is_err(), "C14.not-finite-accepted");
        reach("not-finite");
    } else if e == 0 {
        judge(r, neg, m, -1074, 64);
    } else {
        judge(r, neg, m + (1 << 52), e as i32 - 1075, 64);
    }
}

fn nearest_f32() {
    let lat = choose("lat", 2) == 0;
    let neg = choose("neg", 2) == 1;
    let e = choose("exponent", 256);
    let m = u64_in("significand", 0, (1 << 23) - 1);
    let f = f32::from_bits((neg as u32) << 31 | (e << 23) as u32 | m as u32);
    let r = from_f32(f, lat);
    if e == 255 {
        check(r.is_err(), "C14.f32-not-finite-accepted");
        reach("not-finite");
    } else if e == 0 {
        judge(r, neg, m, -149, 32);
    } else {
        judge(r, neg, m + (1 << 23), e as i32 - 150, 32);
    }
}

/// decimal text: sign, digits, point, digits
fn nearest_text() {
    let sign = choose("sign", 3);
    let neg = sign == 1;
    let lat = choose("lat", 2) == 0;
    let ni = 1 + choose("int-digits", 5) as u32;
    let nf = choose("frac-digits", if thorough() { 11 } else { 10 }) as u32;
    let i = dec0("int", ni);
    let f = if nf > 0 { dec0("frac", nf) } else { 0 };
    let mut s = String::new();
    match sign {
        0 => {}
        1 => s.push('-'),
        _ => s.push('+'),
    }
    for j in (0..ni).rev() {
        s.push((b'0' + (i / 10u64.pow(j) % 10) as u8) as char);
    }
    if nf > 0 {
        s.push('.');
        for j in (0..nf).rev() {
            s.push((b'0' + (f / 10u64.pow(j) % 10) as u8) as char);
        }
    }
    let r = if lat { Lat::from_str(&s).map(|x| x.inner()).ok() } else { Lon::from_str(&s).map(|x| x.inner()).ok() };
    // exact: degrees * 10^7 = n / b
    let n = (i * 10u64.pow(nf) + f) as i64;
    let (n, b) = if nf <= 7 { (n * 10i64.pow(7 - nf), 1) } else { (n, 10i64.pow(nf - 7)) };
    // the two roundings (parsing, multiplying) are far smaller than 1/b, so they cannot move
    // the result by one except exactly at a tie
    let lim: i64 = if neg { 1 << 31 } else { (1 << 31) - 1 };
    let edge = (2 * lim + 1) * b;
    match r {
        Some(v) => {
            let v = v as i64;
            let v2 = 2 * b * if neg { -v } else { v };
            check(v2 >= 0, "C14.text-sign");
            check(v2 <= 2 * n + b, "C14.text-above");
            check(2 * n <= v2 + b, "C14.text-below");
            check(2 * n <= edge, "C14.text-too-big-accepted");
            reach("text-ok");
        }
        None => {
            check(2 * n >= edge, "C14.text-in-range-rejected");
            reach("text-rejected");
        }
    }
}

/// text that is not a finite decimal number
fn odd_text() {
    const T: [&str; 22] = ["NaN", "nan", "-NaN", "inf", "-inf", "+infinity", "Infinity", "1e400", "-1e400", "1e10", "", " ", "-", "+", ".", "1.2.3", "0x10", "1,5", " 1", "1 ", "12a", "1e"];
    let s = T[choose("t", 22) as usize];
    check(Lat::from_str(s).is_err(), "C14.odd-text-lat");
    check(Lon::from_str(s).is_err(), "C14.odd-text-lon");
    reach("odd");
}

entries! {
    c14_f64 => nearest_f64();
    c14_f32 => nearest_f32();
    c14_text => nearest_text();
    c14_odd => odd_text();
    c13_degrees => degrees_round_trip();
    c13_order => degrees_order();
    c13_text => text_round_trip();
}
