//! C15, C16: timestamps.
use crate::rt::*;
use osmio::TimestampFormat;
use std::cmp::Ordering;
use std::str::FromStr;

fn leap(y: u64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn month_len(y: u64, m: u64) -> u64 {
    match m {
        2 => 28 + leap(y) as u64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// days from 0000-01-01 to the first of the month in years 0..=399
fn month_start(y: u64, m: u64) -> u64 {
    let mut d = 365 * y + if y > 0 { (y - 1) / 4 - (y - 1) / 100 + 1 } else { 0 };
    for k in 1..m {
        d += month_len(y, k);
    }
    d
}
/// 0000-01-01 to 1970-01-01
const EPOCH_DAY: i64 = 719528;

#[derive(Clone, Copy)]
struct Civil {
    year: u64,
    month: u64,
    day: u64,
    h: u64,
    mi: u64,
    s: u64,
    /// seconds since 1970-01-01T00:00:00 of this date and time
    secs: i64,
}

/// any day and time of day in this month
fn civil(year: u64, month: u64) -> Civil {
    let day = u64_in("day", 1, month_len(year, month));
    let (h, mi, s) = (u64_in("hour", 0, 23), u64_in("min", 0, 59), u64_in("sec", 0, 59));
    let days = (year / 400) as i64 * 146097 + month_start(year % 400, month) as i64 - EPOCH_DAY + (day as i64 - 1);
    let secs = days * 86400 + (h * 3600 + mi * 60 + s) as i64;
    Civil { year, month, day, h, mi, s, secs }
}
/// years around every change of rule or sign, and around the ends of 32-bit seconds
const YEARS: [u64; 24] = [
    0, 1, 4, 99, 100, 400, 1582, 1600, 1900, 1901, 1969, 1970, 1972, 1999, 2000, 2001, 2024, 2038, 2100, 2106, 2107, 2262,
    5000, 9999,
];
fn some_year(from: u64, n: u64) -> u64 {
    if thorough() && choose("range", 2) == 1 {
        from + choose("year", n)
    } else {
        YEARS[choose("year", 24) as usize]
    }
}

fn two(o: &mut Vec<u8>, v: u64) {
    o.push(b'0' + (v / 10) as u8);
    o.push(b'0' + (v % 10) as u8);
}
fn text(c: &Civil) -> Vec<u8> {
    let mut o = Vec::with_capacity(32);
    two(&mut o, c.year / 100);
    two(&mut o, c.year % 100);
    o.push(b'-');
    two(&mut o, c.month);
    o.push(b'-');
    two(&mut o, c.day);
    o.push(b'T');
    two(&mut o, c.h);
    o.push(b':');
    two(&mut o, c.mi);
    o.push(b':');
    two(&mut o, c.s);
    o
}
/// the same text with a zone, and the epoch second it denotes
fn zoned(c: &Civil, zone: u64) -> (String, i64) {
    let mut o = text(c);
    let mut e = c.secs;
    match zone {
        0 => o.push(b'Z'),
        3 => o.extend_from_slice(b"+00:00"),
        _ => {
            let (oh, om) = (u64_in("off-hour", 0, 23), u64_in("off-min", 0, 59));
            o.push(if zone == 1 { b'+' } else { b'-' });
            two(&mut o, oh);
            o.push(b':');
            two(&mut o, om);
            let off = (oh * 3600 + om * 60) as i64;
            e = if zone == 1 { e - off } else { e + off };
        }
    }
    (unsafe { String::from_utf8_unchecked(o) }, e)
}

fn format() {
    let c = civil(some_year(1850, 300), 1 + choose("month", 12));
    let t = TimestampFormat::EpochNumber(c.secs);
    check(t.to_epoch_number() == c.secs, "C15.epoch-kept");
    let s = t.to_iso_string();
    let mut want = text(&c);
    want.push(b'Z');
    check(same(s.as_bytes(), &want), "C15.iso-text");
    observe(s.as_bytes());
    // the text is `want` for every input, so reading `want` is reading it back
    match TimestampFormat::from_str(std::str::from_utf8(&want).unwrap()) {
        Ok(b) => check(b.to_epoch_number() == c.secs, "C15.back"),
        Err(_) => check(false, "C15.back-rejected"),
    }
    reach("format");
}

fn display() {
    let c = civil([0, 1, 1900, 1969, 1970, 2024, 2106, 9999][choose("year", 8) as usize], 1 + choose("month", 12));
    let t = TimestampFormat::from(c.secs);
    let mut want = text(&c);
    want.push(b'Z');
    check(same(t.to_string().as_bytes(), &want), "C15.display");
    check(t.to_epoch_number() == c.secs, "C15.from");
    // text stays as it is
    let (s, e) = zoned(&c, 0);
    let t = TimestampFormat::ISOString(s.clone());
    check(same_str(&t.to_iso_string(), &s), "C15.iso-kept");
    check(same_str(&t.to_string(), &s), "C15.iso-display");
    check(t.to_epoch_number() == e, "C15.iso-epoch");
    let (a, b) = (any_i32("i"), any_u32("u"));
    check(TimestampFormat::from(a).to_epoch_number() == a as i64, "C15.from-i32");
    check(TimestampFormat::from(b).to_epoch_number() == b as i64, "C15.from-u32");
    reach("display");
}

fn parse_of(c: &Civil, zone: u64) {
    let (s, e) = zoned(c, zone);
    match TimestampFormat::from_str(&s) {
        Ok(b) => check(b.to_epoch_number() == e, "C15.parse"),
        Err(_) => check(false, "C15.parse-rejected"),
    }
    check(TimestampFormat::ISOString(s).to_epoch_number() == e, "C15.iso-to-epoch");
    reach("parse");
}
/// every date, UTC
fn parse() {
    let c = civil(some_year(1000, 2000), 1 + choose("month", 12));
    parse_of(&c, 0);
}
/// other zones
fn parse_zone() {
    let year = if thorough() { choose("year", 9998) + 1 } else { [1, 4, 100, 1969, 1970, 2000, 2024, 9998][choose("year", 8) as usize] };
    let month = if thorough() { [1, 2, 3, 7, 12][choose("month", 5) as usize] } else { 1 + choose("month", 12) };
    let c = civil(year, month);
    let zone = 1 + choose("zone", 3);
    parse_of(&c, zone);
}

fn some_time(big: bool) -> (TimestampFormat, i64) {
    if choose("iso", 2) == 0 {
        // years 0000-9999
        let e = i64_in("epoch", -62167219200, 253402300799);
        (TimestampFormat::EpochNumber(e), e)
    } else {
        // quick: either side of a leap day or of a year's end
        let c = if big && thorough() {
            civil([1, 4, 100, 1969, 1970, 2024, 9998][choose("year", 7) as usize], 1 + choose("month", 12))
        } else {
            match (big, choose("month", 2)) {
                (_, 0) => civil(2000, 2),
                (true, _) => civil(2000, 12),
                _ => civil(2001, 1),
            }
        };
        let zone = if big || thorough() { choose("zone", 4) } else { 2 * choose("zone", 2) };
        let (s, e) = zoned(&c, zone);
        (TimestampFormat::ISOString(s), e)
    }
}

/// with a fraction of a second; three at a time
fn fractions() {
    let (a, x) = with_fraction("f0");
    let (b, y) = with_fraction("f1");
    check((a == b) == (x == y), "C16.eq");
    check((b == a) == (x == y), "C16.eq-symmetric");
    let o = a.partial_cmp(&b);
    check((o == Some(Ordering::Less)) == (x < y), "C16.less");
    check((o == Some(Ordering::Equal)) == (x == y), "C16.equal");
    check((o == Some(Ordering::Greater)) == (x > y), "C16.greater");
    check(a == a && !(a < a), "C16.reflexive");
    reach("fractions");
}
/// (s, thousandths): 2000-02-28T23:59:ss.fff, in one of two zones, or an epoch number
fn with_fraction(n: &str) -> (TimestampFormat, i64) {
    let s = u64_in("sec", 0, 59);
    let e = 951_782_340 + s as i64;
    if choose("iso", 2) == 0 {
        return (TimestampFormat::EpochNumber(e), e * 1000);
    }
    let zone = choose("zone", 2);
    let mut o = if zone == 0 { b"2000-02-28T23:59:".to_vec() } else { b"2000-02-29T00:59:".to_vec() };
    two(&mut o, s);
    let digits = [0, 1, 3, 2][choose("digits", if thorough() { 4 } else { 3 }) as usize];
    let mut f = 0;
    if digits > 0 {
        f = u64_in(n, 0, 10u64.pow(digits) - 1);
        o.push(b'.');
        for k in (0..digits).rev() {
            o.push(b'0' + (f / 10u64.pow(k) % 10) as u8);
        }
        f *= 10u64.pow(3 - digits);
    }
    o.extend_from_slice(if zone == 0 { b"Z" } else { b"+01:00" });
    (TimestampFormat::ISOString(unsafe { String::from_utf8_unchecked(o) }), e * 1000 + f as i64)
}

fn compare() {
    let (a, x) = some_time(true);
    let (b, y) = some_time(false);
    check((a == b) == (x == y), "C16.eq");
    check((b == a) == (x == y), "C16.eq-symmetric");
    check((a != b) == (x != y), "C16.ne");
    let o = a.partial_cmp(&b);
    check((o == Some(Ordering::Less)) == (x < y), "C16.less");
    check((o == Some(Ordering::Equal)) == (x == y), "C16.equal");
    check((o == Some(Ordering::Greater)) == (x > y), "C16.greater");
    check((a < b) == (x < y), "C16.lt");
    check((a <= b) == (x <= y), "C16.le");
    check(a == a && !(a < a), "C16.reflexive");
    reach("compare");
}

entries! {
    c15_format => format();
    c15_display => display();
    c15_parse => parse();
    c15_zone => parse_zone();
    c16_fractions => fractions();
    c16_compare => compare();
}
