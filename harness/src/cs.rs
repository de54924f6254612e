//! C20, C21, C22: changeset readers.
use crate::doc::*;
use crate::rt::*;
use osmio::changesets::{Changeset, ChangesetReader, ChangesetTagReader};

#[derive(Clone)]
struct Cs {
    id: u64,
    created: Vec<u8>,
    closed: Option<Vec<u8>>,
    open: bool,
    uid: Option<i64>,
    user: Option<Vec<u8>>,
    num_changes: u64,
    comments: u64,
    tags: Vec<(Vec<u8>, Vec<u8>)>,
}
type Attr = (&'static str, Vec<u8>);

fn base(id: u64) -> Cs {
    Cs {
        id,
        created: b"2012-03-04T05:06:07Z".to_vec(),
        closed: None,
        open: false,
        uid: None,
        user: None,
        num_changes: 3,
        comments: 4,
        tags: vec![],
    }
}
fn attrs(c: &Cs) -> Vec<Attr> {
    let mut a: Vec<Attr> = vec![("id", c.id.to_string().into_bytes()), ("created_at", c.created.clone())];
    if let Some(t) = &c.closed {
        a.push(("closed_at", t.clone()));
    }
    a.push(("open", if c.open { b"true".to_vec() } else { b"false".to_vec() }));
    if let Some(u) = &c.user {
        a.push(("user", u.clone()));
    }
    if let Some(u) = c.uid {
        a.push(("uid", u.to_string().into_bytes()));
    }
    a.push(("num_changes", c.num_changes.to_string().into_bytes()));
    a.push(("comments_count", c.comments.to_string().into_bytes()));
    a
}
fn put(d: &mut Vec<u8>, a: &[Attr]) {
    for (k, v) in a {
        d.push(b' ');
        d.extend_from_slice(k.as_bytes());
        d.extend_from_slice(b"=\"");
        d.extend_from_slice(v);
        d.push(b'"');
    }
}
const HEAD: &[u8] = b"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\">\n";
const TAIL: &[u8] = b"\n</osm>\n";

fn agrees(g: &Changeset, w: &Cs) {
    check(g.id as u64 == w.id, "C20.id");
    check(same_str(&g.created.to_iso_string(), std::str::from_utf8(&w.created).unwrap()), "C20.created");
    match (&g.closed, &w.closed) {
        (None, None) => {}
        (Some(a), Some(b)) => check(same(a.to_iso_string().as_bytes(), b), "C20.closed"),
        _ => check(false, "C20.closed-presence"),
    }
    check(g.open == w.open, "C20.open");
    check(g.uid.is_some() == w.uid.is_some(), "C20.uid-presence");
    check(g.uid.unwrap_or(0) == w.uid.unwrap_or(0), "C20.uid");
    match (&g.user, &w.user) {
        (None, None) => {}
        (Some(a), Some(b)) => check(same(a.as_bytes(), b), "C20.user"),
        _ => check(false, "C20.user-presence"),
    }
    check(g.num_changes == w.num_changes, "C20.num_changes");
    check(g.comments_count == w.comments, "C20.comments_count");
    check(g.num_tags() == w.tags.len(), "C20.num_tags");
    check(g.tagged() == !w.tags.is_empty() && g.untagged() == w.tags.is_empty(), "C20.tagged");
    for (k, v) in &w.tags {
        let k = unsafe { std::str::from_utf8_unchecked(k) };
        match g.tag(k) {
            Some(x) => check(same(x.as_bytes(), v), "C20.tag"),
            None => check(false, "C20.tag-missing"),
        }
    }
}
fn read_all(doc: &[u8], want: &[Cs]) {
    read_from(doc, want)
}
fn read_from<R: std::io::Read>(doc: R, want: &[Cs]) {
    let mut r = ChangesetReader::new(doc);
    for w in want {
        match r.next() {
            Some(Ok(g)) => agrees(&g, w),
            Some(Err(_)) => check(false, "C20.error"),
            None => check(false, "C20.missing"),
        }
    }
    check(r.next().is_none(), "C20.end");
    check(r.next().is_none(), "C20.end-again");
}

/// one attribute's value is symbolic, in both element forms
fn values() {
    let mut c = base(7);
    c.closed = Some(b"2012-03-04T06:06:07Z".to_vec());
    c.user = Some(b"ann".to_vec());
    c.uid = Some(9);
    let mut a = attrs(&c);
    let mut set = |k: &str, v: Vec<u8>| {
        let i = a.iter().position(|x| x.0 == k).unwrap();
        a[i].1 = v;
    };
    match choose("attribute", 8) {
        0 => {
            let (v, t) = number("id", u32::MAX as u64);
            c.id = v;
            set("id", t);
        }
        1 => {
            let (v, t) = number("num_changes", u64::MAX);
            c.num_changes = v;
            set("num_changes", t);
        }
        2 => {
            let (v, t) = number("comments_count", u64::MAX);
            c.comments = v;
            set("comments_count", t);
        }
        3 => {
            if choose("negative", 2) == 0 {
                let (v, t) = number("uid", i64::MAX as u64);
                c.uid = Some(v as i64);
                set("uid", t);
            } else {
                let (v, t) = number("uid", 1 << 63);
                c.uid = Some((v as i64).wrapping_neg());
                let mut m = vec![b'-'];
                m.extend_from_slice(&t);
                set("uid", m);
            }
        }
        4 => {
            c.open = choose("open", 2) == 1;
            set("open", if c.open { b"true".to_vec() } else { b"false".to_vec() });
        }
        5 => {
            let n = choose("len", 3 + thorough() as u64);
            let (mut raw, mut val) = (vec![], vec![]);
            for i in 0..n {
                unit(["u0", "u1", "u2", "u3"][i as usize], choose("unit", 10), &mut raw, &mut val);
            }
            c.user = Some(val);
            set("user", raw);
        }
        k => {
            let mut t = vec![];
            for (i, x) in b"2012-03-04T05:06:07Z".iter().enumerate() {
                t.push(match x {
                    b'0'..=b'9' => u64_in(["t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "ta", "tb", "tc", "td", "te", "tf", "tg", "th", "ti", "tj"][i], 48, 57) as u8,
                    _ => *x,
                });
            }
            if k == 6 {
                c.created = t.clone();
                set("created_at", t);
            } else {
                c.closed = Some(t.clone());
                set("closed_at", t);
            }
        }
    }
    let mut d = HEAD.to_vec();
    d.extend_from_slice(b"<changeset");
    put(&mut d, &a);
    d.extend_from_slice(if choose("form", 2) == 0 { b"/>" } else { b"></changeset>" });
    d.extend_from_slice(TAIL);
    read_all(&d, &[c]);
    reach("values");
}


/// attributes in another order, quoted and spaced differently, with optional and unknown ones
fn orders() {
    let mut c = base(7);
    let opt = choose("optional", 8);
    if opt & 1 != 0 {
        c.closed = Some(b"2012-03-04T06:06:07Z".to_vec());
    }
    if opt & 2 != 0 {
        c.user = Some(vec![letter("user")]);
    }
    if opt & 4 != 0 {
        c.uid = Some(9);
    }
    c.id = dec("id", 2);
    c.num_changes = dec("num", 2);
    c.comments = dec("com", 2);
    c.open = choose("open", 2) == 1;
    let mut a = attrs(&c);
    if choose("extra", 2) == 1 {
        a.insert(0, ("min_lat", b"1.5".to_vec()));
        a.push(("ids", b"99".to_vec()));
    }
    let n = a.len() as u64;
    let from = choose("from", n) as usize;
    let x = a.remove(from);
    a.insert(choose("to", n) as usize, x);
    let form = choose("form", 4);
    let mut d = HEAD.to_vec();
    d.extend_from_slice(b"<changeset");
    for (k, v) in &a {
        d.push(if form & 1 != 0 { b'\n' } else { b' ' });
        d.extend_from_slice(k.as_bytes());
        d.extend_from_slice(if form & 1 != 0 { b" = '" } else { b"=\"" });
        d.extend_from_slice(v);
        d.push(if form & 1 != 0 { b'\'' } else { b'"' });
    }
    d.extend_from_slice(if form & 2 != 0 { b" />" } else { b" ></changeset>" });
    d.extend_from_slice(TAIL);
    read_all(&d, &[c]);
    reach("orders");
}

const KEYS: [(&[u8], &[u8]); 6] = [(b"comment", b"comment"), (b"a&amp;b", b"a&b"), (b"\xc3\xa9", b"\xc3\xa9"), (b"created_by", b"created_by"), (b"", b""), (b"k v", b"k v")];
const NOISE: [&[u8]; 5] = [
    b"",
    b"\n  ",
    b"<!-- <tag k=\"no\" v=\"no\"/> -->",
    b"<discussion><comment uid=\"3\" user=\"x\" date=\"2012-03-04T05:06:07Z\"><text>t &amp; &lt;tag k='z' v='z'/></text></comment></discussion>",
    b"<other id=\"5\" k=\"z\" v=\"z\"/>",
];
/// put one tag element
fn put_tag(d: &mut Vec<u8>, k: &[u8], v: &[u8], form: u64) {
    d.extend_from_slice(b"<tag");
    let (kk, vv): (&[u8], &[u8]) = (b" k=\"", b" v=\"");
    let two = if form & 1 == 0 { [(kk, k), (vv, v)] } else { [(vv, v), (kk, k)] };
    for (n, t) in two {
        d.extend_from_slice(n);
        d.extend_from_slice(t);
        d.push(b'"');
    }
    d.extend_from_slice(if form & 2 == 0 { b"/>" } else { b"></tag>" });
}
/// one changeset with tags; text of one tag symbolic
fn tagged_doc() -> (Vec<u8>, Cs) {
    let mut c = base(dec("id", 2));
    let n = 1 + choose("tags", 3);
    let mut d = HEAD.to_vec();
    d.extend_from_slice(b"<changeset");
    put(&mut d, &attrs(&c));
    d.push(b'>');
    let k0 = choose("first-key", if n > 1 { 2 } else { KEYS.len() as u64 });
    let form = choose("tag-form", 4);
    // quick: noise in one place, and then a shorter text
    let noise = choose("noise", 2 * NOISE.len() as u64 - 1) as usize;
    let (n0, n1) = if noise < NOISE.len() { (noise, 0) } else { (0, noise - NOISE.len() + 1) };
    for i in 0..n {
        if i == 0 {
            d.extend_from_slice(NOISE[n0]);
        } else if thorough() {
            d.extend_from_slice(NOISE[choose("noise", NOISE.len() as u64) as usize]);
        }
        let k = KEYS[((k0 + i) % 6) as usize];
        let (mut raw, mut val) = (vec![], vec![]);
        if i == n - 1 && n < 3 {
            for j in 0..choose("len", if noise > 0 && !thorough() { 2 } else { 3 }) {
                unit(["u0", "u1"][j as usize], if j == 0 { choose("unit", 10) } else { choose("unit", 2) }, &mut raw, &mut val);
            }
        } else {
            raw.push(letter("v"));
            val.push(raw[0]);
        }
        put_tag(&mut d, k.0, &raw, form);
        c.tags.push((k.1.to_vec(), val));
    }
    d.extend_from_slice(NOISE[n1]);
    d.extend_from_slice(b"</changeset>");
    d.extend_from_slice(TAIL);
    (d, c)
}
fn tags() {
    let (d, c) = tagged_doc();
    read_all(&d, &[c]);
    reach("tags");
}

/// many tags and long text; the text of one tag and one key's last character symbolic
fn big_doc() -> (Vec<u8>, Cs) {
    let mut c = base(dec("id", 2));
    let n = [1, 4, 15][choose("tags", 3) as usize];
    let long = "a comment that is longer than anything kept inline or in a small buffer, 90 characters";
    let at = choose("at", 3) as usize;
    c.user = Some(long.as_bytes()[..40].to_vec());
    let mut d = HEAD.to_vec();
    d.extend_from_slice(b"<changeset");
    put(&mut d, &attrs(&c));
    d.push(b'>');
    let which = [0, n - 1, n / 2][at];
    for i in 0..n {
        let k = format!("key:{i}").into_bytes();
        let (mut raw, mut val) = (vec![], vec![]);
        if i == which {
            let cut = [0, 30, long.len()][choose("place", 3) as usize];
            raw.extend_from_slice(&long.as_bytes()[..cut]);
            val.extend_from_slice(&long.as_bytes()[..cut]);
            unit("u", choose("unit", 10), &mut raw, &mut val);
            raw.extend_from_slice(&long.as_bytes()[cut..]);
            val.extend_from_slice(&long.as_bytes()[cut..]);
        } else {
            raw.push(b'0' + (i % 10) as u8);
            val.push(b'0' + (i % 10) as u8);
        }
        put_tag(&mut d, &k, &raw, (i % 4) as u64);
        c.tags.push((k, val));
    }
    d.extend_from_slice(b"</changeset>");
    d.extend_from_slice(TAIL);
    (d, c)
}
fn big() {
    let (d, c) = big_doc();
    read_all(&d, &[c]);
    reach("tags");
}
/// several changesets in different forms
fn sequence_doc(n: usize) -> (Vec<u8>, Vec<Cs>) {
    let mut d = HEAD.to_vec();
    let mut all = vec![];
    for i in 0..n {
        let mut c = base(dec(["id0", "id1", "id2", "id3"][i], 3));
        c.num_changes = dec(["n0", "n1", "n2", "n3"][i], 1);
        c.user = if choose("user", 2) == 1 { Some(vec![letter(["w0", "w1", "w2", "w3"][i])]) } else { None };
        d.extend_from_slice(b"<changeset");
        put(&mut d, &attrs(&c));
        match choose("form", 5) {
            0 => d.extend_from_slice(b"/>"),
            1 => d.extend_from_slice(b"></changeset>"),
            2 => {
                d.push(b'>');
                d.extend_from_slice(NOISE[3]);
                d.extend_from_slice(b"</changeset>");
            }
            k => {
                d.push(b'>');
                for j in 0..k - 2 {
                    let v = vec![letter(["va", "vb", "vc", "vd", "ve", "vf", "vg", "vh"][2 * i + j as usize])];
                    let key = [&b"comment"[..], b"source"][j as usize];
                    put_tag(&mut d, key, &v, 0);
                    c.tags.push((key.to_vec(), v));
                }
                d.extend_from_slice(b"</changeset>");
            }
        }
        d.extend_from_slice([&b"\n"[..], b"<bounds minlat=\"1\"/>"][i & 1]);
        all.push(c);
    }
    d.extend_from_slice(TAIL);
    (d, all)
}
fn sequence() {
    let (d, all) = sequence_doc(choose("count", 4) as usize);
    read_all(&d, &all);
    reach("sequence");
}

// ---------------------------------------------------------------- C21

fn read_tags(d: &[u8], all: &[Cs]) {
    let mut full = ChangesetReader::new(d);
    let mut next = 0;
    let mut r = ChangesetTagReader::from_plain_reader(d);
    let mut seen = 0;
    loop {
        let (id, tags) = match r.next() {
            Some(Ok(x)) => x,
            Some(Err(_)) => {
                check(false, "C21.error");
                return;
            }
            None => break,
        };
        seen += 1;
        check(seen <= all.len(), "C21.too-many");
        if tags.is_empty() {
            // an untagged changeset may be reported, as untagged
            let mut any = false;
            for c in all {
                any |= c.tags.is_empty() & (c.id == id);
            }
            check(any, "C21.untagged");
            continue;
        }
        while next < all.len() && all[next].tags.is_empty() {
            next += 1;
            check(matches!(full.next(), Some(Ok(_))), "C21.full");
        }
        if next == all.len() {
            check(false, "C21.extra");
            return;
        }
        let w = &all[next];
        next += 1;
        check(id == w.id, "C21.id");
        check(tags.len() == w.tags.len(), "C21.count");
        for ((k, v), (wk, wv)) in tags.iter().zip(&w.tags) {
            check(same(k.as_bytes(), wk), "C21.key");
            check(same(v.as_bytes(), wv), "C21.value");
        }
        match full.next() {
            Some(Ok(g)) => {
                check(g.id as u64 == id, "C21.full-id");
                check(g.num_tags() == tags.len(), "C21.full-count");
                for (k, v) in &tags {
                    match g.tag(k) {
                        Some(x) => check(same_str(x, v), "C21.full-tag"),
                        None => check(false, "C21.full-missing"),
                    }
                }
            }
            _ => check(false, "C21.full"),
        }
    }
    while next < all.len() {
        check(all[next].tags.is_empty(), "C21.lost");
        next += 1;
    }
    check(r.next().is_none(), "C21.end");
    reach("tag-reader");
}
fn tag_reader() {
    let (d, c) = tagged_doc();
    read_tags(&d, &[c]);
}
fn tag_sequence() {
    let (d, all) = sequence_doc(choose("count", 4) as usize);
    read_tags(&d, &all);
}

// ---------------------------------------------------------------- C33

/// the changesets of the compressed dump
fn dumped() -> Vec<Cs> {
    let t = |k: &str, v: &str| (k.as_bytes().to_vec(), v.as_bytes().to_vec());
    let mut a = base(10);
    a.created = b"2005-04-09T19:54:13Z".to_vec();
    a.closed = Some(b"2005-04-09T20:54:39Z".to_vec());
    a.user = Some(b"Steve".to_vec());
    a.uid = Some(1);
    (a.num_changes, a.comments) = (2, 0);
    let mut b = base(11);
    b.created = b"2005-04-17T14:45:48Z".to_vec();
    b.open = true;
    (b.num_changes, b.comments) = (0, 3);
    b.tags = vec![t("comment", "a < b"), t("created_by", "JOSM")];
    let mut c = base(4_000_000_000);
    c.created = b"2005-04-17T14:45:48Z".to_vec();
    c.open = true;
    (c.num_changes, c.comments) = (7, 0);
    c.tags = vec![t("source", "survey")];
    vec![a, b, c]
}
/// how many changesets came, each as it should be, and whether the end was not an error
pub(crate) fn dump_changesets<R: std::io::Read>(r: ChangesetReader<R>) -> (usize, bool) {
    let all = dumped();
    let mut n = 0;
    for c in r {
        match c {
            Ok(c) => {
                check(n < 3, "too-many");
                agrees(&c, &all[n]);
                n += 1;
            }
            Err(_) => return (n, false),
        }
    }
    (n, true)
}
/// the same for the tagged ones
pub(crate) fn dump_tags<R: std::io::Read>(r: ChangesetTagReader<R>) -> (usize, bool) {
    let all = dumped();
    let mut n = 0;
    for c in r {
        match c {
            Ok((_, t)) if t.is_empty() => {}
            Ok((id, t)) => {
                check(n < 2, "too-many");
                let w = &all[n + 1];
                check(id == w.id, "id");
                check(t.len() == w.tags.len(), "tags-count");
                for ((k, v), (a, b)) in t.iter().zip(&w.tags) {
                    check(k.as_bytes() == &a[..] && v.as_bytes() == &b[..], "tags");
                }
                n += 1;
            }
            Err(_) => return (n, false),
        }
    }
    (n, true)
}

// ---------------------------------------------------------------- C22

const STEPS: u64 = 2_000_000;

/// cut after any byte
/// a dump, what it holds, where each changeset ends
fn some_dump() -> (Vec<u8>, Vec<Cs>, Vec<usize>) {
    let mut d = HEAD.to_vec();
    let mut all = vec![];
    let mut ends = vec![];
    for i in 0..2 {
        let mut c = base(dec(["id0", "id1"][i], 2));
        c.user = Some(vec![letter(["w0", "w1"][i])]);
        d.extend_from_slice(b"<changeset");
        put(&mut d, &attrs(&c));
        d.push(b'>');
        let v = vec![letter(["v0", "v1"][i])];
        put_tag(&mut d, b"comment", &v, 2 * i as u64);
        c.tags.push((b"comment".to_vec(), v));
        d.extend_from_slice(b"<discussion/></changeset>");
        ends.push(d.len());
        all.push(c);
    }
    d.extend_from_slice(TAIL);
    (d, all, ends)
}
fn truncated() {
    let (mut d, all, ends) = some_dump();
    let cut = choose("cut", d.len() as u64 + 1) as usize;
    d.truncate(cut);
    limit(STEPS);
    let mut n = 0;
    if choose("reader", 2) == 0 {
        let mut r = ChangesetReader::new(&d[..]);
        while let Some(Ok(g)) = r.next() {
            if n >= 2 || ends[n] > cut {
                check(false, "C22.unstated");
                return;
            }
            agrees(&g, &all[n]);
            n += 1;
        }
    } else {
        let mut r = ChangesetTagReader::from_plain_reader(&d[..]);
        while let Some(Ok((id, tags))) = r.next() {
            if n >= 2 || ends[n] > cut {
                check(false, "C22.unstated");
                return;
            }
            check(id == all[n].id, "C22.id");
            check(tags.len() == 1, "C22.tags");
            check(same(tags[0].1.as_bytes(), &all[n].tags[0].1), "C22.value");
            n += 1;
        }
    }
    limit(0);
    check(n == ends.iter().filter(|e| **e <= cut).count(), "C22.complete-ones");
    reach("truncated");
}

/// a decimal integer as Rust reads it
fn int(t: &[u8], signed: bool) -> Option<i128> {
    let (neg, d) = match t {
        [b'+', r @ ..] => (false, r),
        [b'-', r @ ..] if signed => (true, r),
        _ => (false, t),
    };
    if d.is_empty() {
        return None;
    }
    let mut v = 0i128;
    for x in d {
        if !x.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (x - b'0') as i128;
    }
    Some(if neg { -v } else { v })
}
/// something is wrong with one changeset; a good one comes before it or not
fn malformed() {
    let good = base(31);
    let before = choose("before", 2) == 1;
    let mut c = base(42);
    c.uid = Some(5);
    let mut a = attrs(&c);
    let mut tag: &[u8] = b"<tag k=\"a\" v=\"b\"/>";
    // what a reader may still return
    let mut full_ok = false;
    let mut tags_ok = true;
    let what = choose("wrong", 14);
    match what {
        0..=3 => {
            let k = ["id", "uid", "num_changes", "comments_count"][what as usize];
            let n = choose("len", 3 + thorough() as u64);
            let t: Vec<u8> = (0..n).map(|i| plain(["t0", "t1", "t2"][i as usize])).collect();
            let v = int(&t, k == "uid");
            full_ok = v.is_some();
            let x = v.unwrap_or(0);
            match what {
                0 => {
                    tags_ok = full_ok;
                    c.id = x as u64;
                }
                1 => c.uid = Some(x as i64),
                2 => c.num_changes = x as u64,
                _ => c.comments = x as u64,
            }
            let i = a.iter().position(|x| x.0 == k).unwrap();
            a[i].1 = t;
        }
        4 => {
            let (k, n) = [("id", 10), ("num_changes", 20), ("comments_count", 20), ("uid", 19)][choose("too-large", 4) as usize];
            let i = a.iter().position(|x| x.0 == k).unwrap();
            let mut t = [&b"4294967296"[..], b"18446744073709551616", b"18446744073709551616", b"9223372036854775808"][[10, 20, 20, 19].iter().position(|x| *x == n).unwrap()].to_vec();
            // any larger last digit, or any further digit
            let l = t.len();
            if choose("longer", 2) == 1 {
                t.push(48 + u64_in("digit", 0, 9) as u8);
            } else {
                t[l - 1] += u64_in("digit", 0, (57 - t[l - 1]) as u64) as u8;
            }
            if k == "id" {
                c.id = int(&t, false).unwrap() as u64;
            }
            a[i].1 = t;
        }
        5 => {
            let n = choose("len", 6);
            let t: Vec<u8> = (0..n).map(|i| plain(["t0", "t1", "t2", "t3", "t4"][i as usize])).collect();
            full_ok = same(&t, b"true") | same(&t, b"false");
            c.open = same(&t, b"true");
            let i = a.iter().position(|x| x.0 == "open").unwrap();
            a[i].1 = t;
        }
        6..=10 => {
            let k = ["id", "created_at", "open", "num_changes", "comments_count"][what as usize - 6];
            a.retain(|x| x.0 != k);
            tags_ok = k != "id";
        }
        11 => {
            tag = b"<tag k=\"a\"/>";
            tags_ok = false;
        }
        12 => {
            tag = b"<tag v=\"b\"></tag>";
            tags_ok = false;
        }
        _ => {
            // an entity that does not exist
            tag = b"<tag k=\"a\" v=\"&nope;\"/>";
            tags_ok = false;
        }
    }
    let mut d = HEAD.to_vec();
    if before {
        d.extend_from_slice(b"<changeset");
        put(&mut d, &attrs(&good));
        d.extend_from_slice(b"><tag k=\"q\" v=\"r\"/></changeset>");
    }
    d.extend_from_slice(b"<changeset");
    put(&mut d, &a);
    let reader = choose("reader", if what < 11 { 3 } else { 2 });
    // the tag reader only returns changesets that may have tags
    let bare = reader == 2;
    if bare {
        d.extend_from_slice(b"/>");
    } else {
        d.push(b'>');
        d.extend_from_slice(tag);
        d.extend_from_slice(b"</changeset>");
    }
    d.extend_from_slice(TAIL);
    limit(STEPS);
    if reader != 1 {
        let mut r = ChangesetReader::new(&d[..]);
        if before {
            match r.next() {
                Some(Ok(g)) => check(g.id == 31 && g.tag("q") == Some("r"), "C22.before"),
                _ => check(false, "C22.before"),
            }
        }
        match r.next() {
            Some(Ok(g)) => {
                check(full_ok, "C22.accepted");
                if !bare {
                    c.tags.push((b"a".to_vec(), b"b".to_vec()));
                }
                agrees(&g, &c);
                reach("accepted");
            }
            Some(Err(_)) => {
                check(!full_ok, "C22.rejected");
                reach("rejected");
            }
            None => check(false, "C22.silent"),
        }
    } else {
        let mut r = ChangesetTagReader::from_plain_reader(&d[..]);
        if before {
            match r.next() {
                Some(Ok(g)) => check(g.0 == 31 && g.1.len() == 1, "C22.before"),
                _ => check(false, "C22.before"),
            }
        }
        match r.next() {
            Some(Ok((id, t))) => {
                check(tags_ok, "C22.tags-accepted");
                check(id == c.id, "C22.tags-id");
                check(t.len() == 1, "C22.tags-count");
                reach("tags-accepted");
            }
            Some(Err(_)) => {
                check(!tags_ok, "C22.tags-rejected");
                reach("tags-rejected");
            }
            None => check(false, "C22.tags-silent"),
        }
    }
    limit(0);
}

/// any one byte replaced by any other
fn garbled() {
    let mut d = b"<osm><changeset id=\"7\" created_at=\"x\" open=\"true\" num_changes=\"1\" comments_count=\"2\"><tag k=\"a\" v=\"&lt;\"/></changeset></osm>".to_vec();
    let at = if thorough() { choose("at", d.len() as u64) as usize } else { [0, 4, 5, 9, 15, 18, 20, 21, 22, 49, 50, 84, 85, 89, 91, 92, 94, 95, 99, 100, 104, 105, 106, 108, 110, 119, 120][choose("at", 27) as usize] };
    d[at] = any_u8("byte");
    limit(STEPS);
    let mut n = 0;
    if choose("reader", 2) == 0 {
        let mut r = ChangesetReader::new(&d[..]);
        while let Some(Ok(_)) = r.next() {
            n += 1;
        }
    } else {
        let mut r = ChangesetTagReader::from_plain_reader(&d[..]);
        while let Some(Ok(_)) = r.next() {
            n += 1;
        }
    }
    limit(0);
    check(n <= 1, "C22.count");
    reach("garbled");
}

/// the accessors of a changeset's tags
fn accessors() {
    const KEYS: [&str; 3] = ["comment", "created_by", "k"];
    let mut doc = b"<osm><changeset id=\"7\" created_at=\"2012-03-04T05:06:07Z\" open=\"false\" num_changes=\"1\" comments_count=\"2\">".to_vec();
    let mut want: [Option<Vec<u8>>; 3] = [None, None, None];
    let set = choose("tags", 8);
    for i in 0..3 {
        if set >> i & 1 == 1 {
            let v = if choose("empty", 2) == 1 { vec![] } else { vec![letter(["v0", "v1", "v2"][i])] };
            doc.extend_from_slice(b"<tag k=\"");
            doc.extend_from_slice(KEYS[i].as_bytes());
            doc.extend_from_slice(b"\" v=\"");
            doc.extend_from_slice(&v);
            doc.extend_from_slice(b"\"/>");
            want[i] = Some(v);
        }
    }
    doc.extend_from_slice(b"</changeset></osm>");
    let mut c = match ChangesetReader::new(&doc[..]).next() {
        Some(Ok(c)) => c,
        _ => return check(false, "C20.accessors-read"),
    };
    has(&c, &want, &KEYS);
    match choose("change", 4) {
        0 => {}
        1 => {
            let v = letter("new");
            c.tags_mut().insert(KEYS[1].to_string(), st(vec![v]));
            want[1] = Some(vec![v]);
        }
        2 => {
            c.tags_mut().remove(KEYS[0]);
            want[0] = None;
        }
        _ => {
            c.tags_mut().clear();
            want = [None, None, None];
        }
    }
    has(&c, &want, &KEYS);
    let t = c.into_tags();
    check(t.len() == want.iter().flatten().count(), "C20.into-tags-count");
    for (k, w) in KEYS.iter().zip(&want) {
        match (t.get(*k), w) {
            (None, None) => {}
            (Some(a), Some(b)) => check(same(a.as_bytes(), b), "C20.into-tags"),
            _ => check(false, "C20.into-tags"),
        }
    }
    reach("accessors");
}
fn has(c: &osmio::changesets::Changeset, want: &[Option<Vec<u8>>; 3], keys: &[&str; 3]) {
    let n = want.iter().flatten().count();
    check(c.num_tags() == n, "C20.num-tags");
    check(c.tagged() == (n > 0) && c.untagged() == (n == 0), "C20.tagged");
    for (k, w) in keys.iter().zip(want) {
        check(c.has_tag(k) == w.is_some(), "C20.has-tag");
        match (c.tag(k), w) {
            (None, None) => {}
            (Some(a), Some(b)) => check(same(a.as_bytes(), b), "C20.tag"),
            _ => check(false, "C20.tag"),
        }
    }
    check(c.tag("other").is_none() && !c.has_tag("") && c.tag(String::from("Comment")).is_none(), "C20.no-tag");
}

/// C37: the input fails at one place
fn failing() {
    let (d, all, ends) = some_dump();
    let at = choose("at", d.len() as u64 + 1) as usize;
    let f = crate::pbft::failing(&d, at);
    let failed = f.failed.clone();
    let must = at < d.len() - 1;
    limit(STEPS);
    let mut n = 0;
    let mut errors = 0;
    if choose("reader", 2) == 0 {
        let mut r = ChangesetReader::new(f);
        for _ in 0..8 {
            match r.next() {
                Some(Ok(g)) => {
                    // after an error nothing but another changeset of the file may come
                    while errors > 0 && n < 2 && g.id as u64 != all[n].id {
                        n += 1;
                    }
                    if n >= 2 {
                        check(false, "unstated");
                        return;
                    }
                    agrees(&g, &all[n]);
                    n += 1;
                }
                Some(Err(_)) => {
                    check(n >= ends.iter().filter(|e| **e <= at).count(), "missing");
                    errors += 1;
                }
                None => break,
            }
        }
    } else {
        let mut r = ChangesetTagReader::from_plain_reader(f);
        for _ in 0..8 {
            match r.next() {
                Some(Ok((id, tags))) => {
                    while errors > 0 && n < 2 && id != all[n].id {
                        n += 1;
                    }
                    if n >= 2 {
                        check(false, "unstated");
                        return;
                    }
                    check(id == all[n].id, "id");
                    check(tags.len() == 1 && same(tags[0].1.as_bytes(), &all[n].tags[0].1), "tags");
                    n += 1;
                }
                Some(Err(_)) => {
                    check(n >= ends.iter().filter(|e| **e <= at).count(), "missing");
                    errors += 1;
                }
                None => break,
            }
        }
    }
    limit(0);
    if failed.get() > 0 {
        reach("failed");
    }
    check(errors > 0 || !must, "failure-taken-for-the-end");
}

/// C26: the document given in pieces
fn chunks() {
    let mut d = HEAD.to_vec();
    let mut all = vec![];
    for i in 0..2 {
        let mut c = base(dec(["id0", "id1"][i], 2));
        c.user = Some(vec![letter(["w0", "w1"][i])]);
        d.extend_from_slice(b"<changeset");
        put(&mut d, &attrs(&c));
        if i == 0 {
            d.push(b'>');
            let v = vec![letter("v"), 0xc3, 0xa9];
            d.extend_from_slice(b"<tag k=\"comment\" v=\"");
            d.extend_from_slice(&v);
            d.extend_from_slice(b"\"/><!-- x --></changeset>");
            c.tags.push((b"comment".to_vec(), v));
        } else {
            d.extend_from_slice(b"/>\n");
        }
        all.push(c);
    }
    d.extend_from_slice(TAIL);
    let c = crate::pbft::chunked(&d);
    if choose("reader", 2) == 0 {
        read_from(c, &all);
    } else {
        let mut r = ChangesetTagReader::from_plain_reader(c);
        match r.next() {
            Some(Ok((id, tags))) => {
                check(id == all[0].id, "tags-id");
                check(tags.len() == 1 && same(tags[0].0.as_bytes(), b"comment") && same(tags[0].1.as_bytes(), &all[0].tags[0].1), "tags");
            }
            _ => check(false, "tags-missing"),
        }
        let mut n = 0;
        for x in r.by_ref() {
            match x {
                Ok((id, tags)) => check(tags.is_empty() && id == all[1].id, "tags-extra"),
                Err(_) => check(false, "tags-error"),
            }
            n += 1;
        }
        check(n <= 1, "tags-count");
    }
    reach("chunks");
}

entries! {
    c26_changesets => chunks();
    c37_changesets => failing();
    c20_values => values();
    c20_orders => orders();
    c20_tags => tags();
    c20_accessors => accessors();
    c20_big => big();
    c21_big => {
        let (d, c) = big_doc();
        read_tags(&d, &[c]);
    };
    c20_sequence => sequence();
    c21_tags => tag_reader();
    c21_sequence => tag_sequence();
    c22_truncated => truncated();
    c22_malformed => malformed();
    c22_garbled => garbled();
}
