//! C08, C09, C10, C11, C12, C27: XML and osmChange writers and readers.
use crate::doc::*;
use crate::objs::*;
use crate::rt::*;
use osmio::obj_types::*;
use osmio::verif_hooks as h;
use osmio::osc::{OSCReader, OSCWriter};
use osmio::xml::{XMLReader, XMLWriter};
use osmio::{Lat, Lon, Node, OSMObj, OSMObjBase, OSMObjectType, OSMReader, OSMWriteError, OSMWriter, Relation, TimestampFormat, Way};
use std::cell::{Cell, RefCell};
use std::io::Write;
use std::rc::Rc;

pub(crate) fn make(m: &Model) -> StringOSMObj {
    match m.kind {
        OSMObjectType::Node => StringOSMObj::Node(make_node(snode(m.id), m)),
        OSMObjectType::Way => StringOSMObj::Way(make_way(sway(m.id), m)),
        OSMObjectType::Relation => StringOSMObj::Relation(make_rel(srel(m.id), m)),
    }
}
pub(crate) fn make_arc(m: &Model) -> ArcOSMObj {
    match m.kind {
        OSMObjectType::Node => ArcOSMObj::Node(make_node(h::arc_node(m.id), m)),
        OSMObjectType::Way => ArcOSMObj::Way(make_way(h::arc_way(m.id), m)),
        OSMObjectType::Relation => ArcOSMObj::Relation(make_rel(h::arc_relation(m.id), m)),
    }
}
pub(crate) fn make_rc(m: &Model) -> RcOSMObj {
    match m.kind {
        OSMObjectType::Node => RcOSMObj::Node(make_node(h::rc_node(m.id), m)),
        OSMObjectType::Way => RcOSMObj::Way(make_way(h::rc_way(m.id), m)),
        OSMObjectType::Relation => RcOSMObj::Relation(make_rel(h::rc_relation(m.id), m)),
    }
}
    fn base<O: OSMObjBase>(o: &mut O, m: &Model) {
        o.set_version(m.version);
        o.set_deleted(m.deleted);
        o.set_changeset_id(m.changeset);
        o.set_timestamp(m.ts.clone());
        o.set_uid(m.uid);
        o.set_user(m.user.as_deref());
        for (k, v) in &m.tags {
            o.set_tag(k, v.clone());
        }
    }
pub(crate) fn make_node<O: Node>(mut o: O, m: &Model) -> O {
    base(&mut o, m);
    o.set_lat_lon_direct(m.lat_lon.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b))));
    o
}
pub(crate) fn make_way<O: Way>(mut o: O, m: &Model) -> O {
    base(&mut o, m);
    o.set_nodes(m.nodes.iter().copied());
    o
}
pub(crate) fn make_rel<O: Relation>(mut o: O, m: &Model) -> O {
    base(&mut o, m);
    o.set_members(m.members.iter().map(|(t, i, r)| (*t, *i, r.as_str())));
    o
}

/// the object read is the one expected; numbers are compared by value, timestamps by their text
pub(crate) fn agrees<O: OSMObj>(o: &O, m: &Model) {
    check(o.object_type() == m.kind, "kind");
    agrees_base(o, m);
    match m.kind {
        OSMObjectType::Node => match o.as_node() {
            Some(x) => position(x, m),
            None => check(false, "as-node"),
        },
        OSMObjectType::Way => match o.as_way() {
            Some(x) => nodes(x, m),
            None => check(false, "as-way"),
        },
        OSMObjectType::Relation => match o.as_relation() {
            Some(x) => members(x, m),
            None => check(false, "as-relation"),
        },
    }
}
pub(crate) fn agrees_base<O: OSMObjBase>(o: &O, m: &Model) {
    check(o.id() == m.id, "id");
    check(o.version() == m.version, "version");
    check(o.deleted() == m.deleted, "deleted");
    check(o.changeset_id() == m.changeset, "changeset");
    match (o.timestamp(), &m.ts) {
        (None, None) => {}
        (Some(TimestampFormat::EpochNumber(a)), Some(TimestampFormat::EpochNumber(b))) => check(a == b, "timestamp"),
        (Some(a), Some(b)) => check_str(&a.to_iso_string(), &b.to_iso_string(), "timestamp"),
        _ => check(false, "timestamp-presence"),
    }
    check(o.uid() == m.uid, "uid");
    check(same_opt(o.user(), m.user.as_deref()), "user");
    let mut n = 0;
    for (k, v) in o.tags() {
        check(n < m.tags.len() && same_str(k, &m.tags[n].0) && same_str(v, &m.tags[n].1), "tags");
        n += 1;
    }
    check(n == m.tags.len(), "tags-count");
}
fn position<O: Node>(x: &O, m: &Model) {
    let p = x.lat_lon();
    check(p.is_some() == m.lat_lon.is_some(), "position-presence");
    if let (Some((a, b)), Some((c, d))) = (p, m.lat_lon) {
        check(a.inner() == c, "lat");
        check(b.inner() == d, "lon");
    }
}
fn nodes<O: Way>(x: &O, m: &Model) {
    check(x.nodes().len() == m.nodes.len(), "nodes-count");
    for (i, n) in x.nodes().iter().enumerate() {
        check(*n == m.nodes[i], "nodes");
    }
}
fn members<O: Relation>(x: &O, m: &Model) {
    let mut n = 0;
    for (t, i, r) in x.members() {
        check(n < m.members.len() && t == m.members[n].0 && i == m.members[n].1 && same_str(r, &m.members[n].2), "members");
        n += 1;
    }
    check(n == m.members.len(), "members-count");
}
pub(crate) fn agrees_node<O: Node>(x: &O, m: &Model) {
    check(x.object_type() == m.kind, "kind");
    agrees_base(x, m);
    position(x, m)
}
pub(crate) fn agrees_way<O: Way>(x: &O, m: &Model) {
    check(x.object_type() == m.kind, "kind");
    agrees_base(x, m);
    nodes(x, m)
}
pub(crate) fn agrees_rel<O: Relation>(x: &O, m: &Model) {
    check(x.object_type() == m.kind, "kind");
    agrees_base(x, m);
    members(x, m)
}

/// where a writer's bytes go; shared with the harness
#[derive(Clone, Default)]
pub(crate) struct Sink(Rc<RefCell<Vec<u8>>>);
impl Sink {
    pub fn get(&self) -> Vec<u8> {
        self.0.borrow().clone()
    }
    pub fn len(&self) -> usize {
        self.0.borrow().len()
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// write the objects, close, read back
fn round_trip<W: OSMWriter<Sink>, R: for<'a> Rd<'a>>(all: &[Model]) {
    let s = Sink::default();
    let mut w = W::new(s.clone());
    for m in all {
        let o = make(m);
        check(w.write_obj(&o).is_ok(), "write");
    }
    check(w.close().is_ok(), "close");
    let d = s.get();
    observe(&d);
    R::read(&d, all);
    // dropping an already closed XMLWriter is C11's business
    std::mem::forget(w);
    reach("round-trip");
}
/// reads a document and compares it with what is expected
trait Rd<'a> {
    fn read(d: &'a [u8], all: &[Model]);
}
fn read_all<R: OSMReader>(mut r: R, all: &[Model]) {
    for m in all {
        match r.next() {
            Some(o) => agrees(&o, m),
            None => check(false, "missing"),
        }
    }
    check(r.next().is_none(), "end");
}
struct Xml;
struct Osc;
impl<'a> Rd<'a> for Xml {
    fn read(d: &'a [u8], all: &[Model]) {
        read_all(XMLReader::new(d), all)
    }
}
impl<'a> Rd<'a> for Osc {
    fn read(d: &'a [u8], all: &[Model]) {
        read_all(OSCReader::new(d), all)
    }
}

// ---------------------------------------------------------------- models

/// any character XML 1.0 permits, as a string; the writers' own branches split the ASCII ones
pub(crate) fn xchar(n: &str) -> String {
    match choose("class", 3) {
        0 => st(vec![u64_in(n, 0x20, 0x7f) as u8]),
        1 => st(vec![[b'\t', b'\n', b'\r'][choose("space", 3) as usize]]),
        _ => {
            if choose("c1", 2) == 0 {
                st(vec![0xc2, u64_in(n, 0x80, 0x9f) as u8])
            } else {
                wide(n)
            }
        }
    }
}
/// an epoch second of one day
pub(crate) fn some_ts(n: &str) -> TimestampFormat {
    TimestampFormat::EpochNumber(1_582_934_400 + u64_in(n, 0, 86_399) as i64)
}
/// number with a choice of magnitudes
pub(crate) fn small_id(n: &str) -> i64 {
    dec(n, 2) as i64
}
pub(crate) fn signed(n: &str, bound: u64) -> i64 {
    if choose("negative", 2) == 0 {
        dec_upto(n, bound) as i64
    } else {
        (dec_upto(n, bound + 1) as i64).wrapping_neg()
    }
}
/// an object with every field set
pub(crate) fn full(kind: u64) -> Model {
    let mut m = Model::new(otype(kind), 17);
    m.version = Some(3);
    m.changeset = Some(44);
    m.ts = Some(TimestampFormat::EpochNumber(1_582_934_400));
    m.uid = Some(5);
    m.user = Some("ann".into());
    m.tags = vec![("a".into(), "b".into()), ("c".into(), "d".into())];
    match kind {
        0 => m.lat_lon = Some((515000000, -1250000)),
        1 => m.nodes = vec![4, 5, -6],
        _ => m.members = vec![(OSMObjectType::Way, 8, "outer".into()), (OSMObjectType::Node, 9, "".into())],
    }
    m
}

/// one number over its full range
fn numbers<W: OSMWriter<Sink>, R: for<'a> Rd<'a>>() {
    let kind = choose("kind", 3);
    let mut m = full(kind);
    match choose("field", if kind == 0 { 7 } else { 6 }) {
        0 => m.id = signed("id", i64::MAX as u64),
        1 => m.version = Some(dec_upto("version", u32::MAX as u64) as u32),
        2 => m.changeset = Some(dec_upto("changeset", u32::MAX as u64) as u32),
        3 => m.uid = Some(dec_upto("uid", u32::MAX as u64) as u32),
        4 => m.ts = Some(some_ts("ts")),
        5 => match kind {
            0 => m.lat_lon = Some((signed("lat", i32::MAX as u64) as i32, 7)),
            1 => m.nodes = vec![1, signed("n", i64::MAX as u64)],
            _ => m.members = vec![(otype(choose("mtype", 3)), signed("m", i64::MAX as u64), "r".into())],
        },
        _ => m.lat_lon = Some((-7, signed("lon", i32::MAX as u64) as i32)),
    }
    round_trip::<W, R>(&[m]);
}
/// every subset of the optional fields, lists of every short length
fn fields<W: OSMWriter<Sink>, R: for<'a> Rd<'a>>() {
    let kind = choose("kind", 3);
    let mut m = Model::new(otype(kind), small_id("id"));
    let some = choose("some", 32);
    if some & 1 != 0 {
        m.version = Some(dec("version", 2) as u32);
    }
    if some & 2 != 0 {
        m.changeset = Some(dec("changeset", 2) as u32);
    }
    if some & 4 != 0 {
        m.ts = Some(TimestampFormat::ISOString(format!("2020-02-{}T00:00:00Z", dec("day", 2))));
    }
    if some & 8 != 0 {
        m.uid = Some(dec("uid", 2) as u32);
    }
    if some & 16 != 0 {
        m.user = Some(st(vec![letter("user")]));
    }
    m.deleted = choose("deleted", 2) == 1;
    for i in 0..choose("tags", 3) {
        m.tags.push((["k", "l"][i as usize].into(), st(vec![letter(["v0", "v1"][i as usize])])));
    }
    match kind {
        0 => {
            if choose("position", 2) == 1 {
                m.lat_lon = Some((515, -12));
            }
        }
        1 => m.nodes = (0..choose("nodes", 3)).map(|i| small_id(["n0", "n1"][i as usize])).collect(),
        _ => {
            m.members = (0..choose("members", 3))
                .map(|i| (otype((some + i) % 3), small_id(["m0", "m1"][i as usize]), if i == 0 { "".into() } else { st(vec![letter("r")]) }))
                .collect()
        }
    }
    round_trip::<W, R>(&[m]);
}
/// text of any characters in each place text can be
fn texts<W: OSMWriter<Sink>, R: for<'a> Rd<'a>>() {
    let place = choose("place", 5);
    let kind = if place == 3 { 2 } else { choose("kind", 3) };
    let mut t = String::new();
    for i in 0..choose("len", if thorough() { 4 } else { 3 }) {
        t.push_str(&xchar(["t0", "t1", "t2"][i as usize]));
    }
    let mut m = full(kind);
    put_text(&mut m, place, t);
    round_trip::<W, R>(&[m]);
}
pub(crate) fn put_text(m: &mut Model, place: u64, t: String) {
    match place {
        0 => m.user = Some(t),
        // the other key is longer than any text the entries make of letters
        1 => m.tags = vec![("the other key".into(), "y".into()), (t, "z".into())],
        2 => m.tags = vec![("x".into(), t), ("y".into(), "z".into())],
        3 => m.members[1].2 = t,
        _ => m.ts = Some(TimestampFormat::ISOString(t)),
    }
}
/// a symbolic letter and too much text to be kept inline
pub(crate) fn heap(n: &str) -> String {
    let mut v = b"kept on the heap, not inline ".to_vec();
    v.push(letter(n));
    st(v)
}
/// objects of the other types
fn types<W: OSMWriter<Sink>, R: for<'a> Rd<'a>>() {
    let some = choose("some", 3);
    let mut all = vec![];
    for i in 0..3 {
        let mut m = if some == 1 { Model::new(otype(i), 0) } else { full(i) };
        m.id = small_id(["i0", "i1", "i2"][i as usize]);
        m.deleted = some == 0;
        if some == 2 {
            m.user = Some(if i == 0 { xchar("user") } else { heap("user") });
            m.tags.push((heap("k"), st(vec![letter("v")])));
            m.nodes.push(dec("n", 3) as i64);
            if i == 2 {
                m.nodes.clear();
                m.members.push((OSMObjectType::Relation, dec("m", 3) as i64, heap("role")));
            }
        }
        if i != 1 {
            m.nodes.clear();
        }
        all.push(m);
    }
    let s = Sink::default();
    let mut w = W::new(s.clone());
    let arc = choose("type", 2) == 0;
    for m in &all {
        let r = if arc { w.write_obj(&make_arc(m)) } else { w.write_obj(&make_rc(m)) };
        check(r.is_ok(), "write");
    }
    check(w.close().is_ok(), "close");
    let d = s.get();
    R::read(&d, &all);
    std::mem::forget(w);
    reach("round-trip");
}
/// long lists and long text; one place symbolic
fn large<W: OSMWriter<Sink>, R: for<'a> Rd<'a>>() {
    let kind = choose("kind", 3);
    let mut m = full(kind);
    let long = "some text of more than one hundred bytes, which is more than any inline string or small buffer can hold at once";
    m.user = Some(long[..60].into());
    let nt = [2, 14, 5, 40][choose("tags", if thorough() { 4 } else { 2 }) as usize];
    let at = [0, nt - 1, nt / 2][choose("at", if thorough() { 3 } else { 2 }) as usize];
    m.tags = (0..nt).map(|i| (format!("key:{i}"), format!("value {i}"))).collect();
    match choose("place", 4) {
        0 => m.tags[at].1 = format!("{long}{}", xchar("c")),
        1 => m.tags[at].0 = format!("{}{}{long}", &long[..30], xchar("c")),
        2 => m.tags[at].1 = format!("{}{long}", xchar("c")),
        _ => {
            let n = [3, 20, 130][at.min(2)];
            m.nodes.clear();
            if kind == 1 {
                m.nodes = (0..n).map(|i| i - 5).collect();
                m.nodes[n as usize - 1] = signed("n", i64::MAX as u64);
            }
            if kind == 2 {
                m.members = (0..n).map(|i| (otype(i as u64 % 3), i - 5, format!("role {i}"))).collect();
                m.members[n as usize - 1].2 = format!("{long}{}", xchar("c"));
            }
        }
    }
    round_trip::<W, R>(&[m, Model::new(OSMObjectType::Node, 2)]);
}
/// several objects, bare or full
fn sequences<W: OSMWriter<Sink>, R: for<'a> Rd<'a>>() {
    let n = choose("count", if thorough() { 5 } else { 4 });
    let mut all = vec![];
    for i in 0..n {
        let kind = choose("kind", 3);
        let mut m = if choose("full", 2) == 1 { full(kind) } else { Model::new(otype(kind), 0) };
        m.id = dec(["i0", "i1", "i2", "i3"][i as usize], 3) as i64;
        m.deleted = choose("deleted", 2) == 1;
        all.push(m);
    }
    round_trip::<W, R>(&all);
}

// ---------------------------------------------------------------- C10: an independent scanner

#[derive(Clone, PartialEq)]
enum Ev {
    Open(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>),
    Close(Vec<u8>),
}
fn name_at(d: &[u8], i: &mut usize) -> Option<Vec<u8>> {
    let mut n = vec![];
    while *i < d.len() && (d[*i].is_ascii_alphanumeric() || matches!(d[*i], b'_' | b':' | b'-' | b'.')) {
        n.push(d[*i]);
        *i += 1;
    }
    if n.is_empty() {
        None
    } else {
        Some(n)
    }
}
fn space(d: &[u8], i: &mut usize) -> bool {
    let j = *i;
    while *i < d.len() && matches!(d[*i], b' ' | b'\t' | b'\n' | b'\r') {
        *i += 1;
    }
    *i > j
}
/// the value of an attribute as XML 1.0 defines it (line ends, white space, references)
fn attr_value(d: &[u8], i: &mut usize) -> Option<Vec<u8>> {
    let q = *d.get(*i)?;
    if q != b'"' && q != b'\'' {
        return None;
    }
    *i += 1;
    let mut v = vec![];
    loop {
        let c = *d.get(*i)?;
        *i += 1;
        if c == q {
            return Some(v);
        } else if c == b'<' {
            return None;
        } else if c == b'\r' {
            if d.get(*i) == Some(&b'\n') {
                *i += 1;
            }
            v.push(b' ');
        } else if c == b'\t' || c == b'\n' {
            v.push(b' ');
        } else if c < 0x20 {
            return None;
        } else if c == b'&' {
            let mut r = vec![];
            loop {
                let c = *d.get(*i)?;
                *i += 1;
                if c == b';' {
                    break;
                }
                r.push(c);
                if r.len() > 9 {
                    return None;
                }
            }
            match &r[..] {
                b"amp" => v.push(b'&'),
                b"lt" => v.push(b'<'),
                b"gt" => v.push(b'>'),
                b"quot" => v.push(b'"'),
                b"apos" => v.push(b'\''),
                _ => {
                    if r.first() != Some(&b'#') {
                        return None;
                    }
                    let (t, base) = if r.get(1) == Some(&b'x') { (&r[2..], 16) } else { (&r[1..], 10) };
                    let c = u32::from_str_radix(std::str::from_utf8(t).ok()?, base).ok()?;
                    let c = char::from_u32(c)?;
                    let mut b = [0; 4];
                    v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                }
            }
        } else {
            v.push(c);
        }
    }
}
/// the elements of a well-formed document without text content, None for anything else
fn scan(d: &[u8]) -> Option<Vec<Ev>> {
    let mut i = 0;
    let mut out = vec![];
    let mut open: Vec<Vec<u8>> = vec![];
    const P: &[u8] = b"<?xml version=\"1.0\" encoding=\"utf-8\"?>";
    if d.len() >= P.len() && d[..P.len()].eq_ignore_ascii_case(P) {
        i = P.len();
    }
    let mut roots = 0;
    loop {
        space(d, &mut i);
        if i >= d.len() {
            break;
        }
        if d[i] != b'<' {
            return None;
        }
        i += 1;
        if *d.get(i)? == b'/' {
            i += 1;
            let n = name_at(d, &mut i)?;
            space(d, &mut i);
            if d.get(i) != Some(&b'>') || open.pop()? != n {
                return None;
            }
            i += 1;
            out.push(Ev::Close(n));
            continue;
        }
        let n = name_at(d, &mut i)?;
        if open.is_empty() {
            roots += 1;
        }
        let mut attrs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        loop {
            let sp = space(d, &mut i);
            let c = *d.get(i)?;
            if c == b'>' {
                i += 1;
                out.push(Ev::Open(n.clone(), attrs));
                open.push(n);
                break;
            }
            if c == b'/' {
                if d.get(i + 1) != Some(&b'>') {
                    return None;
                }
                i += 2;
                out.push(Ev::Open(n.clone(), attrs));
                out.push(Ev::Close(n));
                break;
            }
            if !sp {
                return None;
            }
            let a = name_at(d, &mut i)?;
            space(d, &mut i);
            if d.get(i) != Some(&b'=') {
                return None;
            }
            i += 1;
            space(d, &mut i);
            let v = attr_value(d, &mut i)?;
            if attrs.iter().any(|x| x.0 == a) {
                return None;
            }
            attrs.push((a, v));
        }
    }
    if roots == 1 && open.is_empty() {
        Some(out)
    } else {
        None
    }
}
/// same elements and attributes; values equal except that those equal to `was` must now be `is`
fn same_shape(a: &[Ev], b: &[Ev], was: &[u8], is: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut hits = 0;
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (Ev::Close(m), Ev::Close(n)) => {
                if m != n {
                    return false;
                }
            }
            (Ev::Open(m, p), Ev::Open(n, q)) => {
                if m != n || p.len() != q.len() {
                    return false;
                }
                for ((k, v), (l, w)) in p.iter().zip(q) {
                    if k != l {
                        return false;
                    }
                    if v == was {
                        hits += 1;
                        if !same(w, is) {
                            return false;
                        }
                    } else if !same(v, w) {
                        return false;
                    }
                }
            }
            _ => return false,
        }
    }
    hits == 1
}
fn text_doc<W: OSMWriter<Sink>>(kind: u64, place: u64, t: &str) -> Vec<u8> {
    let s = Sink::default();
    let mut w = W::new(s.clone());
    let mut m = full(kind);
    if place < 5 {
        put_text(&mut m, place, t.into());
    } else {
        check(w.set_header(("copyright", t)).is_ok(), "set-header");
    }
    check(w.write_obj(&make(&m)).is_ok(), "write");
    check(w.close().is_ok(), "close");
    std::mem::forget(w);
    s.get()
}
fn markup<W: OSMWriter<Sink>>() {
    let place = choose("place", 6);
    let kind = if place == 3 { 2 } else { choose("kind", 3) };
    let mut t = String::new();
    for i in 0..choose("len", if thorough() { 4 } else { 3 }) {
        t.push_str(&xchar(["t0", "t1", "t2"][i as usize]));
    }
    let a = scan(&text_doc::<W>(kind, place, "benign"));
    let d = text_doc::<W>(kind, place, &t);
    observe(&d);
    let b = scan(&d);
    check(a.is_some(), "benign-document");
    match (a, b) {
        (Some(a), Some(b)) => check(same_shape(&a, &b, b"benign", t.as_bytes()), "text-changes-document"),
        _ => check(false, "not-well-formed"),
    }
    reach("markup");
}
/// longer text that looks like markup, with symbolic characters in between
fn hostile<W: OSMWriter<Sink>>() {
    let place = choose("place", 6);
    let parts: [&str; 6] = ["\"/><", "' ><tag k='", "&amp;", "&#10;&lt;", "]]>-->", "</osm>\r\n\t"];
    let p = parts[choose("part", 6) as usize];
    let c = xchar("c");
    let t = if choose("order", 2) == 0 { format!("{p}{c}") } else { format!("{c}{p}") };
    let kind = if place == 3 { 2 } else { 0 };
    let a = scan(&text_doc::<W>(kind, place, "benign"));
    let d = text_doc::<W>(kind, place, &t);
    match (a, scan(&d)) {
        (Some(a), Some(b)) => check(same_shape(&a, &b, b"benign", t.as_bytes()), "text-changes-document"),
        _ => check(false, "not-well-formed"),
    }
    reach("markup");
}

// ---------------------------------------------------------------- C11: life cycle

/// every history of calls
fn life<W: OSMWriter<Sink>>(xml: bool) {
    let s = Sink::default();
    let mut w = W::new(s.clone());
    let mut headers: Vec<(&str, String)> = vec![];
    let mut ids: Vec<i64> = vec![];
    let mut started = false;
    // what had been written when the writer was closed
    let mut closed: Option<Vec<u8>> = None;
    let mut again = 0;
    let n = if thorough() { 6 } else { 5 };
    for i in 0..n {
        check(w.is_open() == closed.is_none(), "is-open");
        let before = s.len();
        match choose("op", 4) {
            0 => {
                let k = ["copyright", "license"][choose("key", 2) as usize];
                let v = st(vec![plain(["h0", "h1", "h2", "h3", "h4", "h5"][i])]);
                match w.set_header((k, &v)) {
                    Ok(()) => {
                        check(!started && closed.is_none(), "header-accepted-late");
                        headers.retain(|h| h.0 != k);
                        headers.push((k, v));
                    }
                    Err(OSMWriteError::AlreadyClosed) => check(closed.is_some(), "header-already-closed"),
                    Err(OSMWriteError::AlreadyStarted) => check(started && closed.is_none(), "header-already-started"),
                    Err(_) => check(false, "header-error"),
                }
                check(s.len() == before, "header-writes");
                reach("header");
            }
            1 => {
                let kind = (i % 3) as u64;
                let id = dec(["i0", "i1", "i2", "i3", "i4", "i5"][i], 2) as i64;
                let mut m = full(kind);
                m.id = id;
                match w.write_obj(&make(&m)) {
                    Ok(()) => {
                        check(closed.is_none(), "written-after-close");
                        ids.push(id);
                        started = true;
                        check(s.len() > before, "nothing-written");
                    }
                    Err(OSMWriteError::AlreadyClosed) => {
                        check(closed.is_some(), "write-refused");
                        check(s.len() == before, "write-after-close-emits");
                        reach("refused");
                    }
                    Err(_) => check(false, "write-error"),
                }
            }
            2 => {
                check(w.close().is_ok(), "close");
                if closed.is_some() {
                    if s.len() != before {
                        again += 1;
                    }
                } else {
                    closed = Some(s.get());
                }
            }
            _ => break,
        }
    }
    check(w.is_open() == closed.is_none(), "is-open-at-end");
    let before = s.len();
    drop(w);
    let doc = match closed {
        None => s.get(),
        Some(c) => {
            if s.len() != before {
                again += 1;
            }
            // whatever is repeated, nothing else may be added
            let d = s.get();
            let mut want = c.clone();
            for _ in 0..again {
                want.extend_from_slice(b"\n</osm>");
            }
            check(d == want || (!xml && d == c), "more-after-close");
            reach("closed");
            c
        }
    };
    match scan(&doc) {
        Some(ev) => {
            // prologue, root with the headers, objects in order, end
            check(doc.starts_with(b"<?xml version=\"1.0\""), "prologue");
            let root: &[u8] = if xml { b"osm" } else { b"osmChange" };
            match &ev[0] {
                Ev::Open(n, at) => {
                    check(n == root, "root");
                    for (k, v) in &headers {
                        check(at.iter().any(|(l, w)| l == k.as_bytes() && same(w, v.as_bytes())), "header-missing");
                    }
                    for (l, w) in at {
                        let std = l == b"version" || l == b"generator";
                        check(std || headers.iter().any(|(k, v)| l == k.as_bytes() && same(w, v.as_bytes())), "header-extra");
                    }
                    check(at.iter().any(|(l, w)| l == b"version" && w == b"0.6"), "version");
                }
                _ => check(false, "root"),
            }
            check(ev.last() == Some(&Ev::Close(root.to_vec())), "root-end");
            let mut found = vec![];
            let mut depth = 0;
            for e in &ev {
                match e {
                    Ev::Open(n, at) => {
                        depth += 1;
                        if n == b"node" || n == b"way" || n == b"relation" {
                            check(depth == if xml { 2 } else { 3 }, "depth");
                            found.push(at.iter().find(|a| a.0 == b"id").map(|a| a.1.clone()).unwrap_or_default());
                        }
                    }
                    Ev::Close(_) => depth -= 1,
                }
            }
            check(found.len() == ids.len(), "objects");
            for (f, i) in found.iter().zip(&ids) {
                check(same(f, i.to_string().as_bytes()), "object-order");
            }
        }
        None => check(false, "not-one-document"),
    }
    check(again == 0, "closing-tag-repeated");
    reach("life");
}
fn from_iter<W: OSMWriter<Sink>>() {
    let s = Sink::default();
    let n = choose("count", 3);
    let mut all = vec![];
    for i in 0..n {
        let mut m = full(choose("kind", 3));
        m.id = dec(["i0", "i1"][i as usize], 2) as i64;
        all.push(m);
    }
    let w = W::from_iter(s.clone(), all.iter().map(make));
    check(!w.is_open(), "from-iter-open");
    let t = Sink::default();
    let mut v = W::new(t.clone());
    for m in &all {
        check(v.write_obj(&make(m)).is_ok(), "write");
    }
    check(v.close().is_ok(), "close");
    check(same(&s.get(), &t.get()), "from-iter-document");
    std::mem::forget(v);
    std::mem::forget(w);
    reach("from-iter");
}

// ---------------------------------------------------------------- C27: failing output

#[derive(Clone)]
struct Faulty {
    out: Sink,
    fail_at: usize,
    max: usize,
    kind: u64,
    failures: Rc<Cell<usize>>,
    hiccup: Rc<Cell<bool>>,
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let mut room = self.fail_at.saturating_sub(self.out.len());
        if self.kind == 3 && self.failures.get() > 0 {
            // it was full once only
            room = usize::MAX;
        }
        if room == 0 {
            self.failures.set(self.failures.get() + 1);
            return if self.kind % 3 == 0 { Err(std::io::ErrorKind::StorageFull.into()) } else { Ok(0) };
        }
        if self.kind == 2 && !self.hiccup.get() {
            // a signal interrupts every other call: no failure, the caller has to repeat it
            self.hiccup.set(true);
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.hiccup.set(false);
        let n = b.len().min(room).min(self.max);
        self.out.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn faults<W: OSMWriter<Sink>, F: OSMWriter<Faulty>>() {
    let mut m = full(choose("kind", 3));
    m.id = small_id("id");
    m.user = Some(if thorough() { xchar("user") } else { st(vec![u64_in("user", 0x20, 0x7f) as u8]) });
    m.tags.truncate(1);
    let mut p = Model::new(OSMObjectType::Node, 5);
    p.version = Some(1);
    let objs = [make(&m), make(&p)];
    // the fault-free document and where each call ends
    let s = Sink::default();
    let mut w = W::new(s.clone());
    let mut ends = vec![];
    for o in &objs {
        check(w.write_obj(o).is_ok(), "write");
        ends.push(s.len());
    }
    check(w.close().is_ok(), "close");
    ends.push(s.len());
    std::mem::forget(w);
    let all = s.get();
    let at = choose("fail-at", all.len() as u64 + 1) as usize;
    let (max, kind) = [(usize::MAX, 3), (1, 1), (5, 2), (5, 0), (usize::MAX, 1), (1, 2), (usize::MAX, 0)][choose("fault", if thorough() { 7 } else { 3 }) as usize];
    let f = Faulty { out: Sink::default(), fail_at: at, max, kind, failures: Rc::new(Cell::new(0)), hiccup: Rc::new(Cell::new(false)) };
    let mut w = F::new(f.clone());
    for (i, e) in ends.iter().enumerate() {
        let r = if i < 2 { w.write_obj(&objs[i]) } else { w.close() };
        let d = f.out.get();
        check(d.len() <= all.len() && same(&d, &all[..d.len()]), "not-a-prefix");
        if f.failures.get() > 0 {
            check(r.is_err(), "failure-not-reported");
            reach("failed");
            std::mem::forget(w);
            return;
        }
        check(r.is_ok(), "spurious-error");
        check(d.len() == *e, "not-delivered");
    }
    std::mem::forget(w);
    reach("delivered");
}
// ---------------------------------------------------------------- C12: documents

type Attr = (String, String);
fn s(x: &str) -> String {
    x.to_string()
}
/// the attributes that state a model
fn stated(m: &Model) -> Vec<Attr> {
    let mut a = vec![(s("id"), m.id.to_string())];
    if m.deleted {
        a.push((s("visible"), s("false")));
    }
    if let Some(v) = m.version {
        a.push((s("version"), v.to_string()));
    }
    if let Some(v) = m.changeset {
        a.push((s("changeset"), v.to_string()));
    }
    if let Some(v) = &m.ts {
        a.push((s("timestamp"), v.to_iso_string()));
    }
    if let Some(v) = m.uid {
        a.push((s("uid"), v.to_string()));
    }
    if let Some(v) = &m.user {
        a.push((s("user"), v.clone()));
    }
    a
}
const NOISE: [&str; 6] = ["", "\n  ", "<!-- <node id=\"99\" lat=\"1\" lon=\"1\"/> -->", "<other id=\"5\" ref=\"5\" k=\"z\" v=\"z\"><deep/></other>", "<![CDATA[<tag k='z' v='z'/>]]>", "<?pi <nd ref='1'/>?>"];

/// writes one element; form bit 0: other quotes and spacing, bit 1: no self-closing tags
fn put_el(d: &mut String, name: &str, attrs: &[Attr], form: u64, body: &str) {
    d.push('<');
    d.push_str(name);
    for (k, v) in attrs {
        d.push_str(if form & 1 != 0 { "\n " } else { " " });
        d.push_str(k);
        d.push_str(if form & 1 != 0 { " = '" } else { "=\"" });
        d.push_str(v);
        d.push(if form & 1 != 0 { '\'' } else { '"' });
    }
    if body.is_empty() && form & 2 == 0 {
        d.push_str(if form & 1 != 0 { " />" } else { "/>" });
    } else {
        d.push('>');
        d.push_str(body);
        d.push_str("</");
        d.push_str(name);
        d.push_str(if form & 1 != 0 { " >" } else { ">" });
    }
}
fn kname(m: &Model) -> &'static str {
    match m.kind {
        OSMObjectType::Node => "node",
        OSMObjectType::Way => "way",
        OSMObjectType::Relation => "relation",
    }
}
fn mname(t: OSMObjectType) -> &'static str {
    match t {
        OSMObjectType::Node => "node",
        OSMObjectType::Way => "way",
        OSMObjectType::Relation => "relation",
    }
}
/// an element for the model; coordinates as (text) because their text is the harness's choice
fn element(m: &Model, pos: Option<(&str, &str)>, form: u64, noise: usize, d: &mut String) {
    let mut a = stated(m);
    if let Some((x, y)) = pos {
        a.push((s("lat"), s(x)));
        a.push((s("lon"), s(y)));
    }
    let mut body = s(NOISE[noise]);
    for n in &m.nodes {
        put_el(&mut body, "nd", &[(s("ref"), n.to_string())], form, "");
        body.push_str(NOISE[noise]);
    }
    for (t, i, r) in &m.members {
        let mut at = vec![(s("type"), s(mname(*t))), (s("ref"), i.to_string())];
        if !(r.is_empty() && form & 1 != 0) {
            at.push((s("role"), r.clone()));
        }
        put_el(&mut body, "member", &at, form, "");
        body.push_str(NOISE[noise]);
    }
    for (k, v) in &m.tags {
        put_el(&mut body, "tag", &[(s("k"), k.clone()), (s("v"), v.clone())], form, "");
        body.push_str(NOISE[noise]);
    }
    put_el(d, kname(m), &a, form, &body);
}
fn wrap(osc: bool, action: u64, body: &str) -> String {
    let mut d = s("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    if osc {
        let t = ["modify", "create", "delete"][action as usize];
        d.push_str("<osmChange version=\"0.6\">\n<");
        d.push_str(t);
        d.push('>');
        d.push_str(body);
        d.push_str("</");
        d.push_str(t);
        d.push_str(">\n</osmChange>\n");
    } else {
        d.push_str("<osm version=\"0.6\">\n");
        if action == 1 {
            d.push_str("<bounds minlat=\"1\" minlon=\"1\" maxlat=\"2\" maxlon=\"2\"/>");
        } else if action == 2 {
            d.push_str("<!-- one -->\n<note>text</note>");
        }
        d.push_str(body);
        d.push_str("\n</osm>\n");
    }
    d
}
fn read_doc(osc: bool, d: &str, all: &[Model]) {
    if osc {
        Osc::read(d.as_bytes(), all)
    } else {
        Xml::read(d.as_bytes(), all)
    }
}
/// attributes in any order, some absent, unknown ones between them
fn attributes() {
    let osc = choose("osc", 2) == 1;
    let kind = choose("kind", 3);
    let mut m = Model::new(otype(kind), small_id("id"));
    let some = choose("some", 64);
    if some & 1 != 0 {
        m.version = Some(dec("version", 2) as u32);
    }
    if some & 2 != 0 {
        m.changeset = Some(dec("changeset", 2) as u32);
    }
    if some & 4 != 0 {
        m.ts = Some(TimestampFormat::ISOString(s("2020-02-03T04:05:06Z")));
    }
    if some & 8 != 0 {
        m.uid = Some(dec("uid", 2) as u32);
    }
    if some & 16 != 0 {
        m.user = Some(st(vec![letter("user")]));
    }
    m.deleted = some & 32 != 0;
    let mut a = stated(&m);
    if !m.deleted && some % 3 == 1 {
        a.push((s("visible"), s("true")));
    }
    if kind == 0 && (thorough() && choose("position", 2) == 1 || some % 5 > 1) {
        a.push((s("lat"), s("51.5")));
        a.push((s("lon"), s("-0.125")));
        m.lat_lon = Some((515000000, -1250000));
    }
    let n = a.len() as u64;
    let arrange = choose("arrange", 5);
    match arrange {
        0 => {}
        1 => a.reverse(),
        2 => a.rotate_left((n / 2) as usize),
        3 => {
            a.insert(0, (s("uidx"), s("1")));
            a.push((s("timestamp2"), s("x")));
        }
        _ => {
            let x = a.remove(0);
            a.push(x);
            a.insert(1, (s("ref"), s("12")));
        }
    }
    let mut b = String::new();
    let form = if thorough() { choose("form", 4) } else { (some + arrange) % 4 };
    put_el(&mut b, kname(&m), &a, form, "");
    // something follows that has to be found as well
    let next = Model::new(OSMObjectType::Way, 1);
    element(&next, None, 0, 0, &mut b);
    read_doc(osc, &wrap(osc, 0, &b), &[m, next]);
    reach("attributes");
}
/// children of every kind with noise between them
fn children() {
    let osc = choose("osc", 2) == 1;
    let kind = choose("kind", 3);
    let form = choose("form", 4);
    let noise = choose("noise", NOISE.len() as u64) as usize;
    let mut m = Model::new(otype(kind), small_id("id"));
    for i in 0..choose("tags", 3) {
        m.tags.push((st(vec![letter(["k0", "k1"][i as usize])]), st(vec![letter(["v0", "v1"][i as usize])])));
    }
    match kind {
        0 => {}
        1 => m.nodes = (0..choose("nodes", 4)).map(|i| small_id(["n0", "n1", "n2"][i as usize])).collect(),
        _ => {
            let first = choose("mtype", 3);
            m.members = (0..choose("members", 3))
                .map(|i| (otype((first + i) % 3), small_id(["m0", "m1"][i as usize]), if i == 1 { s("") } else { st(vec![letter("r")]) }))
                .collect()
        }
    }
    let mut b = String::new();
    element(&m, None, form, noise, &mut b);
    b.push_str(NOISE[noise]);
    let next = Model::new(OSMObjectType::Node, 1);
    element(&next, None, form, 0, &mut b);
    read_doc(osc, &wrap(osc, 0, &b), &[m, next]);
    reach("children");
}
/// every kind of object in every kind of block, in any order
fn blocks() {
    let osc = choose("osc", 2) == 1;
    let n = choose("count", if thorough() { 4 } else { 3 });
    let action = choose("action", 3);
    let mut all = vec![];
    let mut b = String::new();
    for i in 0..n {
        let kind = choose("kind", 3);
        let mut m = Model::new(otype(kind), 0);
        match choose("content", 3) {
            0 => {}
            1 => m.deleted = true,
            _ => {
                m = full(kind);
                m.ts = Some(TimestampFormat::ISOString(s("2020-02-03T04:05:06Z")));
            }
        }
        m.id = dec(["i0", "i1", "i2"][i as usize], 3) as i64;
        let pos = m.lat_lon.map(|_| ("51.5", "-0.125"));
        let form = if thorough() && i == 0 { choose("form", 4) } else { (i + kind + action) % 4 };
        element(&m, pos, form, (i % 2) as usize, &mut b);
        all.push(m);
    }
    read_doc(osc, &wrap(osc, action, &b), &all);
    reach("blocks");
}
/// text in every place, written in every way XML allows
fn encodings() {
    let osc = choose("osc", 2) == 1;
    let place = choose("place", 5);
    let kind = if place == 3 { 2 } else { choose("kind", 3) };
    let (mut raw, mut val) = (vec![], vec![]);
    for i in 0..choose("len", 3) {
        unit(["t0", "t1"][i as usize], if i == 0 { choose("unit", 9) } else { choose("unit", 2) }, &mut raw, &mut val);
    }
    let mut m = full(kind);
    m.ts = Some(TimestampFormat::ISOString(s("2020-02-03T04:05:06Z")));
    let mut w = m.clone();
    put_text(&mut m, place, st(val));
    put_text(&mut w, place, st(raw));
    let pos = m.lat_lon.map(|_| ("51.5", "-0.125"));
    let mut b = String::new();
    element(&w, pos, 0, 0, &mut b);
    read_doc(osc, &wrap(osc, 0, &b), &[m]);
    reach("encodings");
}
/// one number over its full range
fn values() {
    let osc = choose("osc", 2) == 1;
    let kind = choose("kind", 3);
    let mut m = Model::new(otype(kind), 3);
    let mut pos: Option<(String, String)> = None;
    match choose("field", 5) {
        0 => m.id = signed("id", i64::MAX as u64),
        1 => m.version = Some(dec_upto("version", u32::MAX as u64) as u32),
        2 => m.changeset = Some(dec_upto("changeset", u32::MAX as u64) as u32),
        3 => m.uid = Some(dec_upto("uid", u32::MAX as u64) as u32),
        _ => match kind {
            0 => {
                // degrees with 0-7 fractional digits
                let nf = choose("frac-digits", 8) as u32;
                let i = dec_upto("int", 179);
                let f = if nf > 0 { dec0("frac", nf) } else { 0 };
                let neg = choose("neg", 2) == 1;
                let mut t = if neg { s("-") } else { String::new() };
                t.push_str(&i.to_string());
                if nf > 0 {
                    t.push('.');
                    t.push_str(&st(digits(f, nf)));
                }
                let v = (i * 10_000_000 + f * 10u64.pow(7 - nf)) as i32;
                let v = if neg { -v } else { v };
                if choose("which", 2) == 0 {
                    m.lat_lon = Some((v, 5));
                    pos = Some((t, s("0.0000005")));
                } else {
                    m.lat_lon = Some((-5, v));
                    pos = Some((s("-0.0000005"), t));
                }
            }
            1 => m.nodes = vec![1, signed("n", i64::MAX as u64)],
            _ => m.members = vec![(otype(choose("mtype", 3)), signed("m", i64::MAX as u64), s("r"))],
        },
    }
    let mut b = String::new();
    element(&m, pos.as_ref().map(|(a, b)| (a.as_str(), b.as_str())), 0, 0, &mut b);
    read_doc(osc, &wrap(osc, 0, &b), &[m]);
    reach("values");
}

// ---------------------------------------------------------------- C29: documents cut short

fn cut_at<R: OSMReader>(mut r: R, all: &[Model], whole: usize) {
    for m in &all[..whole] {
        match r.next() {
            Some(o) => agrees(&o, m),
            None => check(false, "missing"),
        }
    }
    // ending, or a panic, is all that may follow
    allow_panic(true);
    check(r.next().is_none(), "object-from-a-cut-element");
    check(r.next().is_none(), "object-after-the-end");
}
/// a document, what it holds, where each element ends
fn some_document(osc: bool, form: u64) -> (String, Vec<Model>, Vec<usize>) {
    let first = choose("kind", 3);
    let mut all = vec![];
    let mut ends = vec![];
    let mut b = String::new();
    let head = wrap(osc, 0, "#");
    let (head, tail) = head.split_once('#').unwrap();
    b.push_str(head);
    for i in 0..if thorough() { 3 } else { 2 } {
        let kind = (first + i) % 3;
        let mut m = if i == 1 { Model::new(otype(kind), 0) } else { full(kind) };
        m.id = dec(["i0", "i1", "i2"][i as usize], 2) as i64;
        if i != 1 {
            m.user = Some(st(vec![letter("u")]));
            m.ts = Some(TimestampFormat::ISOString(s("2020-02-03T04:05:06Z")));
        }
        element(&m, m.lat_lon.map(|_| ("51.5", "-0.125")), form, i as usize, &mut b);
        ends.push(b.len());
        b.push_str("\n");
        if osc && i == 0 {
            b.push_str("</modify><delete>");
        }
        all.push(m);
    }
    b.push_str(&if osc { tail.replace("modify", "delete") } else { tail.to_string() });
    (b, all, ends)
}
fn truncated(osc: bool) {
    let (b, all, ends) = some_document(osc, choose("form", 4));
    let at = choose("cut", b.len() as u64 + 1) as usize;
    let whole = ends.iter().filter(|e| **e <= at).count();
    let t = &b.as_bytes()[..at];
    if osc {
        cut_at(OSCReader::new(t), &all, whole)
    } else {
        cut_at(XMLReader::new(t), &all, whole)
    }
    reach("cut");
}

/// C37: the input fails at one place
fn failing_text(osc: bool) {
    let (b, all, ends) = some_document(osc, if thorough() { choose("form", 4) } else { 0 });
    let at = choose("at", b.len() as u64 + 1) as usize;
    let whole = ends.iter().filter(|e| **e <= at).count();
    // what follows the end tag of the document is nobody's loss
    let must = at < b.trim_end().len();
    let f = crate::pbft::failing(b.as_bytes(), at);
    if osc {
        crate::pbft::fails_with(OSCReader::new(f), &all, whole, must)
    } else {
        crate::pbft::fails_with(XMLReader::new(f), &all, whole, must)
    }
}

fn damaged_text(osc: bool) {
    let first = choose("kind", 3);
    let form = if thorough() { choose("form", 2) * 2 } else { 0 };
    let mut all = vec![];
    let mut ends = vec![];
    let mut b = String::new();
    let head = wrap(osc, 0, "#");
    let (head, tail) = head.split_once('#').unwrap();
    b.push_str(head);
    let mut from = 0;
    for i in 0..2 {
        if i == 1 && !thorough() {
            from = b.len();
        }
        let kind = (first + i) % 3;
        let mut m = if i == 0 { Model::new(otype(kind), 0) } else { full(kind) };
        m.id = 10 + i as i64;
        element(&m, m.lat_lon.map(|_| ("51.5", "-0.125")), form, i as usize, &mut b);
        ends.push(b.len());
        b.push('\n');
        all.push(m);
    }
    b.push_str(tail);
    let mut d = b.into_bytes();
    let at = crate::pbft::damage(&mut d, from);
    let whole = ends.iter().filter(|e| **e <= at).count();
    if osc {
        crate::pbft::damaged(OSCReader::new(&d[..]), &all, whole)
    } else {
        crate::pbft::damaged(XMLReader::new(&d[..]), &all, whole)
    }
}

entries! {
    c35_xml => damaged_text(false);
    c35_osc => damaged_text(true);
    c29_xml => truncated(false);
    c29_osc => truncated(true);
    c37_xml => failing_text(false);
    c37_osc => failing_text(true);
    c08_numbers => numbers::<XMLWriter<Sink>, Xml>();
    c08_fields => fields::<XMLWriter<Sink>, Xml>();
    c08_texts => texts::<XMLWriter<Sink>, Xml>();
    c08_sequences => sequences::<XMLWriter<Sink>, Xml>();
    c08_types => types::<XMLWriter<Sink>, Xml>();
    c08_large => large::<XMLWriter<Sink>, Xml>();
    c09_types => types::<OSCWriter<Sink>, Osc>();
    c09_large => large::<OSCWriter<Sink>, Osc>();
    c09_numbers => numbers::<OSCWriter<Sink>, Osc>();
    c09_fields => fields::<OSCWriter<Sink>, Osc>();
    c09_texts => texts::<OSCWriter<Sink>, Osc>();
    c09_sequences => sequences::<OSCWriter<Sink>, Osc>();
    c10_xml => markup::<XMLWriter<Sink>>();
    c10_osc => markup::<OSCWriter<Sink>>();
    c10_xml_hostile => hostile::<XMLWriter<Sink>>();
    c10_osc_hostile => hostile::<OSCWriter<Sink>>();
    c11_xml => life::<XMLWriter<Sink>>(true);
    c11_osc => life::<OSCWriter<Sink>>(false);
    c11_xml_iter => from_iter::<XMLWriter<Sink>>();
    c11_osc_iter => from_iter::<OSCWriter<Sink>>();
    c12_attributes => attributes();
    c12_children => children();
    c12_blocks => blocks();
    c12_encodings => encodings();
    c12_values => values();
    c27_xml => faults::<XMLWriter<Sink>, XMLWriter<Faulty>>();
    c27_osc => faults::<OSCWriter<Sink>, OSCWriter<Faulty>>();
}
