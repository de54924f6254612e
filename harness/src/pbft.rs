//! C01-C07, C26, C28: PBF readers (and filtered and chunked reading of every format).
use crate::objs::*;
use crate::rt::*;
use crate::xmlt::{agrees, full, make, make_arc, put_text, some_ts, xchar, Sink};
use osmio::osc::{OSCReader, OSCWriter};
use osmio::xml::{XMLReader, XMLWriter};
use osmio::{arcpbf, stringpbf, Node, OSMObj, OSMObjBase, OSMObjectType, OSMReader, OSMWriter, Relation, TimestampFormat, Way};
use std::io::Read;

// ---------------------------------------------------------------- encoding

/// shortest varint, for values that are the same on every path
fn vi(d: &mut Vec<u8>, mut v: u64) {
    while v >= 128 {
        d.push(v as u8 | 128);
        v >>= 7;
    }
    d.push(v as u8);
}
/// varint of n bytes, so that no branch depends on the value
fn vp(d: &mut Vec<u8>, v: u64, n: usize) {
    for i in 0..n - 1 {
        d.push(0x80 | (v >> (7 * i) & 0x7f) as u8);
    }
    d.push((v >> (7 * (n - 1)) & 0x7f) as u8);
}
fn v64(d: &mut Vec<u8>, v: i64) {
    vp(d, v as u64, 10);
}
fn v32(d: &mut Vec<u8>, v: i32) {
    vp(d, v as i64 as u64, 10);
}
fn u32_(d: &mut Vec<u8>, v: u32) {
    vp(d, v as u64, 5);
}
fn s64(d: &mut Vec<u8>, v: i64) {
    vp(d, ((v << 1) ^ (v >> 63)) as u64, 10);
}
fn s32(d: &mut Vec<u8>, v: i32) {
    vp(d, ((v << 1) ^ (v >> 31)) as u32 as u64, 5);
}
fn key(d: &mut Vec<u8>, field: u64, wire: u64) {
    vi(d, field << 3 | wire);
}
fn len(d: &mut Vec<u8>, field: u64, b: &[u8]) {
    key(d, field, 2);
    vi(d, b.len() as u64);
    d.extend_from_slice(b);
}
/// packed column, absent if empty
fn col<T: Copy>(d: &mut Vec<u8>, field: u64, v: &[T], f: fn(&mut Vec<u8>, T)) {
    if v.is_empty() {
        return;
    }
    let mut b = vec![];
    for x in v {
        f(&mut b, *x);
    }
    len(d, field, &b);
}
fn vbool(d: &mut Vec<u8>, v: bool) {
    d.push(v as u8);
}
fn sid(d: &mut Vec<u8>, v: u64) {
    vi(d, v);
}

#[derive(Clone, Default)]
struct Block {
    strings: Vec<String>,
    groups: Vec<Vec<u8>>,
    granularity: Option<i32>,
    lat_offset: Option<i64>,
    lon_offset: Option<i64>,
    date_granularity: Option<i32>,
}
impl Block {
    fn new() -> Self {
        Block { strings: vec![String::new()], ..Default::default() }
    }
    fn sid(&mut self, t: &str) -> u64 {
        // a new entry each time: nothing depends on what the text is
        self.strings.push(t.to_string());
        self.strings.len() as u64 - 1
    }
    fn bytes(&self) -> Vec<u8> {
        let mut t = vec![];
        for s in &self.strings {
            len(&mut t, 1, s.as_bytes());
        }
        let mut d = vec![];
        len(&mut d, 1, &t);
        for g in &self.groups {
            len(&mut d, 2, g);
        }
        if let Some(g) = self.granularity {
            key(&mut d, 17, 0);
            v32(&mut d, g);
        }
        if let Some(g) = self.date_granularity {
            key(&mut d, 18, 0);
            v32(&mut d, g);
        }
        if let Some(g) = self.lat_offset {
            key(&mut d, 19, 0);
            v64(&mut d, g);
        }
        if let Some(g) = self.lon_offset {
            key(&mut d, 20, 0);
            v64(&mut d, g);
        }
        d
    }
}
/// zlib stream made of stored blocks
fn zlib(b: &[u8]) -> Vec<u8> {
    let mut d = vec![0x78, 0x01];
    let (mut x, mut y) = (1u32, 0u32);
    for c in b {
        x = (x + *c as u32) % 65521;
        y = (y + x) % 65521;
    }
    let half = b.len() / 2;
    for (last, p) in [(0u8, &b[..half]), (1u8, &b[half..])] {
        d.push(last);
        d.extend_from_slice(&(p.len() as u16).to_le_bytes());
        d.extend_from_slice(&(!(p.len() as u16)).to_le_bytes());
        d.extend_from_slice(p);
    }
    d.extend_from_slice(&(y << 16 | x).to_be_bytes());
    d
}
fn file_block(d: &mut Vec<u8>, ty: &str, data: &[u8], packed: bool) {
    let mut b = vec![];
    if packed {
        key(&mut b, 2, 0);
        vi(&mut b, data.len() as u64);
        len(&mut b, 3, &zlib(data));
    } else {
        len(&mut b, 1, data);
    }
    put_blob(d, ty, &b, false)
}
/// the blob header and the blob; extra: with index data and fields nobody knows
fn put_blob(d: &mut Vec<u8>, ty: &str, b: &[u8], extra: bool) {
    let mut h = vec![];
    len(&mut h, 1, ty.as_bytes());
    if extra {
        len(&mut h, 2, b"index data \x00\x01\x02\xff");
        key(&mut h, 99, 0);
        vi(&mut h, 1 << 40);
    }
    key(&mut h, 3, 0);
    vi(&mut h, b.len() as u64);
    d.extend_from_slice(&(h.len() as u32).to_be_bytes());
    d.extend_from_slice(&h);
    d.extend_from_slice(b);
}
fn file(b: &Block) -> Vec<u8> {
    let mut d = vec![];
    file_block(&mut d, "OSMData", &b.bytes(), false);
    d
}

// ---------------------------------------------------------------- groups from models

fn epoch(m: &Model) -> Option<i64> {
    match m.ts {
        Some(TimestampFormat::EpochNumber(e)) => Some(e),
        _ => None,
    }
}
/// Info message; raw timestamps are given apart, visible is absent, true or false
fn info(b: &mut Block, m: &Model, raw_ts: Option<i64>, visible: Option<bool>) -> Vec<u8> {
    let mut i = vec![];
    if let Some(v) = m.version {
        key(&mut i, 1, 0);
        v32(&mut i, v as i32);
    }
    if let Some(v) = raw_ts {
        key(&mut i, 2, 0);
        v64(&mut i, v);
    }
    if let Some(v) = m.changeset {
        key(&mut i, 3, 0);
        v64(&mut i, v as i64);
    }
    if let Some(v) = m.uid {
        key(&mut i, 4, 0);
        v32(&mut i, v as i32);
    }
    if let Some(u) = &m.user {
        let s = b.sid(u);
        key(&mut i, 5, 0);
        vi(&mut i, s);
    }
    if let Some(v) = visible {
        key(&mut i, 6, 0);
        vbool(&mut i, v);
    }
    i
}
/// tags as keys and vals columns (fields 2 and 3)
fn keys_vals(b: &mut Block, d: &mut Vec<u8>, m: &Model) {
    let k: Vec<u64> = m.tags.iter().map(|t| b.sid(&t.0)).collect();
    let v: Vec<u64> = m.tags.iter().map(|t| b.sid(&t.1)).collect();
    col(d, 2, &k, sid);
    col(d, 3, &v, sid);
}
fn deltas(v: &[i64]) -> Vec<i64> {
    let mut last = 0;
    v.iter()
        .map(|x| {
            let d = x.wrapping_sub(last);
            last = *x;
            d
        })
        .collect()
}
/// one way as a field of a group
fn put_way(b: &mut Block, g: &mut Vec<u8>, m: &Model, inf: Option<Vec<u8>>) {
    let mut d = vec![];
    key(&mut d, 1, 0);
    v64(&mut d, m.id);
    keys_vals(b, &mut d, m);
    if let Some(i) = inf {
        len(&mut d, 4, &i);
    }
    col(&mut d, 8, &deltas(&m.nodes), s64);
    len(g, 3, &d);
}
fn put_rel(b: &mut Block, g: &mut Vec<u8>, m: &Model, inf: Option<Vec<u8>>) {
    let mut d = vec![];
    key(&mut d, 1, 0);
    v64(&mut d, m.id);
    keys_vals(b, &mut d, m);
    if let Some(i) = inf {
        len(&mut d, 4, &i);
    }
    let roles: Vec<u64> = m.members.iter().map(|x| b.sid(&x.2)).collect();
    let ids: Vec<i64> = m.members.iter().map(|x| x.1).collect();
    let types: Vec<u64> = m
        .members
        .iter()
        .map(|x| match x.0 {
            OSMObjectType::Node => 0,
            OSMObjectType::Way => 1,
            OSMObjectType::Relation => 2,
        })
        .collect();
    col(&mut d, 8, &roles, sid);
    col(&mut d, 9, &deltas(&ids), s64);
    col(&mut d, 10, &types, sid);
    len(g, 4, &d);
}
/// a node that is not dense
fn put_node(b: &mut Block, g: &mut Vec<u8>, m: &Model, raw: (i64, i64), inf: Option<Vec<u8>>) {
    let mut d = vec![];
    key(&mut d, 1, 0);
    s64(&mut d, m.id);
    keys_vals(b, &mut d, m);
    if let Some(i) = inf {
        len(&mut d, 4, &i);
    }
    key(&mut d, 8, 0);
    s64(&mut d, raw.0);
    key(&mut d, 9, 0);
    s64(&mut d, raw.1);
    len(g, 1, &d);
}
/// which columns of a dense group are written
#[derive(Clone, Copy)]
struct Cols {
    info: bool,
    version: bool,
    timestamp: bool,
    changeset: bool,
    uid: bool,
    user: bool,
    visible: bool,
    keys_vals: bool,
}
const ALL: Cols = Cols { info: true, version: true, timestamp: true, changeset: true, uid: true, user: true, visible: true, keys_vals: true };
fn d32(v: &[i64]) -> Vec<i32> {
    deltas(v).iter().map(|x| *x as i32).collect()
}
fn put_dense(b: &mut Block, g: &mut Vec<u8>, all: &[Model], raw: &[(i64, i64)], raw_ts: &[i64], c: Cols) {
    let mut d = vec![];
    let ids: Vec<i64> = all.iter().map(|m| m.id).collect();
    col(&mut d, 1, &deltas(&ids), s64);
    if c.info {
        let mut i = vec![];
        if c.version {
            col(&mut i, 1, &all.iter().map(|m| m.version.unwrap() as i32).collect::<Vec<_>>(), v32);
        }
        if c.timestamp {
            col(&mut i, 2, &deltas(raw_ts), s64);
        }
        if c.changeset {
            col(&mut i, 3, &deltas(&all.iter().map(|m| m.changeset.unwrap() as i64).collect::<Vec<_>>()), s64);
        }
        if c.uid {
            col(&mut i, 4, &d32(&all.iter().map(|m| m.uid.unwrap() as i64).collect::<Vec<_>>()), s32);
        }
        if c.user {
            let s: Vec<i64> = all.iter().map(|m| b.sid(m.user.as_ref().unwrap()) as i64).collect();
            col(&mut i, 5, &d32(&s), s32);
        }
        if c.visible {
            col(&mut i, 6, &all.iter().map(|m| !m.deleted).collect::<Vec<_>>(), vbool);
        }
        len(&mut d, 5, &i);
    }
    col(&mut d, 8, &deltas(&raw.iter().map(|r| r.0).collect::<Vec<_>>()), s64);
    col(&mut d, 9, &deltas(&raw.iter().map(|r| r.1).collect::<Vec<_>>()), s64);
    if c.keys_vals {
        let mut kv: Vec<u64> = vec![];
        for m in all {
            for (k, v) in &m.tags {
                kv.push(b.sid(k));
                kv.push(b.sid(v));
            }
            kv.push(0);
        }
        col(&mut d, 10, &kv, sid);
    }
    len(g, 2, &d);
}

// ---------------------------------------------------------------- reading

pub(crate) fn read_with<R: OSMReader>(r: &mut R, all: &[Model]) {
    for m in all {
        match r.next() {
            Some(o) => agrees(&o, m),
            None => check(false, "missing"),
        }
    }
    check(r.next().is_none(), "end");
    check(r.next().is_none(), "end-again");
}
/// one of the readers of whole objects
fn read(d: &[u8], all: &[Model]) {
    if choose("reader", 2) == 0 {
        read_with(&mut stringpbf::PBFReader::new(d), all)
    } else {
        read_with(&mut arcpbf::PBFReader::new(d), all)
    }
}

/// objects read from a file equal those built with the setters
fn same_objects<R: OSMReader>(mut r: R, mk: impl Fn(&Model) -> R::Obj, all: &[Model])
where
    R::Obj: PartialEq,
{
    for m in all {
        match r.next() {
            Some(o) => check(o == mk(m), "read-equals-built"),
            None => check(false, "missing"),
        }
    }
}
fn read_equal() {
    let mut b = Block::new();
    let mut all = vec![];
    let mut next = 0;
    for _ in 0..1 + choose("groups", 2) {
        let g = group(&mut b, choose("kind", 4), 1 + choose("objects", 3) as usize, &mut next, &mut all, true);
        b.groups.push(g);
    }
    let mut d = vec![];
    file_block(&mut d, "OSMData", &b.bytes(), false);
    match choose("reader", 4) {
        0 => same_objects(stringpbf::PBFReader::new(&d[..]), make, &all),
        1 => same_objects(arcpbf::PBFReader::new(&d[..]), make_arc, &all),
        k => {
            for m in &mut all {
                m.id = dec("x", 3) as i64;
            }
            let s = Sink::default();
            if k == 2 {
                let mut w = XMLWriter::new(s.clone());
                for m in &all {
                    check(w.write_obj(&make(m)).is_ok(), "write");
                }
                check(w.close().is_ok(), "close");
                std::mem::forget(w);
                same_objects(XMLReader::new(&s.get()[..]), make, &all)
            } else {
                let mut w = OSCWriter::new(s.clone());
                for m in &all {
                    check(w.write_obj(&make(m)).is_ok(), "write");
                }
                check(w.close().is_ok(), "close");
                std::mem::forget(w);
                same_objects(OSCReader::new(&s.get()[..]), make, &all)
            }
        }
    }
    reach("equal");
}
/// ids that stay within i64 however they are delta-coded
fn wide_id(n: &str) -> i64 {
    i64_in(n, -(1 << 62) + 1, (1 << 62) - 1)
}
fn pos31(n: &str) -> u32 {
    u64_in(n, 0, (1 << 31) - 1) as u32
}
fn short(n: &str) -> String {
    ascii_in(n, 1, 1, 127)
}
const ID: [&str; 3] = ["id0", "id1", "id2"];
const VER: [&str; 3] = ["ver0", "ver1", "ver2"];
const TS: [&str; 3] = ["ts0", "ts1", "ts2"];
const CH: [&str; 3] = ["cs0", "cs1", "cs2"];
const UID: [&str; 3] = ["uid0", "uid1", "uid2"];
const US: [&str; 3] = ["us0", "us1", "us2"];
const VIS: [&str; 3] = ["vis0", "vis1", "vis2"];
const LAT: [&str; 3] = ["lat0", "lat1", "lat2"];
const LON: [&str; 3] = ["lon0", "lon1", "lon2"];

/// all metadata, full-width
fn any_meta(m: &mut Model, i: usize) {
    m.version = Some(pos31(VER[i]));
    // seconds: delta-coded values must not overflow
    m.ts = Some(TimestampFormat::EpochNumber(i64_in(TS[i], -(1 << 52), 1 << 52)));
    m.changeset = Some(any_u32(CH[i]));
    m.uid = Some(pos31(UID[i]));
    m.user = Some(short(US[i]));
    m.deleted = any_bool(VIS[i]);
}

// ---------------------------------------------------------------- C01

fn dense_values() {
    let n = choose("count", if thorough() { 4 } else { 3 }) as usize;
    let mut all = vec![];
    let mut raw = vec![];
    for i in 0..n {
        let mut m = Model::new(OSMObjectType::Node, wide_id(ID[i]));
        any_meta(&mut m, i);
        let (a, b) = (any_i32(LAT[i]), any_i32(LON[i]));
        m.lat_lon = Some((a, b));
        raw.push((a as i64, b as i64));
        all.push(m);
    }
    let mut b = Block::new();
    let mut g = vec![];
    let ts: Vec<i64> = all.iter().map(|m| epoch(m).unwrap()).collect();
    put_dense(&mut b, &mut g, &all, &raw, &ts, ALL);
    b.groups.push(g);
    read(&file(&b), &all);
    reach("dense");
}
/// every subset of the metadata columns, tags in every distribution
fn dense_columns() {
    let n = choose("count", 3) as usize;
    let info = choose("info", 65);
    let c = Cols {
        info: info < 64,
        version: info & 1 != 0,
        timestamp: info & 2 != 0,
        changeset: info & 4 != 0,
        uid: info & 8 != 0,
        user: info & 16 != 0,
        visible: info & 32 != 0,
        keys_vals: choose("tagged", 2) == 1,
    };
    let has = |x: bool| c.info && x;
    let mut all = vec![];
    for i in 0..n {
        let mut m = Model::new(OSMObjectType::Node, i64_in(ID[i], -1000, 1 << 40));
        m.version = if has(c.version) { Some(pos31(VER[i])) } else { None };
        m.ts = if has(c.timestamp) { Some(TimestampFormat::EpochNumber(i64_in(TS[i], 0, 1 << 40))) } else { None };
        m.changeset = if has(c.changeset) { Some(any_u32(CH[i])) } else { None };
        m.uid = if has(c.uid) { Some(pos31(UID[i])) } else { None };
        m.user = if has(c.user) { Some(short(US[i])) } else { None };
        m.deleted = has(c.visible) && any_bool(VIS[i]);
        m.lat_lon = Some((i as i32, -1));
        if c.keys_vals {
            for j in 0..choose("tags", 3) {
                let j = 2 * i + j as usize;
                m.tags.push((short(["k0", "k1", "k2", "k3"][j]), short(["v0", "v1", "v2", "v3"][j])));
            }
        }
        all.push(m);
    }
    let mut b = Block::new();
    let mut g = vec![];
    let ts: Vec<i64> = all.iter().map(|m| epoch(m).unwrap_or(0)).collect();
    let raw: Vec<(i64, i64)> = (0..n).map(|i| (i as i64, -1)).collect();
    put_dense(&mut b, &mut g, &all, &raw, &ts, c);
    b.groups.push(g);
    read(&file(&b), &all);
    reach("dense");
}
/// string table entries shared between users, keys and values, in any arrangement
fn dense_strings() {
    let mut b = Block::new();
    let t = [short("a"), short("b"), crate::doc::wide("c")];
    for s in &t {
        b.sid(s);
    }
    let n = 2;
    let mut d = vec![];
    col(&mut d, 1, &[1i64, 1], s64);
    let mut i = vec![];
    let u = choose("user", 4) as i64;
    let us = [u, (u + choose("same-user", 2) as i64) % 4];
    col(&mut i, 5, &d32(&us), s32);
    len(&mut d, 5, &i);
    col(&mut d, 8, &[0i64, 0], s64);
    col(&mut d, 9, &[0i64, 0], s64);
    let mut kv = vec![];
    let mut all = vec![];
    let text = |i: u64| if i == 0 { String::new() } else { t[i as usize - 1].clone() };
    for i in 0..n {
        let mut m = Model::new(OSMObjectType::Node, i as i64 + 1);
        m.lat_lon = Some((0, 0));
        m.user = Some(text(us[i] as u64));
        for j in 0..(if i == 0 { choose("tags", 3) } else { us[0] as u64 % 2 }) {
            // the same index may serve as key and as value; a value may be the empty string 0
            let k = if j == 0 { 1 + choose("k", 3) } else { 1 + i as u64 };
            let v = if j == 0 { choose("v", if i == 0 { 4 } else { 2 }) } else { 2 };
            kv.push(k);
            kv.push(v);
            m.tags.push((text(k), text(v)));
        }
        kv.push(0);
        all.push(m);
    }
    col(&mut d, 10, &kv, sid);
    let mut g = vec![];
    len(&mut g, 2, &d);
    b.groups.push(g);
    read(&file(&b), &all);
    reach("dense");
}
const DATES: [Option<i32>; 9] = [None, Some(1000), Some(1), Some(500), Some(250), Some(60_000), Some(333), Some(1001), Some(i32::MAX)];
/// a timestamp in other units: exact if it is a whole second, less than a second off otherwise
fn ts_ok(t: &Option<TimestampFormat>, raw: i64, dg: i32) {
    match t {
        Some(TimestampFormat::EpochNumber(e)) => {
            let d = *e as i128 * 1000 - raw as i128 * dg as i128;
            check(d > -1000 && d < 1000, "date");
        }
        _ => check(false, "date-missing"),
    }
}
fn check_dates<R: OSMReader>(mut r: R, raw: &[i64], dg: i32) {
    for t in raw {
        match r.next() {
            Some(o) => ts_ok(o.timestamp(), *t, dg),
            None => check(false, "missing"),
        }
    }
    check(r.next().is_none(), "end");
}
/// date granularity, for every kind of object; raw values within 2^31 seconds of the epoch
fn dates(kind: u64) {
    let dg = DATES[choose("granularity", if thorough() { 9 } else { 7 }) as usize];
    let g = dg.unwrap_or(1000);
    let lim = 1000 * (1i64 << 31) / g as i64;
    let n = 2;
    let raw: Vec<i64> = (0..n).map(|i| i64_in(TS[i], -lim, lim)).collect();
    let mut b = Block::new();
    b.date_granularity = dg;
    let mut gr = vec![];
    let mut all = vec![];
    for i in 0..n {
        let mut m = Model::new(otype(kind.min(2)), i as i64);
        m.version = Some(1);
        all.push(m);
    }
    match kind {
        0 => put_dense(&mut b, &mut gr, &all, &[(0, 0), (0, 0)], &raw, Cols { changeset: false, uid: false, user: false, visible: false, ..ALL }),
        1 => {
            for i in 0..n {
                let inf = info(&mut b, &all[i], Some(raw[i]), None);
                put_way(&mut b, &mut gr, &all[i], Some(inf));
            }
        }
        2 => {
            for i in 0..n {
                let inf = info(&mut b, &all[i], Some(raw[i]), None);
                put_rel(&mut b, &mut gr, &all[i], Some(inf));
            }
        }
        _ => {
            for i in 0..n {
                let inf = info(&mut b, &all[i], Some(raw[i]), None);
                put_node(&mut b, &mut gr, &all[i], (0, 0), Some(inf));
            }
        }
    }
    b.groups.push(gr);
    let d = file(&b);
    if choose("reader", 2) == 0 {
        check_dates(stringpbf::PBFReader::new(&d[..]), &raw, g);
    } else {
        check_dates(arcpbf::PBFReader::new(&d[..]), &raw, g);
    }
    reach("dates");
}
/// nodes that are not dense
fn plain_nodes() {
    let n = 1 + choose("count", 2) as usize;
    // 31: all metadata, 64: no Info
    let some = if n == 2 { [31, 64][choose("info", 2) as usize] } else { choose("some", 33).min(32) };
    let some = if some == 32 { 64 } else { some };
    let vis = choose("visible", 3);
    let mut b = Block::new();
    let mut g = vec![];
    let mut all = vec![];
    for i in 0..n {
        let mut m = Model::new(OSMObjectType::Node, any_i64(ID[i]));
        let (x, y) = if some == 31 { (any_i32(LAT[i]), any_i32(LON[i])) } else { (-7, i as i32) };
        m.lat_lon = Some((x, y));
        let inf = meta_subset(&mut b, &mut m, i, some, vis);
        for j in 0..choose("tags", 2) {
            m.tags.push((short(["k0", "k1"][i]), short(["v0", "v1"][i])));
            let _ = j;
        }
        put_node(&mut b, &mut g, &m, (x as i64, y as i64), inf);
        all.push(m);
    }
    b.groups.push(g);
    read(&file(&b), &all);
    reach("plain");
}
/// fills a subset of the metadata and encodes it; some == 64: no Info at all
fn meta_subset(b: &mut Block, m: &mut Model, i: usize, some: u64, vis: u64) -> Option<Vec<u8>> {
    if some == 64 {
        return None;
    }
    if some & 1 != 0 {
        m.version = Some(pos31(VER[i]));
    }
    if some & 2 != 0 {
        m.ts = Some(TimestampFormat::EpochNumber(i64_in(TS[i], -(1 << 52), 1 << 52)));
    }
    if some & 4 != 0 {
        m.changeset = Some(any_u32(CH[i]));
    }
    if some & 8 != 0 {
        m.uid = Some(pos31(UID[i]));
    }
    if some & 16 != 0 {
        m.user = Some(short(US[i]));
    }
    let v = match vis {
        0 => None,
        1 => Some(true),
        _ => Some(any_bool(VIS[i])),
    };
    m.deleted = !v.unwrap_or(true);
    Some(info(b, m, epoch(m), v))
}

// ---------------------------------------------------------------- C02

const GRAN: [Option<i32>; 10] = [None, Some(100), Some(1), Some(50), Some(1000), Some(250), Some(33), Some(10_000_000), Some(99), Some(101)];
fn near(v: i32, raw: i64, g: i32, off: i64) -> bool {
    let d = v as i128 * 100 - (off as i128 + g as i128 * raw as i128);
    d > -100 && d < 100
}
/// a raw value whose coordinate is in range
fn raw_coord(n: &str, g: i32, off: i64) -> i64 {
    let r = any_i64(n);
    // well within 64 bits
    let lim = (1i64 << 31) * 100 / g as i64 + 1 + (1 << 41) / g as i64;
    assume(r >= -lim && r <= lim);
    let nanos = off + g as i64 * r;
    assume(nanos >= -(1i64 << 31) * 100 && nanos <= ((1i64 << 31) - 1) * 100);
    r
}
fn coords() {
    let gi = GRAN[choose("granularity", if thorough() { 10 } else { 7 }) as usize];
    let g = gi.unwrap_or(100);
    let kind = choose("offsets", 4);
    let mut b = Block::new();
    b.granularity = gi;
    // offsets of any value up to 1100 degrees, one at a time; the other fixed
    let (mut lo, mut no) = (0i64, 0i64);
    match kind {
        0 => {}
        1 => lo = i64_in("lat-offset", -(1 << 40), 1 << 40),
        2 => no = i64_in("lon-offset", -(1 << 40), 1 << 40),
        _ => {
            lo = -12_345_678_901;
            no = 77;
        }
    }
    if kind > 0 {
        b.lat_offset = Some(lo);
        b.lon_offset = Some(no);
    }
    let dense = choose("dense", 2) == 0;
    // two nodes; one of their coordinates in full, the others fixed
    let mut raw = vec![];
    for i in 0..2 {
        let which = if kind == 1 { 0 } else { 1 };
        let x = raw_coord(if which == 0 { LAT[i] } else { LON[i] }, g, if which == 0 { lo } else { no });
        let other = if which == 0 { no } else { lo };
        let z = -other / g as i64 + i as i64;
        raw.push(if which == 0 { (x, z) } else { (z, x) });
    }
    let all: Vec<Model> = (0..2).map(|i| Model::new(OSMObjectType::Node, 5 + i)).collect();
    let mut gr = vec![];
    if dense {
        put_dense(&mut b, &mut gr, &all, &raw, &[], Cols { info: false, keys_vals: false, ..ALL });
    } else {
        for i in 0..2 {
            put_node(&mut b, &mut gr, &all[i], raw[i], None);
        }
    }
    b.groups.push(gr);
    let d = file(&b);
    let pos = |o: Option<(osmio::Lat, osmio::Lon)>, i: usize| match o {
        Some((a, b)) => {
            check(near(a.inner(), raw[i].0, g, lo), "lat");
            check(near(b.inner(), raw[i].1, g, no), "lon");
        }
        None => check(false, "no-position"),
    };
    match choose("reader", 3) {
        0 => {
            let mut r = stringpbf::PBFReader::new(&d[..]);
            for i in 0..2 {
                pos(r.next().and_then(|o| o.as_node().and_then(|n| n.lat_lon())), i);
            }
        }
        1 => {
            let mut r = arcpbf::PBFReader::new(&d[..]);
            for i in 0..2 {
                pos(r.next().and_then(|o| o.as_node().and_then(|n| n.lat_lon())), i);
            }
        }
        _ => {
            let mut r = stringpbf::PBFNodePositionReader::from_reader(&d[..]);
            for i in 0..2 {
                pos(r.next().map(|x| x.1), i);
            }
        }
    }
    reach("coords");
}

// ---------------------------------------------------------------- C03, C04

fn way_values() {
    let mut b = Block::new();
    let mut g = vec![];
    let mut all = vec![];
    for i in 0..1 + choose("count", 2) as usize {
        let mut m = Model::new(OSMObjectType::Way, any_i64(ID[i]));
        any_meta(&mut m, i);
        m.nodes = (0..[0, 1, 2, 3, 9][choose("nodes", if i == 0 { 5 } else { 2 }) as usize]).map(|_| wide_id("n")).collect();
        let inf = info(&mut b, &m, epoch(&m), Some(!m.deleted));
        put_way(&mut b, &mut g, &m, Some(inf));
        all.push(m);
    }
    b.groups.push(g);
    read(&file(&b), &all);
    reach("way");
}
fn rel_values() {
    let mut b = Block::new();
    let mut g = vec![];
    let mut all = vec![];
    for i in 0..1 + choose("count", 2) as usize {
        let mut m = Model::new(OSMObjectType::Relation, any_i64(ID[i]));
        any_meta(&mut m, i);
        m.members = (0..choose("members", if i == 0 { 4 } else { 2 }))
            .map(|j| (otype(if j < 2 { choose("mtype", 3) } else { 2 - j % 2 }), wide_id("m"), if j == 1 { String::new() } else { short("role") }))
            .collect();
        let inf = info(&mut b, &m, epoch(&m), Some(!m.deleted));
        put_rel(&mut b, &mut g, &m, Some(inf));
        all.push(m);
    }
    b.groups.push(g);
    read(&file(&b), &all);
    reach("relation");
}
/// every subset of the metadata, with tags
fn way_rel_fields(kind: u64) {
    let n = 1 + choose("count", 2) as usize;
    let some = choose("some", 33);
    let vis = choose("visible", 3);
    let mut b = Block::new();
    let mut g = vec![];
    let mut all = vec![];
    for i in 0..n {
        let mut m = Model::new(otype(kind), any_i64(ID[i]));
        // the second object has all or the complement
        let some = if i == 0 { some % 33 } else { 31 - some % 32 };
        let inf = meta_subset(&mut b, &mut m, i, if some == 32 { 64 } else { some }, if i == 0 { vis } else { 2 - vis });
        for j in 0..choose("tags", 3) {
            let j = 2 * i + j as usize;
            m.tags.push((short(["k0", "k1", "k2", "k3"][j]), short(["v0", "v1", "v2", "v3"][j])));
        }
        if kind == 1 {
            m.nodes = vec![3, -4];
            put_way(&mut b, &mut g, &m, inf);
        } else {
            m.members = vec![(OSMObjectType::Way, 3, "x".into()), (OSMObjectType::Node, -4, String::new())];
            put_rel(&mut b, &mut g, &m, inf);
        }
        all.push(m);
    }
    b.groups.push(g);
    read(&file(&b), &all);
    reach("fields");
}

// ---------------------------------------------------------------- C05, C07, C26, C28

/// one group of the kind given, small symbolic contents
fn group(b: &mut Block, kind: u64, n: usize, next: &mut usize, all: &mut Vec<Model>, sym: bool) -> Vec<u8> {
    let mut g = vec![];
    let mut id = |k: u64| {
        *next += 1;
        let mut m = Model::new(otype(k), *next as i64);
        if sym {
            m.id = i64_in("id", 0, (1 << 40) - 1);
        }
        m
    };
    match kind {
        0 => {
            let mut v = vec![];
            for i in 0..n {
                let mut m = id(0);
                m.lat_lon = Some((7, 8));
                m.version = Some(2);
                m.user = Some("u".into());
                if i == 1 {
                    m.tags.push(("k".into(), "v".into()));
                }
                v.push(m);
            }
            put_dense(b, &mut g, &v, &vec![(7, 8); n], &[], Cols { timestamp: false, changeset: false, uid: false, visible: false, ..ALL });
            all.extend(v);
        }
        1 => {
            for _ in 0..n {
                let mut m = id(1);
                m.nodes = vec![4, 5];
                m.tags.push(("k".into(), "w".into()));
                put_way(b, &mut g, &m, None);
                all.push(m);
            }
        }
        2 => {
            for _ in 0..n {
                let mut m = id(2);
                m.members = vec![(OSMObjectType::Way, 6, "r".into())];
                put_rel(b, &mut g, &m, None);
                all.push(m);
            }
        }
        3 => {
            for _ in 0..n {
                let mut m = id(0);
                m.lat_lon = Some((9, 10));
                put_node(b, &mut g, &m, (9, 10), None);
                all.push(m);
            }
        }
        4 => {
            // changesets
            let mut d = vec![];
            key(&mut d, 1, 0);
            v64(&mut d, 3);
            len(&mut g, 5, &d);
        }
        _ => {}
    }
    g
}
/// a file of several blocks; returns the objects and, for each block, where it ends and how many
/// objects there are up to there
fn some_file(blocks: u64, groups: u64, zip: bool) -> (Vec<u8>, Vec<Model>, Vec<(usize, usize)>) {
    let mut d = vec![];
    let mut all = vec![];
    let mut ends = vec![];
    let mut next = 0;
    for bi in 0..choose("blocks", blocks) {
        match choose("type", if bi == 0 { 3 } else { 2 }) {
            0 => {
                let packed = zip && choose("zlib", 2) == 1;
                let mut b = Block::new();
                for gi in 0..choose("groups", if bi > 0 && !thorough() { 2 } else { groups }) {
                    let kind = choose("kind", 6);
                    let n = if kind < 4 && gi == 0 && bi < 2 { 1 + choose("count", 2) as usize } else { 1 };
                    let g = group(&mut b, kind, n, &mut next, &mut all, !packed);
                    b.groups.push(g);
                }
                file_block(&mut d, "OSMData", &b.bytes(), packed);
            }
            1 => file_block(&mut d, if bi == 0 { "OSMHeader" } else { "OSMDatb" }, b"\x22\x0eOsmSchema-V0.6", zip),
            _ => file_block(&mut d, "", b"", false),
        }
        ends.push((d.len(), all.len()));
    }
    (d, all, ends)
}
fn blocks() {
    let (d, all, _) = some_file(3, 3, true);
    read(&d, &all);
    reach("blocks");
}
fn groups() {
    let (d, all, _) = some_file(2, 4, true);
    read(&d, &all);
    reach("blocks");
}
/// a file of two blocks, the first longer than a buffer
pub(crate) fn group_file() -> (Vec<u8>, Vec<Model>) {
    let mut d = vec![];
    let mut all = vec![];
    let mut next = 0;
    if choose("header", 2) == 1 {
        file_block(&mut d, "OSMHeader", &[7; 20_000], false);
    }
    for _ in 0..2 {
        let mut b = Block::new();
        let g = group(&mut b, choose("kind", 4), 2, &mut next, &mut all, true);
        b.groups.push(g);
        file_block(&mut d, "OSMData", &b.bytes(), false);
    }
    (d, all)
}
fn dense_many() {
    // an empty dense group, and a long one
    let n = [0, 1, 3, 20][choose("count", 4) as usize];
    let mut b = Block::new();
    let mut all = vec![];
    let mut next = 0;
    let kind = choose("kind", 4);
    let g = group(&mut b, kind, n, &mut next, &mut all, true);
    b.groups.push(g);
    let g = group(&mut b, (kind + 1) % 4, 1, &mut next, &mut all, true);
    b.groups.push(g);
    read(&file(&b), &all);
    reach("blocks");
}

/// what packed.rs holds
fn packed_models() -> Vec<Model> {
    let mut all = vec![];
    let (mut x, mut y) = (0, 0);
    for i in 0..150 {
        let mut m = Model::new(OSMObjectType::Node, 100 + i);
        x += (i * i * 7 % 200 - 50) as i32;
        y -= (i * 13 % 31) as i32;
        m.lat_lon = Some((x, y));
        if i % 3 == 0 {
            m.tags.push(("highway".into(), "residential".into()));
        }
        all.push(m);
    }
    for i in 0..40 {
        let mut m = Model::new(OSMObjectType::Way, 500 + i);
        let a = 100 + i * i % 17;
        m.nodes = vec![a, a + i % 9, a + i % 9 - 1];
        m.tags = vec![("highway".into(), "residential".into()), ("name".into(), "High Street".into())];
        all.push(m);
    }
    all
}
/// deflated blocks as other programs write them, between blocks with symbolic contents
fn deflated() {
    let mut d = vec![];
    let mut all = vec![];
    let mut next = 0;
    for i in 0..3 {
        if i == 1 {
            let z: &[u8] = if choose("codes", 2) == 0 { &crate::packed::DYNAMIC } else { &crate::packed::FIXED };
            let mut b = vec![];
            if choose("raw-size", 2) == 1 {
                key(&mut b, 2, 0);
                vi(&mut b, crate::packed::SIZE as u64);
            }
            len(&mut b, 3, z);
            put_blob(&mut d, "OSMData", &b, false);
            all.extend(packed_models());
        } else {
            let mut b = Block::new();
            let g = group(&mut b, choose("kind", 4), 1, &mut next, &mut all, true);
            b.groups.push(g);
            file_block(&mut d, "OSMData", &b.bytes(), false);
        }
    }
    read(&d, &all);
    reach("blocks");
}
/// more blocks, each of one group; index data and unknown fields in the headers
fn many_blocks() {
    let n = 3 + choose("blocks", if thorough() { 5 } else { 3 });
    let first = choose("kind", 4);
    let extra = choose("extra", 2) == 1;
    let header = choose("other", n + 1);
    let mut d = vec![];
    let mut all = vec![];
    let mut next = 0;
    for i in 0..n {
        if i == header {
            // another type of block anywhere
            file_block(&mut d, "OSMHeader", b"\x22\x0eOsmSchema-V0.6", true);
        }
        let packed = (i + first) % 3 == 1;
        let mut b = Block::new();
        let g = group(&mut b, (first + i * (1 + first)) % 4, 1 + (i % 3) as usize, &mut next, &mut all, !packed);
        b.groups.push(g);
        let data = b.bytes();
        let mut f = vec![];
        if packed {
            len(&mut f, 3, &zlib(&data));
            key(&mut f, 2, 0);
            vi(&mut f, data.len() as u64);
        } else {
            len(&mut f, 1, &data);
        }
        put_blob(&mut d, "OSMData", &f, extra);
    }
    read(&d, &all);
    reach("blocks");
}
/// long lists, long text, a table of more than 127 strings
fn large(kind: u64) {
    let mut b = Block::new();
    for i in 0..[0, 130, 300, 66_000][choose("table", if thorough() { 4 } else { 3 }) as usize] {
        b.sid(&format!("unused {i}"));
    }
    // one object is symbolic, the others are of various sizes
    let n = if kind == 1 { 3 } else { 7 };
    let sym = choose("which", 3) as usize * (n / 2);
    let mut g = vec![];
    let mut all = vec![];
    for i in 0..n {
        let mut m = Model::new(otype(kind % 3), 10 + i as i64);
        m.version = Some(1 + i as u32);
        m.ts = Some(TimestampFormat::EpochNumber(1_000_000_000 + 13 * i as i64));
        m.changeset = Some(4_000_000_000 + i as u32);
        m.uid = Some(77 - i as u32);
        m.user = Some(format!("a user whose name is not short, number {i}"));
        let nt = [0, 9, 1, 4, 0, 17, 3][i];
        for j in 0..nt {
            m.tags.push((format!("key:{j}"), format!("value {i} {j}")));
        }
        match kind {
            1 => m.nodes = (0..[5, 200, 0][i]).map(|x| x * x % 61 - 9).collect(),
            2 => m.members = (0..[3i64, 30, 0, 1, 2, 1, 1][i]).map(|x| (otype(x as u64 % 3), x * x % 61 - 9, format!("role {x}"))).collect(),
            _ => m.lat_lon = Some((515_000_000 - i as i32, -1_250_000 * i as i32)),
        }
        if i == sym {
            m.id = wide_id("id");
            m.version = Some(pos31("version"));
            m.ts = Some(TimestampFormat::EpochNumber(i64_in("ts", -(1 << 52), 1 << 52)));
            m.changeset = Some(any_u32("changeset"));
            m.uid = Some(pos31("uid"));
            m.user = Some(format!("{}, whose name is not short", short("user")));
            m.tags.push((format!("{} key that is not short", short("k")), format!("{} value that is not short", short("v"))));
            m.deleted = any_bool("deleted");
            match kind {
                1 => m.nodes.push(wide_id("n")),
                2 => m.members.push((OSMObjectType::Relation, wide_id("m"), format!("{} role that is not short", short("r")))),
                _ => m.lat_lon = Some((any_i32("lat"), any_i32("lon"))),
            }
        }
        let inf = if kind == 0 { None } else { Some(info(&mut b, &m, epoch(&m), if i % 2 == 0 || i == sym { Some(!m.deleted) } else { None })) };
        match kind {
            0 => {}
            1 => put_way(&mut b, &mut g, &m, inf),
            2 => put_rel(&mut b, &mut g, &m, inf),
            _ => {
                let (x, y) = m.lat_lon.unwrap();
                put_node(&mut b, &mut g, &m, (x as i64, y as i64), inf)
            }
        }
        all.push(m);
    }
    if kind == 0 {
        let raw: Vec<(i64, i64)> = all.iter().map(|m| m.lat_lon.map(|p| (p.0 as i64, p.1 as i64)).unwrap()).collect();
        let ts: Vec<i64> = all.iter().map(|m| epoch(m).unwrap()).collect();
        put_dense(&mut b, &mut g, &all, &raw, &ts, ALL);
    }
    b.groups.push(g);
    read(&file(&b), &all);
    reach("large");
}

// ---------------------------------------------------------------- C06

fn same_obj<A: OSMObj, B: OSMObj>(a: &A, b: &B) {
    check(a.object_type() == b.object_type(), "kind");
    check(a.id() == b.id(), "id");
    check(a.version() == b.version(), "version");
    check(a.deleted() == b.deleted(), "deleted");
    check(a.changeset_id() == b.changeset_id(), "changeset");
    check(a.timestamp().is_some() == b.timestamp().is_some(), "timestamp-presence");
    if let (Some(TimestampFormat::EpochNumber(x)), Some(TimestampFormat::EpochNumber(y))) = (a.timestamp(), b.timestamp()) {
        check(x == y, "timestamp");
    }
    check(a.uid() == b.uid(), "uid");
    check(same_opt(a.user(), b.user()), "user");
    let (x, y): (Vec<_>, Vec<_>) = (a.tags().collect(), b.tags().collect());
    check(x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| same_str(p.0, q.0) && same_str(p.1, q.1)), "tags");
    if let (Some(x), Some(y)) = (a.as_node(), b.as_node()) {
        check(x.lat_lon().map(|p| (p.0.inner(), p.1.inner())) == y.lat_lon().map(|p| (p.0.inner(), p.1.inner())), "position");
    }
    if let (Some(x), Some(y)) = (a.as_way(), b.as_way()) {
        check(x.nodes() == y.nodes(), "nodes");
    }
    if let (Some(x), Some(y)) = (a.as_relation(), b.as_relation()) {
        let (x, y): (Vec<_>, Vec<_>) = (x.members().collect(), y.members().collect());
        check(x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p.0 == q.0 && p.1 == q.1 && same_str(p.2, q.2)), "members");
    }
}
fn compare(d: &[u8]) {
    // a file one of them cannot read is not in question
    allow_panic(true);
    let mut s = stringpbf::PBFReader::new(d);
    let mut a = arcpbf::PBFReader::new(d);
    let mut p = stringpbf::PBFNodePositionReader::from_reader(d);
    let (mut x, mut y, mut z) = (vec![], vec![], vec![]);
    while let Some(o) = s.next() {
        x.push(o);
    }
    while let Some(o) = a.next() {
        y.push(o);
    }
    for o in p.by_ref() {
        z.push(o);
    }
    allow_panic(false);
    check(x.len() == y.len(), "count");
    for (o, q) in x.iter().zip(&y) {
        same_obj(o, q);
    }
    let n: Vec<_> = x.iter().filter_map(|o| o.as_node()).collect();
    check(n.len() == z.len(), "position-count");
    for (o, q) in n.iter().zip(&z) {
        check(o.id() == q.0, "position-id");
        check(o.lat_lon().map(|p| (p.0.inner(), p.1.inner())) == Some((q.1 .0.inner(), q.1 .1.inner())), "position-value");
    }
    reach("compared");
}
/// metadata of any value, also those no writer should produce
fn agree_meta() {
    let kind = choose("kind", 4);
    let mut b = Block::new();
    let dg = choose("dates", 3);
    b.date_granularity = [None, Some(1), Some(333)][dg as usize];
    let gr = choose("coords", 3);
    b.granularity = [None, Some(1), Some(333)][gr as usize];
    if gr > 0 {
        b.lat_offset = Some(-12345);
        b.lon_offset = Some(101);
    }
    let mut g = vec![];
    let raw_ts = i64_in("ts", -(1 << 52), 1 << 52);
    let (ver, uid, cs) = (any_i32("ver"), any_i32("uid"), any_i64("cs"));
    let us = b.sid(&short("user"));
    let (x, y) = (i64_in("lat", -(1 << 30), 1 << 30), i64_in("lon", -(1 << 30), 1 << 30));
    let m = Model::new(otype(kind % 3), any_i64("id"));
    if kind == 0 {
        let mut d = vec![];
        col(&mut d, 1, &[m.id], s64);
        let mut i = vec![];
        col(&mut i, 1, &[ver], v32);
        col(&mut i, 2, &[raw_ts], s64);
        col(&mut i, 3, &[cs], s64);
        col(&mut i, 4, &[uid], s32);
        col(&mut i, 5, &[us as i32], s32);
        len(&mut d, 5, &i);
        col(&mut d, 8, &[x], s64);
        col(&mut d, 9, &[y], s64);
        len(&mut g, 2, &d);
    } else {
        let mut i = vec![];
        key(&mut i, 1, 0);
        v32(&mut i, ver);
        key(&mut i, 2, 0);
        v64(&mut i, raw_ts);
        key(&mut i, 3, 0);
        v64(&mut i, cs);
        key(&mut i, 4, 0);
        v32(&mut i, uid);
        key(&mut i, 5, 0);
        u32_(&mut i, us as u32);
        match kind {
            1 => put_way(&mut b, &mut g, &m, Some(i)),
            2 => put_rel(&mut b, &mut g, &m, Some(i)),
            _ => put_node(&mut b, &mut g, &m, (x, y), Some(i)),
        }
    }
    b.groups.push(g);
    compare(&file(&b));
}
fn agree_lists() {
    let kind = choose("kind", 3);
    let mut b = Block::new();
    let s = [0, b.sid(&short("a")), b.sid(&short("b"))];
    let mut g = vec![];
    let m = Model::new(otype(kind), 1);
    let mut d = vec![];
    if kind == 0 {
        // two nodes, any three entries and the ends of their lists
        col(&mut d, 1, &[1i64, 1], s64);
        col(&mut d, 8, &[any_i32("lat") as i64, 0], s64);
        col(&mut d, 9, &[0i64, 3], s64);
        let mut kv = vec![];
        for _ in 0..choose("len", 7) {
            kv.push(s[choose("kv", 3) as usize]);
        }
        kv.extend_from_slice(&[0, 0]);
        col(&mut d, 10, &kv, sid);
        len(&mut g, 2, &d);
    } else {
        key(&mut d, 1, 0);
        v64(&mut d, m.id);
        let n = choose("keys", 3);
        col(&mut d, 2, &(0..n).map(|_| s[choose("k", 3) as usize]).collect::<Vec<_>>(), sid);
        let n = choose("vals", 3);
        col(&mut d, 3, &(0..n).map(|_| s[choose("v", 3) as usize]).collect::<Vec<_>>(), sid);
        if kind == 1 {
            let n = choose("refs", 4);
            col(&mut d, 8, &(0..n).map(|_| i64_in("ref", -(1 << 60), 1 << 60)).collect::<Vec<_>>(), s64);
            len(&mut g, 3, &d);
        } else {
            // columns of different lengths
            let n = choose("roles", 3);
            col(&mut d, 8, &(0..n).map(|i| s[(i % 3) as usize]).collect::<Vec<_>>(), sid);
            let n = choose("memids", 3);
            col(&mut d, 9, &(0..n).map(|_| i64_in("ref", -(1 << 60), 1 << 60)).collect::<Vec<_>>(), s64);
            let n = choose("types", 3);
            col(&mut d, 10, &(0..n).collect::<Vec<_>>(), sid);
            len(&mut g, 4, &d);
        }
    }
    b.groups.push(g);
    compare(&file(&b));
}
fn agree_files() {
    let (d, _, _) = some_file(3, 3, true);
    compare(&d);
}

// ---------------------------------------------------------------- C07

macro_rules! filtered {
    ($t:ty, $nodes:path, $ways:path, $rels:path) => {
        fn take(r: &mut $t, kind: u64, n: usize, hint: u64) -> Vec<(u64, i64)> {
            match hint {
                0 => {}
                1 => r.assume_sorted(),
                _ => r.assume_unsorted(),
            }
            match kind {
                0 => $nodes(r).take(n).map(|o| (0, o.id())).collect(),
                1 => $ways(r).take(n).map(|o| (1, o.id())).collect(),
                2 => $rels(r).take(n).map(|o| (2, o.id())).collect(),
                _ => r.objects().take(n).map(|o| (knum(o.object_type()), o.id())).collect(),
            }
        }
    };
}
fn knum(t: OSMObjectType) -> u64 {
    match t {
        OSMObjectType::Node => 0,
        OSMObjectType::Way => 1,
        OSMObjectType::Relation => 2,
    }
}
/// the calls, and what they should return
fn plan(all: &[Model], mut take: impl FnMut(u64, usize, u64) -> Vec<(u64, i64)>) {
    let mut p = 0;
    // in a sorted file the hint that it is one changes nothing
    let sorted = all.windows(2).all(|w| knum(w[0].kind) <= knum(w[1].kind));
    let hint = if sorted { choose("hint", 3) } else { 0 };
    for i in 0..3 {
        // the last call asks for everything that is left
        let kind = if i == 2 { 3 } else { choose("ask", if i == 0 { 3 } else { 4 }) };
        let n = if i == 2 { 99 } else { [0, 1, 2, 99][choose("take", 4) as usize] };
        let mut want = vec![];
        while want.len() < n && p < all.len() {
            let m = &all[p];
            p += 1;
            if kind == 3 || knum(m.kind) == kind {
                want.push((knum(m.kind), m.id));
            }
        }
        let got = take(kind, n, if i < hint { i + 1 } else { 0 });
        check(got.len() == want.len(), "count");
        for (g, w) in got.iter().zip(&want) {
            check(g.0 == w.0 && g.1 == w.1, "object");
        }
    }
    reach("filtered");
}
/// mixed kinds, in several blocks and in several groups of one block
fn mixed_pbf() -> (Vec<u8>, Vec<Model>) {
    const SHAPES: [&[&[u64]]; 6] = [&[&[0], &[1], &[2]], &[&[0, 1, 2]], &[&[0, 1], &[0, 2]], &[&[2], &[1], &[0], &[3]], &[&[1, 0, 5, 1], &[4, 0]], &[&[0, 2], &[1], &[]]];
    let shape = SHAPES[choose("shape", 6) as usize];
    let mut d = vec![];
    let mut all = vec![];
    let mut next = 0;
    for kinds in shape {
        let mut b = Block::new();
        for k in *kinds {
            let g = group(&mut b, *k, 2, &mut next, &mut all, false);
            b.groups.push(g);
        }
        file_block(&mut d, "OSMData", &b.bytes(), false);
    }
    (d, all)
}
/// ids symbolic, kinds chosen
fn mixed_models() -> Vec<Model> {
    let shape = [&[0u64, 0, 1, 2][..], &[2, 1, 0, 1], &[1, 1], &[]][choose("shape", 4) as usize];
    let mut all = vec![];
    for (i, k) in shape.iter().enumerate() {
        let mut m = Model::new(otype(*k), dec(["i0", "i1", "i2", "i3"][i], 2) as i64);
        m.version = Some(1);
        if *k == 0 {
            m.lat_lon = Some((0, 0));
        }
        all.push(m);
    }
    all
}
pub(crate) fn document<W: OSMWriter<Sink>>(all: &[Model]) -> Vec<u8> {
    let s = Sink::default();
    let mut w = W::new(s.clone());
    for m in all {
        check(w.write_obj(&make(m)).is_ok(), "write");
    }
    check(w.close().is_ok(), "close");
    std::mem::forget(w);
    s.get()
}
fn filters_string() {
    let (d, all) = mixed_pbf();
    let mut r = stringpbf::PBFReader::new(&d[..]);
    if choose("trait", 2) == 0 {
        filtered!(stringpbf::PBFReader<&[u8]>, stringpbf::PBFReader::nodes, stringpbf::PBFReader::ways, stringpbf::PBFReader::relations);
        plan(&all, |k, n, h| take(&mut r, k, n, h));
    } else {
        filtered!(stringpbf::PBFReader<&[u8]>, OSMReader::nodes, OSMReader::ways, OSMReader::relations);
        plan(&all, |k, n, h| take(&mut r, k, n, h));
    }
}
fn filters_arc() {
    filtered!(arcpbf::PBFReader<&[u8]>, arcpbf::PBFReader::nodes, arcpbf::PBFReader::ways, arcpbf::PBFReader::relations);
    let (d, all) = mixed_pbf();
    let mut r = arcpbf::PBFReader::new(&d[..]);
    plan(&all, |k, n, h| take(&mut r, k, n, h));
}
fn filters_xml() {
    filtered!(XMLReader<&[u8]>, XMLReader::nodes, XMLReader::ways, XMLReader::relations);
    let all = mixed_models();
    let d = document::<XMLWriter<Sink>>(&all);
    let mut r = XMLReader::new(&d[..]);
    plan(&all, |k, n, h| take(&mut r, k, n, h));
}
fn filters_osc() {
    filtered!(OSCReader<&[u8]>, OSCReader::nodes, OSCReader::ways, OSCReader::relations);
    let all = mixed_models();
    let d = document::<OSCWriter<Sink>>(&all);
    let mut r = OSCReader::new(&d[..]);
    plan(&all, |k, n, h| take(&mut r, k, n, h));
}

// ---------------------------------------------------------------- C26

/// gives its data in pieces
pub(crate) struct Chunks<'a> {
    data: &'a [u8],
    pos: usize,
    /// at most this many bytes at a time
    max: usize,
    /// no read crosses this position
    cut: usize,
    /// a signal interrupts every other read
    signals: bool,
    interrupted: bool,
}
impl Read for Chunks<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.interrupted = self.signals && !self.interrupted;
        if self.interrupted {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.max).min(self.data.len() - self.pos);
        if self.pos < self.cut {
            n = n.min(self.cut - self.pos);
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub(crate) fn chunked(d: &[u8]) -> Chunks<'_> {
    let k = choose("chunks", if thorough() { 7 } else { 4 });
    let (max, signals) = [(usize::MAX, false), (1, false), (3, false), (4, true), (2, false), (7, false), (1, true)][k as usize];
    let cut = if k == 0 { concrete(u64_in("cut", 1, d.len() as u64)) as usize } else { 0 };
    Chunks { data: d, pos: 0, max, cut, signals, interrupted: false }
}
fn chunks_pbf() {
    let mut b = Block::new();
    let mut all = vec![];
    let mut next = 0;
    let packed = choose("zlib", 2) == 1;
    for k in [0u64, 1] {
        let g = group(&mut b, k, 1, &mut next, &mut all, !packed);
        b.groups.push(g);
    }
    let mut d = vec![];
    file_block(&mut d, "OSMHeader", b"\x22\x0eOsmSchema-V0.6", false);
    file_block(&mut d, "OSMData", &b.bytes(), packed);
    let mut b = Block::new();
    let g = group(&mut b, 2, 1, &mut next, &mut all, true);
    b.groups.push(g);
    file_block(&mut d, "OSMData", &b.bytes(), false);
    let c = chunked(&d);
    match choose("reader", 3) {
        0 => read_with(&mut stringpbf::PBFReader::new(c), &all),
        1 => read_with(&mut arcpbf::PBFReader::new(c), &all),
        _ => {
            let mut r = stringpbf::PBFNodePositionReader::from_reader(c);
            match r.next() {
                Some((i, (x, y))) => check(i == all[0].id && x.inner() == 7 && y.inner() == 8, "position"),
                None => check(false, "missing"),
            }
            check(r.next().is_none(), "end");
        }
    }
    reach("chunks");
}
fn chunk_models() -> Vec<Model> {
    let mut m = Model::new(OSMObjectType::Node, dec("id", 2) as i64);
    m.version = Some(1);
    m.user = Some(crate::doc::wide("user"));
    m.tags = vec![("k".into(), "a&\u{e9}".into())];
    let mut w = Model::new(OSMObjectType::Way, 3);
    w.nodes = vec![dec("n", 2) as i64];
    vec![m, w]
}
fn chunks_xml() {
    let all = chunk_models();
    let d = document::<XMLWriter<Sink>>(&all);
    read_with(&mut XMLReader::new(chunked(&d)), &all);
    reach("chunks");
}
fn chunks_osc() {
    let all = chunk_models();
    let d = document::<OSCWriter<Sink>>(&all);
    read_with(&mut OSCReader::new(chunked(&d)), &all);
    reach("chunks");
}

// ---------------------------------------------------------------- C28

fn cut_with<R: OSMReader>(mut r: R, all: &[Model], whole: usize) {
    for m in &all[..whole] {
        match r.next() {
            Some(o) => agrees(&o, m),
            None => check(false, "missing"),
        }
    }
    // ending, or a panic, is all that may follow
    allow_panic(true);
    check(r.next().is_none(), "object-from-a-truncated-block");
    check(r.next().is_none(), "object-after-the-end");
}
/// a stream that hands out what it has even if that is less than asked for, as files do
struct Plain<'a>(&'a [u8]);
impl std::io::Read for Plain<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
/// a file of a header and two blocks, what it holds, and where how many objects are complete
fn two_blocks() -> (Vec<u8>, Vec<Model>, Vec<(usize, usize)>) {
    let packed = choose("zlib", 2) == 1;
    let mut d = vec![];
    let mut all = vec![];
    let mut next = 0;
    let mut ends = vec![];
    let first = choose("kind", 4);
    file_block(&mut d, "OSMHeader", b"\x22\x0eOsmSchema-V0.6", false);
    for i in 0..2 {
        let mut b = Block::new();
        let g = group(&mut b, (first + i) % 4, 2 - i as usize, &mut next, &mut all, !packed);
        b.groups.push(g);
        file_block(&mut d, "OSMData", &b.bytes(), packed);
        ends.push((d.len(), all.len()));
    }
    (d, all, ends)
}
fn truncated() {
    let (d, all, ends) = two_blocks();
    let at = concrete(u64_in("cut", 0, d.len() as u64)) as usize;
    let whole = ends.iter().filter(|e| e.0 <= at).map(|e| e.1).max().unwrap_or(0);
    let t = Plain(&d[..at]);
    match choose("reader", 3) {
        0 => cut_with(stringpbf::PBFReader::new(t), &all, whole),
        1 => cut_with(arcpbf::PBFReader::new(t), &all, whole),
        _ => {
            let mut r = stringpbf::PBFNodePositionReader::from_reader(t);
            for m in all[..whole].iter().filter(|m| m.kind == OSMObjectType::Node) {
                match r.next() {
                    Some((i, (x, y))) => check(i == m.id && Some((x.inner(), y.inner())) == m.lat_lon, "position"),
                    None => check(false, "missing"),
                }
            }
            allow_panic(true);
            check(r.next().is_none(), "position-from-a-truncated-block");
        }
    }
    reach("cut");
}

// ---------------------------------------------------------------- C37

/// fails at one place, once or for good
pub(crate) struct Failing<'a> {
    data: &'a [u8],
    pos: usize,
    at: usize,
    max: usize,
    once: bool,
    kind: std::io::ErrorKind,
    pub(crate) failed: std::rc::Rc<std::cell::Cell<usize>>,
}
impl Read for Failing<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let mut end = self.data.len();
        if !self.once || self.failed.get() == 0 {
            if self.pos == self.at {
                self.failed.set(self.failed.get() + 1);
                return Err(self.kind.into());
            }
            end = self.at;
        }
        let n = b.len().min(self.max).min(end - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub(crate) fn failing(data: &[u8], at: usize) -> Failing<'_> {
    use std::io::ErrorKind::*;
    let (kind, once, max) = [
        (Other, false, usize::MAX),
        (UnexpectedEof, true, 5),
        (TimedOut, true, usize::MAX),
        (InvalidData, false, 1),
        (ConnectionReset, false, 3),
        (WouldBlock, true, 1),
    ][choose("fault", if thorough() { 6 } else { 3 }) as usize];
    Failing { data, pos: 0, at, max, once, kind, failed: Default::default() }
}
pub(crate) fn fails_with<R: OSMReader>(mut r: R, all: &[Model], whole: usize, must: bool) {
    for m in &all[..whole] {
        match r.next() {
            Some(o) => agrees(&o, m),
            None => check(false, "missing"),
        }
    }
    reach("failed");
    allow_panic(true);
    match r.next() {
        Some(_) => check(false, "object-after-failure"),
        None => check(!must, "failure-taken-for-the-end"),
    }
}
fn failing_pbf() {
    let (d, all, ends) = two_blocks();
    let at = concrete(u64_in("at", 0, d.len() as u64)) as usize;
    let whole = ends.iter().filter(|e| e.0 <= at).map(|e| e.1).max().unwrap_or(0);
    let f = failing(&d, at);
    match choose("reader", 3) {
        0 => fails_with(stringpbf::PBFReader::new(f), &all, whole, true),
        1 => fails_with(arcpbf::PBFReader::new(f), &all, whole, true),
        _ => {
            let mut r = stringpbf::PBFNodePositionReader::from_reader(f);
            for m in all[..whole].iter().filter(|m| m.kind == OSMObjectType::Node) {
                match r.next() {
                    Some((i, (x, y))) => check(i == m.id && Some((x.inner(), y.inner())) == m.lat_lon, "position"),
                    None => check(false, "missing"),
                }
            }
            reach("failed");
            allow_panic(true);
            match r.next() {
                Some(_) => check(false, "position-after-failure"),
                None => check(false, "failure-taken-for-the-end"),
            }
        }
    }
}

// ---------------------------------------------------------------- C34

fn reported<R: OSMReader>(mut r: R, all: &[Model]) {
    for m in all {
        match r.next() {
            Some(o) => agrees(&o, m),
            None => check(false, "missing"),
        }
    }
    reach("broken");
    allow_panic(true);
    match r.next() {
        Some(_) => check(false, "object-after-broken-block"),
        None => check(false, "ended-without-report"),
    }
}
/// a block that cannot be read between two that can
fn broken() {
    let mut d = vec![];
    let mut all = vec![];
    let mut next = 0;
    let kind = choose("kind", 4);
    let mut b = Block::new();
    let g = group(&mut b, kind, 1, &mut next, &mut all, true);
    b.groups.push(g);
    file_block(&mut d, "OSMData", &b.bytes(), false);
    let mut rest = vec![];
    let mut b = Block::new();
    let g = group(&mut b, (kind + choose("then", 2)) % 4, 2, &mut next, &mut rest, false);
    b.groups.push(g);
    let data = b.bytes();
    let mut z = zlib(&data);
    let what = choose("what", 9);
    let size = choose("size", 2) == 1 || what == 8;
    let mut f = vec![];
    if size {
        key(&mut f, 2, 0);
        vi(&mut f, data.len() as u64);
    }
    let l = z.len();
    match what {
        // nothing, or compressed in a way the readers do not know
        0 => {}
        1..=4 => len(&mut f, 3 + what, &z),
        5 => {
            // the check sum is wrong
            let v = (u64_in("sum", 0, u32::MAX as u64) as u32).to_be_bytes();
            assume(v != z[l - 4..]);
            z[l - 4..].copy_from_slice(&v);
            len(&mut f, 3, &z);
        }
        6 => {
            // not zlib data
            let (x, y) = (u64_in("first", 0, 255), u64_in("second", 0, 255));
            assume(x & 15 != 8 || y & 32 != 0 || (x * 256 + y) % 31 != 0);
            z[0] = x as u8;
            z[1] = y as u8;
            len(&mut f, 3, &z);
        }
        7 => {
            // a block type deflate does not have
            z[2] |= 6;
            len(&mut f, 3, &z);
        }
        _ => {
            // compressed data without its end
            let at = concrete(u64_in("cut", 0, l as u64 - 1)) as usize;
            len(&mut f, 3, &z[..at]);
        }
    }
    put_blob(&mut d, "OSMData", &f, false);
    let mut b = Block::new();
    let g = group(&mut b, kind, 1, &mut next, &mut rest, true);
    b.groups.push(g);
    file_block(&mut d, "OSMData", &b.bytes(), false);
    match choose("reader", 3) {
        0 => reported(stringpbf::PBFReader::new(&d[..]), &all),
        1 => reported(arcpbf::PBFReader::new(&d[..]), &all),
        _ => {
            let mut r = stringpbf::PBFNodePositionReader::from_reader(&d[..]);
            for m in all.iter().filter(|m| m.kind == OSMObjectType::Node) {
                check(r.next().map(|x| x.0) == Some(m.id), "missing");
            }
            reach("broken");
            allow_panic(true);
            match r.next() {
                Some(_) => check(false, "position-after-broken-block"),
                None => check(false, "ended-without-report"),
            }
        }
    }
}
fn never_guessed<R: OSMReader>(mut r: R, all: &[Model]) {
    reach("broken");
    allow_panic(true);
    // all that may come before the report is what the file says
    for m in &all[..all.len() - 1] {
        match r.next() {
            Some(o) => agrees(&o, m),
            None => check(false, "ended-without-report"),
        }
    }
    check(r.next().is_none(), "object-from-broken-block");
    check(false, "ended-without-report");
}
/// a block that refers to strings or coordinates it does not have
fn dangling() {
    let mut d = vec![];
    let mut all = vec![];
    let mut b = Block::new();
    let mut g = vec![];
    let kind = choose("kind", 4);
    for i in 0..2 {
        let mut m = Model::new(otype(kind % 3), i64_in("id", 0, (1 << 40) - 1));
        m.version = Some(1);
        m.user = Some("u".into());
        if i == 1 || choose("tags", 2) == 1 {
            m.tags = vec![("k".into(), "v".into()), ("l".into(), "w".into())];
        }
        match kind {
            0 | 3 => m.lat_lon = Some((7, 8)),
            1 => m.nodes = vec![1, 2],
            _ => m.members = vec![(OSMObjectType::Way, 6, "r".into()), (OSMObjectType::Node, 7, "s".into())],
        }
        let inf = if kind == 0 { vec![] } else { info(&mut b, &m, None, None) };
        match kind {
            0 => {}
            1 => put_way(&mut b, &mut g, &m, Some(inf)),
            2 => put_rel(&mut b, &mut g, &m, Some(inf)),
            _ => put_node(&mut b, &mut g, &m, (7, 8), Some(inf)),
        }
        all.push(m);
    }
    let short = kind == 0 && choose("coordinates", 2) == 1;
    if kind == 0 {
        let raw = vec![(7, 8); if short { choose("given", 2) as usize } else { 2 }];
        put_dense(&mut b, &mut g, &all, &raw, &[], Cols { timestamp: false, changeset: false, uid: false, visible: false, ..ALL });
    }
    if !short {
        let n = concrete(u64_in("strings", 0, b.strings.len() as u64 - 1)) as usize;
        b.strings.truncate(n);
    }
    b.groups.push(g);
    file_block(&mut d, "OSMData", &b.bytes(), false);
    match choose("reader", if short { 3 } else { 2 }) {
        0 => never_guessed(stringpbf::PBFReader::new(&d[..]), &all),
        1 => never_guessed(arcpbf::PBFReader::new(&d[..]), &all),
        _ => {
            let mut r = stringpbf::PBFNodePositionReader::from_reader(&d[..]);
            reach("broken");
            allow_panic(true);
            let first = r.next();
            check(first.map(|x| x.0) == Some(all[0].id), "ended-without-report");
            check(r.next().is_some(), "ended-without-report");
            check(false, "position-from-broken-block");
        }
    }
}

// ---------------------------------------------------------------- C35

/// one byte replaced by another, removed or inserted; the place
pub(crate) fn damage(d: &mut Vec<u8>, from: usize) -> usize {
    let at = from + choose("at", (d.len() - from) as u64) as usize;
    match choose("damage", if thorough() { 3 } else { 2 }) {
        0 => {
            let x = any_u8("byte");
            assume(x != d[at]);
            d[at] = x;
        }
        1 => {
            d.remove(at);
        }
        _ => d.insert(at, any_u8("byte")),
    }
    at
}
/// what ended before the damage is there; then anything, but not for ever
pub(crate) fn damaged<R: OSMReader>(mut r: R, all: &[Model], whole: usize) {
    for m in &all[..whole] {
        match r.next() {
            Some(o) => agrees(&o, m),
            None => check(false, "missing-before-the-damage"),
        }
    }
    reach("damaged");
    allow_panic(true);
    limit(crate::pbft::STEPS);
    let mut n = 0;
    while n < 100 && r.next().is_some() {
        n += 1;
    }
    check(n < 100, "endless");
    limit(0);
}
pub(crate) const STEPS: u64 = 3_000_000;
fn damaged_pbf() {
    let first = choose("kind", 4);
    let packed = (thorough() || first == 3) && choose("zlib", 2) == 1;
    let mut d = vec![];
    let mut all = vec![];
    let mut next = 0;
    let mut ends = vec![];
    for i in 0..2 {
        let mut b = Block::new();
        let g = group(&mut b, (first + i) % 4, 1, &mut next, &mut all, false);
        b.groups.push(g);
        file_block(&mut d, "OSMData", &b.bytes(), packed);
        ends.push((d.len(), all.len()));
    }
    let from = if thorough() { 0 } else { ends[0].0 };
    let at = damage(&mut d, from);
    // greater lengths only mean a lot of memory
    let base = if at < ends[0].0 { 0 } else { ends[0].0 };
    assume(d[base] == 0 && d[base + 1] == 0 && d[base + 2] < 4);
    let whole = ends.iter().filter(|e| e.0 <= at).map(|e| e.1).max().unwrap_or(0);
    match choose("reader", 3) {
        0 => damaged(stringpbf::PBFReader::new(&d[..]), &all, whole),
        1 => damaged(arcpbf::PBFReader::new(&d[..]), &all, whole),
        _ => {
            let mut r = stringpbf::PBFNodePositionReader::from_reader(&d[..]);
            for m in all[..whole].iter().filter(|m| m.kind == OSMObjectType::Node) {
                match r.next() {
                    Some((i, (x, y))) => check(i == m.id && Some((x.inner(), y.inner())) == m.lat_lon, "position"),
                    None => check(false, "missing-before-the-damage"),
                }
            }
            reach("damaged");
            allow_panic(true);
            limit(STEPS);
            let mut n = 0;
            while n < 100 && r.next().is_some() {
                n += 1;
            }
            check(n < 100, "endless");
            limit(0);
        }
    }
}

// ---------------------------------------------------------------- C32

fn copy_to<S: OSMReader, W: OSMWriter<Sink>>(mut r: S, back: impl Fn(&[u8], &[Model]), all: &[Model]) {
    let s = Sink::default();
    let mut w = W::new(s.clone());
    let mut n = 0;
    for o in r.objects() {
        check(w.write_obj(&o).is_ok(), "write");
        n += 1;
    }
    check(n == all.len(), "number-of-objects");
    check(w.close().is_ok(), "close");
    std::mem::forget(w);
    let d = s.get();
    observe(&d);
    back(&d, all);
    reach("copied");
}
fn copy(all: &[Model], dense: bool, packed: bool) {
    let mut b = Block::new();
    let mut g = [vec![], vec![], vec![]];
    let nodes: Vec<Model> = all.iter().filter(|m| m.kind == OSMObjectType::Node).cloned().collect();
    if dense && !nodes.is_empty() {
        let raw: Vec<(i64, i64)> = nodes.iter().map(|m| m.lat_lon.unwrap()).map(|(a, b)| (a as i64, b as i64)).collect();
        let meta = nodes[0].version.is_some();
        let ts: Vec<i64> = nodes.iter().filter_map(epoch).collect();
        put_dense(&mut b, &mut g[0], &nodes, &raw, &ts, Cols { info: meta, keys_vals: nodes.iter().any(|m| !m.tags.is_empty()), ..ALL });
    } else {
        for m in &nodes {
            let p = m.lat_lon.unwrap();
            let i = info(&mut b, m, epoch(m), Some(!m.deleted));
            put_node(&mut b, &mut g[0], m, (p.0 as i64, p.1 as i64), Some(i));
        }
    }
    for m in all {
        let i = info(&mut b, m, epoch(m), Some(!m.deleted));
        match m.kind {
            OSMObjectType::Node => {}
            OSMObjectType::Way => put_way(&mut b, &mut g[1], m, Some(i)),
            OSMObjectType::Relation => put_rel(&mut b, &mut g[2], m, Some(i)),
        }
    }
    let mut d = vec![];
    for x in g {
        if !x.is_empty() {
            let one = Block { groups: vec![x], ..b.clone() };
            file_block(&mut d, "OSMData", &one.bytes(), packed);
        }
    }
    let xml = |d: &[u8], all: &[Model]| read_with(&mut XMLReader::new(d), all);
    let osc = |d: &[u8], all: &[Model]| read_with(&mut OSCReader::new(d), all);
    match choose("from-to", 4) {
        0 => copy_to::<_, XMLWriter<Sink>>(stringpbf::PBFReader::new(&d[..]), xml, all),
        1 => copy_to::<_, XMLWriter<Sink>>(arcpbf::PBFReader::new(&d[..]), xml, all),
        2 => copy_to::<_, OSCWriter<Sink>>(stringpbf::PBFReader::new(&d[..]), osc, all),
        _ => copy_to::<_, OSCWriter<Sink>>(arcpbf::PBFReader::new(&d[..]), osc, all),
    }
}
fn degrees() -> i32 {
    // symbolic coordinates: C02 and C08
    [0, 1, -1, 515_000_000, -1_799_999_999, i32::MAX, -i32::MAX, 100][choose("coordinate", 8) as usize]
}
fn number(max: i64) -> i64 {
    match choose("number", 5) {
        0 => dec("x", 3) as i64,
        1 => -(dec("x", 4) as i64),
        2 => 0,
        3 => max,
        _ => -max,
    }
}
/// one value at a time
fn copy_values() {
    let kind = choose("kind", 3);
    let mut m = full(kind);
    match choose("field", 11) {
        0 => m.id = number((1 << 62) - 1),
        1 => m.version = Some(number((1 << 31) - 1).unsigned_abs() as u32),
        2 => m.changeset = Some(number(u32::MAX as i64).unsigned_abs() as u32),
        3 => m.uid = Some(number((1 << 31) - 1).unsigned_abs() as u32),
        4 => m.ts = Some(some_ts("ts")),
        5 => match kind {
            0 => m.lat_lon = Some((degrees(), 7)),
            1 => m.nodes = vec![1, number((1 << 62) - 1)],
            _ => m.members = vec![(otype(choose("mtype", 3)), number((1 << 62) - 1), "r".into())],
        },
        6 if kind == 0 => m.lat_lon = Some((-7, degrees())),
        6 => m.deleted = true,
        k @ 7..=9 => {
            let t = xchar("t");
            put_text(&mut m, k - 7, t)
        }
        _ if kind == 2 => m.members[1].2 = xchar("t"),
        _ => {
            // no metadata at all
            m.version = None;
            m.ts = None;
            m.changeset = None;
            m.uid = None;
            m.user = None;
            m.tags.clear();
        }
    }
    copy(&[m], choose("dense", if kind == 0 { 2 } else { 1 }) == 1, false)
}
/// several objects of several sizes
fn copy_many() {
    let mut all = vec![];
    let n = choose("nodes", 3);
    let bare = choose("bare", 2) == 1;
    for i in 0..n {
        let mut m = full(0);
        m.id = 100 + i as i64;
        m.tags.truncate((n - i) as usize % 3);
        m.tags.extend((0..i * 2).map(|x| (format!("key:{x}"), format!("a value that is not kept inline {x}"))));
        m.deleted = i == 1;
        all.push(m);
    }
    for k in [1, 2] {
        for i in 0..choose("others", 3) {
            let mut m = full(k);
            m.id = 7 - i as i64;
            if i == 1 {
                m.nodes.clear();
                m.members.clear();
                m.tags.clear();
            }
            m.user = Some(["a user whose name is not short", "", "u"][(i + k) as usize % 3].into());
            m.deleted = i == k;
            all.push(m);
        }
    }
    if bare {
        for m in &mut all {
            let mut x = Model::new(m.kind, m.id);
            x.lat_lon = m.lat_lon;
            x.nodes = m.nodes.clone();
            x.members = m.members.clone();
            *m = x;
        }
    }
    for m in &mut all {
        if m.kind != OSMObjectType::Node || m.id != 100 {
            continue;
        }
        m.lat_lon = Some((dec("lat", 3) as i32, -5));
    }
    copy(&all, choose("dense", 2) == 1, choose("zlib", 2) == 1 && n == 0)
}

entries! {
    c32_values => copy_values();
    c32_many => copy_many();
    c30_read => read_equal();
    c01_values => dense_values();
    c01_columns => dense_columns();
    c01_strings => dense_strings();
    c01_dates => dates(0);
    c01_plain => plain_nodes();
    c01_plain_dates => dates(3);
    c01_large => large(0);
    c01_plain_large => large(3);
    c03_large => large(1);
    c04_large => large(2);
    c05_deflated => deflated();
    c05_many => many_blocks();
    c02_coords => coords();
    c03_values => way_values();
    c03_fields => way_rel_fields(1);
    c03_dates => dates(1);
    c04_values => rel_values();
    c04_fields => way_rel_fields(2);
    c04_dates => dates(2);
    c05_blocks => blocks();
    c05_groups => groups();
    c05_sizes => dense_many();
    c06_meta => agree_meta();
    c06_lists => agree_lists();
    c06_files => agree_files();
    c07_string => filters_string();
    c07_arc => filters_arc();
    c07_xml => filters_xml();
    c07_osc => filters_osc();
    c26_pbf => chunks_pbf();
    c37_pbf => failing_pbf();
    c26_xml => chunks_xml();
    c26_osc => chunks_osc();
    c28_truncated => truncated();
    c34_broken => broken();
    c34_dangling => dangling();
    c35_pbf => damaged_pbf();
}
