//! C17, C18, C19, C23, C24, C25: the object model.
use crate::rt::*;
use osmio::obj_types::*;
use osmio::verif_hooks as h;
use osmio::{Lat, Lon, Node, OSMObj, OSMObjBase, OSMObjectType, Relation, TimestampFormat, Way};
use std::str::FromStr;

pub(crate) fn snode(id: i64) -> StringNode {
    StringNodeBuilder::default()._id(id).build().unwrap()
}
pub(crate) fn sway(id: i64) -> StringWay {
    StringWayBuilder::default()._id(id).build().unwrap()
}
pub(crate) fn srel(id: i64) -> StringRelation {
    StringRelationBuilder::default()._id(id).build().unwrap()
}

// ---------------------------------------------------------------- C17

/// two symbolic bytes and enough fixed text to exceed what SmolStr keeps inline
pub(crate) fn long(n: &str) -> String {
    let mut s = ascii(n, 1);
    s.push_str("-kept on the heap, not inline");
    s.push_str(&ascii(n, 1));
    s
}
/// one inline or one heap-allocated string
fn key(n: &str, longs: bool) -> String {
    if longs && choose("long", 2) == 1 {
        long(n)
    } else {
        ascii(n, 1)
    }
}

/// how a history of tag calls is chosen
#[derive(Clone, Copy)]
enum Mode {
    /// this many calls; keys of one byte, also heap-allocated ones
    Calls(usize, bool),
    /// two calls, keys of 0 to 3 bytes
    Lengths,
    /// one or two calls on an object that has this many tags
    Many(usize),
}
fn tag_ops<O: OSMObjBase>(mut o: O, mode: Mode) {
    let mut model: Vec<(String, String)> = Vec::new();
    let (nops, longs) = match mode {
        Mode::Calls(n, l) => (n, l),
        Mode::Lengths => (2, false),
        Mode::Many(_) => (1 + thorough() as usize, false),
    };
    let key = |n: &str, longs: bool| match mode {
        Mode::Calls(..) => key(n, longs),
        Mode::Lengths => ascii(n, choose("len", if n == "q" && !thorough() { 3 } else { 4 }) as usize),
        Mode::Many(_) => {
            let mut s = String::from("key-");
            s.push_str(&ascii_in(n, 1, b'a', b'z'));
            s
        }
    };
    if !bare(mode) {
        o.set_version(3);
        o.set_user("someone");
        o.set_uid(4);
        o.set_changeset_id(5);
        o.set_timestamp(TimestampFormat::EpochNumber(6));
        o.set_deleted(true);
    }
    check(o.num_tags() == 0 && o.untagged() && !o.tagged(), "C17.initially-untagged");
    if let Mode::Many(n) = mode {
        for i in 0..n {
            let k = format!("key-{}", (b'a' + (7 * i % 26) as u8) as char);
            let v = ascii(["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9"][i % 10], 1);
            o.set_tag(&k, v.clone());
            model.push((k, v));
        }
    }
    for i in 0..nops {
        let key = key("k", longs);
        let old = model.iter().position(|(k, _)| *k == key);
        if choose("op", 2) == 0 {
            let val = ascii(["v0", "v1", "v2", "v3", "v4"][i], 1);
            o.set_tag(&key, val.clone());
            match old {
                Some(i) => model[i].1 = val,
                None => model.push((key, val)),
            }
        } else {
            o.unset_tag(&key);
            if let Some(i) = old {
                model.remove(i);
                reach("unset");
            }
        }
    }
    check(o.num_tags() == model.len(), "C17.num_tags");
    check(o.untagged() == model.is_empty(), "C17.untagged");
    check(o.tagged() == !model.is_empty(), "C17.tagged");
    let it = o.tags();
    check(it.len() == model.len(), "C17.tags-len");
    let mut n = 0;
    for (k, v) in it {
        check(n < model.len() && same_str(k, &model[n].0) && same_str(v, &model[n].1), "C17.tags-content");
        n += 1;
    }
    check(n == model.len(), "C17.tags-count");
    let q = key("q", longs);
    let want = model.iter().find(|(k, _)| *k == q).map(|(_, v)| v.as_str());
    check(same_opt(o.tag(&q), want), "C17.tag");
    check(o.has_tag(&q) == want.is_some(), "C17.has_tag");
    if model.len() == 2 {
        reach("two-tags");
    }
}

fn tags_map(longs: bool) {
    tags_on_all(Mode::Calls(if longs { 2 } else { 4 } + thorough() as usize, longs))
}
/// objects that hold nothing else but the tags
fn bare(mode: Mode) -> bool {
    matches!(mode, Mode::Calls(_, false))
}
fn tags_on_all(n: Mode) {
    let id = 1;
    fn nd<O: Node>(mut o: O, mode: Mode) -> O {
        if !bare(mode) {
            o.set_lat_lon_direct(Some((Lat::from_inner(1), Lon::from_inner(2))));
        }
        o
    }
    fn wy<O: Way>(mut o: O, mode: Mode) -> O {
        if !bare(mode) {
            o.set_nodes([1i64, 2, 1]);
        }
        o
    }
    fn rl<O: Relation>(mut o: O, mode: Mode) -> O {
        if !bare(mode) {
            o.set_members([(OSMObjectType::Way, 1, "r")]);
        }
        o
    }
    match choose("type", 18) {
        0 => tag_ops(nd(snode(id), n), n),
        1 => tag_ops(wy(sway(id), n), n),
        2 => tag_ops(rl(srel(id), n), n),
        3 => tag_ops(nd(h::arc_node(id), n), n),
        4 => tag_ops(wy(h::arc_way(id), n), n),
        5 => tag_ops(rl(h::arc_relation(id), n), n),
        6 => tag_ops(nd(h::rc_node(id), n), n),
        7 => tag_ops(wy(h::rc_way(id), n), n),
        8 => tag_ops(rl(h::rc_relation(id), n), n),
        9 => tag_ops(StringOSMObj::Node(nd(snode(id), n)), n),
        10 => tag_ops(StringOSMObj::Way(wy(sway(id), n)), n),
        11 => tag_ops(StringOSMObj::Relation(rl(srel(id), n)), n),
        12 => tag_ops(ArcOSMObj::Node(nd(h::arc_node(id), n)), n),
        13 => tag_ops(ArcOSMObj::Way(wy(h::arc_way(id), n)), n),
        14 => tag_ops(ArcOSMObj::Relation(rl(h::arc_relation(id), n)), n),
        15 => tag_ops(RcOSMObj::Node(nd(h::rc_node(id), n)), n),
        16 => tag_ops(RcOSMObj::Way(wy(h::rc_way(id), n)), n),
        _ => tag_ops(RcOSMObj::Relation(rl(h::rc_relation(id), n)), n),
    }
}

// ---------------------------------------------------------------- C18

/// expected contents of an object
#[derive(Clone)]
pub(crate) struct Model {
    pub kind: OSMObjectType,
    pub id: i64,
    pub version: Option<u32>,
    pub deleted: bool,
    pub changeset: Option<u32>,
    pub ts: Option<TimestampFormat>,
    pub uid: Option<u32>,
    pub user: Option<String>,
    pub tags: Vec<(String, String)>,
    pub lat_lon: Option<(i32, i32)>,
    pub nodes: Vec<i64>,
    pub members: Vec<(OSMObjectType, i64, String)>,
}

impl Model {
    pub fn new(kind: OSMObjectType, id: i64) -> Self {
        Model { kind, id, version: None, deleted: false, changeset: None, ts: None, uid: None, user: None, tags: vec![], lat_lon: None, nodes: vec![], members: vec![] }
    }
}

pub(crate) fn same_ts(a: &Option<TimestampFormat>, b: &Option<TimestampFormat>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(TimestampFormat::EpochNumber(x)), Some(TimestampFormat::EpochNumber(y))) => x == y,
        (Some(TimestampFormat::ISOString(x)), Some(TimestampFormat::ISOString(y))) => same_str(x, y),
        _ => false,
    }
}

pub(crate) fn check_base<O: OSMObjBase>(o: &O, m: &Model) {
    check(o.id() == m.id, "id");
    check(o.version() == m.version, "version");
    check(o.deleted() == m.deleted, "deleted");
    check(o.changeset_id() == m.changeset, "changeset");
    check(same_ts(o.timestamp(), &m.ts), "timestamp");
    check(o.uid() == m.uid, "uid");
    check(same_opt(o.user(), m.user.as_deref()), "user");
    check(o.object_type() == m.kind, "object-type");
    let t: Vec<_> = o.tags().collect();
    check(t.len() == m.tags.len(), "tags-len");
    for (i, (k, v)) in t.iter().enumerate() {
        check(same_str(k, &m.tags[i].0) && same_str(v, &m.tags[i].1), "tags");
    }
}
pub(crate) fn check_node<O: Node>(o: &O, m: &Model) {
    check(o.lat_lon().map(|(a, b)| (a.inner(), b.inner())) == m.lat_lon, "lat-lon");
    check(o.has_lat_lon() == m.lat_lon.is_some(), "has-lat-lon");
    match (o.lat_lon_f64(), m.lat_lon) {
        (None, None) => {}
        (Some((a, b)), Some((c, d))) => {
            check(a.to_bits() == osmio::lat_lon_inner_to_degrees(c).to_bits(), "lat-f64");
            check(b.to_bits() == osmio::lat_lon_inner_to_degrees(d).to_bits(), "lon-f64");
        }
        _ => check(false, "lat-lon-f64"),
    }
}
pub(crate) fn check_way<O: Way>(o: &O, m: &Model) {
    check(o.nodes().len() == m.nodes.len() && o.num_nodes() == m.nodes.len() && o.nids().len() == m.nodes.len(), "num-nodes");
    for (i, n) in o.nodes().iter().enumerate() {
        check(*n == m.nodes[i], "nodes");
        check(o.node(i) == Some(*n), "node-at");
        check(o.nids()[i] == *n, "nids");
    }
    check(o.node(m.nodes.len()).is_none(), "node-past-end");
}
pub(crate) fn check_rel<O: Relation>(o: &O, m: &Model) {
    let it = o.members();
    check(it.len() == m.members.len(), "members-len");
    let mut n = 0;
    for (t, i, r) in it {
        check(n < m.members.len() && t == m.members[n].0 && i == m.members[n].1 && same_str(r, &m.members[n].2), "members");
        n += 1;
    }
    check(n == m.members.len(), "members-count");
}

fn sym_ts(n: &str) -> Option<TimestampFormat> {
    match choose("ts", 3) {
        0 => None,
        1 => Some(TimestampFormat::EpochNumber(any_i64(n))),
        _ => Some(TimestampFormat::ISOString(ascii(n, 2))),
    }
}

pub(crate) fn otype(k: u64) -> OSMObjectType {
    [OSMObjectType::Node, OSMObjectType::Way, OSMObjectType::Relation][k as usize]
}

const NBASE: u64 = 12;
fn base_setter<O: OSMObjBase>(o: &mut O, m: &mut Model, op: u64) {
    match op {
        0 => {
            m.id = any_i64("id");
            o.set_id(m.id);
        }
        1 => {
            m.version = opt_u32("version");
            o.set_version(m.version);
        }
        2 => {
            m.deleted = any_bool("deleted");
            o.set_deleted(m.deleted);
        }
        3 => {
            m.changeset = opt_u32("changeset");
            o.set_changeset_id(m.changeset);
        }
        4 => {
            m.ts = sym_ts("ts");
            o.set_timestamp(m.ts.clone());
        }
        5 => {
            m.uid = opt_u32("uid");
            o.set_uid(m.uid);
        }
        6 => {
            m.user = if choose("some", 2) == 1 { Some(match choose("len", 3) {
                0 => String::new(),
                1 => ascii("user", 2),
                _ => long("user"),
            }) } else { None };
            o.set_user(m.user.as_deref());
        }
        7 => {
            o.strip_metadata();
            m.uid = None;
            m.user = None;
            m.changeset = None;
            reach("strip");
        }
        8 => {
            let (k, v) = (ascii("k", 1), ascii("v", 1));
            match m.tags.iter().position(|t| t.0 == k) {
                Some(i) => m.tags[i].1 = v.clone(),
                None => m.tags.push((k.clone(), v.clone())),
            }
            o.set_tag(k, v);
        }
        9 => {
            let k = ascii("k", 1);
            if let Some(i) = m.tags.iter().position(|t| t.0 == k) {
                m.tags.remove(i);
            }
            o.unset_tag(k);
        }
        10 => {
            // plain values rather than options
            let v = any_u32("version");
            m.version = Some(v);
            o.set_version(v);
            let v = any_u32("uid");
            m.uid = Some(v);
            o.set_uid(v);
            let v = any_u32("changeset");
            m.changeset = Some(v);
            o.set_changeset_id(v);
        }
        _ => {
            let v = any_i32("id");
            m.id = v as i64;
            o.set_id(v);
        }
    }
}
fn node_setter<O: Node>(o: &mut O, m: &mut Model) {
    match choose("node-op", 4) {
        0 => {
            let (a, b) = (any_i32("lat"), any_i32("lon"));
            m.lat_lon = Some((a, b));
            o.set_lat_lon_direct(Some((Lat::from_inner(a), Lon::from_inner(b))));
        }
        1 => {
            m.lat_lon = None;
            o.unset_lat_lon();
        }
        2 => {
            m.lat_lon = None;
            check(o.set_lat_lon(None as Option<(f64, f64)>).is_ok(), "set-none");
        }
        _ => {
            // each coordinate either a valid number of degrees or out of range
            let x = any_i32("lat");
            let y = any_i32("lon");
            let bad = [f64::NAN, 214.75, -214.75, f64::INFINITY, 1e300];
            let (a, aok) = match choose("lat-bad", 6) {
                0 => (osmio::lat_lon_inner_to_degrees(x), true),
                i => (bad[i as usize - 1], false),
            };
            let (b, bok) = match choose("lon-bad", 3) {
                0 => (osmio::lat_lon_inner_to_degrees(y), true),
                1 => (-1e10, false),
                _ => (214.74836475, false),
            };
            match o.set_lat_lon((a, b)) {
                Ok(()) => {
                    check(aok && bok, "set-lat-lon-accepts");
                    check(o.lat_lon().map(|(a, b)| (a.inner(), b.inner())) == Some((x, y)), "set-lat-lon-value");
                    m.lat_lon = o.lat_lon().map(|(a, b)| (a.inner(), b.inner()));
                    reach("lat-lon-ok");
                }
                Err(_) => {
                    check(!(aok && bok), "set-lat-lon-rejects");
                    reach("lat-lon-err");
                }
            }
        }
    }
}
fn way_setter<O: Way>(o: &mut O, m: &mut Model) {
    let n = [0, 1, 2, 7][choose("len", 4) as usize];
    m.nodes = (0..n).map(|_| any_i64("n")).collect();
    o.set_nodes(m.nodes.iter().copied());
}
fn rel_setter<O: Relation>(o: &mut O, m: &mut Model) {
    let n = [0, 1, 2, 6][choose("len", 4) as usize];
    m.members = (0..n).map(|i| (otype(if i < 2 { choose("mtype", 3) } else { i % 3 }), any_i64("m"), if i == 3 { long("role") } else { ascii("role", i as usize) })).collect();
    o.set_members(m.members.iter().map(|(t, i, r)| (*t, *i, r.as_str())));
}

/// every field set, with symbolic contents
fn fill_base<O: OSMObjBase>(o: &mut O, m: &mut Model) {
    m.version = Some(any_u32("version0"));
    o.set_version(m.version);
    m.deleted = any_bool("deleted0");
    o.set_deleted(m.deleted);
    m.changeset = Some(any_u32("changeset0"));
    o.set_changeset_id(m.changeset);
    m.ts = Some(TimestampFormat::EpochNumber(any_i64("ts0")));
    o.set_timestamp(m.ts.clone());
    m.uid = Some(any_u32("uid0"));
    o.set_uid(m.uid);
    m.user = Some(ascii("user0", 2));
    o.set_user(m.user.as_deref());
    m.tags = vec![("a".to_string(), ascii("v0", 1)), ("b".to_string(), ascii("v1", 1))];
    for (k, v) in &m.tags {
        o.set_tag(k, v.as_str());
    }
}
fn fill_node<O: Node>(o: &mut O, m: &mut Model) {
    let (a, b) = (any_i32("lat0"), any_i32("lon0"));
    m.lat_lon = Some((a, b));
    o.set_lat_lon_direct(Some((Lat::from_inner(a), Lon::from_inner(b))));
}
fn fill_way<O: Way>(o: &mut O, m: &mut Model) {
    m.nodes = vec![any_i64("n0"), any_i64("n1")];
    o.set_nodes(m.nodes.iter().copied());
}
fn fill_rel<O: Relation>(o: &mut O, m: &mut Model) {
    m.members = vec![(OSMObjectType::Way, any_i64("m0"), ascii("role0", 1))];
    o.set_members(m.members.iter().map(|(t, i, r)| (*t, *i, r.as_str())));
}

fn steps() -> usize {
    if thorough() {
        2
    } else {
        1
    }
}

macro_rules! setters_plain {
    ($fname:ident, $tr:ident, $kind:expr, $fill:ident, $setter:ident, $chk:ident) => {
        fn $fname<O: $tr>(mut o: O, id: i64) {
            let mut m = Model::new($kind, id);
            check_base(&o, &m);
            $chk(&o, &m);
            fill_base(&mut o, &mut m);
            $fill(&mut o, &mut m);
            for _ in 0..steps() {
                let op = choose("op", NBASE + 1);
                if op == NBASE {
                    $setter(&mut o, &mut m);
                } else {
                    base_setter(&mut o, &mut m, op);
                }
                check_base(&o, &m);
                $chk(&o, &m);
            }
            // an untouched copy has the same contents
            let c = o.clone();
            check_base(&c, &m);
            $chk(&c, &m);
            reach("set");
        }
    };
}
setters_plain!(setters_node, Node, OSMObjectType::Node, fill_node, node_setter, check_node);
setters_plain!(setters_way, Way, OSMObjectType::Way, fill_way, way_setter, check_way);
setters_plain!(setters_rel, Relation, OSMObjectType::Relation, fill_rel, rel_setter, check_rel);

pub(crate) fn check_enum<O: OSMObj>(o: &O, m: &Model) {
    check_base(o, m);
    check(o.is_node() == (m.kind == OSMObjectType::Node), "is-node");
    check(o.is_way() == (m.kind == OSMObjectType::Way), "is-way");
    check(o.is_relation() == (m.kind == OSMObjectType::Relation), "is-relation");
    match o.as_node() {
        Some(n) => {
            check(m.kind == OSMObjectType::Node, "as-node");
            check_base(n, m);
            check_node(n, m);
        }
        None => check(m.kind != OSMObjectType::Node, "as-node-none"),
    }
    match o.as_way() {
        Some(n) => {
            check(m.kind == OSMObjectType::Way, "as-way");
            check_base(n, m);
            check_way(n, m);
        }
        None => check(m.kind != OSMObjectType::Way, "as-way-none"),
    }
    match o.as_relation() {
        Some(n) => {
            check(m.kind == OSMObjectType::Relation, "as-relation");
            check_base(n, m);
            check_rel(n, m);
        }
        None => check(m.kind != OSMObjectType::Relation, "as-relation-none"),
    }
    check(o.num_tags() == m.tags.len(), "enum-num-tags");
    check(o.tagged() == !m.tags.is_empty(), "enum-tagged");
}
pub(crate) fn check_into<O: OSMObj>(o: O, m: &Model) {
    match choose("into", 3) {
        0 => match o.into_node() {
            Some(n) => {
                check(m.kind == OSMObjectType::Node, "into-node");
                check_base(&n, m);
                check_node(&n, m);
            }
            None => check(m.kind != OSMObjectType::Node, "into-node-none"),
        },
        1 => match o.into_way() {
            Some(n) => {
                check(m.kind == OSMObjectType::Way, "into-way");
                check_base(&n, m);
                check_way(&n, m);
            }
            None => check(m.kind != OSMObjectType::Way, "into-way-none"),
        },
        _ => match o.into_relation() {
            Some(n) => {
                check(m.kind == OSMObjectType::Relation, "into-relation");
                check_base(&n, m);
                check_rel(&n, m);
            }
            None => check(m.kind != OSMObjectType::Relation, "into-relation-none"),
        },
    }
}

/// setters through the enum and through its as_*_mut references
fn setters_enum<O: OSMObj>(mut o: O, kind: OSMObjectType, id: i64) {
    let mut m = Model::new(kind, id);
    check_enum(&o, &m);
    fill_base(&mut o, &mut m);
    for _ in 0..steps() {
        let op = choose("op", NBASE + 1);
        if op < NBASE {
            base_setter(&mut o, &mut m, op);
        } else {
            let (a, b, c) = (o.as_node_mut().is_some(), o.as_way_mut().is_some(), o.as_relation_mut().is_some());
            check(a == (kind == OSMObjectType::Node) && b == (kind == OSMObjectType::Way) && c == (kind == OSMObjectType::Relation), "as-mut");
            if let Some(n) = o.as_node_mut() {
                node_setter(n, &mut m);
            }
            if let Some(n) = o.as_way_mut() {
                way_setter(n, &mut m);
            }
            if let Some(n) = o.as_relation_mut() {
                rel_setter(n, &mut m);
            }
        }
        check_enum(&o, &m);
    }
    check_into(o, &m);
    reach("set");
}

fn setters() {
    let id = any_i64("id0");
    match choose("type", 18) {
        0 => setters_node(snode(id), id),
        1 => setters_way(sway(id), id),
        2 => setters_rel(srel(id), id),
        3 => setters_node(h::arc_node(id), id),
        4 => setters_way(h::arc_way(id), id),
        5 => setters_rel(h::arc_relation(id), id),
        6 => setters_node(h::rc_node(id), id),
        7 => setters_way(h::rc_way(id), id),
        8 => setters_rel(h::rc_relation(id), id),
        9 => setters_enum(StringOSMObj::from(snode(id)), OSMObjectType::Node, id),
        10 => setters_enum(StringOSMObj::from(sway(id)), OSMObjectType::Way, id),
        11 => setters_enum(StringOSMObj::from(srel(id)), OSMObjectType::Relation, id),
        12 => setters_enum(ArcOSMObj::Node(h::arc_node(id)), OSMObjectType::Node, id),
        13 => setters_enum(ArcOSMObj::Way(h::arc_way(id)), OSMObjectType::Way, id),
        14 => setters_enum(ArcOSMObj::Relation(h::arc_relation(id)), OSMObjectType::Relation, id),
        15 => setters_enum(RcOSMObj::Node(h::rc_node(id)), OSMObjectType::Node, id),
        16 => setters_enum(RcOSMObj::Way(h::rc_way(id)), OSMObjectType::Way, id),
        _ => setters_enum(RcOSMObj::Relation(h::rc_relation(id)), OSMObjectType::Relation, id),
    }
}

// ---------------------------------------------------------------- C19

/// an object with symbolic contents; which optional fields are present is a case split
fn arbitrary_base<O: OSMObjBase>(o: &mut O, m: &mut Model) {
    // one optional field absent, all absent or none absent
    let c = choose("absent", 8);
    let has = |i: u64| c != i && c != 6;
    m.deleted = any_bool("deleted");
    o.set_deleted(m.deleted);
    if has(0) {
        m.version = Some(any_u32("version"));
        o.set_version(m.version);
    }
    if has(1) {
        m.changeset = Some(any_u32("changeset"));
        o.set_changeset_id(m.changeset);
    }
    if has(2) {
        m.ts = if c % 2 == 0 { Some(TimestampFormat::EpochNumber(any_i64("ts"))) } else { Some(TimestampFormat::ISOString(ascii("ts", 3))) };
        o.set_timestamp(m.ts.clone());
    }
    if has(3) {
        m.uid = Some(any_u32("uid"));
        o.set_uid(m.uid);
    }
    if has(4) {
        m.user = Some(if c == 7 { long("user") } else { ascii("user", (c % 3) as usize) });
        o.set_user(m.user.as_deref());
    }
    let nt = [1, 2, 1, 2, 3, 2, 0, 3][c as usize];
    for i in 0..nt {
        let (k, v) = if i == 2 { (long("k"), long("v")) } else { (ascii("k", 1), ascii("v", 1 - i)) };
        for (k2, _) in &m.tags {
            assume(!same_str(k2, &k));
        }
        m.tags.push((k.clone(), v.clone()));
        o.set_tag(k, v);
    }
}
fn arbitrary_node<O: Node>(o: &mut O, m: &mut Model) {
    arbitrary_base(o, m);
    if choose("loc", 2) == 1 {
        fill_node(o, m);
    }
}
fn arbitrary_way<O: Way>(o: &mut O, m: &mut Model) {
    arbitrary_base(o, m);
    way_setter(o, m);
}
fn arbitrary_rel<O: Relation>(o: &mut O, m: &mut Model) {
    arbitrary_base(o, m);
    rel_setter(o, m);
}

fn conversions() {
    let id = any_i64("id");
    let c = choose("type", 12);
    let kind = otype(c % 3);
    let mut m = Model::new(kind, id);
    match c {
        0 => {
            let mut o = h::arc_node(id);
            arbitrary_node(&mut o, &mut m);
            let s = StringNode::from(o);
            check_base(&s, &m);
            check_node(&s, &m);
        }
        1 => {
            let mut o = h::arc_way(id);
            arbitrary_way(&mut o, &mut m);
            let s = StringWay::from(o);
            check_base(&s, &m);
            check_way(&s, &m);
        }
        2 => {
            let mut o = h::arc_relation(id);
            arbitrary_rel(&mut o, &mut m);
            let s = StringRelation::from(o);
            check_base(&s, &m);
            check_rel(&s, &m);
        }
        3 => {
            let mut o = h::rc_node(id);
            arbitrary_node(&mut o, &mut m);
            let s = StringNode::from(o);
            check_base(&s, &m);
            check_node(&s, &m);
        }
        4 => {
            let mut o = h::rc_way(id);
            arbitrary_way(&mut o, &mut m);
            let s = StringWay::from(o);
            check_base(&s, &m);
            check_way(&s, &m);
        }
        5 => {
            let mut o = h::rc_relation(id);
            arbitrary_rel(&mut o, &mut m);
            let s = StringRelation::from(o);
            check_base(&s, &m);
            check_rel(&s, &m);
        }
        6 => {
            let mut o = h::arc_node(id);
            arbitrary_node(&mut o, &mut m);
            check_enum(&StringOSMObj::from(ArcOSMObj::Node(o)), &m);
        }
        7 => {
            let mut o = h::arc_way(id);
            arbitrary_way(&mut o, &mut m);
            check_enum(&StringOSMObj::from(ArcOSMObj::Way(o)), &m);
        }
        8 => {
            let mut o = h::arc_relation(id);
            arbitrary_rel(&mut o, &mut m);
            check_enum(&StringOSMObj::from(ArcOSMObj::Relation(o)), &m);
        }
        9 => {
            let mut o = h::rc_node(id);
            arbitrary_node(&mut o, &mut m);
            check_enum(&StringOSMObj::from(RcOSMObj::Node(o)), &m);
        }
        10 => {
            let mut o = h::rc_way(id);
            arbitrary_way(&mut o, &mut m);
            check_enum(&StringOSMObj::from(RcOSMObj::Way(o)), &m);
        }
        _ => {
            let mut o = h::rc_relation(id);
            arbitrary_rel(&mut o, &mut m);
            check_enum(&StringOSMObj::from(RcOSMObj::Relation(o)), &m);
        }
    }
    reach("converted");
}

// ---------------------------------------------------------------- C23

fn type_char() {
    let c = match char::from_u32(any_u32("c")) {
        Some(c) => c,
        None => return assume(false),
    };
    let r = OSMObjectType::try_from(c);
    let want = if c == 'n' {
        Some(OSMObjectType::Node)
    } else if c == 'w' {
        Some(OSMObjectType::Way)
    } else if c == 'r' {
        Some(OSMObjectType::Relation)
    } else {
        None
    };
    check(r.as_ref().ok() == want.as_ref(), "C23.char");
    if let Ok(t) = r {
        check(t.name_short() == c, "C23.short-name-back");
        reach("char-ok");
    } else {
        reach("char-err");
    }
}

fn type_str() {
    let s = if choose("unicode", 2) == 0 {
        let l = choose("len", if thorough() { 13 } else { 11 }) as usize;
        ascii("s", l)
    } else {
        let a = ascii("a", choose("alen", 3) as usize);
        let b = uchar("u");
        let c = ascii("c", choose("clen", 3) as usize);
        format!("{}{}{}", a, b, c)
    };
    // the decision itself, without branching on the contents
    let is = |x: &str| same_str(&s, x);
    let node = is("n") | is("node");
    let way = is("w") | is("way");
    let rel = is("r") | is("rel") | is("relation");
    match OSMObjectType::from_str(&s) {
        Ok(t) => {
            check(node == (t == OSMObjectType::Node), "C23.str-node");
            check(way == (t == OSMObjectType::Way), "C23.str-way");
            check(rel == (t == OSMObjectType::Relation), "C23.str-relation");
            reach("str-ok");
        }
        Err(_) => {
            check(!(node | way | rel), "C23.str-rejected");
            reach("str-err");
        }
    }
}

fn type_names() {
    let t = otype(choose("t", 3));
    check(OSMObjectType::try_from(t.name_short()) == Ok(t), "C23.short-char");
    check(OSMObjectType::from_str(&t.name_short().to_string()) == Ok(t), "C23.short-str");
    check(OSMObjectType::from_str(t.name_long()) == Ok(t), "C23.long");
    check(OSMObjectType::from_str(&t.to_string()) == Ok(t), "C23.display");
    let (a, b) = (choose("a", 3), choose("b", 3));
    check(otype(a).cmp(&otype(b)) == a.cmp(&b), "C23.order");
    check(otype(a).partial_cmp(&otype(b)) == Some(a.cmp(&b)), "C23.partial-order");
    check((otype(a) == otype(b)) == (a == b), "C23.eq");
    reach("names");
}

// ---------------------------------------------------------------- C24

fn way_area<W: Way>(mut w: W) {
    if choose("twice", 2) == 1 {
        w.set_nodes([any_i64("old0"), any_i64("old1"), any_i64("old2")]);
    }
    let lens: &[usize] = if thorough() { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 13] } else { &[0, 1, 2, 3, 6, 7] };
    let n = lens[choose("len", lens.len() as u64) as usize];
    let l: Vec<i64> = (0..n).map(|_| any_i64("n")).collect();
    w.set_nodes(l.iter().copied());
    check(w.num_nodes() == n && w.nodes().len() == n && w.nids().len() == n, "C24.num-nodes");
    for i in 0..n {
        check(w.node(i) == Some(l[i]), "C24.node");
        check(w.nodes()[i] == l[i], "C24.nodes");
        check(w.nids()[i] == l[i], "C24.nids");
    }
    let past = any_u64("past");
    assume(past >= n as u64);
    check(w.node(past as usize).is_none(), "C24.node-past-end");
    let mut no = false;
    match choose("area", 4) {
        0 => {}
        3 => {
            // among other tags
            let v = ascii("v", 2);
            no = same_str(&v, "no");
            let at = choose("at", 3);
            for i in 0..3 {
                if i == at {
                    w.set_tag("area", v.clone());
                } else {
                    w.set_tag(["highway", "landuse", "name"][i as usize], "no");
                }
            }
        }
        1 => {
            let v = ascii("v", choose("vlen", 5) as usize);
            no = same_str(&v, "no");
            w.set_tag("area", v);
        }
        _ => {
            // some other tag, possibly spelled nearly the same
            let k = ascii("k", 3 + choose("klen", 3) as usize);
            let v = ascii("v", 2);
            no = same_str(&k, "area") & same_str(&v, "no");
            w.set_tag(k, v);
        }
    }
    let closed = w.is_closed();
    let want = if n == 0 { false } else { l[0] == l[n - 1] };
    check(closed == want, "C24.is-closed");
    check(w.is_area() == (want & !no), "C24.is-area");
    if n == 3 {
        reach(if closed { "closed" } else { "open" });
    }
}

fn ways_closed() {
    match choose("type", 3) {
        0 => way_area(sway(1)),
        1 => way_area(h::arc_way(1)),
        _ => way_area(h::rc_way(1)),
    }
}

// ---------------------------------------------------------------- C25

/// JSON object of strings, parsed strictly
fn parse_json(b: &[u8]) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
    let mut p = 0;
    let mut out = Vec::new();
    fn ws(b: &[u8], p: &mut usize) {
        while *p < b.len() && (b[*p] == b' ' || b[*p] == b'\n' || b[*p] == b'\t' || b[*p] == b'\r') {
            *p += 1;
        }
    }
    fn hex(b: &[u8], p: usize) -> Option<u32> {
        let mut v = 0u32;
        for i in 0..4 {
            let c = *b.get(p + i)?;
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => return None,
            };
            v = v * 16 + d as u32;
        }
        Some(v)
    }
    fn string(b: &[u8], p: &mut usize) -> Option<Vec<u8>> {
        if *b.get(*p)? != b'"' {
            return None;
        }
        *p += 1;
        let mut o = Vec::new();
        loop {
            let c = *b.get(*p)?;
            *p += 1;
            if c == b'"' {
                return Some(o);
            }
            if c == b'\\' {
                let e = *b.get(*p)?;
                *p += 1;
                match e {
                    b'"' | b'\\' | b'/' => o.push(e),
                    b'b' => o.push(8),
                    b'f' => o.push(12),
                    b'n' => o.push(10),
                    b'r' => o.push(13),
                    b't' => o.push(9),
                    b'u' => {
                        let mut v = hex(b, *p)?;
                        *p += 4;
                        if (0xd800..0xdc00).contains(&v) {
                            if *b.get(*p)? != b'\\' || *b.get(*p + 1)? != b'u' {
                                return None;
                            }
                            let w = hex(b, *p + 2)?;
                            *p += 6;
                            if !(0xdc00..0xe000).contains(&w) {
                                return None;
                            }
                            v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                        }
                        let c = char::from_u32(v)?;
                        let mut t = [0; 4];
                        o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                    }
                    _ => return None,
                }
            } else if c < 0x20 {
                return None;
            } else {
                o.push(c);
            }
        }
    }
    ws(b, &mut p);
    if *b.get(p)? != b'{' {
        return None;
    }
    p += 1;
    ws(b, &mut p);
    if *b.get(p)? == b'}' {
        p += 1;
    } else {
        loop {
            ws(b, &mut p);
            let k = string(b, &mut p)?;
            ws(b, &mut p);
            if *b.get(p)? != b':' {
                return None;
            }
            p += 1;
            ws(b, &mut p);
            let v = string(b, &mut p)?;
            out.push((k, v));
            ws(b, &mut p);
            let c = *b.get(p)?;
            p += 1;
            if c == b'}' {
                break;
            }
            if c != b',' {
                return None;
            }
        }
    }
    ws(b, &mut p);
    if p != b.len() {
        return None;
    }
    Some(out)
}

fn json_of<O: OSMObjBase>(mut o: O, tags: &[(String, String)]) {
    for (k, v) in tags {
        o.set_tag(k, v.as_str());
    }
    let s = o.tags_json_string();
    match parse_json(s.as_bytes()) {
        None => check(false, "C25.valid-json"),
        Some(p) => {
            check(p.len() == tags.len(), "C25.member-count");
            for (k, v) in tags {
                // exactly one member with this key, and it has this value
                let mut hits = 0u64;
                let mut right = 0u64;
                for (k2, v2) in &p {
                    let e = same(k2, k.as_bytes());
                    hits += e as u64;
                    right += (e & same(v2, v.as_bytes())) as u64;
                }
                check(hits == 1 && right == 1, "C25.member-value");
            }
        }
    }
    if tags.is_empty() {
        check(s == "{}", "C25.untagged");
    }
    if tags.len() == 2 {
        reach("json2");
    }
}

/// the method is a default of the trait; each implementor's tags() feeds it
fn json_obj(ty: u64, tags: &[(String, String)]) {
    match ty {
        0 => json_of(snode(1), tags),
        1 => json_of(h::arc_node(1), tags),
        2 => json_of(StringOSMObj::Way(sway(1)), tags),
        _ => json_of(h::rc_relation(1), tags),
    }
}

fn json_ascii() {
    match choose("shape", 7) {
        5 => {
            // text longer than any inline buffer, a symbolic character anywhere
            let mut s = "some text of forty-eight bytes, for a long string".to_string();
            s.insert_str([0, 1, 24, 47, 48][choose("at", 5) as usize], &ascii("c", 1));
            json_obj(choose("type", 4), &if choose("in", 2) == 0 { [("k".to_string(), s)] } else { [(s, "v".to_string())] })
        }
        6 => {
            // many tags
            let n = [3, 4, 12][choose("count", 3) as usize];
            let tags: Vec<_> = (0..n).map(|i| (format!("k{i}"), if i + 2 < n { "x".to_string() } else { ascii_in("v", 1, b' ', b'~') })).collect();
            json_obj(choose("type", 4), &tags)
        }
        0 => json_obj(choose("type", 4), &[]),
        1 => json_obj(choose("type", 4), &[(ascii("k", 1), ascii("v", 1))]),
        2 => json_obj(0, &[("k".to_string(), ascii("v", if thorough() { 3 } else { 2 }))]),
        3 => json_obj(2, &[(ascii("k", 2), String::new())]),
        _ => {
            let (k, k2) = (ascii("k", 1), ascii("k", 1));
            assume(!same_str(&k, &k2));
            json_obj(1, &[(k, "".to_string()), (k2, "v".to_string())]);
        }
    }
}

fn json_unicode() {
    let k = uchar("k");
    let v = format!("{}{}", uchar("v"), ascii("w", 1));
    json_obj(choose("type", 4), &[(k, v), ("longer key, not kept inline".to_string(), "x".to_string())]);
}

// ---------------------------------------------------------------- C30: equality

fn model_eq(a: &Model, b: &Model) -> bool {
    let ts = match (&a.ts, &b.ts) {
        (None, None) => true,
        (Some(TimestampFormat::EpochNumber(x)), Some(TimestampFormat::EpochNumber(y))) => x == y,
        _ => false,
    };
    let mut e = (a.id == b.id) & (a.version == b.version) & (a.deleted == b.deleted) & (a.changeset == b.changeset) & ts & (a.uid == b.uid);
    e &= same_opt(a.user.as_deref(), b.user.as_deref());
    e &= a.tags.len() == b.tags.len();
    for (x, y) in a.tags.iter().zip(&b.tags) {
        e &= same_str(&x.0, &y.0) & same_str(&x.1, &y.1);
    }
    e &= a.lat_lon == b.lat_lon;
    e &= a.nodes.len() == b.nodes.len();
    for (x, y) in a.nodes.iter().zip(&b.nodes) {
        e &= x == y;
    }
    e &= a.members.len() == b.members.len();
    for (x, y) in a.members.iter().zip(&b.members) {
        e &= (x.0 == y.0) & (x.1 == y.1) & same_str(&x.2, &y.2);
    }
    e
}
/// one field of a model, other than the kind's own
fn vary(m: &mut Model, op: u64) {
    match op {
        0 => m.id = any_i64("id"),
        1 => m.version = opt_u32("version"),
        2 => m.deleted = any_bool("deleted"),
        3 => m.changeset = opt_u32("changeset"),
        4 => m.ts = if choose("some", 2) == 1 { Some(TimestampFormat::EpochNumber(any_i64("ts"))) } else { None },
        5 => m.uid = opt_u32("uid"),
        6 => m.user = match choose("user", 4) {
            0 => None,
            1 => Some(String::new()),
            2 => Some(ascii("user", 1)),
            _ => Some(long("user")),
        },
        7 => {
            m.tags = match choose("tags", 5) {
                0 => vec![],
                1 => vec![(ascii_in("k", 1, b'a', b'c'), ascii("v", 1))],
                2 => vec![("a".into(), ascii("v", 1)), ("b".into(), "y".into())],
                3 => vec![("b".into(), "y".into()), ("a".into(), ascii("v", 1))],
                _ => vec![("a".into(), "x".into()), (ascii_in("k", 1, b'b', b'd'), long("v"))],
            }
        }
        _ => match m.kind {
            OSMObjectType::Node => m.lat_lon = if choose("some", 2) == 1 { Some((any_i32("lat"), any_i32("lon"))) } else { None },
            OSMObjectType::Way => m.nodes = (0..choose("nodes", 4)).map(|_| any_i64("n")).collect(),
            OSMObjectType::Relation => m.members = (0..choose("members", 3)).map(|i| (otype(if i == 0 { choose("mtype", 3) } else { 1 }), any_i64("m"), ascii("role", 1))).collect(),
        },
    }
}
fn equal<O: OSMObjBase>(mk: impl Fn(&Model) -> O, kind: OSMObjectType) {
    let mut a = Model::new(kind, 5);
    // set: the rest of the object has every field
    if choose("set", 2) == 1 {
        a.version = Some(1);
        a.changeset = Some(2);
        a.ts = Some(TimestampFormat::EpochNumber(3));
        a.uid = Some(4);
        a.user = Some("user".into());
        a.tags = vec![("a".into(), "x".into()), ("b".into(), "y".into())];
        a.lat_lon = if kind == OSMObjectType::Node { Some((1, 2)) } else { None };
        a.nodes = if kind == OSMObjectType::Way { vec![1, 2] } else { vec![] };
        a.members = if kind == OSMObjectType::Relation { vec![(OSMObjectType::Way, 1, "r".into())] } else { vec![] };
    }
    let mut b = a.clone();
    let op = choose("field", 9);
    vary(&mut a, op);
    vary(&mut b, if thorough() { choose("field", 9) } else { op });
    let (x, mut y) = (mk(&a), mk(&b));
    match choose("history", 3) {
        0 => {}
        // what was set in between does not matter
        1 => {
            y.set_tag("zz", "z");
            y.unset_tag("zz");
        }
        _ => {
            for (k, _) in &b.tags {
                y.unset_tag(k);
            }
            for (k, v) in &b.tags {
                y.set_tag(k, v.as_str());
            }
            y.set_user("other");
            y.set_user(b.user.as_deref());
        }
    }
    let want = model_eq(&a, &b);
    check((x == y) == want, "eq");
    check((y == x) == want, "eq-symmetric");
    check((x != y) != want, "ne");
    check(x == x.clone(), "eq-clone");
    if want {
        reach("equal");
    } else {
        reach("different");
    }
}
fn equality() {
    use crate::xmlt::{make, make_arc, make_node, make_rc, make_rel, make_way};
    use OSMObjectType as T;
    match choose("type", 19) {
        0 => equal(|m| make_node(snode(m.id), m), T::Node),
        1 => equal(|m| make_way(sway(m.id), m), T::Way),
        2 => equal(|m| make_rel(srel(m.id), m), T::Relation),
        3 => equal(|m| make_node(h::arc_node(m.id), m), T::Node),
        4 => equal(|m| make_way(h::arc_way(m.id), m), T::Way),
        5 => equal(|m| make_rel(h::arc_relation(m.id), m), T::Relation),
        6 => equal(|m| make_node(h::rc_node(m.id), m), T::Node),
        7 => equal(|m| make_way(h::rc_way(m.id), m), T::Way),
        8 => equal(|m| make_rel(h::rc_relation(m.id), m), T::Relation),
        k @ 9..=11 => equal(make, otype(k - 9)),
        k @ 12..=14 => equal(make_arc, otype(k - 12)),
        k @ 15..=17 => equal(make_rc, otype(k - 15)),
        _ => {
            // objects of different kinds are never equal
            let (a, b) = (choose("a", 3), choose("b", 3));
            let id = any_i64("id");
            let (x, y) = (Model::new(otype(a), id), Model::new(otype(b), id));
            check((make(&x) == make(&y)) == (a == b), "kinds");
            check((make_arc(&x) == make_arc(&y)) == (a == b), "kinds-arc");
            check((make_rc(&x) == make_rc(&y)) == (a == b), "kinds-rc");
        }
    }
}

// ---------------------------------------------------------------- C31

fn kinds<O: OSMObj + Clone + PartialEq>(m: &Model, mk: impl Fn(&Model) -> O)
where
    O::Node: Clone + PartialEq,
    O::Way: Clone + PartialEq,
    O::Relation: Clone + PartialEq,
{
    use crate::xmlt::{agrees_base, agrees_node, agrees_rel, agrees_way};
    let mut o = mk(m);
    let k = m.kind;
    let (n, w, r) = (k == OSMObjectType::Node, k == OSMObjectType::Way, k == OSMObjectType::Relation);
    check(o.object_type() == k, "object-type");
    check(o.is_node() == n && o.is_way() == w && o.is_relation() == r, "is");
    check(o.as_node().is_some() == n && o.as_way().is_some() == w && o.as_relation().is_some() == r, "as");
    check(o.as_node_mut().is_some() == n && o.as_way_mut().is_some() == w && o.as_relation_mut().is_some() == r, "as-mut");
    agrees_base(&o, m);
    // the views show the same object
    if let Some(x) = o.as_node() {
        agrees_node(x, m);
    }
    if let Some(x) = o.as_way() {
        agrees_way(x, m);
    }
    if let Some(x) = o.as_relation() {
        agrees_rel(x, m);
    }
    // a change made through a view is visible in the object, and the other way round
    let mut m = m.clone();
    let (id, version) = (any_i64("id2"), opt_u32("version2"));
    let v = ascii("v2", 1);
    let through = choose("through", 2) == 1;
    macro_rules! change {
        ($x:expr) => {{
            let x = $x;
            x.set_id(id);
            x.set_version(version);
            x.set_tag("new", v.as_str());
            x.unset_tag("a");
            x.set_user("someone else");
        }};
    }
    if !through {
        change!(&mut o)
    } else if n {
        let x = o.as_node_mut().unwrap();
        change!(&mut *x);
        let p = (any_i32("lat2"), any_i32("lon2"));
        x.set_lat_lon_direct(Some((Lat::from_inner(p.0), Lon::from_inner(p.1))));
        m.lat_lon = Some(p);
    } else if w {
        let x = o.as_way_mut().unwrap();
        change!(&mut *x);
        m.nodes = vec![any_i64("n2"), 3];
        x.set_nodes(m.nodes.clone());
    } else {
        let x = o.as_relation_mut().unwrap();
        change!(&mut *x);
        m.members = vec![(OSMObjectType::Node, any_i64("m2"), "new".into())];
        x.set_members(vec![(OSMObjectType::Node, m.members[0].1, "new")]);
    }
    m.id = id;
    m.version = version;
    m.tags.retain(|t| t.0 != "a");
    m.tags.push(("new".into(), v));
    m.user = Some("someone else".into());
    agrees_base(&o, &m);
    check(o.object_type() == k, "object-type");
    match k {
        OSMObjectType::Node => {
            check(o.clone().into_way().is_none() && o.clone().into_relation().is_none(), "into-other");
            match o.into_node() {
                Some(x) => agrees_node(&x, &m),
                None => check(false, "into-node"),
            }
        }
        OSMObjectType::Way => {
            check(o.clone().into_node().is_none() && o.clone().into_relation().is_none(), "into-other");
            match o.into_way() {
                Some(x) => agrees_way(&x, &m),
                None => check(false, "into-way"),
            }
        }
        OSMObjectType::Relation => {
            check(o.clone().into_node().is_none() && o.clone().into_way().is_none(), "into-other");
            match o.into_relation() {
                Some(x) => agrees_rel(&x, &m),
                None => check(false, "into-relation"),
            }
        }
    }
    reach("views");
}
fn views() {
    use crate::xmlt::{make, make_arc, make_rc};
    let mut m = Model::new(otype(choose("kind", 3)), any_i64("id"));
    let all = choose("metadata", 2) == 1;
    if all {
        m.version = Some(any_u32("version"));
        m.deleted = true;
        m.changeset = Some(any_u32("changeset"));
        m.ts = Some(TimestampFormat::EpochNumber(i64_in("ts", -62167219200, 253402300799)));
        m.uid = Some(any_u32("uid"));
        m.user = Some(ascii("user", 1));
    }
    m.tags = vec![("a".into(), ascii("v", 1)), ("b".into(), "y".into())];
    m.tags.truncate(choose("tags", 3) as usize);
    let n = choose("parts", 3) as usize;
    match m.kind {
        OSMObjectType::Node if n > 0 => m.lat_lon = Some((any_i32("lat"), any_i32("lon"))),
        OSMObjectType::Node => {}
        OSMObjectType::Way => m.nodes = (0..n).map(|_| any_i64("n")).collect(),
        OSMObjectType::Relation => m.members = (0..n).map(|_| (OSMObjectType::Way, any_i64("m"), ascii("r", 1))).collect(),
    }
    match choose("type", 3) {
        0 => kinds(&m, make),
        1 => kinds(&m, make_arc),
        _ => kinds(&m, make_rc),
    }
}

entries! {
    c31_views => views();
    c30_equality => equality();
    c17_tags => tags_map(false);
    c17_long => tags_map(true);
    c17_lengths => tags_on_all(Mode::Lengths);
    c17_many => tags_on_all(Mode::Many([3, 11, 5, 17][choose("preset", if thorough() { 4 } else { 2 }) as usize]));
    c18_setters => setters();
    c19_conversions => conversions();
    c23_char => type_char();
    c23_str => type_str();
    c23_names => type_names();
    c24_ways => ways_closed();
    c25_ascii => json_ascii();
    c25_unicode => json_unicode();
}
