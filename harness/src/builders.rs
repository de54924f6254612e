//! C38: objects made with the builders.
use crate::objs::*;
use crate::rt::*;

use osmio::changesets::ChangesetBuilder;
use osmio::obj_types::{StringNodeBuilder, StringRelationBuilder, StringWayBuilder};
use osmio::{Lat, Lon, OSMObjectType, TimestampFormat};
use std::collections::HashMap;

/// which optional values are given: all, none, all but one or just one of n
fn given(n: u64) -> impl Fn(u64) -> bool {
    let c = choose("given", 2 * n + 2);
    move |i| match c {
        0 => true,
        1 => false,
        c if c < n + 2 => c - 2 != i,
        c => c - n - 2 == i,
    }
}
fn time(n: &str) -> TimestampFormat {
    if choose("ts", 2) == 0 {
        TimestampFormat::EpochNumber(any_i64(n))
    } else {
        TimestampFormat::ISOString(ascii(n, 2))
    }
}
/// the values all three kinds have
macro_rules! base {
    ($b: ident, $m: ident, $has: ident) => {
        if $has(0) {
            $m.version = Some(any_u32("version"));
            $b._version($m.version.unwrap());
        }
        if $has(1) {
            $m.deleted = any_bool("deleted");
            $b._deleted($m.deleted);
        }
        if $has(2) {
            $m.changeset = Some(any_u32("changeset"));
            $b._changeset_id($m.changeset.unwrap());
        }
        if $has(3) {
            $m.ts = Some(time("ts"));
            $b._timestamp($m.ts.clone().unwrap());
        }
        if $has(4) {
            $m.uid = Some(any_u32("uid"));
            $b._uid($m.uid.unwrap());
        }
        if $has(5) {
            let u = ascii("user", choose("len", 3) as usize);
            $b._user(u.as_str().into());
            $m.user = Some(u);
        }
        if $has(6) {
            $m.tags = vec![(ascii("k", 1), ascii("v", 2)), ("b".into(), String::new())];
            $m.tags.truncate(choose("tags", 3) as usize);
            $b._tags($m.tags.iter().map(|(k, v)| (k.as_str().into(), v.as_str().into())).collect());
        }
    };
}
fn objects() {
    let kind = otype(choose("kind", 3));
    let has = given(8);
    // the id may come first, last, twice (the later one counts) or never
    let when = choose("id", 4);
    let id = any_i64("id");
    let mut m = Model::new(kind, id);
    macro_rules! with_id {
        ($b: ident, $fill: block) => {{
            if when % 2 == 0 {
                $b._id(if when == 0 { id } else { any_i64("other") });
            }
            $fill
            if when == 1 || when == 2 {
                $b._id(id);
            }
            let made = $b.build();
            check(made.is_ok() == (when != 3), "id-is-all-it-needs");
            made
        }};
    }
    match kind {
        OSMObjectType::Node => {
            let mut b = StringNodeBuilder::default();
            let made = with_id!(b, {
                base!(b, m, has);
                if has(7) {
                    m.lat_lon = Some((any_i32("lat"), any_i32("lon")));
                    b._lat_lon((Lat::from_inner(m.lat_lon.unwrap().0), Lon::from_inner(m.lat_lon.unwrap().1)));
                }
            });
            if let Ok(o) = made {
                check_base(&o, &m);
                check_node(&o, &m);
                check_base(&b.build().unwrap(), &m);
                reach("built");
            }
        }
        OSMObjectType::Way => {
            let mut b = StringWayBuilder::default();
            let made = with_id!(b, {
                base!(b, m, has);
                if has(7) {
                    m.nodes = (0..[0, 1, 7][choose("nodes", 3) as usize]).map(|_| any_i64("n")).collect();
                    b._nodes(m.nodes.iter().copied().collect());
                }
            });
            if let Ok(o) = made {
                check_base(&o, &m);
                check_way(&o, &m);
                check_base(&b.build().unwrap(), &m);
                reach("built");
            }
        }
        OSMObjectType::Relation => {
            let mut b = StringRelationBuilder::default();
            let made = with_id!(b, {
                base!(b, m, has);
                if has(7) {
                    m.members = vec![(OSMObjectType::Way, any_i64("m"), ascii("r", 1)), (OSMObjectType::Node, any_i64("m"), String::new())];
                    m.members.truncate(choose("members", 3) as usize);
                    b._members(m.members.iter().map(|(t, i, r)| (*t, *i, r.as_str().into())).collect());
                }
            });
            if let Ok(o) = made {
                check_base(&o, &m);
                check_rel(&o, &m);
                check_base(&b.build().unwrap(), &m);
                reach("built");
            }
        }
    }
}
fn changesets() {
    let has = given(9);
    let mut b = ChangesetBuilder::default();
    let id = any_u32("id");
    let created = time("created");
    let closed = time("closed");
    let open = any_bool("open");
    let uid = any_i64("uid");
    let user = ascii("user", 2);
    let num = any_u64("changes");
    let comments = any_u64("comments");
    let value = ascii("value", 1);
    if has(0) {
        b.id(id);
    }
    if has(1) {
        b.created(created.clone());
    }
    if has(2) {
        b.open(open);
    }
    if has(3) {
        b.tags(HashMap::from([("comment".to_string(), value.clone())]));
    }
    if has(4) {
        b.num_changes(num);
    }
    if has(5) {
        b.comments_count(comments);
    }
    if has(6) {
        b.closed(closed.clone());
    }
    if has(7) {
        b.uid(uid);
    }
    if has(8) {
        b.user(user.clone());
    }
    match b.build() {
        Err(_) => check((0..6).any(|i| !has(i)), "refused"),
        Ok(c) => {
            check((0..6).all(has_ref(&has)), "needed-value-made-up");
            check(c.id == id, "id");
            check(same_ts(&Some(c.created.clone()), &Some(created)), "created");
            check(c.open == open, "open");
            check(c.num_tags() == 1 && same_opt(c.tag("comment"), Some(value.as_str())), "tags");
            check(c.num_changes == num, "num-changes");
            check(c.comments_count == comments, "comments-count");
            check(same_ts(&c.closed, &if has(6) { Some(closed) } else { None }), "closed");
            check(c.uid == if has(7) { Some(uid) } else { None }, "uid");
            check(same_opt(c.user.as_deref(), if has(8) { Some(user.as_str()) } else { None }), "user");
            reach("built");
        }
    }
}
fn has_ref<'a>(h: &'a impl Fn(u64) -> bool) -> impl Fn(u64) -> bool + 'a {
    move |i| h(i)
}

entries! {
    c38_objects => objects();
    c38_changesets => changesets();
}
