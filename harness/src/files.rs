//! C33: files opened by name, and compressed ones.
use crate::bz;
use crate::cs;
use crate::objs::*;
use crate::pbft::{chunked, document, group_file, read_with};
use crate::rt::*;

use osmio::changesets::{ChangesetReader, ChangesetTagReader};
use osmio::xml::{from_filename_bz2, from_filename_uncompressed, XMLWriter};
use osmio::{arcpbf, stringpbf, OSMObjectType, OSMReader, TimestampFormat};

fn pbf() {
    let (d, all) = group_file();
    let name = file(["x.osm.pbf", "x"][choose("name", 2) as usize], &d);
    match choose("reader", 4) {
        0 => match osmio::read_pbf(&name) {
            Ok(mut r) => read_with(&mut r, &all),
            Err(_) => check(false, "open"),
        },
        1 => match stringpbf::PBFReader::from_filename(&name) {
            Ok(mut r) => read_with(&mut r, &all),
            Err(_) => check(false, "open"),
        },
        2 => match arcpbf::PBFReader::from_filename(&name) {
            Ok(mut r) => read_with(&mut r, &all),
            Err(_) => check(false, "open"),
        },
        _ => match stringpbf::PBFNodePositionReader::from_filename(&name) {
            Ok(mut r) => {
                for m in all.iter().filter(|m| m.kind == OSMObjectType::Node) {
                    match r.next() {
                        Some((id, (lat, lon))) => check(id == m.id && Some((lat.inner(), lon.inner())) == m.lat_lon, "position"),
                        None => check(false, "missing"),
                    }
                }
                check(r.next().is_none(), "end");
            }
            Err(_) => check(false, "open"),
        },
    }
    reach("opened");
}
fn xml_objects() -> Vec<Model> {
    let mut n = Model::new(OSMObjectType::Node, 1);
    n.version = Some(2);
    n.changeset = Some(3);
    n.ts = Some(TimestampFormat::ISOString("2020-02-29T00:00:00Z".into()));
    n.user = Some("ann".into());
    n.uid = Some(5);
    n.lat_lon = Some((515_000_000, -1_250_000));
    n.tags.push(("name".into(), "a & b".into()));
    let mut w = Model::new(OSMObjectType::Way, -7);
    w.version = Some(1);
    w.nodes = vec![1, 22];
    w.tags.push(("area".into(), "yes".into()));
    let mut r = Model::new(OSMObjectType::Relation, 9_000_000_000);
    r.deleted = true;
    r.members.push((OSMObjectType::Way, -7, "outer".into()));
    vec![n, w, r]
}
fn xml() {
    let mut all = xml_objects();
    all[0].id = dec("id", 3) as i64;
    all[1].tags[0].1 = letter_text("v");
    let d = document::<XMLWriter<crate::xmlt::Sink>>(&all);
    let name = file(["x.osm", "x.osm.bz2"][choose("name", 2) as usize], &d);
    match from_filename_uncompressed(&name) {
        Ok(mut r) => read_with(&mut r, &all),
        Err(_) => check(false, "open"),
    }
    reach("opened");
}
fn letter_text(n: &str) -> String {
    String::from_utf8(vec![crate::doc::letter(n)]).unwrap()
}
fn xml_bz2() {
    let d: &[u8] = [&bz::OSM_ONE[..], &bz::OSM_TWO, &bz::OSM_FOUR][choose("streams", 3) as usize];
    let name = file("x.osm.bz2", d);
    let all = xml_objects();
    let r = if choose("reader", 2) == 0 { osmio::read_xml(&name) } else { from_filename_bz2(&name) };
    match r {
        Ok(mut r) => read_with(&mut r, &all),
        Err(_) => check(false, "open"),
    }
    reach("opened");
}
fn dump(k: u64) -> &'static [u8] {
    [&bz::CHANGESETS_ONE[..], &bz::CHANGESETS_TWO, &bz::CHANGESETS_FOUR][k as usize]
}
fn changesets_bz2() {
    let d = dump(choose("streams", 3));
    let name = file("changesets-latest.osm.bz2", d);
    match choose("reader", 3) {
        0 => match ChangesetReader::from_filename(&name) {
            Ok(r) => check(cs::dump_changesets(r) == (3, true), "changesets"),
            Err(_) => check(false, "open"),
        },
        1 => match ChangesetTagReader::from_filename(&name) {
            Ok(r) => check(cs::dump_tags(r) == (2, true), "tags"),
            Err(_) => check(false, "open"),
        },
        _ => check(cs::dump_changesets(ChangesetReader::from_bz2_reader(chunked(d))) == (3, true), "changesets"),
    }
    reach("opened");
}
fn missing() {
    file("there", b"x");
    let name = ["/vf/not-there", "", "/vf/there/not", "a\0b"][choose("name", 4) as usize];
    let r = match choose("reader", 9) {
        0 => osmio::read_pbf(name).is_err(),
        1 => stringpbf::PBFReader::from_filename(name).is_err(),
        2 => arcpbf::PBFReader::from_filename(name).is_err(),
        3 => stringpbf::PBFNodePositionReader::from_filename(name).is_err(),
        4 => from_filename_uncompressed(name).is_err(),
        5 => from_filename_bz2(name).is_err(),
        6 => osmio::read_xml(name).is_err(),
        7 => ChangesetReader::from_filename(name).is_err(),
        _ => ChangesetTagReader::from_filename(name).is_err(),
    };
    check(r, "no-error");
    reach("missing");
}
/// a compressed dump cut at any byte
fn cut() {
    let d = dump(choose("streams", if thorough() { 3 } else { 2 }));
    let at = choose("cut", d.len() as u64 + 1) as usize;
    let tags = choose("reader", 2) == 1;
    let name = file("cut.osm.bz2", &d[..at]);
    let (n, ok) = if tags {
        match ChangesetTagReader::from_filename(&name) {
            Ok(r) => cs::dump_tags(r),
            Err(_) => return,
        }
    } else {
        match ChangesetReader::from_filename(&name) {
            Ok(r) => cs::dump_changesets(r),
            Err(_) => return,
        }
    };
    // cut between two changesets of an uncompressed document would go unnoticed; but no stream here ends there
    let all = if tags { 2 } else { 3 };
    check(n <= all, "too-many");
    check(!ok || n == all || at == 0, "incomplete-without-an-error");
    reach("cut");
}
entries! {
    c33_pbf => pbf();
    c33_xml => xml();
    c33_xml_bz2 => xml_bz2();
    c33_changesets_bz2 => changesets_bz2();
    c33_missing => missing();
    c33_cut => cut();
}
