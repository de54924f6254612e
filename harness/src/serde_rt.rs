//! C36: values kept through serde.
use crate::rt::*;
use osmio::{Lat, Lon, OSMObjectType, TimestampFormat};
use serde::{de::DeserializeOwned, Serialize};

fn back<T: Serialize + DeserializeOwned>(v: &T) -> Option<T> {
    let s = match serde_json::to_string(v) {
        Ok(s) => s,
        Err(_) => {
            check(false, "not-serialised");
            return None;
        }
    };
    observe(s.as_bytes());
    match serde_json::from_str::<T>(&s) {
        Ok(v) => Some(v),
        Err(_) => {
            check(false, "not-deserialised");
            None
        }
    }
}
fn values() {
    match choose("what", 5) {
        0 => {
            let i = crate::xmlt::signed("lat", i32::MAX as u64) as i32;
            check(back(&Lat::from_inner(i)).map(|x| x.inner()) == Some(i), "lat");
        }
        1 => {
            let i = crate::xmlt::signed("lon", i32::MAX as u64) as i32;
            check(back(&Lon::from_inner(i)).map(|x| x.inner()) == Some(i), "lon");
        }
        2 => {
            let i = crate::xmlt::signed("epoch", i64::MAX as u64);
            match back(&TimestampFormat::EpochNumber(i)) {
                Some(TimestampFormat::EpochNumber(j)) => check(i == j, "epoch"),
                _ => check(false, "epoch"),
            }
        }
        3 => {
            let n = choose("length", if thorough() { 4 } else { 3 }) as usize;
            let mut t = String::new();
            for i in 0..n {
                let c = u64_in(["c0", "c1", "c2"][i], 0, 0x10f7ff);
                let c = if c >= 0xd800 { c + 0x800 } else { c };
                // the length of the encoding is a case split
                t.push(char::from_u32(c as u32).unwrap());
            }
            match back(&TimestampFormat::ISOString(t.clone())) {
                Some(TimestampFormat::ISOString(u)) => check(same_str(&t, &u), "text"),
                _ => check(false, "text"),
            }
        }
        _ => {
            for k in [OSMObjectType::Node, OSMObjectType::Way, OSMObjectType::Relation] {
                check(back(&k) == Some(k), "kind");
            }
        }
    }
    reach("kept");
}

/// coordinates one by one: every small one, and the largest of every size
fn coordinates() {
    let n = if thorough() { 1200 } else { 120 };
    let k = choose("which", n + 40) as i64;
    let negative = choose("negative", 2) == 1;
    let i = if k < n as i64 {
        k
    } else {
        let k = k - n as i64;
        (10i64.pow((k / 4) as u32) * [1, 3, 7, 9][k as usize % 4] - 1 + (k % 2) * 2).min(i32::MAX as i64)
    };
    let i = if negative { -i } else { i } as i32;
    check(back(&Lat::from_inner(i)).map(|x| x.inner()) == Some(i), "lat");
    check(back(&Lon::from_inner(i)).map(|x| x.inner()) == Some(i), "lon");
    reach("kept");
}

entries! {
    c36_values => values();
    c36_coordinates => coordinates();
}
