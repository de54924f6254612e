From 4db45a4ac1d7e9ccc3173f51572c95e14ec6f7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:36 +0000
Subject: [PATCH 01/25] verification hooks: object constructors and a plain
 changeset tag reader (cfg osmio_verif)

---
 src/changesets.rs  |  8 ++++++++
 src/lib.rs         |  5 +++++
 src/verif_hooks.rs | 29 +++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/changesets.rs b/src/changesets.rs
index 81244de..3769227 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -405,3 +405,11 @@ impl<R: Read> Iterator for ChangesetTagReader<R> {
         self.next_tag().transpose()
     }
 }
+
+#[cfg(osmio_verif)]
+impl<R: Read> ChangesetTagReader<R> {
+    /// A tag reader over uncompressed XML, for verification harnesses.
+    pub fn from_plain_reader(reader: R) -> Self {
+        ChangesetTagReader::new(reader)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 1202d48..278abd9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,8 @@
 //! }
 //! # Ok::<(), anyhow::Error>(())
 //! ```
+#![allow(unexpected_cfgs)]
+
 extern crate byteorder;
 extern crate chrono;
 extern crate flate2;
@@ -58,6 +60,9 @@ mod tests;
 
 pub mod changesets;
 
+#[cfg(osmio_verif)]
+pub mod verif_hooks;
+
 /// Type that stores the OSM Id
 pub type ObjId = i64;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..fbccc66
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,29 @@
+//! Constructors for verification harnesses, compiled only with `--cfg osmio_verif`.
+use crate::ObjId;
+use crate::obj_types::*;
+
+macro_rules! blank {
+    ($name:ident, $t:ident { $($extra:ident),* }) => {
+        /// An object with this id and no other data
+        pub fn $name(id: ObjId) -> $t {
+            $t {
+                _id: id,
+                _version: None,
+                _deleted: false,
+                _changeset_id: None,
+                _timestamp: None,
+                _uid: None,
+                _user: None,
+                _tags: Default::default(),
+                $($extra: Default::default()),*
+            }
+        }
+    };
+}
+
+blank!(rc_node, RcNode { _lat_lon });
+blank!(rc_way, RcWay { _nodes });
+blank!(rc_relation, RcRelation { _members });
+blank!(arc_node, ArcNode { _lat_lon });
+blank!(arc_way, ArcWay { _nodes });
+blank!(arc_relation, ArcRelation { _members });
-- 
2.43.0


From 9440d4da396bee7d8f79e70c325043abb42a378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:24 +0000
Subject: [PATCH 02/25] fix: reject NaN as a latitude or longitude

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 278abd9..007e563 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -162,7 +162,9 @@ macro_rules! lat_lon_impl {
 
             fn from_str(s: &str) -> Result<Self, Self::Err> {
                 match (f64::from_str(s)? * COORD_SCALE_FACTOR).round() {
-                    x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
+                    x if x.is_nan() || x > (i32::MAX as f64) => {
+                        Err(ParseLatLonError::TooLarge(x))
+                    }
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
                     x => Ok(Self(x as i32)),
                 }
@@ -179,7 +181,9 @@ macro_rules! lat_lon_impl {
             type Error = ParseLatLonError;
             fn try_from(val: f64) -> Result<$lat_or_lon, Self::Error> {
                 match (val * COORD_SCALE_FACTOR).round() {
-                    x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
+                    x if x.is_nan() || x > (i32::MAX as f64) => {
+                        Err(ParseLatLonError::TooLarge(x))
+                    }
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
                     x => Ok(Self(x as i32)),
                 }
-- 
2.43.0


From 7a3f7e5ed9a193e01d926d801f8b8730b5114bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:12 +0000
Subject: [PATCH 03/25] fix: convert timestamps beyond 32 bits exactly

---
 src/lib.rs   | 4 ++--
 src/utils.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 007e563..18a1907 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -264,13 +264,13 @@ impl TimestampFormat {
     pub fn to_iso_string(&self) -> String {
         match self {
             TimestampFormat::ISOString(s) => s.clone(),
-            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t as i32),
+            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t),
         }
     }
 
     pub fn to_epoch_number(&self) -> i64 {
         match self {
-            TimestampFormat::ISOString(s) => iso_to_epoch(s) as i64,
+            TimestampFormat::ISOString(s) => iso_to_epoch(s),
             &TimestampFormat::EpochNumber(t) => t,
         }
     }
diff --git a/src/utils.rs b/src/utils.rs
index d9bb19e..f930033 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,15 +1,15 @@
 //! Misc local utilities
 use chrono::{DateTime, offset::Utc};
 
-pub fn epoch_to_iso(epoch: i32) -> String {
+pub fn epoch_to_iso(epoch: i64) -> String {
     // Chrono is a little silly and can't easily convert from epoch to utc timezone
     let d: DateTime<Utc> =
-        DateTime::from_timestamp(epoch as i64, 0).expect("epoch timestamp too high");
+        DateTime::from_timestamp(epoch, 0).expect("epoch timestamp too high");
     d.to_rfc3339_opts(chrono::SecondsFormat::Secs, true)
 }
 
-pub fn iso_to_epoch(iso: &str) -> u32 {
+pub fn iso_to_epoch(iso: &str) -> i64 {
     DateTime::parse_from_rfc3339(iso)
-        .map(|x| x.timestamp() as u32)
+        .map(|x| x.timestamp())
         .unwrap_or(0)
 }
-- 
2.43.0


From b9e9a9d7b807678fa1d17f2a2f854ba85a9461f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:29 +0000
Subject: [PATCH 04/25] fix: compare ISO timestamps by the instant they name

---
 src/lib.rs   | 16 +++++++++++++---
 src/utils.rs |  6 +++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 18a1907..9c1b977 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -39,7 +39,7 @@ use std::io::{BufReader, Read, Write};
 use std::iter::{ExactSizeIterator, Iterator};
 use std::path::Path;
 use std::str::FromStr;
-use utils::{epoch_to_iso, iso_to_epoch};
+use utils::{epoch_to_iso, iso_to_datetime, iso_to_epoch};
 
 use anyhow::Result;
 
@@ -305,7 +305,12 @@ impl fmt::Display for TimestampFormat {
 impl std::cmp::PartialOrd for TimestampFormat {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => a.partial_cmp(b),
+            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => {
+                match (iso_to_datetime(a), iso_to_datetime(b)) {
+                    (Some(a), Some(b)) => a.partial_cmp(&b),
+                    _ => a.partial_cmp(b),
+                }
+            }
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.partial_cmp(b),
             (a, b) => a.to_epoch_number().partial_cmp(&b.to_epoch_number()),
         }
@@ -314,7 +319,12 @@ impl std::cmp::PartialOrd for TimestampFormat {
 impl std::cmp::PartialEq for TimestampFormat {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => a.eq(b),
+            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => {
+                match (iso_to_datetime(a), iso_to_datetime(b)) {
+                    (Some(a), Some(b)) => a.eq(&b),
+                    _ => a.eq(b),
+                }
+            }
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.eq(b),
             (a, b) => a.to_epoch_number().eq(&b.to_epoch_number()),
         }
diff --git a/src/utils.rs b/src/utils.rs
index f930033..1ca01ab 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,5 +1,5 @@
 //! Misc local utilities
-use chrono::{DateTime, offset::Utc};
+use chrono::{DateTime, FixedOffset, offset::Utc};
 
 pub fn epoch_to_iso(epoch: i64) -> String {
     // Chrono is a little silly and can't easily convert from epoch to utc timezone
@@ -13,3 +13,7 @@ pub fn iso_to_epoch(iso: &str) -> i64 {
         .map(|x| x.timestamp())
         .unwrap_or(0)
 }
+
+pub fn iso_to_datetime(iso: &str) -> Option<DateTime<FixedOffset>> {
+    DateTime::parse_from_rfc3339(iso).ok()
+}
-- 
2.43.0


From 7e4a281dd7cb9ab1ad0de753444f71511c0e012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:56 +0000
Subject: [PATCH 05/25] fix: report a changeset cut off by the end of the file
 instead of looping

---
 src/changesets.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index 3769227..0f5855e 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -171,6 +171,7 @@ impl<R: Read> ChangesetReader<R> {
                     let mut buf = Vec::new();
                     loop {
                         match self.reader.read_event_into(&mut buf)? {
+                            Event::Eof => bail!("End of file within a changeset"),
                             Event::End(ref e) => {
                                 if e.name().local_name().as_ref() == "changeset".as_bytes() {
                                     break;
-- 
2.43.0


From 654d8a0fc24754c7ebda3b9ff8832889a8ad9bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:56 +0000
Subject: [PATCH 06/25] fix: do not report a changeset without an id under the
 previous id

---
 src/changesets.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index 0f5855e..748b0bf 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -359,6 +359,7 @@ impl<R: Read> ChangesetTagReader<R> {
                     }
                 }
                 Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => {
+                    self.curr_id = None;
                     for attr in e.attributes() {
                         let attr = attr?;
                         if attr.key.local_name().as_ref() == b"id" {
-- 
2.43.0


From 072f6bf5d31d6b3ad11575f6290d2f8c6438303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:00 +0000
Subject: [PATCH 07/25] fix: a node without coordinates ended reading an XML or
 OSC file

The position of a node is optional (deleted nodes have none), but a missing
lat or lon attribute made next() return None, hiding the node and everything
after it.
---
 src/xml/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index c7e142f..9903bf1 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -262,12 +262,12 @@ fn node_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
         get_xml_attribute(attrs, "timestamp").map(|x| TimestampFormat::ISOString(x.to_owned()));
     let uid = get_xml_attribute(attrs, "uid").and_then(|x| x.parse().ok());
     let user = get_xml_attribute(attrs, "user");
-    let lat = get_xml_attribute(attrs, "lat")?.parse();
-    let lon = get_xml_attribute(attrs, "lon")?.parse();
+    let lat = get_xml_attribute(attrs, "lat").and_then(|x| x.parse().ok());
+    let lon = get_xml_attribute(attrs, "lon").and_then(|x| x.parse().ok());
 
     let lat_lon = match (lat, lon) {
-        (Ok(lat), Ok(lon)) => Some((lat, lon)),
-        _errs => None,
+        (Some(lat), Some(lon)) => Some((lat, lon)),
+        _ => None,
     };
     let deleted = get_xml_attribute(attrs, "visible")
         .and_then(|val| match val.as_str() {
-- 
2.43.0


From b7c8aeb8c07a38c49bb0628be4583e698e899bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:00 +0000
Subject: [PATCH 08/25] fix: writing an object without version as XML or OSC
 panicked

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index ad074b0..4cde47d 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -162,7 +162,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 9903bf1..b048932 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -448,7 +448,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
-- 
2.43.0


From 340ea12a614a6c03811b1aeed045825220c9a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:00 +0000
Subject: [PATCH 09/25] fix: timestamp strings were written to XML and OSC
 without escaping

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 4cde47d..5b292ae 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -177,7 +177,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_escaped(&mut self.writer, &timestamp.to_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index b048932..df03ba1 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -463,7 +463,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_escaped(&mut self.writer, &timestamp.to_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
-- 
2.43.0


From bc720d08e85b3b96c2783bcf3b2bd5fb31f34b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:00 +0000
Subject: [PATCH 10/25] fix: tabs and line ends in text written to XML and OSC
 were lost

They were written literally into attributes, where XML parsers read them as
spaces (and a carriage return as a line feed).
---
 src/osc/mod.rs | 14 +++++++-------
 src/xml/mod.rs | 25 +++++++++++++++++++------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 5b292ae..9b6eeb2 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -7,7 +7,7 @@ use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
 use std::iter::Iterator;
 
-use crate::xml::{write_xml_escaped, xml_elements_to_osm_obj};
+use crate::xml::{write_xml_attribute, xml_elements_to_osm_obj};
 
 use xml_rs::reader::{EventReader, Events, XmlEvent};
 
@@ -102,7 +102,7 @@ impl<W: Write> OSCWriter<W> {
 
             //for (k, v) in self.headers.iter() {
             //    write!(self.writer, " {}=\"", k)?;
-            //    write_xml_escaped(&mut self.writer, v)?;
+            //    write_xml_attribute(&mut self.writer, v)?;
             //    write!(self.writer, "\"")?;
             //}
             write!(self.writer, ">")?;
@@ -167,7 +167,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attribute(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -178,7 +178,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
         }
         if let Some(timestamp) = obj.timestamp() {
             write!(self.writer, " timestamp=\"")?;
-            write_xml_escaped(&mut self.writer, &timestamp.to_string())?;
+            write_xml_attribute(&mut self.writer, &timestamp.to_string())?;
             write!(self.writer, "\"")?;
         }
 
@@ -209,7 +209,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attribute(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -217,9 +217,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attribute(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attribute(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index df03ba1..b7e4fc1 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -70,6 +70,19 @@ pub(crate) fn write_xml_escaped(writer: &mut impl Write, s: &str) -> std::io::Re
     Ok(())
 }
 
+/// Write s as (part of) an attribute value.
+/// An XML parser replaces literal tabs and line ends in an attribute with spaces, so these have to
+/// be written as character references.
+pub(crate) fn write_xml_attribute(writer: &mut impl Write, s: &str) -> std::io::Result<()> {
+    for c in s.chars() {
+        match c {
+            '\t' | '\n' | '\r' => write!(writer, "&#{};", c as u32)?,
+            c => write_xml_escaped(writer, c.encode_utf8(&mut [0; 4]))?,
+        }
+    }
+    Ok(())
+}
+
 impl<R: Read> OSMReader for XMLReader<R> {
     type R = R;
     type Obj = StringOSMObj;
@@ -380,7 +393,7 @@ impl<W: Write> XMLWriter<W> {
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-                write_xml_escaped(&mut self.writer, v)?;
+                write_xml_attribute(&mut self.writer, v)?;
                 write!(self.writer, "\"")?;
             }
             write!(self.writer, ">")?;
@@ -453,7 +466,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attribute(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -464,7 +477,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
         }
         if let Some(timestamp) = obj.timestamp() {
             write!(self.writer, " timestamp=\"")?;
-            write_xml_escaped(&mut self.writer, &timestamp.to_string())?;
+            write_xml_attribute(&mut self.writer, &timestamp.to_string())?;
             write!(self.writer, "\"")?;
         }
 
@@ -495,7 +508,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attribute(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -503,9 +516,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attribute(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attribute(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
-- 
2.43.0


From 54f1078489d93d0b904b71846c6e4e5e854a49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:30 +0000
Subject: [PATCH 11/25] fix: OSCWriter::set_header panicked

It was left to the trait's todo!(). Headers are written as the XML writer does.
---
 src/osc/mod.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 9b6eeb2..1ff56a3 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -4,6 +4,7 @@ use super::version;
 use super::{Node, OSMObj, OSMObjectType, Relation, Way};
 use super::{OSMReader, OSMWriteError, OSMWriter};
 use crate::obj_types::StringOSMObj;
+use std::collections::HashMap;
 use std::io::{BufReader, Read, Write};
 use std::iter::Iterator;
 
@@ -24,7 +25,7 @@ enum State {
 
 pub struct OSCWriter<W: Write> {
     writer: W,
-    //headers: HashMap<String, String>,
+    headers: HashMap<String, String>,
     _state: State,
 }
 
@@ -100,11 +101,11 @@ impl<W: Write> OSCWriter<W> {
                 version()
             )?;
 
-            //for (k, v) in self.headers.iter() {
-            //    write!(self.writer, " {}=\"", k)?;
-            //    write_xml_attribute(&mut self.writer, v)?;
-            //    write!(self.writer, "\"")?;
-            //}
+            for (k, v) in self.headers.iter() {
+                write!(self.writer, " {}=\"", k)?;
+                write_xml_attribute(&mut self.writer, v)?;
+                write!(self.writer, "\"")?;
+            }
             write!(self.writer, ">")?;
             write!(self.writer, "\n<modify>")?;
 
@@ -118,11 +119,22 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
     fn new(writer: W) -> Self {
         OSCWriter {
             writer,
-            //headers: HashMap::new(),
+            headers: HashMap::new(),
             _state: State::Initial,
         }
     }
 
+    fn set_header(&mut self, (key, value): (&str, &str)) -> Result<(), OSMWriteError> {
+        match self._state {
+            State::Initial => {
+                self.headers.insert(key.into(), value.into());
+                Ok(())
+            }
+            State::Closed => Err(OSMWriteError::AlreadyClosed),
+            State::WritingObjects => Err(OSMWriteError::AlreadyStarted),
+        }
+    }
+
     fn is_open(&self) -> bool {
         self._state != State::Closed
     }
-- 
2.43.0


From 8cb0d1711096ab9bcfbdd0c3bebeddd102f96c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:17 +0000
Subject: [PATCH 12/25] fix: uncompressed PBF blobs panicked in the
 string-based reader

copy_from_slice needs a buffer that already has the length.
---
 src/stringpbf/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 6e86e9f..e321632 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -37,8 +37,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     // get lifetime errors with bytes not living long enough.
     buf.clear();
     if let Some(raw) = &blob.raw {
-        buf.reserve(raw.len());
-        buf.copy_from_slice(raw.as_slice());
+        buf.extend_from_slice(raw.as_slice());
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
-- 
2.43.0


From 47cf829568cc83a3ac9e67ca78074ddf0ecdbade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:18 +0000
Subject: [PATCH 13/25] fix: dense PBF nodes without any tag panicked in the
 string-based reader

---
 src/stringpbf/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index e321632..e7d56be 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -162,7 +162,8 @@ fn decode_dense_nodes(
         internal_lon += internal_lon_offset as i32;
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
-        loop {
+        // an empty keys_vals means that no node in this group has tags
+        while !keys_vals.is_empty() {
             //assert!(keys_vals_index <= keys_vals.len());
             let next = keys_vals[keys_vals_index];
             keys_vals_index += 1;
-- 
2.43.0


From 1cfbb81cae64e6038911a5268b9b933d03a5d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:20 +0000
Subject: [PATCH 14/25] fix: PBF ways and relations without a visible flag are
 not deleted

The string-based reader returned them as deleted, the Arc-based one panicked.
---
 src/arcpbf/mod.rs    | 4 ++--
 src/stringpbf/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index fcd9e96..249da3f 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -276,7 +276,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap(),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(
@@ -366,7 +366,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap(),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index e7d56be..c54b26f 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -263,7 +263,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap_or(false),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
@@ -347,7 +347,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap_or(false),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-- 
2.43.0


From 893e394ba16a0e50478394ccf258230e66041b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:21 +0000
Subject: [PATCH 15/25] fix: PBF objects without metadata panicked

All of Info and DenseInfo is optional; what is absent is None. (This also drops
an assertion that rejected the uid 2147483647.)
---
 src/arcpbf/mod.rs    | 72 +++++++++++++++++++++-----------------------
 src/stringpbf/mod.rs | 63 +++++++++++++++++++++-----------------
 2 files changed, 70 insertions(+), 65 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 249da3f..53b7d25 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -192,28 +192,29 @@ fn decode_dense_nodes(
             )
         };
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
-        last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
-        assert!(uid_id < i32::MAX);
+        // each column of metadata is optional
+        let changeset_id = changesets.get(index).map(|x| x + last_changset);
+        last_changset = changeset_id.unwrap_or(0);
+        let uid_id = uids.get(index).map(|x| x + last_uid);
+        last_uid = uid_id.unwrap_or(0);
+        let user_sid = user_sids.get(index).map(|x| x + last_user_sid);
+        last_user_sid = user_sid.unwrap_or(0);
+        let timestamp = timestamps
+            .get(index)
+            .map(|&x| (x as i32 + last_timestamp) * date_granularity);
+        last_timestamp = timestamp.unwrap_or(0);
+        let timestamp = timestamp.map(|x| TimestampFormat::EpochNumber(x as i64));
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone().unwrap()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id.map(|x| x as u32),
+            _uid: uid_id.map(|x| x as u32),
+            _user: user_sid.map(|idx| stringtable[idx as usize].clone().unwrap()),
+            _version: denseinfo.version.get(index).map(|&x| x as u32),
+            _timestamp: timestamp,
         }));
     }
 
@@ -270,23 +271,21 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[way.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap()
-                    .clone(),
-            ),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|x| x as u32),
+            _uid: way.info.uid.map(|x| x as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|idx| stringtable[idx as usize].clone().unwrap()),
+            _version: way.info.version.map(|x| x as u32),
+            _timestamp: timestamp,
         }));
     }
 }
@@ -360,22 +359,21 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[relation.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap(),
-            ),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|x| x as u32),
+            _uid: relation.info.uid.map(|x| x as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|idx| stringtable[idx as usize].clone().unwrap()),
+            _version: relation.info.version.map(|x| x as u32),
+            _timestamp: timestamp,
         }));
     }
 }
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index c54b26f..5cbed19 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -181,28 +181,29 @@ fn decode_dense_nodes(
             // FIXME infinite loop detection maybe?
         }
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
-        last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
-        assert!(uid_id < i32::MAX);
+        // each column of metadata is optional
+        let changeset_id = changesets.get(index).map(|x| x + last_changset);
+        last_changset = changeset_id.unwrap_or(0);
+        let uid_id = uids.get(index).map(|x| x + last_uid);
+        last_uid = uid_id.unwrap_or(0);
+        let user_sid = user_sids.get(index).map(|x| x + last_user_sid);
+        last_user_sid = user_sid.unwrap_or(0);
+        let timestamp = timestamps
+            .get(index)
+            .map(|&x| (x as i32 + last_timestamp) * date_granularity);
+        last_timestamp = timestamp.unwrap_or(0);
+        let timestamp = timestamp.map(|x| TimestampFormat::EpochNumber(x as i64));
 
         results.push_back(StringOSMObj::Node(StringNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id.map(|x| x as u32),
+            _uid: uid_id.map(|x| x as u32),
+            _user: user_sid.map(|idx| stringtable[idx as usize].clone()),
+            _version: denseinfo.version.get(index).map(|&x| x as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1
     }
@@ -257,18 +258,21 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|x| x as u32),
+            _uid: way.info.uid.map(|x| x as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|idx| stringtable[idx as usize].clone()),
+            _version: way.info.version.map(|x| x as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
@@ -341,18 +345,21 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|x| x as u32),
+            _uid: relation.info.uid.map(|x| x as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|idx| stringtable[idx as usize].clone()),
+            _version: relation.info.version.map(|x| x as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
-- 
2.43.0


From a35e15808ddc29bdf4f9f531d99d538274653125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:23 +0000
Subject: [PATCH 16/25] fix: PBF timestamps with another date granularity were
 wrong

The granularity was divided by 1000 before use (500 became 0), applied again to
every delta of dense nodes, and ignored for ways and relations. Dense timestamps
were cut to 32 bits.
---
 src/arcpbf/mod.rs    | 20 ++++++++++++--------
 src/lib.rs           |  5 +++++
 src/stringpbf/mod.rs | 20 ++++++++++++--------
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 53b7d25..c27db5a 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -2,7 +2,6 @@
 //!
 //! Reading PBF files. Writing/creating PBF files is not currently supported or implemented
 use super::ObjId;
-use super::TimestampFormat;
 use byteorder;
 use byteorder::ReadBytesExt;
 use std::io::{Cursor, Read};
@@ -201,9 +200,9 @@ fn decode_dense_nodes(
         last_user_sid = user_sid.unwrap_or(0);
         let timestamp = timestamps
             .get(index)
-            .map(|&x| (x as i32 + last_timestamp) * date_granularity);
+            .map(|x| x + last_timestamp);
         last_timestamp = timestamp.unwrap_or(0);
-        let timestamp = timestamp.map(|x| TimestampFormat::EpochNumber(x as i64));
+        let timestamp = timestamp.map(|x| pbf_timestamp(x, date_granularity));
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
@@ -226,7 +225,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -271,7 +270,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|x| pbf_timestamp(x, date_granularity));
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
@@ -295,7 +297,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -359,7 +361,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|x| pbf_timestamp(x, date_granularity));
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
@@ -387,7 +392,6 @@ fn decode_primitive_group_to_objs(
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
-    let date_granularity = date_granularity / 1000;
     if !primitive_group.nodes.is_empty() {
         decode_nodes(
             primitive_group,
diff --git a/src/lib.rs b/src/lib.rs
index 9c1b977..426b156 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -770,6 +770,11 @@ pub trait OSMWriter<W: Write> {
     }
 }
 
+/// Timestamp for a raw PBF value, which counts date_granularity milliseconds
+pub(crate) fn pbf_timestamp(raw: i64, date_granularity: i32) -> TimestampFormat {
+    TimestampFormat::EpochNumber((raw * date_granularity as i64).div_euclid(1000))
+}
+
 /// The version string of this library.
 ///
 /// calls the "CARGO_PKG_VERSION"
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 5cbed19..3e3404c 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -3,7 +3,6 @@
 //! Reading PBF files. Writing/creating PBF files is not currently supported or implemented
 use super::OSMReader;
 use super::ObjId;
-use super::TimestampFormat;
 use byteorder;
 use byteorder::ReadBytesExt;
 use protobuf::Message;
@@ -190,9 +189,9 @@ fn decode_dense_nodes(
         last_user_sid = user_sid.unwrap_or(0);
         let timestamp = timestamps
             .get(index)
-            .map(|&x| (x as i32 + last_timestamp) * date_granularity);
+            .map(|x| x + last_timestamp);
         last_timestamp = timestamp.unwrap_or(0);
-        let timestamp = timestamp.map(|x| TimestampFormat::EpochNumber(x as i64));
+        let timestamp = timestamp.map(|x| pbf_timestamp(x, date_granularity));
 
         results.push_back(StringOSMObj::Node(StringNode {
             _id: id as ObjId,
@@ -216,7 +215,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     results: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -258,7 +257,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|x| pbf_timestamp(x, date_granularity));
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
@@ -284,7 +286,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -345,7 +347,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|x| pbf_timestamp(x, date_granularity));
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
@@ -377,7 +382,6 @@ fn decode_primitive_group_to_objs(
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    let date_granularity = date_granularity / 1000;
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-- 
2.43.0


From 5093741bb5560d24f077dd3add3b6666813ca405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 17/25] fix: PBF coordinates were wrong unless granularity and
 offsets are multiples of 100

Granularity and offset were each cut to 100 nanodegrees before use (a granularity
of 50 put every node at the offset), and raw values had to fit into 32 bits.
---
 src/arcpbf/mod.rs            | 23 ++++++-----------------
 src/lib.rs                   |  7 +++++++
 src/stringpbf/mod.rs         | 23 ++++++-----------------
 src/stringpbf/node_id_pos.rs | 23 ++++++-----------------
 4 files changed, 25 insertions(+), 51 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index c27db5a..3f66d42 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -9,7 +9,6 @@ use std::iter::Iterator;
 use std::sync::Arc;
 
 use super::*;
-use crate::COORD_PRECISION_NANOS;
 use protobuf::Message;
 
 use flate2::read::ZlibDecoder;
@@ -125,8 +124,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -137,24 +136,14 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        let internal_lat = pbf_coordinate(raw_lat, granularity, lat_offset);
+        let internal_lon = pbf_coordinate(raw_lon, granularity, lon_offset);
 
         let tags = if !has_tags {
             None
diff --git a/src/lib.rs b/src/lib.rs
index 426b156..cc74841 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -770,6 +770,13 @@ pub trait OSMWriter<W: Write> {
     }
 }
 
+/// Internal coordinate for a raw PBF value, which counts granularity nanodegrees from offset
+pub(crate) fn pbf_coordinate(raw: i64, granularity: i32, offset: i64) -> i32 {
+    let nanos = offset + granularity as i64 * raw;
+    i32::try_from(nanos.div_euclid(COORD_PRECISION_NANOS as i64))
+        .expect("coordinate was larger than the OSM precision allows")
+}
+
 /// Timestamp for a raw PBF value, which counts date_granularity milliseconds
 pub(crate) fn pbf_timestamp(raw: i64, date_granularity: i32) -> TimestampFormat {
     TimestampFormat::EpochNumber((raw * date_granularity as i64).div_euclid(1000))
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 3e3404c..051dc88 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -13,7 +13,6 @@ use std::io::{Cursor, Read};
 use std::iter::Iterator;
 
 use super::*;
-use crate::COORD_PRECISION_NANOS;
 
 use flate2::read::ZlibDecoder;
 
@@ -129,8 +128,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -141,24 +140,14 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        let internal_lat = pbf_coordinate(raw_lat, granularity, lat_offset);
+        let internal_lon = pbf_coordinate(raw_lon, granularity, lon_offset);
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
         // an empty keys_vals means that no node in this group has tags
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 6f2d07d..a1131b2 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -5,7 +5,6 @@ use std::iter::Iterator;
 use std::collections::VecDeque;
 
 use super::*;
-use crate::COORD_PRECISION_NANOS;
 use protobuf::Message;
 
 /// (node id, (latitude, longitude))
@@ -93,32 +92,22 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
             // NB it's important that these start at zero, makes the code easier later
             let mut last_id: i64 = 0;
-            let mut last_raw_lat: i32 = 0;
-            let mut last_raw_lon: i32 = 0;
+            let mut last_raw_lat: i64 = 0;
+            let mut last_raw_lon: i64 = 0;
 
             for index in 0..num_nodes {
                 // last_* start off 0
                 let id = ids[index] + last_id;
                 last_id = id;
 
-                let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-                    .expect("raw_lat was larger than the OSM precision allows");
+                let raw_lat = lats[index] + last_raw_lat;
                 last_raw_lat = raw_lat;
 
-                let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-                    .expect("raw_lon was larger than OSM precision allows");
+                let raw_lon = lons[index] + last_raw_lon;
                 last_raw_lon = raw_lon;
 
-                // granularity is in nanodegrees
-                let scale_factor = granularity / COORD_PRECISION_NANOS;
-                let mut internal_lat = raw_lat * scale_factor;
-                let mut internal_lon = raw_lon * scale_factor;
-
-                // Offsets from pbf are in nanodegrees
-                let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-                let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-                internal_lat += internal_lat_offset as i32;
-                internal_lon += internal_lon_offset as i32;
+                let internal_lat = pbf_coordinate(raw_lat, *granularity, *lat_offset);
+                let internal_lon = pbf_coordinate(raw_lon, *granularity, *lon_offset);
 
                 sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));
                 num_objects += 1;
-- 
2.43.0


From c7fa239b784b5066cd4ec4217690c0a5da8136a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:55 +0000
Subject: [PATCH 18/25] fix: PBF blocks without exactly one group of objects
 panicked

The string-based reader insisted on one group per block, the Arc-based and the
node position readers panicked on groups that are empty or hold changesets.
---
 src/arcpbf/mod.rs            |  2 +-
 src/stringpbf/mod.rs         | 60 +++++++++++++-----------------------
 src/stringpbf/node_id_pos.rs |  2 +-
 3 files changed, 24 insertions(+), 40 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 3f66d42..f9b9d60 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -422,7 +422,7 @@ fn decode_primitive_group_to_objs(
             results,
         );
     } else {
-        unreachable!();
+        // nothing to read, e.g. an empty group, or one of changesets
     }
 }
 
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 051dc88..3d43926 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -367,71 +367,49 @@ fn decode_primitive_group_to_objs(
     lat_offset: i64,
     lon_offset: i64,
     date_granularity: i32,
-    raw_stringtable: osmformat::StringTable,
+    stringtable: &[SmolStr],
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(
-            raw_stringtable.s.iter().map(|chars| {
-                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
-            }),
-        );
-
         num_objects_written += decode_nodes(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else if primitive_group.dense.is_some() && object_filter.0 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
         num_objects_written += decode_dense_nodes(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else if !primitive_group.ways.is_empty() && object_filter.1 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
         num_objects_written += decode_ways(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else if !primitive_group.relations.is_empty() && object_filter.2 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
         num_objects_written += decode_relations(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else {
@@ -447,6 +425,11 @@ fn decode_block_to_objs(
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
     let raw_stringtable = block.stringtable.take().unwrap();
+    let stringtable: Vec<SmolStr> = raw_stringtable
+        .s
+        .into_iter()
+        .map(|chars| SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String")))
+        .collect();
 
     let granularity = block.granularity();
     let lat_offset = block.lat_offset();
@@ -455,17 +438,18 @@ fn decode_block_to_objs(
 
     let mut results = 0;
 
-    assert_eq!(block.primitivegroup.len(), 1);
-    results += decode_primitive_group_to_objs(
-        &block.primitivegroup[0],
-        granularity,
-        lat_offset,
-        lon_offset,
-        date_granularity,
-        raw_stringtable,
-        object_filter,
-        sink,
-    );
+    for primitive_group in block.primitivegroup.iter() {
+        results += decode_primitive_group_to_objs(
+            primitive_group,
+            granularity,
+            lat_offset,
+            lon_offset,
+            date_granularity,
+            &stringtable,
+            object_filter,
+            sink,
+        );
+    }
 
     results
 }
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index a1131b2..3ba0cd9 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -113,7 +113,7 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
                 num_objects += 1;
             }
         } else {
-            unreachable!();
+            // nothing to read, e.g. an empty group, or one of changesets
         }
     }
 
-- 
2.43.0


From 0ff80c5e80154f8b2e55493c21c1e5b9d0de2dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:56 +0000
Subject: [PATCH 19/25] fix: iterating the nodes of a PBF file hid the rest of
 it for good

nodes(), ways() and relations() of the string-based reader left their filter set,
so that a later objects() call, or one for another kind, returned nothing else.
---
 src/stringpbf/mod.rs | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 3d43926..5b48e39 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -368,11 +368,10 @@ fn decode_primitive_group_to_objs(
     lon_offset: i64,
     date_granularity: i32,
     stringtable: &[SmolStr],
-    object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
     let mut num_objects_written = 0;
-    if !primitive_group.nodes.is_empty() && object_filter.0 {
+    if !primitive_group.nodes.is_empty() {
         num_objects_written += decode_nodes(
             primitive_group,
             granularity,
@@ -382,7 +381,7 @@ fn decode_primitive_group_to_objs(
             stringtable,
             sink,
         );
-    } else if primitive_group.dense.is_some() && object_filter.0 {
+    } else if primitive_group.dense.is_some() {
         num_objects_written += decode_dense_nodes(
             primitive_group,
             granularity,
@@ -392,7 +391,7 @@ fn decode_primitive_group_to_objs(
             stringtable,
             sink,
         );
-    } else if !primitive_group.ways.is_empty() && object_filter.1 {
+    } else if !primitive_group.ways.is_empty() {
         num_objects_written += decode_ways(
             primitive_group,
             granularity,
@@ -402,7 +401,7 @@ fn decode_primitive_group_to_objs(
             stringtable,
             sink,
         );
-    } else if !primitive_group.relations.is_empty() && object_filter.2 {
+    } else if !primitive_group.relations.is_empty() {
         num_objects_written += decode_relations(
             primitive_group,
             granularity,
@@ -413,7 +412,7 @@ fn decode_primitive_group_to_objs(
             sink,
         );
     } else {
-        // can happen if there is an object filter in operation
+        // nothing to read, e.g. an empty group, or one of changesets
     }
 
     num_objects_written
@@ -424,6 +423,17 @@ fn decode_block_to_objs(
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
+    // Skip a block without any object the filter asks for. Other blocks are read completely, so
+    // that what comes after the objects asked for is still there afterwards.
+    let wanted = block.primitivegroup.iter().any(|group| {
+        (object_filter.0 && (!group.nodes.is_empty() || group.dense.is_some()))
+            || (object_filter.1 && !group.ways.is_empty())
+            || (object_filter.2 && !group.relations.is_empty())
+    });
+    if !wanted {
+        return 0;
+    }
+
     let raw_stringtable = block.stringtable.take().unwrap();
     let stringtable: Vec<SmolStr> = raw_stringtable
         .s
@@ -446,7 +456,6 @@ fn decode_block_to_objs(
             lon_offset,
             date_granularity,
             &stringtable,
-            object_filter,
             sink,
         );
     }
@@ -471,22 +480,31 @@ pub struct PBFReader<R: Read> {
 }
 
 impl<R: Read> PBFReader<R> {
+    /// The next object that `convert` accepts, which must be of a kind the filter lets through
+    fn next_filtered<T>(
+        &mut self,
+        object_filter: ObjectFilter,
+        convert: impl FnMut(StringOSMObj) -> Option<T>,
+    ) -> Option<T> {
+        self.object_filter = object_filter;
+        let result = self.objects().find_map(convert);
+        self.object_filter = (true, true, true);
+        result
+    }
+
     /// Iterate over all the nodes in this source
     pub fn nodes(&mut self) -> impl Iterator<Item = StringNode> + '_ {
-        self.object_filter = (true, false, false);
-        self.objects().filter_map(|o| o.into_node())
+        std::iter::from_fn(|| self.next_filtered((true, false, false), |o| o.into_node()))
     }
 
     /// Iterate over all the ways in this source
     pub fn ways(&mut self) -> impl Iterator<Item = StringWay> + '_ {
-        self.object_filter = (false, true, false);
-        self.objects().filter_map(|o| o.into_way())
+        std::iter::from_fn(|| self.next_filtered((false, true, false), |o| o.into_way()))
     }
 
     /// Iterate over all the relations in this source
     pub fn relations(&mut self) -> impl Iterator<Item = StringRelation> + '_ {
-        self.object_filter = (false, false, true);
-        self.objects().filter_map(|o| o.into_relation())
+        std::iter::from_fn(|| self.next_filtered((false, false, true), |o| o.into_relation()))
     }
 }
 
-- 
2.43.0


From 7f81d486d59df38350c5a49f8bc796e2e30ccdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:29 +0000
Subject: [PATCH 20/25] fix: PBF groups of nodes that are not dense panicked

The format allows them besides dense nodes; all three readers left them unimplemented.
---
 src/arcpbf/mod.rs            | 54 ++++++++++++++++++++++++++++++------
 src/stringpbf/mod.rs         | 48 ++++++++++++++++++++++++++------
 src/stringpbf/node_id_pos.rs |  7 ++++-
 3 files changed, 92 insertions(+), 17 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index f9b9d60..b793cf8 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -81,15 +81,53 @@ impl<R: Read> FileReader<R> {
 }
 
 fn decode_nodes(
-    _primitive_group: &osmformat::PrimitiveGroup,
-    _granularity: i32,
-    _lat_offset: i64,
-    _lon_offset: i64,
-    _date_granularity: i32,
-    _stringtable: &[Option<Arc<str>>],
-    _results: &mut [ArcOSMObj],
+    primitive_group: &osmformat::PrimitiveGroup,
+    granularity: i32,
+    lat_offset: i64,
+    lon_offset: i64,
+    date_granularity: i32,
+    stringtable: &[Option<Arc<str>>],
+    results: &mut Vec<ArcOSMObj>,
 ) {
-    unimplemented!("Dense node");
+    results.reserve(primitive_group.nodes.len());
+    for node in primitive_group.nodes.iter() {
+        let keys = node
+            .keys
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let vals = node
+            .vals
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let tags: Vec<_> = keys
+            .zip(vals)
+            .filter_map(|(k, v)| match (k, v) {
+                (Some(k), Some(v)) => Some((k, v)),
+                _ => None,
+            })
+            .collect();
+
+        results.push(ArcOSMObj::Node(ArcNode {
+            _id: node.id() as ObjId,
+            _tags: Some(tags),
+            _lat_lon: Some((
+                Lat(pbf_coordinate(node.lat(), granularity, lat_offset)),
+                Lon(pbf_coordinate(node.lon(), granularity, lon_offset)),
+            )),
+            _deleted: !node.info.visible.unwrap_or(true),
+            _changeset_id: node.info.changeset.map(|x| x as u32),
+            _uid: node.info.uid.map(|x| x as u32),
+            _user: node
+                .info
+                .user_sid
+                .map(|idx| stringtable[idx as usize].clone().unwrap()),
+            _version: node.info.version.map(|x| x as u32),
+            _timestamp: node
+                .info
+                .timestamp
+                .map(|x| pbf_timestamp(x, date_granularity)),
+        }));
+    }
 }
 
 fn decode_dense_nodes(
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 5b48e39..195641b 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -85,15 +85,47 @@ impl<R: Read> FileReader<R> {
 }
 
 fn decode_nodes(
-    _primitive_group: &osmformat::PrimitiveGroup,
-    _granularity: i32,
-    _lat_offset: i64,
-    _lon_offset: i64,
-    _date_granularity: i32,
-    _stringtable: &[SmolStr],
-    _sink: &mut VecDeque<StringOSMObj>,
+    primitive_group: &osmformat::PrimitiveGroup,
+    granularity: i32,
+    lat_offset: i64,
+    lon_offset: i64,
+    date_granularity: i32,
+    stringtable: &[SmolStr],
+    sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    unimplemented!("Dense node");
+    for node in primitive_group.nodes.iter() {
+        let keys = node
+            .keys
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let vals = node
+            .vals
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
+
+        sink.push_back(StringOSMObj::Node(StringNode {
+            _id: node.id() as ObjId,
+            _tags: keys.zip(vals).collect(),
+            _lat_lon: Some((
+                Lat(pbf_coordinate(node.lat(), granularity, lat_offset)),
+                Lon(pbf_coordinate(node.lon(), granularity, lon_offset)),
+            )),
+            _deleted: !node.info.visible.unwrap_or(true),
+            _changeset_id: node.info.changeset.map(|x| x as u32),
+            _uid: node.info.uid.map(|x| x as u32),
+            _user: node
+                .info
+                .user_sid
+                .map(|idx| stringtable[idx as usize].clone()),
+            _version: node.info.version.map(|x| x as u32),
+            _timestamp: node
+                .info
+                .timestamp
+                .map(|x| pbf_timestamp(x, date_granularity)),
+        }));
+    }
+    primitive_group.nodes.len()
 }
 
 fn decode_dense_nodes(
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 3ba0cd9..1424663 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -79,7 +79,12 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
     for primitive_group in block.primitivegroup.iter() {
         if !primitive_group.nodes.is_empty() {
-            unimplemented!()
+            for node in primitive_group.nodes.iter() {
+                let lat = pbf_coordinate(node.lat(), *granularity, *lat_offset);
+                let lon = pbf_coordinate(node.lon(), *granularity, *lon_offset);
+                sink.push_back((node.id() as ObjId, (Lat(lat), Lon(lon))));
+                num_objects += 1;
+            }
         } else if !primitive_group.ways.is_empty() || !primitive_group.relations.is_empty() {
             continue;
         } else if primitive_group.dense.is_some() {
-- 
2.43.0


From fc2f2ee81c47cb24b32ad5f6607913683d7d363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:57 +0000
Subject: [PATCH 21/25] fix: a zlib blob without raw_size made the Arc PBF
 reader panic

---
 src/arcpbf/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index b793cf8..b9d857f 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -29,7 +29,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob) -> Option<Vec<u8>> {
         Some(blob.take_raw())
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
-        let mut bytes = Vec::with_capacity(blob.raw_size.unwrap() as usize);
+        let mut bytes = Vec::with_capacity(blob.raw_size.unwrap_or(0) as usize);
         ZlibDecoder::new(cursor).read_to_end(&mut bytes).ok()?;
 
         Some(bytes)
-- 
2.43.0


From 783fa5ac72f856dcb47d33cd9bc41f0e9ecac53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:11 +0000
Subject: [PATCH 22/25] fix: untagged Arc and Rc nodes were unequal depending
 on how they became untagged

---
 src/arcpbf/mod.rs          | 5 +++--
 src/obj_types/arc_types.rs | 4 ++++
 src/obj_types/rc_types.rs  | 4 ++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index b9d857f..87d39b1 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -109,7 +109,7 @@ fn decode_nodes(
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: node.id() as ObjId,
-            _tags: Some(tags),
+            _tags: Some(tags).filter(|tags| !tags.is_empty()),
             _lat_lon: Some((
                 Lat(pbf_coordinate(node.lat(), granularity, lat_offset)),
                 Lon(pbf_coordinate(node.lon(), granularity, lon_offset)),
@@ -233,7 +233,8 @@ fn decode_dense_nodes(
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
-            _tags: tags,
+            // untagged nodes are the same whatever group they come from
+            _tags: tags.filter(|tags: &Vec<_>| !tags.is_empty()),
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
             _changeset_id: changeset_id.map(|x| x as u32),
diff --git a/src/obj_types/arc_types.rs b/src/obj_types/arc_types.rs
index fd97482..6c050c0 100644
--- a/src/obj_types/arc_types.rs
+++ b/src/obj_types/arc_types.rs
@@ -348,6 +348,10 @@ impl OSMObjBase for ArcNode {
                 .next();
             if let Some(i) = idx {
                 tags.remove(i);
+                if tags.is_empty() {
+                    // so that it equals a node that never had tags
+                    self._tags = None;
+                }
             }
         }
     }
diff --git a/src/obj_types/rc_types.rs b/src/obj_types/rc_types.rs
index 6177f4f..73812cb 100644
--- a/src/obj_types/rc_types.rs
+++ b/src/obj_types/rc_types.rs
@@ -351,6 +351,10 @@ impl OSMObjBase for RcNode {
                 .next();
             if let Some(i) = idx {
                 tags.remove(i);
+                if tags.is_empty() {
+                    // so that it equals a node that never had tags
+                    self._tags = None;
+                }
             }
         }
     }
-- 
2.43.0


From 20c38caa378e16c1f7a9136b3c8746f66f2821cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:17 +0000
Subject: [PATCH 23/25] fix: a PBF blob compressed in an unsupported way was
 skipped silently

The StringPBF and node position readers went on with the next block, as if
the objects in it did not exist.
---
 src/stringpbf/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 195641b..8718eed 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -39,6 +39,8 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
+    } else {
+        panic!("a blob is compressed in a way that is not supported");
     }
 }
 
-- 
2.43.0


From 18db3d4befcdb91c915f217784008e65bf4c8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:30 +0000
Subject: [PATCH 24/25] fix: a timestamp with a fraction of a second equalled
 the epoch number of its second

---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cc74841..7d906fd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -274,6 +274,15 @@ impl TimestampFormat {
             &TimestampFormat::EpochNumber(t) => t,
         }
     }
+
+    /// Seconds since the epoch, and the nanoseconds after that second
+    fn to_epoch_nanos(&self) -> (i64, u32) {
+        match self {
+            TimestampFormat::ISOString(s) => iso_to_datetime(s)
+                .map_or((0, 0), |d| (d.timestamp(), d.timestamp_subsec_nanos())),
+            &TimestampFormat::EpochNumber(t) => (t, 0),
+        }
+    }
 }
 
 impl<T> From<T> for TimestampFormat
@@ -312,7 +321,7 @@ impl std::cmp::PartialOrd for TimestampFormat {
                 }
             }
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.partial_cmp(b),
-            (a, b) => a.to_epoch_number().partial_cmp(&b.to_epoch_number()),
+            (a, b) => a.to_epoch_nanos().partial_cmp(&b.to_epoch_nanos()),
         }
     }
 }
@@ -326,7 +335,7 @@ impl std::cmp::PartialEq for TimestampFormat {
                 }
             }
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.eq(b),
-            (a, b) => a.to_epoch_number().eq(&b.to_epoch_number()),
+            (a, b) => a.to_epoch_nanos().eq(&b.to_epoch_nanos()),
         }
     }
 }
-- 
2.43.0


From 5ba3ff789c5959894b688f42f3e6d8403cb2b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:30 +0000
Subject: [PATCH 25/25] fix: a failing read between two blocks of a PBF file
 was taken for the end of the file

---
 src/arcpbf/mod.rs    | 9 ++++-----
 src/stringpbf/mod.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 87d39b1..51c6704 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -2,8 +2,6 @@
 //!
 //! Reading PBF files. Writing/creating PBF files is not currently supported or implemented
 use super::ObjId;
-use byteorder;
-use byteorder::ReadBytesExt;
 use std::io::{Cursor, Read};
 use std::iter::Iterator;
 use std::sync::Arc;
@@ -53,9 +51,10 @@ impl<R: Read> FileReader<R> {
 
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            // Nothing left is the end of the file, but failing to read is not
+            let mut size = Vec::with_capacity(4);
+            self.reader.by_ref().take(4).read_to_end(&mut size).unwrap();
+            let size = u32::from_be_bytes(size.try_into().ok()?);
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 8718eed..35f6aac 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -3,8 +3,6 @@
 //! Reading PBF files. Writing/creating PBF files is not currently supported or implemented
 use super::OSMReader;
 use super::ObjId;
-use byteorder;
-use byteorder::ReadBytesExt;
 use protobuf::Message;
 use smallvec::SmallVec;
 use smol_str::SmolStr;
@@ -59,9 +57,10 @@ impl<R: Read> FileReader<R> {
 
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            // Nothing left is the end of the file, but failing to read is not
+            let mut size = Vec::with_capacity(4);
+            self.reader.by_ref().take(4).read_to_end(&mut size).unwrap();
+            let size = u32::from_be_bytes(size.try_into().ok()?);
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
-- 
2.43.0

