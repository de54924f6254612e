"""What each check runs and within which bounds."""

ASSUMPTIONS = [
    "the LLVM IR rustc (stable, opt-level 1, overflow checks on, panic=abort) produces from /repo's current tree means what the shipped build means",
    "core's decimal conversion of doubles (Display and FromStr) is correctly rounded and shortest, as documented",
    "the C library calls the code makes (memory, strings) behave as documented; allocation succeeds",
]

PROPS = {
    "C01": {
        "entries": ["c01_values", "c01_columns", "c01_strings", "c01_dates", "c01_plain", "c01_plain_dates", "c01_large", "c01_plain_large"],
        "reach": {"c01_values": ["dense"], "c01_columns": ["dense"], "c01_strings": ["dense"], "c01_dates": ["dates"], "c01_plain": ["plain"], "c01_plain_dates": ["dates"], "c01_large": ["large"], "c01_plain_large": ["large"]},
        "bounds": "one block, String and Arc readers; dense: 0-2 (thorough 3) nodes with every value full-width symbolic (ids within +-2^62, timestamps within +-2^52 s, versions and uids below 2^31); every subset of the metadata columns with 0-2 tags per node; shared string table entries in any arrangement of 3 symbolic strings for 2 nodes; plain: 1-2 nodes, every metadata subset; date granularities absent, 1000, 1, 500, 250, 60000, 333 (thorough also 1001, 2^31-1) ms with any timestamp within 2^31 s of 1970; groups of 7 (ways: 3) objects with 0-17 tags and long text each behind a string table of 0, 130 or 300 (thorough also 66,000) further entries, one of them with every number and a character of each text symbolic",
        "outside": "other group sizes (C05 has groups of up to 20), varints not padded to 10/5 bytes for the symbolic values, more than one symbolic character per string",
    },
    "C02": {
        "entries": ["c02_coords"],
        "reach": {"c02_coords": ["coords"]},
        "bounds": "two nodes, dense or plain, three readers; granularities absent, 100, 1, 50, 1000, 250, 33 (thorough also 10^7, 99, 101) nanodegrees; latitude or longitude offset any value within +-1100 degrees, or both fixed, or absent; every raw value whose coordinate fits 32 bits",
        "outside": "other granularities, larger offsets",
    },
    "C03": {
        "entries": ["c03_values", "c03_fields", "c03_dates", "c03_large"],
        "reach": {"c03_values": ["way"], "c03_fields": ["fields"], "c03_dates": ["dates"], "c03_large": ["large"]},
        "bounds": "1-2 ways, String and Arc readers: all numbers full-width symbolic with 0-3 or 9 node ids within +-2^62; every subset of the metadata and 0-2 tags each; date granularities as for C01; groups of 7 (ways: 3) objects with 0-17 tags and long text each behind a string table of 0, 130 or 300 (thorough also 66,000) further entries, one of them with every number and a character of each text symbolic, up to 200 node ids",
        "outside": "other lengths of lists and text",
    },
    "C04": {
        "entries": ["c04_values", "c04_fields", "c04_dates", "c04_large"],
        "reach": {"c04_values": ["relation"], "c04_fields": ["fields"], "c04_dates": ["dates"], "c04_large": ["large"]},
        "bounds": "1-2 relations, String and Arc readers: all numbers full-width symbolic with 0-3 members of every kind (ids within +-2^62, roles one symbolic character or empty); every subset of the metadata and 0-2 tags each; date granularities as for C01; groups of 7 (ways: 3) objects with 0-17 tags and long text each behind a string table of 0, 130 or 300 (thorough also 66,000) further entries, one of them with every number and a character of each text symbolic, up to 30 members",
        "outside": "other lengths of lists and text",
    },
    "C05": {
        "entries": ["c05_blocks", "c05_groups", "c05_sizes", "c05_deflated", "c05_many"],
        "reach": {"c05_blocks": ["blocks"], "c05_groups": ["blocks"], "c05_sizes": ["blocks"], "c05_deflated": ["blocks"], "c05_many": ["blocks"]},
        "bounds": "String and Arc readers; 0-2 file blocks (OSMData, other types, empty), raw or zlib, 0-2 groups each, and one block with 0-3 groups, each group dense, ways, relations, plain nodes, changesets or empty; groups of 0, 1, 3 or 20 objects; symbolic ids; three blocks of which the middle one is compressed with fixed or dynamic Huffman codes, with or without raw_size; 3-5 (thorough 3-7) blocks with another type of block anywhere among them and unknown fields in the headers",
        "outside": "other numbers of blocks and groups; deflate data with symbolic content, compression levels other than the two samples",
    },
    "C06": {
        "entries": ["c06_meta", "c06_lists", "c06_files"],
        "reach": {"c06_meta": ["compared"], "c06_lists": ["compared"], "c06_files": ["compared"]},
        "bounds": "three readers on the same file: one object of each kind with full-width metadata including values out of the format's range, three date and coordinate granularities; tag, node and member columns of 0-6 entries and of different lengths; the files of C05",
        "outside": "longer columns",
    },
    "C07": {
        "entries": ["c07_string", "c07_arc", "c07_xml", "c07_osc"],
        "reach": {"c07_string": ["filtered"], "c07_arc": ["filtered"], "c07_xml": ["filtered"], "c07_osc": ["filtered"]},
        "bounds": "with no hint, or (sorted files) the hint that the file is sorted, kept or taken back; every history of nodes/ways/relations taking 0, 1, 2 or all, then any of the four taking 0, 1, 2 or all, then objects() to the end, on one reader; PBF files of six shapes (several blocks, several groups), XML and OSC documents of four shapes with symbolic ids",
        "outside": "longer histories, other shapes",
    },
    "C08": {
        "entries": ["c08_numbers", "c08_fields", "c08_texts", "c08_sequences", "c08_types", "c08_large"],
        "reach": {"c08_numbers": ["round-trip"], "c08_fields": ["round-trip"], "c08_texts": ["round-trip"], "c08_sequences": ["round-trip"], "c08_types": ["round-trip"], "c08_large": ["round-trip"]},
        "bounds": "XML documents: each numeric field over its full range (ids and references all of i64, coordinates all of i32, timestamps every second of a day); every subset of the optional fields with 0-2 tags, nodes or members; text of 0-2 (thorough 3) characters, any XML permits, in the user name, tag key, tag value, role and timestamp; sequences of 0-3 (thorough 4) objects bare or with every field; the Arc and Rc object types; objects with 2 or 14 (thorough also 5, 40) tags, 3 or 20 (thorough also 130) nodes or members and text of 60-120 characters with one symbolic character",
        "outside": "other lengths of text and lists, characters outside XML 1.0",
    },
    "C09": {
        "entries": ["c09_numbers", "c09_fields", "c09_texts", "c09_sequences", "c09_types", "c09_large"],
        "reach": {"c09_numbers": ["round-trip"], "c09_fields": ["round-trip"], "c09_texts": ["round-trip"], "c09_sequences": ["round-trip"], "c09_types": ["round-trip"], "c09_large": ["round-trip"]},
        "bounds": "OSC documents: each numeric field over its full range (ids and references all of i64, coordinates all of i32, timestamps every second of a day); every subset of the optional fields with 0-2 tags, nodes or members; text of 0-2 (thorough 3) characters, any XML permits, in the user name, tag key, tag value, role and timestamp; sequences of 0-3 (thorough 4) objects bare or with every field; the Arc and Rc object types; objects with 2 or 14 (thorough also 5, 40) tags, 3 or 20 (thorough also 130) nodes or members and text of 60-120 characters with one symbolic character",
        "outside": "other lengths of text and lists, characters outside XML 1.0",
    },
    "C10": {
        "entries": ["c10_xml", "c10_osc", "c10_xml_hostile", "c10_osc_hostile"],
        "reach": {"c10_xml": ["markup"], "c10_osc": ["markup"], "c10_xml_hostile": ["markup"], "c10_osc_hostile": ["markup"]},
        "bounds": "text of 0-2 (thorough 3) characters, any XML permits, and six markup-like strings before or after any such character, in the user name, tag key, tag value, role, timestamp and header value; compared through an independent XML scanner with the document for a harmless text",
        "outside": "longer text",
    },
    "C11": {
        "entries": ["c11_xml", "c11_osc", "c11_xml_iter", "c11_osc_iter"],
        "reach": {"c11_xml": ["life", "header", "refused", "closed"], "c11_osc": ["life", "header", "refused", "closed"], "c11_xml_iter": ["from-iter"], "c11_osc_iter": ["from-iter"]},
        "bounds": "every history of 0-5 (thorough 6) calls of set_header (two names, symbolic value), write_obj and close, with is_open read between them, then drop; from_iter with 0-2 objects",
        "outside": "longer histories",
    },
    "C12": {
        "entries": ["c12_attributes", "c12_children", "c12_blocks", "c12_encodings", "c12_values"],
        "reach": {"c12_attributes": ["attributes"], "c12_children": ["children"], "c12_blocks": ["blocks"], "c12_encodings": ["encodings"], "c12_values": ["values"]},
        "bounds": "XML and OSC documents: every subset of the attributes in five arrangements; 0-2 tags, 0-3 node references or 0-2 members with six kinds of unknown content between them; sequences of 0-2 (thorough 3) objects in create, modify and delete blocks; four spellings; text of 0-2 units each a character, an entity or a numeric reference; numbers over their full range, degrees with 0-7 fractional digits",
        "outside": "longer lists and text; elements and attributes in other namespaces; CDATA",
    },
    "C13": {
        "entries": ["c13_degrees", "c13_order", "c13_text"],
        "reach": {"c13_degrees": ["lat-ok"], "c13_order": ["order"], "c13_text": ["text"]},
        "bounds": "none left open: every 32-bit internal value (each pair of values for the order)",
        "outside": "",
    },
    "C14": {
        "entries": ["c14_f64", "c14_f32", "c14_text", "c14_odd"],
        "reach": {"c14_f64": ["nearest", "rejected", "tiny", "not-finite"], "c14_f32": ["nearest", "rejected", "tiny", "not-finite"],
                  "c14_text": ["text-ok", "text-rejected"], "c14_odd": ["odd"]},
        "bounds": "every f64 and every f32 bit pattern (sign and exponent case-split, significand symbolic); decimal text with an optional sign, 1-5 integer digits and 0-9 (thorough 0-10) fractional digits; 22 fixed texts that are no finite number",
        "outside": "text with more digits or an exponent",
    },
    "C15": {
        "entries": ["c15_format", "c15_display", "c15_parse", "c15_zone"],
        "reach": {"c15_format": ["format"], "c15_display": ["display"], "c15_parse": ["parse"], "c15_zone": ["parse"]},
        "bounds": "every second of 24 years between 0000 and 9999 (thorough: also 1850-2149 for formatting, 1000-2999 for parsing UTC and 1-9998 in five months for other offsets), year and month case-split, day and time of day symbolic; offsets Z, +00:00 and every +hh:mm and -hh:mm in 8 of the years",
        "outside": "the other years, fractional seconds, leap seconds",
    },
    "C16": {
        "entries": ["c16_compare", "c16_fractions"],
        "reach": {"c16_compare": ["compare"], "c16_fractions": ["fractions"]},
        "bounds": "pairs of timestamps: any epoch second of years 0000-9999, or RFC 3339 text for any second of Feb 2000, Dec 2000 or Jan 2001 with any whole-minute offset (thorough: 7 years x 12 months against those months); pairs of texts within one minute, in one of two zones, with 0, 1 or 3 (thorough 0-3) fractional digits, or epoch numbers",
        "outside": "text in other years, more fractional digits, leap seconds, text that is not RFC 3339",
    },
    "C17": {
        "entries": ["c17_tags", "c17_long", "c17_lengths", "c17_many"],
        "reach": {"c17_tags": ["two-tags", "unset"], "c17_long": ["two-tags", "unset"], "c17_lengths": ["two-tags", "unset"], "c17_many": ["two-tags", "unset"]},
        "bounds": "18 object types; every sequence of 4 (thorough 5) set_tag/unset_tag calls with one-byte ASCII keys and values, every sequence of 2 (thorough 3) with one-byte or heap-allocated keys (30 bytes, first and last symbolic); two calls with keys of 0-3 bytes; one (thorough two) calls on an object with 3 or 11 (thorough also 5, 17) tags; objects with nothing but tags (one-byte keys) or with everything else set",
        "outside": "longer call sequences, other key lengths, non-ASCII keys",
    },
    "C18": {
        "entries": ["c18_setters"],
        "reach": {"c18_setters": ["lat-lon-err", "lat-lon-ok", "set", "strip"]},
        "bounds": "18 object types; every setter with full-width symbolic arguments (ids, versions, changesets, uids, epochs, coordinates as f64 bit patterns); user text of one symbolic ASCII byte inline or 30 bytes on the heap; the other fields set or unset",
        "outside": "longer symbolic user text, longer node and member lists",
    },
    "C19": {
        "entries": ["c19_conversions"],
        "reach": {"c19_conversions": ["converted"]},
        "bounds": "Arc and Rc nodes, ways, relations and enums; full-width symbolic numeric fields, each optional field present or absent; up to 2 tags, 3 nodes, 2 members with symbolic text",
        "outside": "longer lists and text",
    },
    "C20": {
        "entries": ["c20_values", "c20_orders", "c20_tags", "c20_sequence", "c20_big", "c20_accessors"],
        "reach": {"c20_values": ["values"], "c20_orders": ["orders"], "c20_tags": ["tags"], "c20_sequence": ["sequence"], "c20_big": ["tags"], "c20_accessors": ["accessors"]},
        "bounds": "one changeset with every numeric attribute over its full range, all digits of the times, user text of up to 2 (thorough 3) characters of ten kinds (any printable ASCII byte, entities, decimal and hexadecimal references, any non-ASCII character, white space); each attribute moved to each place with every subset of optional attributes, two quotings and spacings, unknown attributes; 1-3 tags in four spellings with unknown content and comments around them; sequences of 0-3 changesets in five forms; 1, 4 or 15 tags with one value of 90 characters around a symbolic unit of ten kinds; the accessors for every subset of three tags and one of four changes",
        "outside": "longer text, more tags, other permutations, symbolic tag keys (6 fixed keys)",
    },
    "C21": {
        "entries": ["c21_tags", "c21_sequence", "c21_big"],
        "reach": {"c21_tags": ["tag-reader"], "c21_sequence": ["tag-reader"], "c21_big": ["tag-reader"]},
        "bounds": "documents as for C20: 1-3 tags with symbolic text in four spellings and with unknown content; sequences of 0-3 changesets in five forms with symbolic ids; changeset ids below 2^32; 1, 4 or 15 tags with one value of 90 characters around a symbolic unit of ten kinds",
        "outside": "longer text, more tags and changesets",
    },
    "C22": {
        "entries": ["c22_truncated", "c22_malformed", "c22_garbled"],
        "reach": {"c22_truncated": ["truncated"], "c22_malformed": ["rejected", "accepted", "tags-rejected", "tags-accepted"], "c22_garbled": ["garbled"]},
        "bounds": "a two-changeset document with symbolic ids and text cut at every byte; with or without content, every numeric attribute replaced by any 0-2 (thorough 3) printable characters or a number just too large, open by any 0-5 characters, each required attribute left out, broken tags; a small document with any byte value at 27 (thorough: all) positions; both readers, within 2 million IR instructions",
        "outside": "several faults at once, longer documents",
    },
    "C23": {
        "entries": ["c23_char", "c23_str", "c23_names"],
        "reach": {"c23_char": ["char-ok", "char-err"], "c23_str": ["str-ok", "str-err"], "c23_names": ["names"]},
        "bounds": "every Unicode scalar value as a character; every ASCII string of up to 10 (thorough 12) bytes and strings with any one Unicode scalar value between up to 2+2 ASCII bytes; all pairs of types for the order",
        "outside": "longer strings, more than one non-ASCII character",
    },
    "C24": {
        "entries": ["c24_ways"],
        "reach": {"c24_ways": ["closed", "open"]},
        "bounds": "String, Arc and Rc ways with 0-3, 6 or 7 (thorough 0-8, 13) symbolic 64-bit node ids, untagged or with one tag (area with a symbolic ASCII value of 0-4 bytes, or a symbolic ASCII key of 3-5 bytes)",
        "outside": "longer node lists",
    },
    "C25": {
        "entries": ["c25_ascii", "c25_unicode"],
        "reach": {"c25_ascii": ["json2"], "c25_unicode": ["json2"]},
        "bounds": "no tag; one tag with a symbolic ASCII key of 1-2 bytes and value of 0-2 (thorough 3) bytes; two tags with symbolic one-byte keys; keys and values holding any one Unicode scalar value; four object types",
        "outside": "longer symbolic text, three or more tags",
    },
    "C26": {
        "entries": ["c26_pbf", "c26_xml", "c26_osc", "c26_changesets"],
        "reach": {"c26_pbf": ["chunks"], "c26_xml": ["chunks"], "c26_osc": ["chunks"], "c26_changesets": ["chunks"]},
        "bounds": "a PBF file of three blocks, raw and zlib, an XML, an OSC and a changeset document with symbolic content, split in two at every position or into pieces of 1, 3 or 4 (thorough also 2, 7) bytes, the latter with every other read interrupted; every reader",
        "outside": "irregular splits into three or more pieces",
    },
    "C27": {
        "entries": ["c27_xml", "c27_osc"],
        "reach": {"c27_xml": ["failed", "delivered"], "c27_osc": ["failed", "delivered"]},
        "bounds": "documents of two objects of each kind with symbolic id and user name; output failing at every byte (an error once or for good, or 0 bytes accepted), accepting everything, 1 or 5 bytes at a time, with interrupted calls in between",
        "outside": "longer documents; errors that flush() alone would report",
    },
    "C28": {
        "entries": ["c28_truncated"],
        "reach": {"c28_truncated": ["cut"]},
        "bounds": "files of a header and two data blocks (each kind of group, raw with symbolic ids or zlib) cut at every byte; three readers",
        "outside": "larger files",
    },
    "C29": {
        "entries": ["c29_xml", "c29_osc"],
        "reach": {"c29_xml": ["cut"], "c29_osc": ["cut"]},
        "bounds": "XML and OSC documents of an object of each kind, with symbolic ids and text, bare or with tags, nodes and members, cut at every byte",
        "outside": "longer documents",
    },
    "C30": {
        "entries": ["c30_equality", "c30_read"],
        "reach": {"c30_equality": ["equal", "different"], "c30_read": ["equal"]},
        "bounds": "pairs of String, Arc and Rc nodes, ways and relations and their enums, built with the same or different values: full-width symbolic numeric fields, each field present or absent on either side, 0-2 tags, nodes and members with symbolic text, directly or after other tags and users were set and unset; objects read from PBF (dense and plain groups of 1-3), XML and OSC against the same built with the setters",
        "outside": "longer lists and text",
    },
    "C31": {
        "entries": ["c31_views"],
        "reach": {"c31_views": ["views"]},
        "bounds": "String, Arc and Rc objects of every kind with full-width symbolic id, metadata (all or none), 0-2 tags, position, nodes or members; then one batch of changes through the object or the view",
        "outside": "longer lists and text",
    },
    "C32": {
        "entries": ["c32_values", "c32_many"],
        "reach": {"c32_values": ["copied"], "c32_many": ["copied"]},
        "bounds": "both PBF readers, both writers; one object with one number of 3 or 4 symbolic digits or at the end of its range, one time of a day, one of eight coordinates, one symbolic character of any kind in a text, or no metadata; files of 0-2 objects of each kind, dense or plain, raw or zlib, with and without metadata",
        "outside": "several extreme values at once (C01-C04 and C08, C09 cover each side), longer files",
    },
    "C33": {
        "entries": ["c33_pbf", "c33_xml", "c33_missing", "c33_xml_bz2", "c33_changesets_bz2", "c33_cut"],
        "reach": {"c33_pbf": ["opened"], "c33_xml": ["opened"], "c33_missing": ["missing"], "c33_xml_bz2": ["opened"], "c33_changesets_bz2": ["opened"], "c33_cut": ["cut"]},
        "bounds": "the system's open, read and close are modelled (regular files, no failing reads); PBF files of two blocks of any kinds with symbolic ids and a header of 20 000 bytes or none, an XML file with symbolic content; an XML document and a changeset dump of three changesets compressed as one, two or four streams (concrete content), the dump also split into pieces at any byte; the dump cut at every byte; four names of missing files for nine functions",
        "outside": "symbolic compressed content, blocks of more than 1 kB, I/O errors while reading",
    },
    "C34": {
        "entries": ["c34_broken", "c34_dangling"],
        "reach": {"c34_broken": ["broken"], "c34_dangling": ["broken"]},
        "bounds": "three readers; a block of each kind with symbolic ids, then one without data, with data in one of four other compressions, with any wrong check sum, with any wrong zlib header, with a wrong deflate block type, or (raw_size given) cut at any byte of its zlib data, then a good one; blocks of two objects whose string table ends at any entry before the last one used, or whose dense coordinates are fewer than the ids",
        "outside": "other damage, e.g. damaged protobuf framing or several faults; columns of different lengths other than the dense coordinates",
    },
    "C35": {
        "entries": ["c35_pbf", "c35_xml", "c35_osc"],
        "reach": {"c35_pbf": ["damaged"], "c35_xml": ["damaged"], "c35_osc": ["damaged"]},
        "bounds": "files of two PBF blocks (each kind of group, raw or zlib; three readers) and documents of two elements (each kind, bare or with everything); quick: any byte of the second block or element and what follows replaced by any value or removed, thorough: any byte of the file, also inserted; lengths of PBF block headers below 1 kB; within 3 million IR instructions and 100 objects",
        "outside": "several damaged bytes, longer files, PBF header lengths of 1 kB and more (a damaged length makes the readers allocate up to 4 GB)",
    },
    "C36": {
        "entries": ["c36_values", "c36_coordinates"],
        "reach": {"c36_values": ["kept"], "c36_coordinates": ["kept"]},
        "bounds": "through serde_json: every 32-bit coordinate (and, one by one, those up to 120, thorough 1200, and near the round ones), every 64-bit epoch number, every text of 0-2 (thorough 3) characters, each kind",
        "outside": "other serde formats, longer text",
    },
    "C37": {
        "entries": ["c37_pbf", "c37_xml", "c37_osc", "c37_changesets"],
        "reach": {"c37_pbf": ["failed"], "c37_xml": ["failed"], "c37_osc": ["failed"], "c37_changesets": ["failed"]},
        "bounds": "files of a header and two PBF blocks (each kind of group, raw with symbolic ids or zlib), XML and OSC documents of two (thorough three) objects and dumps of two changesets with symbolic ids and text, failing at every byte with one of three (thorough six) kinds of error, once or for good, read all at once or in pieces of 1, 3 or 5 bytes; every reader",
        "outside": "larger files, several failures, what a reader does when it is used again after its panic",
    },
    "C38": {
        "entries": ["c38_objects", "c38_changesets"],
        "reach": {"c38_objects": ["built"], "c38_changesets": ["built"]},
        "bounds": "full-width symbolic numbers, symbolic text of 0-2 bytes, 0-2 tags, nodes (also 7) and members; every kind; all, none, all but one or just one of the optional fields; id given first, last, twice or never",
        "outside": "longer lists and text",
    },
}

NOT_APPLICABLE = {}

HOOKS = {"guard": "cfg(osmio_verif)", "enable": "RUSTFLAGS=--cfg osmio_verif (set by harness/build.sh)", "source_commits": ["4db45a4ac1d7e9ccc3173f51572c95e14ec6f7ae"]}
