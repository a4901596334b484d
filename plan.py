"""What each check explores.  One dict per property: the harness entries, their
parameters per tier, and the bounds those parameters stand for."""

ASSUME = [
    "rustc's LLVM bitcode (release, opt-level 1, overflow checks on) has the semantics of the shipped library",
    "the file-system model (POSIX calls over an in-memory tree, no symbolic links) behaves as Linux does; sampled paths are replayed against the real system",
    "memory allocation succeeds below 1 GiB",
    "where chunks are compressed: the C compression libraries keep their documented contracts, as the stand-ins of harness/src/codec.rs state them; sampled paths are replayed against the real libraries",
]

def run(entry, bounds, quick=(), thorough=None, reach=(), **kw):
    d = {"entry": entry, "bounds": bounds, "quick": list(quick), "reach": list(reach)}
    d["thorough"] = list(quick if thorough is None else thorough)
    d.update(kw)
    return d

CODECS = ("gzip", "bzip2", "xz", "lz4")

PLAN = {
    "Z07": {
        "outside": "more than three axes; symbolic chunk extents wider than the stated bits together with symbolic array extents",
        "runs": [
            run("h_grid_axis", "one axis: every array extent below 2^p0, every chunk extent below 2^p1, every position", (10, 5), (12, 6), ["axis"]),
            run("h_grid_wide", "one axis: array extents in four p0-bit windows (from 0, around 2^32, below 2^63, up to 2^64-1), every 64-bit position, chunk extents 1,2,3,10,64,1000,65535,2^32-1", (16,), (20,), ["wide"]),
            run("h_grid_enum", "full enumeration, no axes", (0, 0, 1), None, ["nonempty"]),
            run("h_grid_enum", "full enumeration: 1 axis, extents 0..=p1, chunk extents 1..=p2", (1, 6, 4), (1, 12, 6), ["nonempty", "empty"]),
            run("h_grid_enum", "full enumeration: 2 axes, extents 0..=p1, chunk extents 1..=p2", (2, 3, 3), (2, 5, 3), ["nonempty", "empty"]),
            run("h_grid_enum", "full enumeration: 3 axes, extents 0..=p1, chunk extents 1..=p2", (3, 2, 2), (3, 2, 3), ["nonempty", "empty"]),
            run("h_grid_enum", "full enumeration: 8 axes, extents 0..=p1, chunk extents 1..=p2", (8, 1, 1), None, ["nonempty", "empty"]),
        ],
    },
    "Z08": {
        "outside": "more than two axes for the full enumeration; regions whose end does not fit in 64 bits",
        "runs": [
            run("h_region_wide", "one axis: array extent, region offset and extent each in four p0-bit windows (from 0, around 2^32, below 2^63, up to 2^64-1; end below 2^64), chunk extents 1,2,7,64,1000,2^32-1", (9,), (12,), ["region_wide"]),
            run("h_region", "no axes", (0, 0, 1, 0), None, ["some"]),
            run("h_region", "1 axis: extents 0..=p1, chunk extents 1..=p2, region offset and extent 0..=p3", (1, 5, 3, 7), (1, 9, 4, 12), ["some", "none"]),
            run("h_region", "2 axes: extents 0..=p1, chunk extents 1..=p2, region offset and extent 0..=p3", (2, 2, 2, 3), (2, 3, 2, 4), ["some", "none"]),
            run("h_region", "4 axes: extents 0..=p1, chunk extents 1..=p2, region offset and extent 0..=p3", (4, 1, 1, 1), None, ["some", "none"]),
        ],
    },
    "Z09": {
        "outside": "boxes reaching beyond 2^63",
        "runs": [
            run("h_bbox", "boxes of 1 axis, offsets and extents below 2^62, every cell and translation", (1,), None, ["bbox", "translated"]),
            run("h_bbox", "boxes of 2 axes, as above", (2,), None, ["bbox", "translated"]),
            run("h_bbox", "boxes of 3 (thorough: 7) axes, as above", (3,), (7,), ["bbox", "translated"]),
            run("h_chunk_bounds", "2 axes, positions below 2^p0, chunk extents below 2^p1", (40, 24), (36, 28), ["bounds"]),
        ],
    },
    "Z01": {
        "outside": "chunks longer than the stated element counts (the bulk loops are per element); chunk values passing through compressors (Z03)",
        "runs": [
            run("h_roundtrip", "p0 elements of every one of the ten element types, every bit pattern, both byte orders, fresh read and read into a buffer of other content and length", (2,), (3,), ["roundtrip"]),
            run("h_roundtrip_long", "one chunk of p0 elements (crossing the internal buffer sizes), every bit pattern", (257,), (1025,), ["roundtrip"]),
            run("h_dribble", "p0 elements read from and written to streams that deliver or accept p1 bytes at a time", (3, 2), (4, 3), ["dribbled"]),
            run("h_dribble", "p0 elements read from and written to streams that deliver or accept p1 bytes at a time", (3, 1), (4, 1), ["dribbled"]),
        ],
    },
    "Z02": {
        "outside": "chunks longer than the stated element counts",
        "runs": [
            run("h_layout", "p0 elements of every element type, every bit pattern, both byte orders, written and compared byte by byte; every stored byte string of that length read back", (2,), (3,), ["layout"]),
            run("h_layout_long", "one chunk of p0 elements, every bit pattern", (300,), (1030,), ["layout"]),
            run("h_dribble", "p0 elements through streams that move p1 bytes at a time", (3, 2), (4, 3), ["dribbled"]),
            run("h_dribble", "p0 elements through streams that move p1 bytes at a time", (3, 1), (4, 1), ["dribbled"]),
        ],
    },
    "Z03": {
        "outside": "the insides of the C compression libraries (zlib, libbzip2, liblzma, liblz4), which stand-ins replace that keep their documented contracts; the compressors' effect on size; chunks longer than stated; the lz_pure feature, which does not compile",
        "runs": [
            *[run("h_codec", f"{c}: every value of the configured setting or none, p1 elements of every value over nothing or a stored chunk, p2 behaviours of the library (how much it holds back, how much one call moves)", (i, 2, 4), (i, 3, 8), ["lossless"])
              for i, c in enumerate(CODECS)],
            *[run("h_codec_long", f"{c}: chunks of p1 bytes (more than is buffered) with {n} bytes of every value, p2 behaviours of the library", (i, 70000, 2), (i, 70000, 3), ["long"])
              for i, c, n in zip(range(4), CODECS, (2, 6, 6, 6))],
            *[run("h_codec_region", f"{c}: a region over four chunks of a 3 x 4 array in either order, stored or not, p1 behaviours of the library", (i, 2), (i, 8), ["region"])
              for i, c in enumerate(CODECS)],
            *[run("h_codec_damaged", f"{c}: stored values cut at any of 64 places, extended, foreign, empty or of another codec, p1 behaviours of the library", (i, 2), (i, 8), ["error", "whole"])
              for i, c in enumerate(CODECS)],
        ],
    },
    "Z04": {
        "outside": "chunks of more than p0 elements",
        "runs": [
            run("h_refused_count", "chunks of 0..=p0 elements against every other element count, over a stored chunk with symbolic content or none", (3,), (5,), ["refused"]),
            run("h_refused_type", "chunks of p0 elements, every pair of element type and declared data type", (2,), (3,), ["type_refused", "type_accepted"]),
            run("h_refused_ext", "extension data types with and without fallback", (2,), (3,), ["type_refused"]),
        ],
    },
    "Z05": {
        "outside": "raw types other than the widths tried (r8, r24, r128)",
        "runs": [
            run("h_typed_read", "every pair of element type and declared data type, p0 symbolic elements, reads of every kind", (2,), (3,), ["typed", "untyped"]),
            run("h_typed_ext", "extension data types with and without fallback", (2,), (3,), ["untyped"]),
            run("h_refused_type", "writes: every pair of element type and declared data type", (2,), (3,), ["type_refused", "type_accepted"]),
            run("h_refused_ext", "writes: extension data types with and without fallback", (2,), (3,), ["type_refused"]),
        ],
    },
    "Z06": {
        "outside": "undecodable compressed values (Z03); stored values longer than the chunk (accepted, the rest ignored)",
        "runs": [
            run("h_short", "stored values of every length around p0 elements, every content, every element type", (4,), (6,), ["short", "complete"]),
            run("h_huge", "chunk shapes of up to three axes of any 32-bit extents over a short stored value", (), None, ["huge"]),
        ],
    },
    "Z10": {
        "outside": "arrays and regions beyond the listed configurations; element types other than the two used (u16, u8); non-default separators (Z14)",
        "runs": [
            run("h_read_region", "configuration 0 (0-d array), symbolic elements", (0, 0), None, ["present", "absent"]),
            run("h_read_region", "configuration 1 (1-d), every region offset and extent inside and across the array, every presence of chunks, both memory orders of chunk and destination", (1, 0), None, ["present", "absent"]),
            run("h_read_region", "configuration 9 (1-d [7]/[3])", (9, 0), None, ["present", "absent"]),
            run("h_read_region", "configuration 3 (2-d [2,3]/[1,2])", (3, 0), None, ["present", "absent"]),
            run("h_read_region", "configuration 4 (3-d), reduced", (4, 1), None, ["present", "absent"]),
            run("h_read_region", "configuration 11 (8-d [2,1,2,1,1,1,1,3]/[2,1,1,1,1,1,1,2]), regions inside the first and last axes", (11, 1), None, ["present", "absent"]),
            run("h_read_region", "configuration 8 (an empty axis)", (8, 0), None, []),
            run("h_read_region", "configuration 2 (2-d [3,4]/[2,3])", (2, 0), None, ["present", "absent"], tiers=("thorough",)),
            run("h_read_region", "configuration 5 (larger 2-d), reduced", (5, 1), None, ["present", "absent"], tiers=("thorough",)),
            run("h_read_region", "configuration 6 (3-d), reduced", (6, 1), None, ["present", "absent"], tiers=("thorough",)),
            run("h_read_region", "configuration 7 (4-d), reduced", (7, 1), None, ["present", "absent"], tiers=("thorough",)),
            run("h_misfit", "regions, destinations and blocks of ten shapes with zero to three axes, at and off the origin, with and without a buffer, on a 2-d array", (), None, ["fits", "misfit"]),
            run("h_layouts", "configuration 2: sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (2,), None, ["layout"]),
            run("h_layouts", "configuration 10 (3-d [2,2,3]/[2,2,2]): sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (10,), None, ["layout"]),
            run("h_layouts", "configuration 6: sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (6,), None, ["layout"], tiers=("thorough",)),
            run("h_layouts", "configuration 7: sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (7,), None, ["layout"], tiers=("thorough",)),
            run("h_read_far", "regions far outside the array", (), None, ["far"]),
        ],
    },
    "Z11": {
        "outside": "arrays and blocks beyond the listed configurations; element types other than the one used",
        "runs": [
            run("h_write_region", "configuration 0 (0-d array)", (0, 0), None, ["written"]),
            run("h_write_region", "configuration 1 (1-d), every block offset and extent, every presence of chunks, symbolic elements before and after, both memory orders", (1, 0), None, ["written", "nothing"]),
            run("h_write_region", "configuration 9 (1-d [7]/[3])", (9, 0), None, ["written", "nothing"]),
            run("h_write_region", "configuration 3 (2-d [2,3]/[1,2])", (3, 0), None, ["written", "nothing"]),
            run("h_write_region", "configuration 4 (3-d), reduced", (4, 1), None, ["written", "nothing"]),
            run("h_write_region", "configuration 11 (8-d [2,1,2,1,1,1,1,3]/[2,1,1,1,1,1,1,2]), regions inside the first and last axes", (11, 1), None, ["written"]),
            run("h_write_region", "configuration 2 (2-d [3,4]/[2,3])", (2, 0), None, ["written", "nothing"], tiers=("thorough",)),
            run("h_write_region", "configuration 5 (larger 2-d), reduced", (5, 1), None, ["written", "nothing"], tiers=("thorough",)),
            run("h_write_region", "configuration 6 (3-d), reduced", (6, 1), None, ["written", "nothing"], tiers=("thorough",)),
            run("h_misfit", "regions, destinations and blocks of ten shapes with zero to three axes, at and off the origin, with and without a buffer, on a 2-d array", (), None, ["fits", "misfit"]),
            run("h_layouts", "configuration 2: sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (2,), None, ["layout"]),
            run("h_layouts", "configuration 10 (3-d [2,2,3]/[2,2,2]): sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (10,), None, ["layout"]),
            run("h_layouts", "configuration 6: sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (6,), None, ["layout"], tiers=("thorough",)),
            run("h_layouts", "configuration 7: sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (7,), None, ["layout"], tiers=("thorough",)),
        ],
    },
    "Z12": {
        "outside": "arrays beyond the listed configurations",
        "runs": [
            run("h_order", "chunks of up to three axes with symbolic elements, both memory orders", (), None, ["order"]),
            run("h_read_region", "configuration 3 (2-d [2,3]/[1,2])", (3, 0), (2, 0), ["present", "absent"]),
            run("h_write_region", "configuration 3 (2-d [2,3]/[1,2])", (3, 0), (2, 0), ["written", "nothing"]),
            run("h_layouts", "configuration 2: sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (2,), None, ["layout"]),
            run("h_layouts", "configuration 10 (3-d [2,2,3]/[2,2,2]): sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (10,), None, ["layout"]),
            run("h_layouts", "configuration 6: sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (6,), None, ["layout"], tiers=("thorough",)),
            run("h_layouts", "configuration 7: sources and destinations with every order of the axes in memory, none, the first or all of them backwards, with or without gaps; whole array, one chunk, a part across chunks", (7,), None, ["layout"], tiers=("thorough",)),
        ],
    },
    "Z13": {
        "outside": "f16 fill values with more than 20 significant mantissa bits (the conversion of the half crate ignores the low 32 bits of a double); numbers beyond what serde_json's Number holds; decimal texts of more than 15 digits other than the listed ones",
        "runs": [
            run("h_fill", "every integer and boolean element type against every 64-bit signed and unsigned number, true, false, null, none and values of other kinds", (), None, ["fill"]),
            run("h_fill_half", "f16 against every double with at most 20 significant mantissa bits and every integer", (), None, ["fill"]),
            run("h_fill_float", "f32 and f64 against every double and integer", (), None, ["fill"]),
            run("h_float_digits", "f64 against every stored decimal number of p0 digits, the point before or after any of them, either sign, five exponents", (5,), (15,), ["digits"]),
            run("h_float_text", "f64 against 32 stored decimal numbers of up to 17 digits and any magnitude (four of them are known findings)", (0,), None, ["text"]),
        ],
    },
    "Z14": {
        "outside": "node paths longer than the stated number of characters, non-ASCII paths; coordinates between the stated windows",
        "runs": [
            run("h_key_format", "every node path of p0 ASCII characters, 0 to 2 axes, separators '/', '.', '-', coordinates up to p1, around 2^32 and just below 2^64", (2, 120), (3, 1200), ["key"]),
            run("h_key_axes", "three to p0 axes, one coordinate of 0..=120 among fixed ones, three node paths and separators", (8,), (12,), ["key"]),
            run("h_key_distinct", "pairs of positions, and pairs of node paths of up to p0 characters", (2, 120), (3, 300), ["distinct"]),
            run("h_chunk_uri", "nine node paths, two separators, four positions: the URI names the file holding the chunk", (), None, ["uri"]),
        ],
    },
    "Z15": {
        "outside": "non-ASCII keys, keys longer than the stated lengths, symbolic links",
        "runs": [
            run("h_any_key", "every key of p0 ASCII characters: refused exactly if it leaves the base, else resolved beneath it", (6,), (10,), ["refused", "accepted"]),
            run("h_any_key", "every key of p0 ASCII characters", (8,), (3,), ["accepted"]),
            run("h_deep_key", "keys of up to p0 and around 32, 64, 128 and 256 repetitions of seven components, with five ends", (12,), (50,), ["refused", "accepted"]),
            run("h_store_ops", "keys of p0 components out of '..','a','.','','zarr.json','...','b' with four tails, every store operation", (3,), (4,), ["refused", "accepted"]),
            run("h_node_ops", "node paths of p0 such components, ten node operations", (3,), (4,), ["refused", "accepted"]),
        ],
    },
    "Z24": {
        "outside": "histories longer than the stated number of steps; more than the four chunks of two arrays used",
        "runs": [
            run("h_independent", "every history of p0 writes and deletes over the chunks of four arrays, every value, no fill value", (3, 0), (4, 0), ["independent"]),
            run("h_independent", "as above, chunks of one element, any fill value", (2, 1), (3, 1), ["independent"]),
            run("h_independent", "as above, chunks of one element, no fill value", (2, 2), (3, 2), ["independent"]),
            run("h_independent", "as above, compressed, any fill value", (2, 3), (3, 3), ["independent"]),
            run("h_delete_fault", "deletion under up to p0 storage faults at any operation", (3,), (5,), ["fault", "nofault"]),
        ],
    },
    "Z16": {
        "outside": "node paths other than the listed ones (names ending in a metadata suffix, '.' and '..' components); concurrent creation (Z26)",
        "runs": [
            run("h_create", "eleven node paths in two spellings each, next to nothing or one of five other nodes of either kind; group or array (symbolic shape, fill value and attributes)", (), None, ["array", "group"]),
            run("h_create_seq", "every sequence of p0 creations of groups and arrays over four paths", (3,), (4,), ["sequence"]),
        ],
    },
    "Z17": {
        "outside": "hierarchies other than the one of eight nodes; names ending in a metadata suffix",
        "runs": [
            run("h_remove_deep", "a chain of up to p0 nodes, groups of its own or implicit, an array or a group at the end, removed at any level", (12,), (40,), ["removed"]),
            run("h_remove", "nineteen targets (every node, other spellings, the root, absent ones, prefixes of names) in a hierarchy of eight nodes with explicit or implicit groups, symbolic chunk content, new arrays in place of the removed ones", (), None, ["removed", "absent"]),
        ],
    },
    "Z18": {
        "outside": "attribute values other than strings of one ASCII character, small numbers, booleans, null, small objects and lists and the listed ones; more than the stated number of updates",
        "runs": [
            run("h_attributes", "six kinds of node (groups, the root, arrays, metadata with unknown fields, metadata without attributes, none), p0 updates of one, several or no keys with symbolic values", (2,), None, ["attributes", "absent"]),
            run("h_attributes", "three updates", (3,), None, ["attributes", "absent"], tiers=("thorough",)),
            run("h_float_text", "32 floating-point numbers as attribute values (four of them are known findings)", (2,), None, ["text"]),
            run("h_float_kept", "32 floating-point numbers as values of an attribute next to one that is updated (two of them are known findings)", (), None, ["kept"]),
        ],
    },
    "Z19": {
        "outside": "numbers outside the stated windows; strings of more than two characters; more than two axes",
        "runs": [
            run("h_dtype", "every data type; raw types of up to p0 bytes, around 2^32 bits and of the greatest size", (100,), (1000,), ["dtype"]),
            run("h_metadata", "whole metadata with every data type", (0,), None, ["metadata"]),
            run("h_metadata", "whole metadata: 0 to 2 axes of extents 0..=120 and 2^64-10..2^64, through text and through the store", (1,), None, ["metadata"]),
            run("h_metadata", "whole metadata: fill values of eight kinds", (2,), None, ["metadata"]),
            run("h_metadata", "whole metadata: every compressor, levels and sizes in four windows of the 32-bit range, through text and through the store", (3,), None, ["metadata"]),
            run("h_float_text", "32 floating-point numbers as fill values (four of them are known findings)", (1,), None, ["text"]),
            run("h_metadata", "whole metadata: any two ASCII characters as separator, attribute name and value, extension name", (4,), None, ["metadata"]),
        ],
    },
    "Z20": {
        "outside": "data-type strings longer than stated; documents with more than one byte altered other than the grids and fields listed",
        "runs": [
            run("h_dtype_text", "every string of 1 byte", (1, 0), None, ["accepted", "refused"]),
            run("h_dtype_text", "every string of 2 ASCII characters", (2, 1), (2, 0), ["accepted", "refused"]),
            run("h_dtype_text", "every string of 3 ASCII characters", (3, 1), None, ["accepted", "refused"]),
            run("h_dtype_text", "every string of 4 ASCII characters", (4, 1), None, ["accepted", "refused"], tiers=("thorough",)),
            run("h_dtype_wide", "strings of up to p0 characters out of eleven of one to four bytes", (3,), (4,), ["accepted", "refused"]),
            run("h_grid_doc", "chunk grids of 0 to 2 extents (0..=9, around 2^32) under shapes of 0 to 2 extents 0..=9", (), None, ["loaded", "refused"]),
            run("h_altered", "array and group metadata cut short at every p0-th byte, and with every p0-th byte replaced by any byte", (3,), (1,), ["array", "group"]),
            run("h_fields", "eleven fields removed or replaced by seventeen kinds of values with symbolic numbers", (), None, ["loaded", "refused"]),
        ],
    },
    "Z21": {
        "outside": "more extensions than stated",
        "runs": [
            run("h_extension_odd", "one or two extensions one of which does not say whether it must be understood, or says it in another way than true or false", (), None, ["odd"]),
            run("h_extensions", "up to p0 extensions with every combination of flags and three kinds of configuration, in array metadata and entry points", (4,), (6,), ["array", "hierarchy"]),
        ],
    },
    "Z22": {
        "outside": "versions of more characters than stated; entry points with more than one byte altered",
        "runs": [
            run("h_version", "every version of p0 characters out of digits and dots after three prefixes", (3,), None, ["compatible", "other"]),
            run("h_version", "as above", (5,), (7,), ["compatible", "other"]),
            run("h_entry_point", "entry points that are absent, cut short at any byte, with every p0-th byte replaced by any byte, or a directory", (1,), None, ["entry_point"]),
            run("h_suffix", "nine metadata key suffixes", (), None, ["suffix"]),
        ],
    },
    "Z23": {
        "outside": "names and prefixes other than the listed ones; nodes below which no value is stored",
        "runs": [
            run("h_list", "p0 children out of twelve names and five kinds below five nodes, next to nodes of similar names", (2,), None, ["list"]),
            run("h_list", "three children", (3,), None, ["list"], tiers=("thorough",)),
            run("h_store_list", "a store that lists in its own order: up to p0 of nine keys, seven prefixes, five nodes, p1 failing calls", (2, 1), (3, 1), ["done", "reported"]),
            run("h_list_store", "up to p0 stored keys out of ten, eight prefixes, symbolic values", (3,), (4,), ["keys", "none"]),
        ],
    },
    "Z25": {
        "outside": "more than the stated number of faults",
        "runs": [
            run("h_fault_chunk", "a chunk write in which any p0 of its system calls fail and any p1 of its writes are short; two elements of any value, over nothing or a stored chunk", (3, 2), (6, 5), ["fault", "nofault", "reported"]),
            run("h_fault_long", "one failing and up to two short writes of a chunk of p0 bytes (more than are buffered)", (9000,), (30000,), ["fault", "nofault"]),
            run("h_fault_meta", "eight kinds of creations and attribute updates in which any p0 system calls fail and any p1 writes are short", (3, 1), (6, 3), ["fault", "nofault", "reported"]),
            run("h_fault_read", "thirteen kinds of reads in which any p0 system calls fail", (3,), (6,), ["fault", "nofault"]),
            *[run("h_fault_codec", f"a write or read of a chunk compressed with {c} in which any p1 system calls fail and any p2 of its writes are short, p3 behaviours of the library", (i, 1, 2, 2), (i, 3, 3, 4), ["fault", "nofault"])
              for i, c in enumerate(CODECS)],
            run("h_store_chunk", "writes, reads and deletions of an uncompressed chunk in a store kept in memory, any p0 of whose calls fail, are interrupted or move part of the data", (3, 0), (6, 0), ["done", "reported"]),
            run("h_store_chunk", "as above, compressed", (3, 1), (5, 1), ["done", "reported"]),
            run("h_store_region", "a region over two chunks written to or read from such a store", (3,), (4,), ["done", "reported"]),
            run("h_store_meta", "eight kinds of operations on metadata in such a store", (1,), None, ["done", "reported"]),
            run("h_fault_open", "opening or creating a hierarchy in no, an empty or an existing directory while any p0 system calls fail and p1 writes are short", (3, 1), (6, 3), ["fault", "nofault", "reported"]),
            run("h_fault_remove", "removing a node while any p0 system calls fail", (3,), (6,), ["fault", "nofault", "reported"]),
            run("h_fault_region", "writing a region over three chunks, each stored or not, while any p0 reads fail", (3, 0), (6, 0), ["fault", "nofault", "reported"]),
            run("h_fault_region", "as above, while any p0 system calls fail", (3, 1), (6, 1), ["fault", "nofault", "reported"]),
        ],
    },
    "Z26": {
        "outside": "more preemptions or operations than stated; two concurrent updates of one metadata document (one may be lost); memory-model effects between threads (the library shares no memory between operations)",
        "runs": [
            *[run("h_concurrent", f"two operations on one chunk: {a} and {b}; every interleaving of their system calls with up to p1 preemptions, up to p2 short writes and p3 short reads, over nothing or a stored chunk", (o, 4, 1, 1), (o, 6, 2, 2), ["done"])
              for o, a, b in [(11, "read", "read"), (21, "read", "write"), (22, "write", "write"), (31, "read", "delete"), (32, "write", "delete"), (33, "delete", "delete"), (42, "write", "read into a buffer"), (52, "write", "read of a region")]],
            *[run("h_concurrent_long", f"a write and a {b} of one chunk of p0 bytes (more than are transferred at once), up to p2 preemptions", (20000, o, 4), (30000, o, 8), ["done"])
              for o, b in [(0, "read"), (1, "write")]],
            run("h_concurrent_apart", "a write or deletion of a chunk next to nine operations on other values, up to p0 preemptions", (2,), (3,), ["apart", "deleted"]),
            *[run("h_concurrent", f"three operations on one chunk: {a}; every interleaving of their system calls with up to p1 preemptions, up to p2 short writes and p3 short reads", (o, 2, 1, 0 if o == 222 else 1), (o, 3, 1, 1), ["done"])
              for o, a in [(222, "write, write, write"), (122, "write, write, read"), (322, "write, write, delete"), (132, "write, delete, read")]],
        ],
    },
    "Z27": {
        "outside": "loss of data the system call had accepted (power failure); crashes while a hierarchy is first created",
        "runs": [
            run("h_crash_op", "the process dies before any system call of eight operations (chunk write over nothing or a stored chunk and into a new node, deletion, attribute updates, creation, removal), with up to p0 short writes", (2,), (5,), ["died", "survived"]),
            run("h_crash_region", "the process dies before any system call of a region write over chunks stored or not", (), None, ["died", "survived"]),
        ],
    },
    "Z28": {
        "outside": "keys other than the listed ones ('..' components, names the file system refuses); more operations than stated",
        "runs": [
            run("h_store_map", "p0 operations (storing values of 0, 1 or 3 arbitrary bytes, erasing keys and prefixes) on five keys, each in two spellings, and on five places that hold no value", (2, 0), None, ["map"]),
            run("h_store_map", "p0 operations on two keys, else as above", (3, 1), (4, 1), ["map"]),
            run("h_store_names", "pairs of eighteen names that are easily taken for each other (case, dots, blanks, other writing of one letter, suffixes, length) in four directories", (), None, ["names"]),
            run("h_store_doc", "p0 arbitrary bytes, or one of five documents, under each of five keys, fetched as a JSON document by each key", (2,), (3,), ["doc"]),
            run("h_store_long", "a value of up to 20000 bytes, in pieces, over another", (), None, ["long"]),
        ],
    },
    "Z29": {
        "outside": "paths other than the ten listed kinds (array, group, implicit group, nested, absent, root, below an array, below nothing, an empty value, a directory left by a deleted chunk)",
        "runs": [
            run("h_reads", "eighteen reading operations on ten kinds of nodes and four chunk positions, arbitrary stored bytes", (), None, ["read"]),
        ],
    },
    "Z30": {
        "outside": "more than three handles, more operations than stated; operations that overlap in time (Z26)",
        "runs": [
            run("h_handles", "p0 operations (creating groups and arrays, setting attributes, writing and deleting a chunk, removing) on one node through alternating handles, everything read through three handles after each", (3,), (4,), ["handles"]),
        ],
    },
    "Z31": {
        "outside": "longer names; characters outside ASCII",
        "runs": [
            run("h_names", "every string of up to p0 ASCII characters, every scheme", (5,), (7,), ["named"]),
        ],
    },
    "Z32": {
        "outside": "arrays of more than three axes; extents of more than 16 bits (their product may not fit in 64)",
        "runs": [
            run("h_sizes", "raw types of any number of bytes below 2^61; every element type with three axes of 16-bit extents and 8-bit chunk extents, and stored chunks of up to 3x3 elements", (), None, ["raw", "sizes"]),
            run("h_built", "metadata built from any extents and chunk extents of two axes and every scheme", (), None, ["built"]),
        ],
    },
    "Z33": {
        "outside": "chunks of more than three elements; grid positions of 2^31 or more for the bounds",
        "runs": [
            run("h_buffers", "chunks of 0 to 3 elements of every element type and every bit pattern at any position, copied into, reinitialised over or created next to chunks of 0 to 3 others", (), None, ["buffers"]),
            run("h_own_chunks", "a user's chunk type of two elements of every value, read over one of 0 to 3 elements, at any position of a 3 x 4 grid", (), None, ["own"]),
        ],
    },
    "Z34": {
        "outside": "more preemptions or operations than stated; that both of two concurrent updates of one document survive (one may be lost); which of two concurrent creations is refused",
        "runs": [
            *[run("h_concurrent_meta", f"{a}, on one hierarchy; every interleaving of their system calls with up to p1 preemptions, up to p2 short writes and reads", q, t, ["done", "read"] if k in (0, 2, 3, 6, 9, 10) else ["done"])
              for k, a in enumerate(("two attributes are set and the attributes listed", "two updates of one node's attributes", "two attributes are set and the array's metadata read",
                                     "an array is created and its metadata read", "an array is created twice with different metadata", "a hierarchy is created twice",
                                     "a node is removed and its attributes listed", "a group and an array are created below one new group", "an attribute of a group is set and the group created again",
                                     "a group is created and its siblings listed", "a node is removed and its siblings listed", "an attribute is set and the node tested for"))
              for q, t in (((k, 3, 0), (k, 5, 0)), ((k, 2, 1), (k, 4, 1)))],
        ],
    },
}

NOT_APPLICABLE = {}
