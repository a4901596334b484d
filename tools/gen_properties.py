#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     hook_needed=hook)))

p("Z01", "Chunk data round-trips bit-exactly",
  "A chunk that was written successfully is read back with bit-identical elements, in the same order and at the same grid position, for every element type, declared byte order and element value (NaN payloads, signed zeros and infinities included). Reading into an existing chunk buffer gives exactly the same result as a fresh read, whatever the buffer held before and however long it was.",
  ["inputs"], "all 12 element types, both byte orders, every element value, element counts on both sides of the internal 256-element batches, arbitrary previous buffer content",
  "The tests write one random or counting chunk per type in native byte order only; big-endian writes are tried with six i16 values, buffer reuse only with an empty buffer.",
  ["src/chunk.rs"], [("per-type element codec", "src/chunk.rs vec_data_chunk_impl!, bool and f16 impls"), ("buffer reinitialisation", "src/chunk.rs ReinitDataChunk for VecDataChunk"), ("read/write entry points", "src/chunk.rs DefaultChunkReader, DefaultChunkWriter")],
  ["write_chunk, read_chunk, read_chunk_into over a store"])

p("Z02", "Uncompressed chunks have the specified byte layout",
  "With no compression the stored value of a chunk is exactly its elements in order, each encoded in the declared byte order and width, with nothing before, between or after them; a boolean is stored as one byte 0 or 1. Conversely a stored value in that layout, written by any other program, is decoded to those elements, and any non-zero byte decodes to true.",
  ["inputs"], "all 12 element types, both byte orders, every element value / every stored byte string of the right length",
  "A symmetrical mistake in encoder and decoder keeps every round-trip test green; only one byte pattern (big-endian i16 1..6) is compared literally.",
  ["src/chunk.rs", "src/data_type.rs"], [("per-type element codec", "src/chunk.rs"), ("declared byte order", "src/data_type.rs DataType::endian")],
  ["bytes handed to the store by write_chunk", "elements returned by read_chunk for given store bytes"])

p("Z03", "Compression is lossless for every accepted configuration",
  "For each compression scheme and every configuration value that array metadata can carry, a chunk written with that metadata is read back unchanged with the same metadata, or the operation is refused with an error; no configuration makes a read or write panic. Out-of-range settings with a documented substitute (gzip levels outside 0-9, LZ4 block sizes between the supported ones) use that substitute.",
  ["inputs", "configurations"], "every value of the codec configuration integers; chunk contents within the stated bound",
  "Tests use the default configuration of each codec with one 125-element chunk; level, preset and block size are never varied.",
  ["src/compression/mod.rs", "src/compression/gzip.rs", "src/compression/lz.rs", "src/compression/lz_pure.rs", "src/compression/bzip.rs", "src/compression/xz.rs"], [("codec dispatch", "src/compression/mod.rs"), ("configuration mapping", "gzip.rs get_effective_level, lz.rs get_effective_block_size, xz.rs, bzip.rs encoder")],
  ["write_chunk / read_chunk with that compressor"])

p("Z04", "A refused chunk write leaves the store untouched",
  "Writing a chunk whose element count differs from the array's chunk size, or whose element type is not the array's, returns an error, and afterwards the store is exactly as before: an already stored chunk keeps its content and a chunk that was absent stays absent.",
  ["inputs", "histories"], "every declared type x element type, every wrong element count within the bound, chunk present or absent before",
  "The one test of a short write only checks that an error is returned, never what is in the store afterwards.",
  ["src/storage.rs", "src/chunk.rs", "src/store/filesystem.rs"], [("validation", "src/chunk.rs DefaultChunkWriter::write_chunk, check_array_type"), ("in-place truncation on set", "src/store/filesystem.rs WriteableStore::set")],
  ["store content before and after write_chunk"])

p("Z05", "Element types are enforced on every chunk access",
  "Reading or writing chunk data succeeds only if the caller's element type is the array's declared type, byte order aside; every other combination is refused with an error and is never reinterpreted. Array data types declared through an extension behave as their declared fallback type, and are refused with an error, not a panic, when they have none.",
  ["inputs"], "every declared data type (core or extension, with or without fallback, any raw size) x every element type",
  "No test reads or writes with a mismatching type or with an extension type.",
  ["src/chunk.rs", "src/data_type.rs"], [("type check", "src/chunk.rs check_array_type, src/data_type.rs eq_modulo_endian"), ("fallback resolution", "src/data_type.rs ExtensibleDataType::effective_type")],
  ["Result of read_chunk, read_chunk_into, write_chunk"])

p("Z06", "Truncated or foreign chunk values are never turned into data",
  "Reading a chunk yields exactly as many elements as the array's chunk shape prescribes or fails: a stored value too short to hold them, an undecodable one, or a chunk shape too large to be represented gives an error - never a panic, a partial chunk or invented elements.",
  ["inputs"], "every stored byte string within the bound, every chunk shape including those whose element count exceeds 32 bits",
  "Only one case, an empty value for an uncompressed chunk, is tried.",
  ["src/chunk.rs", "src/compression"], [("exact reads", "src/chunk.rs read_data impls"), ("element count", "src/lib.rs get_chunk_num_elements, src/chunk.rs DefaultChunkReader")],
  ["Result of read_chunk / read_chunk_into and the size the target buffer is asked to take"])

p("Z07", "The chunk grid covers the array exactly",
  "Along every axis the grid has exactly as many chunks as are needed to cover the array (the ceiling of extent over chunk extent), the chunk count is their product, a grid position is in bounds exactly if its chunk overlaps the array, and enumerating the grid yields every in-bounds position exactly once and nothing else. The enumeration reports its exact remaining length at every step, arrays with an empty axis have no chunks, and zero-dimensional arrays have exactly one.",
  ["inputs"], "all array shapes and chunk shapes within the bound, all grid positions",
  "The tests compute one extent, (50,40,30)/(11,10,10), and enumerate one grid; rounding errors appear only for particular remainders.",
  ["src/lib.rs", "src/ndarray.rs"], [("rounding up", "src/lib.rs u64_ceil_div"), ("grid extent", "src/lib.rs get_grid_extent, get_num_chunks, in_bounds"), ("enumeration", "src/ndarray.rs coord_iter, CoordIterator")],
  ["get_grid_extent, get_num_chunks, in_bounds, coord_iter"])

p("Z08", "A region maps to exactly the chunks it overlaps",
  "For any requested region - inside, straddling or wholly outside the array, or empty - the chunks enumerated for it are exactly the in-bounds chunks that share at least one array cell with the region, each once; a region that shares no cell with the array selects no chunk. The enumeration reports its exact remaining length at every step.",
  ["inputs"], "all array shapes, chunk shapes and region offsets and shapes within the bound",
  "Tests use three fixed regions, none of them outside the array with an unaligned offset or empty.",
  ["src/ndarray.rs"], [("clipping and rounding", "src/ndarray.rs bounded_coord_iter, BoundingBox::intersect"), ("enumeration", "src/ndarray.rs CoordIterator::floor_ceil")],
  ["bounded_coord_iter, read_ndarray, write_ndarray on such regions"])

p("Z09", "Bounding-box operations agree with sets of cells",
  "The intersection of two boxes contains exactly the cells contained in both (and is reported empty exactly when there are none), the union is the smallest box containing both non-empty boxes, translating a box moves exactly its cells, and the bounds of a grid position are exactly that chunk's cells. The box ends and array slices derived from a box describe the same cells.",
  ["inputs"], "all boxes with ends below 2^63 and up to the stated number of dimensions, all cells",
  "Two doc examples with one 2-d box pair each.",
  ["src/ndarray.rs"], [("interval arithmetic", "src/ndarray.rs BoundingBox::{intersect,union,end,is_empty,to_ndarray_slice}, Sub, get_chunk_bounds")],
  ["BoundingBox public methods, ArrayMetadata::get_bounds and get_chunk_bounds"])

p("Z10", "Region reads return the stored element of every cell",
  "Reading any region returns an array of the region's shape in which every cell that lies in the array holds the element stored for it, or the fill value if its chunk was never written; cells outside the array hold no data from any other cell of the array. The result does not depend on the memory order of the destination, on a caller-provided chunk buffer or its previous content, or on which chunks were read before. A region with another number of axes than the array, or a destination of another shape than the region, is refused with an error and nothing is read into it.",
  ["inputs", "histories"], "array shapes, chunk shapes, regions, sets of present chunks and both chunk memory orders within the bound, every element value",
  "Tests read one aligned 4-d region and one region of a mostly absent array, in column-major order only.",
  ["src/ndarray.rs"], [("assembly of a region", "src/ndarray.rs read_ndarray, read_ndarray_into_with_buffer")],
  ["read_ndarray, read_ndarray_into, read_ndarray_into_with_buffer"])

p("Z11", "Region writes change exactly the written cells",
  "After writing an array of values at any offset inside the array, every written cell reads back the value given for it and every other cell of the array reads back what it held before (its previous element, or the fill value if it was never written). This holds whether the chunks touched existed or not, are fully or partly covered, or overhang the array, and for every memory order of source and chunks. Values with another number of axes than the array are refused with an error and change nothing.",
  ["inputs", "histories"], "array shapes, chunk shapes, offsets, extents, sets of pre-existing chunks and memory orders within the bound, every element value; sequences of two writes",
  "One write into an empty column-major array followed by reading exactly the written region; nothing checks the cells around it or existing chunks.",
  ["src/ndarray.rs"], [("read-modify-write of partial chunks", "src/ndarray.rs write_ndarray")],
  ["write_ndarray followed by read_ndarray / read_chunk"])

p("Z12", "Chunk memory order follows the metadata",
  "In an array declared row-major the last index varies fastest in a chunk's linear data, in one declared column-major the first; viewing a chunk as an n-dimensional array, reading a region and writing a region all place element (i, j, k, ...) of a chunk at that linear position.",
  ["inputs"], "chunk shapes and indices within the bound, both orders, every element value",
  "Symmetrical mistakes cancel out in round trips; the only literal row-major data is one 4x5x6 gzip fixture.",
  ["src/ndarray.rs", "src/chunk.rs"], [("order dispatch", "src/ndarray.rs shape_ndarray_shape, extend_from_array, read_ndarray")],
  ["as_ndarray, into_ndarray, read_ndarray, chunks stored by write_ndarray"])

p("Z13", "Fill values are exact or refused",
  "The effective fill value for an element type is the declared JSON value when that type can represent it exactly (floats: to nearest), the type's zero value when none or null is declared, and an error otherwise; it never wraps, truncates or changes kind.",
  ["inputs"], "every element type x JSON null, booleans, integers across the full 64-bit range, strings, arrays",
  "No test reads an array with a non-null usable fill value.",
  ["src/lib.rs"], [("conversion", "src/lib.rs get_effective_fill_value")],
  ["get_effective_fill_value, cells of never-written chunks in read_ndarray"])

p("Z14", "Chunk keys are well-formed and never collide",
  "The key of a chunk is the data root, the node path without leading or trailing slashes, then 'c' followed by the decimal grid coordinates joined by the array's separator, and a chunk URI names the file that holds that chunk. Two different grid positions of one array never share a key, nor do chunks of nodes with different paths, and no chunk key coincides with a metadata key.",
  ["inputs"], "grid positions, dimensionalities, separators '/' and '.', and paths within the bound",
  "Doc examples print three keys with single-digit coordinates.",
  ["src/storage.rs", "src/lib.rs"], [("key formatting", "src/storage.rs get_chunk_key"), ("path canonicalisation", "src/lib.rs canonicalize_path"), ("metadata keys", "src/lib.rs array_metadata_key, group_metadata_key, add_extension")],
  ["get_chunk_key, get_chunk_uri, keys seen by the store"])

p("Z15", "No path escapes the hierarchy's base directory",
  "Whatever node path or store key is passed to any operation, the filesystem backend never reads, creates, changes, deletes or names anything outside the hierarchy's base directory: a path with '..' components that would leave the base directory at any point is refused with an error, and all other paths resolve beneath it (symbolic links aside).",
  ["inputs"], "every key up to the stated length over arbitrary bytes, every path up to the stated number of components",
  "Nine literal paths are tried; none climbs out and back in.",
  ["src/store/filesystem.rs"], [("lexical containment check", "src/store/filesystem.rs get_path")],
  ["uri() for any key; system calls made by read/write/list/remove operations"])

p("Z16", "Node creation is exclusive, idempotent for groups and durable",
  "After an array is created its metadata is read back equal to what was given, and array and node existence tests report it; creating an array where an array or group exists, or a group where an array exists, fails with AlreadyExists and changes nothing; creating a group that exists succeeds and changes nothing. All of this is unaffected by leading or trailing slashes in the path, by dots in node names and by other nodes in the hierarchy.",
  ["histories", "inputs"], "sequences of up to three creations over a set of related paths, all combinations of node kinds",
  "Tests create single nodes in a fresh hierarchy; re-creation and array/group conflicts are never exercised.",
  ["src/storage.rs", "src/lib.rs"], [("existence checks", "src/storage.rs create_group, create_array, exists"), ("metadata keys", "src/lib.rs array_metadata_key, group_metadata_key, add_extension")],
  ["create_array, create_group, exists, array_exists, get_array_metadata, list_attributes"])

p("Z17", "Removing a node removes it, its descendants and nothing else",
  "After a node is removed, neither it nor any node below it exists any more, and none of their chunks or attributes can be read, also after a new array is created in its place; every other node, including those whose path merely starts with the same characters, keeps its metadata, attributes and chunks. Removing an absent node changes nothing, and removing the root removes every node.",
  ["histories", "inputs"], "hierarchies of related nodes (parent, child, name-prefix siblings, dotted names) and every choice of removed path",
  "remove is called once as test cleanup; nothing is checked after it.",
  ["src/storage.rs", "src/store/filesystem.rs"], [("key erasure", "src/storage.rs remove, src/store/filesystem.rs erase, erase_prefix")],
  ["exists, get_array_metadata, list_attributes, read_chunk, list_nodes after remove"])

p("Z18", "Attribute updates merge per key and touch nothing else",
  "Setting attributes replaces exactly the given top-level keys and keeps every other attribute; the listed attributes are always the result of all updates so far, last one winning per key, values being replaced whole rather than merged. Nothing else in the node's metadata changes, including fields this library does not know; a node that does not exist yields NotFound and is not created.",
  ["histories", "inputs"], "sequences of up to three updates with arbitrary overlapping keys and values, on arrays and groups, with foreign metadata fields",
  "One fixed sequence on one group; preservation of the remaining metadata is not checked.",
  ["src/storage.rs"], [("read-merge-write", "src/storage.rs set_attributes, merge_top_level, list_attributes")],
  ["set_attribute, set_attributes, list_attributes, get_array_metadata"])

p("Z19", "Metadata survives serialisation",
  "Every data type, compressor configuration, memory order, fill value, extension list and attribute set that an array's metadata can hold is written as JSON that reads back as equal metadata (byte order being irrelevant for one-byte types); each data type has its own spelling, the one the Zarr v3 protocol defines.",
  ["inputs"], "all data types including every raw size, all codecs and configuration values, both orders, shapes within the bound",
  "One document is deserialised; no document is serialised and compared, and raw or one-byte types are never serialised.",
  ["src/data_type.rs", "src/lib.rs", "src/compression/mod.rs"], [("data type strings", "src/data_type.rs Serialize and Visitor for DataType"), ("derived formats", "src/lib.rs ArrayMetadata, src/compression/*.rs")],
  ["serde_json to_string / from_str of ArrayMetadata and DataType, create_array + get_array_metadata"])

p("Z20", "Malformed metadata is refused, never a panic",
  "Whatever string stands where a data type is expected and whatever chunk grid stands in a stored metadata document, loading it either fails with an error or yields metadata on which every grid, region and chunk operation is well defined (as many chunk extents as axes, none of them zero); nothing an attacker or another program stores makes loading or using it panic.",
  ["inputs"], "every data-type string up to the stated length over arbitrary bytes; every combination of shape and chunk-shape lengths and zero extents within the bound",
  "Only well-formed documents are ever parsed.",
  ["src/data_type.rs", "src/lib.rs", "src/storage.rs"], [("data type parser", "src/data_type.rs DataTypeVisitor::visit_str"), ("metadata loading", "src/storage.rs get_array_metadata")],
  ["from_str::<DataType>, get_array_metadata followed by grid operations"])

p("Z21", "Must-understand extensions are always refused",
  "Opening a hierarchy or loading an array whose metadata lists, at any position, an extension marked must_understand fails with an error naming it; the same metadata with every extension marked optional is accepted.",
  ["inputs"], "extension lists within the bound with every combination of flags, for hierarchy entry points and arrays",
  "No test contains a must-understand extension.",
  ["src/storage.rs", "src/store/filesystem.rs"], [("extension scan", "src/storage.rs get_array_metadata, src/store/filesystem.rs read_entry_point_metadata")],
  ["open, open_or_create, get_array_metadata, array_exists"])

p("Z22", "Only compatible hierarchies open, and opening changes nothing",
  "Opening succeeds only if the base directory holds an entry point whose protocol version is compatible with 3.0, and otherwise fails with an error; opening an existing hierarchy, by either way of opening, leaves every stored byte unchanged and honours its declared metadata key suffix. Creating a new one yields a hierarchy that opens again with the same settings.",
  ["inputs", "histories"], "entry points with version strings up to the stated length, key suffixes with and without a leading dot, existing and absent directories",
  "Tests open hierarchies they just created and one fixture, all version 3.0 with suffix .json.",
  ["src/store/filesystem.rs", "src/storage.rs"], [("version check", "src/storage.rs get_version, src/store/filesystem.rs open, open_or_create")],
  ["FilesystemHierarchy::open, open_or_create, get_version"])

p("Z23", "Listing returns exactly the children that exist",
  "Listing a group returns the name of every node directly below it - array, group or implicit group - exactly once and nothing else, whatever their names and kinds; listing the store returns every stored key under the prefix exactly once, each usable to read that value back.",
  ["histories", "inputs"], "hierarchies of up to three nodes with related names (prefixes, dotted names, names ending in metadata extensions), listed at the root and below",
  "One test lists the root with one implicit group and no array or group document in it.",
  ["src/storage.rs", "src/store/filesystem.rs"], [("node listing", "src/storage.rs list_nodes"), ("key listing", "src/storage.rs list_prefix, src/store/filesystem.rs list_dir")],
  ["list_nodes, list_dir, list_prefix, list"])

p("Z24", "Chunks are independent of each other",
  "Writing or deleting one chunk affects that chunk only: every other chunk of the array and of every other array keeps its content or its absence. Deleting reports success exactly when the chunk is absent afterwards, a deleted or never-written chunk reads as absent, and the last write to a position is the one that is read.",
  ["histories", "inputs"], "sequences of up to three writes and deletions at arbitrary positions (multi-digit coordinates included)",
  "One chunk is written and deleted; no test has two chunks whose keys could be confused.",
  ["src/storage.rs", "src/store/filesystem.rs"], [("key per chunk", "src/storage.rs get_chunk_key, write_chunk, delete_chunk, read_chunk"), ("truncation before rewrite", "src/store/filesystem.rs set")],
  ["read_chunk of all positions after each operation"])

p("Z25", "Storage failures are reported, not swallowed",
  "If storing a chunk, attribute or metadata document hits a failing write at any point, the operation returns an error; when it returns success the complete value is in the store. A read during which the storage fails returns an error and never made-up or partial data, and no storage failure makes the library panic.",
  ["fault_sequences", "inputs"], "every position of a failing or short system call or store write within an operation, every compressor",
  "No test injects any storage failure.",
  ["src/store/filesystem.rs", "src/storage.rs", "src/chunk.rs", "src/compression"], [("buffered writing", "src/store/filesystem.rs set"), ("encoder completion", "src/chunk.rs DefaultChunkWriter::write_chunk, src/compression/*.rs")],
  ["Result of write_chunk, set_attributes, create_array, read_chunk under injected faults versus the store content"])

p("Z26", "Concurrent access to one chunk is never torn",
  "When operations on the same filesystem hierarchy run concurrently, a read of a chunk returns a complete value that some write stored (or absence, or an error), never a mixture of two writes or invented data; a write that returned success and is followed by no other write or deletion of that chunk is what is read afterwards. Operations on other chunks and nodes do not disturb each other.",
  ["schedules"], "all interleavings, at system-call granularity and up to the stated number of preemptions, of two or three operations (write, read, delete) on one chunk, and of operations on different values",
  "Tests are single-threaded per hierarchy.",
  ["src/store/filesystem.rs"], [("advisory locking", "src/store/filesystem.rs get, set, erase")],
  ["results of concurrent read_chunk, write_chunk, delete_chunk"])

p("Z27", "A crash during a write damages at most the value being written",
  "If the process dies at any point while it writes a chunk, updates attributes, creates or removes a node or deletes a chunk, every other chunk, node and attribute set in the hierarchy is unchanged, the hierarchy still opens, and the interrupted chunk reads as old, new, absent or an error - never as other data.",
  ["crash_points"], "a crash before every system call of each operation",
  "No test interrupts an operation.",
  ["src/store/filesystem.rs", "src/storage.rs"], [("one file per value", "src/store/filesystem.rs set, erase")],
  ["full content of the hierarchy after the interrupted operation"])

p("Z28", "The filesystem store is a map from keys to values",
  "After any sequence of storing values, erasing keys and erasing prefixes, getting a key yields exactly the bytes stored last under it, and nothing if it was erased or never set; existence tests and listings agree with that. Erasing a prefix removes the keys below that directory and no others, and no operation on one key changes the value of another. Spellings of a key with or without a leading slash, doubled slashes or '.' components name the same value; a JSON document stored under a key is fetched as that document.",
  ["histories", "inputs"], "all sequences of up to three operations on keys in nested directories and with common prefixes, values of arbitrary bytes and of lengths around the buffer sizes",
  "Tests store through the array interface and read straight back; none mixes keys, spellings, prefixes and replacements.",
  ["src/store/filesystem.rs"], [("storing and erasing", "src/store/filesystem.rs set, erase, erase_prefix"), ("key to path", "src/store/filesystem.rs get_path"), ("listing", "src/store/filesystem.rs list, list_prefix, list_dir")],
  ["get, exists and list of every key after the sequence"])

p("Z29", "Reading never changes the store",
  "No reading operation (existence tests, metadata, attributes, listing, chunk and region reads, URIs, opening an existing hierarchy) creates, removes or alters anything that is stored, whether it succeeds or fails and whether the node exists or not.",
  ["inputs"], "every reading operation on existing, implicit and absent nodes and chunks",
  "Tests look at what reads return, never at what they leave behind.",
  ["src/store/filesystem.rs", "src/storage.rs"], [("opening without creating", "src/store/filesystem.rs get, list_dir, open"), ("node lookup", "src/storage.rs get_array_metadata, list_attributes")],
  ["every byte and file name below the hierarchy before and after"])

p("Z30", "Every handle on a hierarchy sees its current content",
  "When a hierarchy is opened several times, what one handle creates, updates, writes, deletes or removes is what every other handle (and the same one) sees from then on: existence, metadata, attributes, chunks and listings never come from an earlier state.",
  ["histories"], "all sequences of up to three (thorough: four) operations on a node through alternating handles",
  "Tests use one handle per hierarchy, or reopen once.",
  ["src/store/filesystem.rs", "src/storage.rs"], [("nothing is remembered between calls", "src/store/filesystem.rs FilesystemHierarchy"), ("node lookup", "src/storage.rs")],
  ["exists, get_array_metadata, list_attributes, read_chunk, list_nodes through each handle after each operation"])

p("Z31", "Compression schemes are known by name",
  "Each compiled-in compression scheme is parsed from its name in any mixture of case and yields that scheme with its default settings; every other string is refused without panicking. A scheme displays as a name that parses back to it, and only the raw scheme counts as the default.",
  ["inputs"], "every ASCII string of up to five (thorough: seven) characters",
  "Tests parse a handful of literal names.",
  ["src/compression"], [("names", "src/compression/mod.rs FromStr, Display, is_default")],
  ["parse and to_string of CompressionType"])

p("Z32", "Declared sizes are the sizes",
  "A data type reports the number of bytes its elements occupy (raw types: their bits divided by eight), array metadata reports the axes, shape, chunk shape and element counts it was declared or built with, and a stored uncompressed chunk occupies the chunk's element count times the element size. Metadata built by the constructor has exactly the given extents, type and compressor, and no fill value (reading as zero).",
  ["inputs"], "every element type, raw types of any whole number of bytes, three axes of arbitrary 16-bit extents",
  "Tests check sizes for a few literals.",
  ["src/data_type.rs", "src/lib.rs", "src/chunk.rs"], [("element sizes", "src/data_type.rs size_of"), ("accessors", "src/lib.rs ArrayMetadata")],
  ["size_of, get_ndim, get_shape, get_num_elements, get_chunk_num_elements, length of stored chunks"])

p("Z33", "Chunk objects hold exactly what they were made from",
  "A chunk object built from a position and elements, copied from another chunk, created or reinitialised to a number of elements has exactly that position, count and (where given) those elements, whatever a reused object held before; its bounds in an array are its grid position's. Chunk types that a user implements are written and read by their own methods, with the position and element count the array prescribes, and under the same checks as the built-in one.",
  ["inputs"], "every element type, arbitrary elements and positions, all pairs of old and new lengths up to three, a user-defined chunk type",
  "Tests reuse one buffer once; none implements its own chunk type.",
  ["src/chunk.rs", "src/data_type.rs", "src/ndarray.rs"], [("chunk objects", "src/chunk.rs SliceDataChunk, ReinitDataChunk"), ("generic reading and writing", "src/chunk.rs DefaultChunkReader, DefaultChunkWriter")],
  ["get_data, get_grid_position, get_num_elements, into_data, get_bounds; write_chunk and read_chunk_into with a user's type"])

p("Z34", "Concurrent metadata access sees whole documents",
  "While one operation sets attributes, creates or removes a node, another operation that reads that node's metadata or attributes sees the complete state before or after it, or an error, never a truncated document, part of one update, or the absence of a node that is merely updated. Two concurrent updates or creations of one node leave a complete document of one that succeeded, or of both; other nodes keep existing, stay listed and keep their metadata, and a hierarchy that two callers create at once opens.",
  ["schedules"], "all interleavings, at system-call granularity and up to the stated number of preemptions, of twelve pairs of metadata operations",
  "Tests are single-threaded per hierarchy.",
  ["src/store/filesystem.rs", "src/storage.rs"], [("locking", "src/store/filesystem.rs get, set, open_or_create"), ("one document per update", "src/storage.rs set_attributes, create_array, create_group")],
  ["list_attributes, get_array_metadata, exists and list_nodes during and after the operations"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
