#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that ids and anchors are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Whatever is saved loads back equal, through every entry point",
  "For every supported value - primitives, strings, vectors, maps, and derived structs nested through inline, chunkable and map fields - loading what any save, write or serialize entry point produced returns a value equal to the one saved. This holds whether the bytes went through a file or memory and with compression off, on, or set per field.",
  ["inputs", "configurations"], "all values of supported types, all entry-point pairs, all compression settings",
  "The tests round-trip about twenty fixed values; field order, child order, nesting depth, sizes and configurations are sampled at one point each.",
  ["parcode-derive/src/lib.rs", "src/api.rs", "src/reader.rs", "src/visitor.rs", "src/visitor_impls.rs", "src/executor.rs"],
  [("derive: locals then remotes, same order on both sides", "parcode-derive/src/lib.rs generate_visitor/generate_native_reader"),
   ("root header", "src/api.rs ParcodeOptions::write"), ("from_node", "src/reader.rs ParcodeNative")],
  [("Node tree", "payload plus ordered children of every object", "src/graph/core.rs Node")],
  ["Parcode::save/write/serialize/save_sync/write_sync", "Parcode::load/load_bytes", "ParcodeFile::load"])
prop("C02", "A vector loads complete and in order whatever its length and shard layout",
  "Loading a saved vector returns exactly the saved elements, in order and with the saved length, for every length, element size and shard layout the writer chooses, including element types with chunkable fields. A file whose recorded totals and shards disagree is reported as an error and never returned as a shorter, longer or reordered vector.",
  ["inputs", "configurations"], "all lengths, element sizes, core counts, shard layouts",
  "Tests use a handful of lengths on one machine; shard boundaries, run-length table shapes and core counts are not varied.",
  ["src/reader.rs", "src/visitor_impls.rs"],
  [("run-length table expanded to (shard, start, count) jobs", "src/reader.rs decode_parallel_collection"),
   ("destination-passing shard decode", "src/reader.rs decode_shard_into_buffer, read_into_slice"),
   ("writer sharding", "src/visitor_impls.rs Vec::visit")],
  [("shard_runs/total_items", "layout metadata of a vector container", "src/visitor_impls.rs VecContainerJob")],
  ["Parcode::load::<Vec<T>>", "ParcodeCollectionPromise::load"])
prop("C03", "Indexed access returns the i-th element, and an error past the end",
  "For every saved vector and every index below its length, indexed access (eager, and lazy where the element type supports it) returns the element the full load has at that position. Every index at or beyond the length yields an error, and the reported length equals the saved one.",
  ["inputs"], "all vectors, all indices including huge ones",
  "Tests probe a few indices of a few vectors; the run-length arithmetic has different cases for first/last shards and mixed runs.",
  ["src/reader.rs", "src/rt.rs"],
  [("run-length index arithmetic", "src/reader.rs resolve_rle_index"), ("shard selection", "src/reader.rs get, locate_shard_item"),
   ("skip within shard", "src/rt.rs get_lazy")],
  [("shard_runs", "run-length table", "src/reader.rs ShardRun")],
  ["ParcodeCollectionPromise::get/get_lazy/len/first/last", "ChunkNode::get/len"])
prop("C04", "Streaming a vector yields each element exactly once, in order",
  "Iterating a saved vector, eagerly or lazily, yields every element exactly once in saved order and then ends. At every step the lazy iterator reports exactly the number of elements still to come.",
  ["inputs", "histories"], "all vectors and every prefix of iterator calls",
  "Tests iterate a few vectors once; shard transitions and mid-iteration length reports are not covered for general layouts.",
  ["src/reader.rs", "src/rt.rs"],
  [("ChunkIterator", "src/reader.rs ChunkIterator::next"), ("ParcodeLazyIterator", "src/rt.rs ensure_shard_loaded/next/size_hint/len")],
  [("items_left_in_shard, items_yielded, current_pos", "cursor of the lazy iterator", "src/rt.rs"),
   ("current_global_idx, current_shard_idx", "cursor of the streaming iterator", "src/reader.rs")],
  ["ParcodeCollectionPromise::iter/iter_lazy"])
prop("C05", "The lazy mirror shows the same data as the eager load",
  "For every derived struct, each inline field of its lazy mirror equals the saved field, and loading each lazily held field, at any nesting depth and through any mix of struct, vector and primitive fields, returns the saved value. Opening the mirror of one element of a vector never shows data belonging to another element.",
  ["inputs", "programs"], "all derived struct shapes and values, all access paths",
  "Tests use a few struct shapes; the alignment of children with elements depends on the number of lazily held fields per element and position in the shard.",
  ["parcode-derive/src/lib.rs", "src/rt.rs"],
  [("generated lazy mirror", "parcode-derive/src/lib.rs generate_lazy_mirror"), ("promises", "src/rt.rs ParcodePromise, ParcodeCollectionPromise")],
  [("children iterator", "position in the shard's children", "src/rt.rs get_lazy")],
  ["ParcodeFile::root/load_lazy/read_lazy", "ParcodePromise::load"])
prop("C06", "A map lookup finds a key exactly when it was saved, with its value",
  "For every saved hash-sharded map and every key, lookup (eager or lazy) returns the saved value when the key was saved and 'absent' otherwise, including empty maps, many shards and keys whose hashes collide. A lookup never returns the value of a different key.",
  ["inputs"], "all maps, all probe keys, all hash functions of the key type",
  "Tests look up a few keys with good hashes in small maps; collisions, empty maps, empty shards and shard-count boundaries are not reached.",
  ["src/rt.rs", "src/map.rs", "src/visitor_impls.rs"],
  [("bucket routing on save", "src/visitor_impls.rs HashMap::visit"), ("shard layout", "src/map.rs MapShardJob::execute"),
   ("hash scan and key comparison", "src/rt.rs ParcodeMapPromise::get, get_lazy")],
  [("hash/offset tables", "per-shard index", "src/map.rs")],
  ["ParcodeMapPromise::get/get_lazy"])
prop("C07", "A map loads back with exactly the saved entries",
  "Loading a saved map, whether stored as one block or hash-sharded, eagerly or through its lazy handle, returns exactly the saved entries: none lost, none duplicated, none added, for every size from empty upward.",
  ["inputs"], "all maps of all sizes and key/value encodings, both storage strategies, both load paths",
  "Tests load a few mid-sized maps; tiny, empty and shard-count-boundary maps and cross strategy/handle combinations are not covered.",
  ["src/reader.rs", "src/rt.rs", "src/visitor_impls.rs", "src/map.rs"],
  [("shard parse", "src/reader.rs HashMap::from_node; src/rt.rs ParcodeMapPromise::load"), ("bucket distribution", "src/visitor_impls.rs HashMap::visit")],
  [("shard count", "container payload", "src/visitor_impls.rs MapContainerJob")],
  ["Parcode::load::<HashMap>", "ParcodeMapPromise::load"])
prop("C08", "Compression is transparent and append-only",
  "For every byte string and every registered algorithm, decompressing the compressed form returns the original bytes, and compressing into a non-empty buffer leaves the bytes already in it untouched. An unregistered algorithm is reported as an error on read, never as wrong data.",
  ["inputs"], "all byte strings, all prior buffer contents, all algorithm ids",
  "No test calls the compressors directly; only compressible whole-file samples pass through them.",
  ["src/compression.rs"],
  [("append compression", "src/compression.rs compress_append"), ("registry", "src/compression.rs CompressorRegistry::register/get")],
  [("algorithms", "id-indexed table", "src/compression.rs CompressorRegistry")],
  ["Compressor::compress/compress_append/decompress", "CompressorRegistry::get"])
prop("C09", "Chunk flags, child references and file header encode exactly as documented",
  "The chunk flag byte keeps the 'has children' flag in bit 0 and a 3-bit compression id in bits 1-3 and gives both back for every combination; a child reference is two little-endian 64-bit numbers (offset, then length) and parses back to itself, and fewer than 16 bytes is an error. The file header is 26 bytes: 'PAR4', version 4, root offset, root length and checksum, all little-endian.",
  ["inputs"], "all flag bytes, all offsets and lengths, all slice lengths",
  "Tests only ever see the few flag, offset and length values of small files.",
  ["src/format.rs"],
  [("MetaByte", "src/format.rs MetaByte"), ("ChildRef", "src/format.rs ChildRef::to_bytes/from_bytes"), ("GlobalHeader", "src/format.rs GlobalHeader::to_bytes")],
  [], ["format::MetaByte", "format::ChildRef", "format::GlobalHeader"])
prop("C10", "A written file is exactly its chunks, laid end to end, root last",
  "Every file a successful write produces consists of non-overlapping chunks that fill it from byte 0 up to the 26-byte header with nothing between; every child reference names exactly one chunk, each chunk except the root is referenced exactly once and lies before its parent, and the header names the last chunk. Each chunk's table lists its children in field and shard order.",
  ["inputs", "schedules", "configurations"], "all values, both writers, all thread schedules, all compression settings",
  "Tests never look at the bytes; a wrong reference that happens not to be followed, or a schedule-dependent layout, passes.",
  ["src/executor.rs", "src/io.rs", "src/graph/core.rs", "src/api.rs"],
  [("post-order execution", "src/executor.rs execute_graph_serial/process_node"), ("offset accounting", "src/io.rs SeqWriter::write_all"),
   ("slots", "src/graph/core.rs link_parent_child/register_child_result")],
  [("completed_children", "child refs by slot", "src/graph/core.rs"), ("current_offset", "bytes written so far", "src/io.rs")],
  ["bytes of the file", "ParcodeFile::root_node/ChunkNode::children"])
prop("C11", "Damaged or hostile files give errors, never crashes",
  "For every byte string offered as a file, opening it and then walking chunks and children, reading lengths, loading, indexing, iterating vectors, looking up and loading maps, or inspecting it either succeeds or returns an error. None of these panics, aborts (also not on an allocation sized by the file), overflows arithmetic or the stack, or loops forever.",
  ["inputs"], "all byte strings; all read operations on containers",
  "Tests open a few truncated or mislabelled files; internal offsets, lengths, counts and tables are never corrupted.",
  ["src/reader.rs", "src/rt.rs", "src/inspector.rs", "src/format.rs"],
  [("bounds checks", "src/reader.rs get_chunk, get_child_by_index, decode_parallel_collection"), ("map table checks", "src/rt.rs ParcodeMapPromise; src/reader.rs HashMap::from_node"),
   ("walk limits", "src/inspector.rs inspect_node")],
  [], ["ParcodeFile::from_bytes/open and every reader of it"])
prop("C12", "Parallel vector reconstruction is memory-safe",
  "While a vector is rebuilt in parallel, the destination ranges of its shards are pairwise disjoint and inside the allocated buffer, and the buffer is handed out as initialised only if every slot was written. A shard holding fewer or more elements than declared is an error and never exposes uninitialised or out-of-range memory.",
  ["inputs", "schedules"], "all shard tables and shard contents, well-formed or not, all schedules",
  "One miri test runs one well-formed vector; inconsistent tables and shards never reach the unsafe code in tests.",
  ["src/reader.rs"],
  [("job tiling and total check", "src/reader.rs decode_parallel_collection"), ("read count check", "src/reader.rs decode_shard_into_buffer"), ("destination bounds check", "src/reader.rs read_into_slice")],
  [("result_buffer", "uninitialised destination", "src/reader.rs")],
  ["Parcode::load::<Vec<T>>"])
prop("C13", "A failed write is always reported; success means every byte was delivered",
  "If the destination fails or accepts too little at any point of a write or of its final flush, or serialising any part fails, the call returns an error, in both the parallel and the sequential writer. If it returns success, the destination has received exactly the complete file, whatever sizes of partial writes it accepted.",
  ["fault_sequences", "inputs", "schedules"], "all sinks and fault positions, all job failures, both writers",
  "Tests write to sinks that never fail and types whose serialisation never fails.",
  ["src/api.rs", "src/io.rs", "src/executor.rs"],
  [("final flush", "src/api.rs write/write_sync"), ("error capture and abort", "src/executor.rs signal_error/execute_graph_parallel"), ("buffered writer", "src/io.rs SeqWriter")],
  [("error_capture, abort_flag", "first error", "src/executor.rs")],
  ["Parcode::write/write_sync with a failing sink", "executor::execute_graph"])
prop("C14", "Parallel and sequential writers produce interchangeable files",
  "For every value and every compression setting, including one naming an unavailable algorithm, the parallel and the sequential writer either both succeed or both fail. When they succeed their files hold the same tree of chunks - same payloads, child order and recorded compression - and so load equal; only the position of chunks may differ.",
  ["inputs", "configurations", "schedules"], "all values, compression settings and schedules",
  "Tests never compare the two writers' outputs, and no test uses a setting only one of them handles.",
  ["src/executor.rs", "src/api.rs"],
  [("serial executor", "src/executor.rs execute_graph_serial"), ("parallel executor", "src/executor.rs process_node")],
  [], ["Parcode::write vs Parcode::write_sync"])
prop("C15", "Point access depends only on the chunks it needs",
  "Opening a file, taking its lazy root, indexing one element or looking up one key gives the correct result even if the payload of every chunk not on the path to that data is unreadable. Inline fields of a mirror need only the chunks of the objects it shows (its own and those of the nested structs mirrored with it), one element or one key only its container and its shard, plus, when read whole, the chunks nested below it.",
  ["inputs", "fault_sequences"], "all files, all access paths, all sets of damaged unrelated chunks",
  "Tests never damage unrelated data, so reading (or depending on) too much is invisible to them.",
  ["src/reader.rs", "src/rt.rs"],
  [("shard arithmetic", "src/reader.rs get/locate_shard_item"), ("bucket selection", "src/rt.rs ParcodeMapPromise::get"), ("lazy promises", "src/rt.rs")],
  [], ["ParcodeCollectionPromise::get/get_lazy", "ParcodeMapPromise::get/get_lazy", "ParcodeFile::root"])
prop("C16", "Inspection reports the file's true structure",
  "The inspection report of a file has one entry per chunk, nested as in the file, each with the chunk's true offset, total length, payload size, child count, flag and compression; the report's file size, root offset and version are the file's. A non-empty vector container is reported with its true element and shard counts, a non-empty hash-sharded map with its true bucket count.",
  ["inputs"], "all files the writers can produce",
  "Tests check one or two fields of one report.",
  ["src/inspector.rs", "src/reader.rs"],
  [("inspect_node", "src/inspector.rs"), ("analyze_payload", "src/inspector.rs")],
  [], ["Parcode::inspect/inspect_bytes", "ParcodeFile::inspect"])
prop("C17", "Vector sharding splits every vector into non-empty, bounded, recorded shards",
  "A non-empty vector is split into consecutive non-empty shards whose recorded sizes, in order, are exactly the shard sizes and sum to the recorded element count; an empty vector has no shards. All shards but the last are of equal size, and on sampled element sizes a shard aims at no more than 128 KiB unless one element alone exceeds it.",
  ["inputs", "configurations"], "all lengths, element encodings and core counts",
  "Tests never read the shard table and run on one core count.",
  ["src/visitor_impls.rs"],
  [("strategy calculation", "src/visitor_impls.rs Vec::visit phase 1"), ("run-length building", "src/visitor_impls.rs Vec::visit phase 2")],
  [("ShardRun", "run of equal shards", "src/visitor_impls.rs")],
  ["container payload and child count in the file"])
prop("C18", "Only complete version-4 files open, and every complete one does",
  "Opening succeeds exactly when the file has at least 26 bytes and its last 26 bytes carry the magic 'PAR4' and version 4; every other byte string or file, of any length, is refused with an error. The root found after opening is the chunk whose offset and length the header records, and the reported size is the file's.",
  ["inputs"], "all byte strings",
  "Tests try two or three bad files.",
  ["src/reader.rs"],
  [("header validation", "src/reader.rs ParcodeFile::init")],
  [("GlobalHeader", "parsed header", "src/format.rs")],
  ["ParcodeFile::open/from_bytes", "Parcode::open/open_bytes"])
prop("C19", "Every task runs once, after its children, with their results in order",
  "Executing any task tree runs every task exactly once and only after all its children are written, hands it its children's locations in the order they were linked, and returns the location of the root. If any task fails the execution returns an error and never a location.",
  ["inputs", "schedules"], "all trees, all task outcomes, all thread schedules",
  "Tests build a few tiny trees implicitly through values; failures and wide/deep trees under contention are not exercised.",
  ["src/executor.rs", "src/graph/core.rs"],
  [("dependency counters", "src/graph/core.rs link_parent_child"), ("propagation", "src/executor.rs process_node"), ("reverse order walk", "src/executor.rs execute_graph_serial")],
  [("atomic_deps", "children still to finish", "src/graph/core.rs"), ("completed_children", "results by slot", "src/graph/core.rs"), ("parent_slot", "own slot in parent", "src/graph/core.rs")],
  ["executor::execute_graph/execute_graph_serial", "graph::TaskGraph"])
prop("C20", "Chunks parse from the back to the exact payload and children recorded",
  "For every file and every chunk in it, the payload read is exactly the chunk's bytes before its footer (decompressed by the recorded algorithm), the child count is the footer's and child i is the i-th reference in the footer. Reading stays inside the chunk's recorded range: a footer larger than its chunk, a range outside the file, or a child index past the count is an error.",
  ["inputs"], "all files and chunk ranges",
  "Tests only see consistent footers with few children.",
  ["src/reader.rs"],
  [("footer parse", "src/reader.rs get_chunk"), ("child lookup", "src/reader.rs get_child_by_index/children"), ("payload read", "src/reader.rs read_raw")],
  [("payload_end_offset", "end of payload", "src/reader.rs ChunkNode")],
  ["ChunkNode::read_raw/children/child_count/offset/length/payload_len"])
prop("C21", "Concurrent appends to the output never interleave and report true offsets",
  "Whatever threads append to the shared output and in whatever order, each append's bytes land contiguously at exactly the offset it was told, offsets start at zero and account for every byte appended before, and nothing else is in the output after a flush.",
  ["schedules", "inputs"], "all numbers of threads, buffer sizes and interleavings",
  "No test drives the shared writer directly or concurrently.",
  ["src/io.rs"],
  [("lock around write and counter", "src/io.rs SeqWriter::write_all")],
  [("current_offset", "bytes accepted", "src/io.rs WriterState")],
  ["io::SeqWriter::write_all/flush/into_inner"])
prop("C22", "Requested compression and layout settings reach every chunk they govern",
  "A field marked for an algorithm has that algorithm recorded on its container and on all of its shards, and nowhere else; the global compression switch applies the default algorithm to every chunk with no setting of its own and leaves explicit settings alone. An algorithm that is not available falls back to no compression, and the recorded id is always the one actually used.",
  ["configurations", "inputs"], "all combinations of field attributes, global switch and value shapes",
  "No test reads back the recorded algorithm of a chunk.",
  ["src/visitor_impls.rs", "src/rt.rs", "src/executor.rs", "parcode-derive/src/lib.rs"],
  [("ConfiguredJob", "src/rt.rs"), ("effective id", "src/executor.rs"), ("attribute parsing", "parcode-derive/src/lib.rs parse_attributes")],
  [("JobConfig", "per-node settings", "src/graph/job.rs")],
  ["ChunkNode::meta().compression_method()", "Parcode::inspect"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
