"""What each property's check consists of: harness units, entry functions, bounds."""

COMMON_ASSUMPTIONS = [
    "the code is encoded from clang 18 LLVM IR (-O1 front end, light scalar clean-up passes) of /repo's current sources; the C and C++ run-time libraries are replaced by the models in /verif/runtime",
    "allocation never fails; the heap, stack and globals are separate objects and every access is checked against its object",
]


def E(entry, secs=(60, 400), **kw):
    d = dict(entry=entry, secs=secs)
    d.update(kw)
    return d


PROPS = {}

PROPS["C01"] = dict(units=[dict(harness="C01.cpp", groups=["common"], entries=[
    E("c01_varint", reach=("varint",), bounds="all pairs of 64-bit values"),
    E("c01_varint_raw", reach=("raw",), bounds="all byte sequences of 1-10 bytes"),
    E("c01_variant", reach=("variant",), bounds="all scalar types, all 64-bit payloads"),
    E("c01_variant_str", reach=("variant_str",), bounds="strings and blobs of 0-3 arbitrary bytes"),
    E("c01_variant_raw", reach=("ok", "rejected"), bounds="all 20-byte buffers"),
    E("c01_entry", reach=("entry_ref", "entry_imm"), bounds="3 nodes with arbitrary 64-bit ids, all scalar types and payloads"),
    E("c01_record", params=({"nn": 2, "ni": 1}, {"nn": 3, "ni": 2}), reach=("fits",), bounds="up to nn node and ni immediate entries with arbitrary ids and payloads"),
    E("c01_record_tight", params=({"nn": 1, "ni": 1}, {"nn": 2, "ni": 2}), reach=("fits", "skips"), bounds="every buffer capacity in steps of 3 up to the needed size"),
    E("c01_record_many", params=({"n": 131}, {"n": 131}), reach=("many",), bounds="131 entries in chunks of 1..131, one symbolic payload"),
    E("c01_record_mix", params=({"nn": 6, "ni": 10}, {"nn": 12, "ni": 14}), reach=("mix",), bounds="up to nn - 1 node and ni - 1 immediate entries in 3 orders, one or two calls, smallest and largest ids, 10-byte payloads"),
    E("c01_nodebuffer_large", params=({"n": 3}, {"n": 5}), reach=("large",), bounds="n nodes, every combination of 5 value sizes of 0 to 5000 bytes, 3 symbolic bytes"),
    E("c01_snapshotbuffer", reach=("snapbuf",), bounds="3 records, arbitrary ids and payload"),
    E("c01_nodebuffer", params=({"n": 1}, {"n": 2}), reach=("nodebuf",), bounds="n nodes, ids < 2^63, all types, strings up to 3 bytes"),
    E("c01_nodebuffer_tree", reach=("tree",), bounds="2 nodes with arbitrary ids < 2^40"),
])])

PROPS["C02"] = dict(units=[dict(harness="C02.cpp", groups=["common"], entries=[
    E("c02_int", params=({"delta": 115}, {"delta": 115}), reach=("int",), bounds="7 windows of 116 values around digit-count and range limits, both signs"),
    E("c02_uint", reach=("uint",), bounds="7 windows of 116 values"),
    E("c02_addr", params=({"shift": 48}, {"shift": 32}), reach=("addr",), bounds="addresses below 2^(64-shift), with and without the top 16 bits set"),
    E("c02_small", reach=("small",), bounds="all booleans and types"),
    E("c02_string", params=({"len": 4}, {"len": 8}), reach=("string",), bounds="all NUL-free strings up to len bytes"),
    E("c02_escape", params=({"len": 3}, {"len": 5}), reach=("escape",), bounds="all NUL-free strings up to len bytes"),
    E("c02_parse_int", params=({"len": 3}, {"len": 5}), reach=("number", "no number"), bounds="all NUL-free strings up to len bytes"),
    E("c02_parse_uint", params=({"len": 3}, {"len": 5}), reach=("done",), bounds="all NUL-free strings up to len bytes"),
    E("c02_parse_any", params=({"len": 2}, {"len": 4}), reach=("done",), bounds="all NUL-free strings up to len bytes, 7 types"),
    E("c02_props", jobs=4, reach=("fits", "too small"), bounds="all combinations of flags, scope and level; one buffer that is large enough and 4 sizes that may not be"),
    E("c02_unknown_type", params=({"len": 6}, {"len": 7}), reach=("done",), bounds="all NUL-free strings up to len bytes"),
    E("c02_convert", reach=("double", "scalar"), bounds="all scalar types and 64-bit payloads; doubles below 2e9 in magnitude for the integer conversions"),
])])

PROPS["C03"] = dict(units=[dict(harness="C03.cpp", groups=["common"], entries=[
    E("c03_integers", reach=("int", "uint"), bounds="all pairs of 64-bit values"),
    E("c03_pointers", reach=("ptr",), bounds="all pairs of 64-bit values"),
    E("c03_doubles", reach=("double",), bounds="all pairs of non-NaN doubles"),
    E("c03_double_eq", reach=("double",), bounds="all pairs of doubles"),
    E("c03_strings", params=({"len": 3}, {"len": 5}), reach=("equal", "different"), bounds="all pairs of strings and blobs up to len bytes"),
    E("c03_string_make", params=({"len": 5}, {"len": 8}), reach=("made",), bounds="all strings up to len bytes"),
    E("c03_mixed", reach=("mixed",), bounds="all pairs of different scalar types, all payloads"),
])])

PROPS["C05"] = dict(units=[dict(harness="C05.cpp", groups=["common", "reader"], entries=[
    E("c05_path", params=({"len": 2, "lenb": 1}, {"len": 3, "lenb": 2}), reach=("path",), bounds="3-level path with two text values up to len/lenb bytes, no control characters other than newline"),
    E("c05_imm_text", params=({"len": 2}, {"len": 3}), reach=("imm",), bounds="two text values up to len bytes"),
    E("c05_name", params=({"len": 2}, {"len": 4}), reach=("name",), bounds="attribute names up to len bytes"),
    E("c05_numbers", reach=("numbers",), bounds="windows of 8 values around 0, 1000, 2^63, 2^64; int, uint, bool, address, type; stored as value or in the tree"),
    E("c05_attribute", params=({"len": 2}, {"len": 3}), reach=("attr",), bounds="4 property sets, meta-attribute text up to len bytes"),
    E("c05_globals", params=({"len": 2}, {"len": 3}), reach=("globals",), bounds="0-2 globals, with and without an empty record"),
    E("c05_two_streams", reach=("two",), bounds="two streams with different id assignments, one symbolic byte each"),
    E("c05_nodes_first", reach=("order",), bounds="3 records over a 3-node path"),
])])

PROPS["C06"] = dict(units=[dict(harness="C06.cpp", groups=["common", "reader"], entries=[
    E("c06_any_line", params=({"len": 3}, {"len": 6}), reach=("line",), bounds="all lines up to len bytes"),
    E("c06_any_kind", params=({"len": 5}, {"len": 8}), reach=("kind",), bounds="all lines that start with __rec= and have up to len more bytes"),
    E("c06_node_tail", params=({"len": 4}, {"len": 7}), reach=("node",), bounds="node records with up to len arbitrary bytes"),
    E("c06_node_data_tail", params=({"len": 4}, {"len": 6}), reach=("data",), bounds="node records with up to len arbitrary bytes from the value on"),
    E("c06_ctx_data_tail", params=({"len": 3}, {"len": 5}), reach=("data",), bounds="up to len arbitrary bytes in a value list"),
    E("c06_node_fields", params=({"len": 1}, {"len": 2}), reach=("fields",), bounds="node records of two fields in any order with any values up to len bytes"),
    E("c06_node_id", params=({"len": 1}, {"len": 2}), reach=("fields",), bounds="node records of two fields in any order with any values up to len bytes"),
    E("c06_ctx_fields", params=({"len": 1}, {"len": 2}), reach=("fields",), bounds="snapshot records of two fields in any order with any values up to len bytes"),
    E("c06_globals_fields", params=({"len": 1}, {"len": 2}), reach=("fields",), bounds="globals records of two fields in any order with any values up to len bytes"),
    E("c06_node_ids", params=({"sinks": 2, "datas": 2}, {"sinks": 4, "datas": 6}), jobs=2, reach=("ids",), bounds="all ids 0-19 for attribute, parent; datas values; sinks consumers"),
    E("c06_node_reuse", params=({"sinks": 2}, {"sinks": 4}), jobs=2, reach=("reuse",), bounds="all ids 0-19 for node, parent; sinks consumers"),
    E("c06_attr_ids", params=({"sinks": 2, "datas": 2}, {"sinks": 4, "datas": 4}), jobs=2, reach=("attr",), bounds="all ids 0-19 for attribute, parent; datas values; sinks consumers"),
    E("c06_ctx_ids", params=({"sinks": 2, "datas": 2}, {"sinks": 4, "datas": 3}), jobs=2, reach=("ctx",), bounds="all ids 0-19, up to 2 references, 1 attribute, 2 values; sinks consumers"),
    E("c06_truncated", jobs=2, reach=("cut",), bounds="3 records cut, with a byte replaced, or with a byte removed at every position behind the record kind"),
])])

PROPS["C08"] = dict(units=[dict(harness="C08.cpp", groups=["common", "src/caliper/Blackboard.cpp"], entries=[
    E("c08_ops", params=({"keys": 3, "ops": 3}, {"keys": 3, "ops": 5}), reach=("ops",), bounds="all sequences of ops operations on keys keys, 5 key sets with collisions and wrap-around, symbolic values, any visibility"),
    E("c08_chain", params=({"dels": 2}, {"dels": 3}), reach=("chain",), bounds="4 keys stored, dels deletions and one re-insertion in any order, 5 key sets"),
    E("c08_any_key", params=({"stride": 31, "mult": 3}, {"stride": 1, "mult": 31}), reach=("any",), bounds="two symbolic colliding keys (multiples of the table size apart) at every place of the table (quick: every 31st and the last 4)"),
    E("c08_full", reach=("full",), bounds="keys added until the table is full, strides 1 and 7"),
])])

PROPS["C10"] = dict(units=[dict(harness="C10.cpp", groups=["common", "src/caliper/MetadataTree.cpp", "src/caliper/MemoryPool.cpp"], entries=[
    E("c10_child", params=({"len": 2}, {"len": 4}), reach=("child",), bounds="two strings or blobs of up to len bytes"),
    E("c10_scalars", reach=("scalars",), bounds="all pairs of values of 7 scalar types"),
    E("c10_path", params=({"len": 1}, {"len": 3}), reach=("path",), bounds="two paths of 1-3 values, 8-bit numbers or strings up to len bytes"),
    E("c10_strings", jobs=4, reach=("strings",), bounds="paths of 1-3 strings and a later one, lengths 0-8, one symbolic byte each"),
    E("c10_edit", params=({"depth": 3}, {"depth": 4}), reach=("edit",), bounds="paths up to depth entries over two attributes and 4 values"),
    E("c10_blocks", params=({"n": 40}, {"n": 300}), reach=("blocks",), bounds="n paths, 6 block sizes, symbolic values"),
    E("c10_pool", params=({"n": 2, "delta": 3}, {"n": 3, "delta": 15}), reach=("pool",), bounds="n allocations with sizes 0-7, 64-71 and around one and two chunks, alignment 1 and 8"),
])])

PROPS["C24"] = dict(units=[dict(harness="C24.cpp", groups=["common"], entries=[
    E("c24_history", jobs=2, params=({"ops": 4}, {"ops": 6}), reach=("history",), bounds="all histories of ops insertions and removals, all addresses and sizes below 256 without overlap, any queried address"),
    E("c24_many", jobs=2, params=({"n": 4, "rm": 2}, {"n": 6, "rm": 3}), reach=("many",), bounds="n insertions in any order, rm removals, any queried address"),
    E("c24_remove_any", reach=("any",), bounds="3 allocations, removal of any address"),
])])

RT = ["common", "reader", "caliper", "services"]
PROPS["C09"] = dict(units=[dict(harness="C09.cpp", groups=RT, entries=[
    E("c09_ops", jobs=4, params=({"ops": 4}, {"ops": 5}), reach=("ops", "mismatch"), bounds="all sequences of ops begin/end/set operations on 3 attributes, 5 attribute sets of different kind, scope and visibility, symbolic values"),
    E("c09_nested", params=({"ops": 6}, {"ops": 9}), reach=("nested",), bounds="all well-nested sequences of ops operations, symbolic values"),
    E("c09_long", params=({"n": 14}, {"n": 18}), reach=("long",), bounds="3 patterns of n updates each on 5 attribute sets, symbolic values"),
    E("c09_end_value", reach=("match", "mismatch"), bounds="two regions begun and ended with symbolic values"),
    E("c09_api", params=({"depth": 2}, {"depth": 3}), reach=("api",), bounds="C regions, phases, by-name calls, loops, scopes, annotations and guards nested depth deep with symbolic names"),
    E("c09_events", params=({"ops": 3}, {"ops": 4}), reach=("events",), bounds="all sequences of ops operations with callbacks"),
    E("c09_globals", params=({"len": 2}, {"len": 4}), reach=("globals",), bounds="string globals up to len bytes, all numbers, set once or twice"),
    E("c09_snapshot", reach=("snapshot",), bounds="all sequences of 3 begins, pushed and pulled snapshot"),
])])

PROPS["C12"] = dict(units=[dict(harness="C12.cpp", groups=RT + ["src/services/aggregate/*.cpp"], entries=[
    E("c12_stream", jobs=3, params=({"snaps": 3}, {"snaps": 4}), reach=("stream",), bounds="all sequences of snaps snapshots with region and key changes in between, arbitrary 64-bit integer values, two metrics, keys that share hash slots"),
    E("c12_double", jobs=1, params=({"snaps": 3}, {"snaps": 4}), reach=("double",), bounds="snaps doubles below 1e100 in magnitude over 2 keys"),
    E("c12_keys", secs=(120, 400), jobs=1, params=({"snaps": 3}, {"snaps": 4}), reach=("keys",), bounds="snaps snapshots over two key attributes with 3 values each, declared before or after the channel"),
    E("c12_clear", params=({"steps": 4}, {"steps": 6}), reach=("clear",), bounds="all sequences of steps snapshots, flushes and clears"),
    E("c12_new_metric", reach=("new",), bounds="a metric created after 0-2 snapshots"),
    E("c12_full", params=({"n": 4100}, {"n": 4100}), reach=("full",), bounds="4100 different keys from a signal handler"),
])])

PROPS["C13"] = dict(units=[dict(harness="C13.cpp", groups=RT + ["src/services/trace/*.cpp"], entries=[
    E("c13_ops", jobs=2, params=({"steps": 3}, {"steps": 4}), reach=("ops",), bounds="all sequences of steps snapshots, region changes, flushes and clears, 3 policies, values of any magnitude"),
    E("c13_overflow", jobs=2, max_steps=3000000000, params=({"n": 1400}, {"n": 3500}), reach=("overflow",), bounds="n records of 119 entries in a 1 MiB buffer, 3 policies, symbolic values around the overflow"),
    E("c13_zero", reach=("zero",), bounds="a buffer of size 0, 3 policies"),
    E("c13_chunk", jobs=2, params=({"lo": 36, "sizes": 40}, {"lo": 0, "sizes": 200}), reach=("chunk",), bounds="3 records of 1-2 entries with arbitrary 64-bit values in chunks of lo to lo+sizes bytes"),
    E("c13_threads", reach=("threads",), bounds="records of the main thread and two threads that end, with or without a clear"),
])])

PROPS["C23"] = dict(units=[dict(harness="C23.cpp", groups=RT + ["src/services/event/*.cpp", "src/services/timer/*.cpp"], entries=[
    E("c23_ops", jobs=3, params=({"ops": 4}, {"ops": 6}), reach=("ops",), bounds="all well-nested sequences of ops begin/end/set events and snapshots on 4 kinds of attributes, symbolic values and clock"),
    E("c23_select", jobs=3, params=({"ops": 3}, {"ops": 5}), reach=("select",), bounds="6 selection options, all well-nested sequences of ops events with symbolic region names of 1-2 bytes, symbolic clock"),
    E("c23_threads", reach=("threads",), bounds="events on two threads, symbolic clock"),
    E("c23_overlap", params=({"attrs": 60}, {"attrs": 120}), reach=("overlap",), bounds="two overlapping regions of attributes that were created up to attrs apart, symbolic clock"),
    E("c23_channels", params=({"ops": 5}, {"ops": 7}), reach=("channels",), bounds="all sequences of ops events and activations on two channels, symbolic clock"),
])])

PROPS["C28"] = dict(units=[dict(harness="C28.cpp", groups=RT + ["src/services/trace/*.cpp"], entries=[
    E("c28_ops", jobs=6, params=({"ops": 3}, {"ops": 4}), reach=("ops",), bounds="all sequences of ops operations on the thread and on two channels (begin, end, set, activate, snapshot, flush, write, clear, delete), symbolic values"),
    E("c28_ids", jobs=2, reach=("ids",), bounds="1-3 channels, all sequences of 3 activations, deactivations and deletions"),
])])

PROPS["C14"] = dict(units=[dict(harness="C14.cpp", groups=["common", "reader"], entries=[
    E("c14_ops", jobs=3, params=({"recs": 2}, {"recs": 3}), reach=("ops",), bounds="recs records with any of 8 context paths, arbitrary 64-bit metric values, 8 groupings, 6 operators"),
    E("c14_inclusive", jobs=3, params=({"recs": 2}, {"recs": 3}), reach=("inclusive",), bounds="recs records with any of 8 context paths, arbitrary 64-bit metric values, 5 groupings, 3 inclusive operators"),
    E("c14_fp", jobs=3, params=({"recs": 2}, {"recs": 2}), reach=("fp",), bounds="recs records with any of 4 context paths, metric values 0-15, 2 groupings, 8 operators"),
    E("c14_fp_large", jobs=2, params=({"recs": 3}, {"recs": 4}), reach=("large",), bounds="recs records with values 0, 3, 5e9, 2^45, double-valued operators"),
    E("c14_key_order", jobs=2, params=({"recs": 3}, {"recs": 4}), reach=("order",), bounds="recs records with two immediate keys in 4 orders"),
    E("c14_doubles", params=({"recs": 3}, {"recs": 4}), reach=("doubles",), bounds="recs multiples of 1/8 below 2^28 in magnitude"),
    E("c14_split", jobs=3, params=({"recs": 2, "forms": 6}, {"recs": 3, "forms": 4}), reach=("split",), bounds="recs records, arbitrary 64-bit values, 4 groupings, every split into two parts, 9 operators"),
    E("c14_split_fp", jobs=3, params=({"recs": 2, "forms": 4}, {"recs": 3, "forms": 3}), reach=("split",), bounds="recs records, values 0-15, 2 groupings, every split into two parts, 7 operators"),
    E("c14_split_stat", jobs=2, reach=("split",), bounds="4 records with one of 4 exact values each"),
    E("c14_partial_counts", reach=("partial",), bounds="7 counts up to 2^40 in each part, a million sums"),
    E("c14_bad_args", reach=("bad",), bounds="5 queries with arguments that are not numbers"),
    E("c14_many", reach=("many",), bounds="8 keys in 4 hash slots, arbitrary value"),
])])

PROPS["C15"] = dict(units=[dict(harness="C15.cpp", groups=["common", "reader"], entries=[
    E("c15_cond", jobs=3, params=({"len": 2}, {"len": 3}), reach=("pass", "fail"), bounds="8 conditions, 10 values of 5 types, up to two values of the attribute at any place of a record, arbitrary 64-bit integers, doubles below 2^29 in steps of 1/4, strings up to len bytes"),
    E("c15_and", reach=("pass", "fail"), bounds="all pairs of 8 conditions, arbitrary 64-bit values"),
    E("c15_missing", reach=("missing",), bounds="8 conditions, attributes that are missing, appear later, or can't have the value"),
    E("c15_none", reach=("none",), bounds="no conditions"),
])])

PROPS["C16"] = dict(units=[dict(harness="C16.cpp", groups=["common", "reader"], entries=[
    E("c16_ratio", reach=("ratio",), bounds="numerators of 3 types, multiples of 1/2 from -8 to 15 or integers from -16 to 31, 5 denominators, with and without scaling factor and surrounding entries"),
    E("c16_scale", reach=("scale",), bounds="values of 3 types, multiples of 1/2 from -8 to 8 or integers from -16 to 31, 4 factors"),
    E("c16_truncate", reach=("truncate",), bounds="arbitrary 64-bit integers, 4 factors"),
    E("c16_truncate_fp", reach=("truncate",), bounds="8 values and 4 factors per type"),
    E("c16_first_sum", jobs=2, reach=("first_sum",), bounds="up to 3 operands of 3 types, existing or not, arbitrary 64-bit integers, multiples of 1/8 below 2^28"),
    E("c16_leaf", params=({"len": 1}, {"len": 2}), reach=("leaf",), bounds="paths of up to 3 nodes of 2 attributes, symbolic strings of up to len bytes"),
    E("c16_leaf_value", reach=("leafvalue",), bounds="records with immediate values, symbolic 64-bit values"),
    E("c16_if_chain", reach=("ifchain",), bounds="4 pairs of expressions with conditions on each other's results, symbolic value"),
    E("c16_if", params=({"recs": 2}, {"recs": 3}), reach=("if",), bounds="8 conditions, recs records, arbitrary 64-bit values"),
])])

PROPS["C17"] = dict(units=[dict(harness="C17.cpp", groups=["common", "reader"], entries=[
    E("c17_names", jobs=2, params=({"len": 2}, {"len": 3}), reach=("names",), bounds="16 queries with names of up to len arbitrary bytes, plain, quoted, escaped, and partly quoted"),
    E("c17_format_args", params=({"len": 2}, {"len": 3}), reach=("args",), bounds="5 formatter arguments with up to len arbitrary bytes"),
    E("c17_clauses", jobs=4, params=({"clauses": 3}, {"clauses": 4}), reach=("clauses",), bounds="all sequences of up to `clauses` of 15 clauses, 4 kinds of whitespace"),
    E("c17_star", reach=("star",), bounds="6 queries"),
    E("c17_malformed", params=({"len": 2}, {"len": 2}), reach=("malformed",), bounds="77 malformed clauses on their own and after other clauses, unknown names of up to len bytes"),
    E("c17_bytes", jobs=3, params=({"len": 4}, {"len": 6}), reach=("error", "ok"), bounds="all texts of up to len bytes at 17 places of a query"),
])])

PROPS["C18"] = dict(units=[dict(harness="C18.cpp", groups=["common", "reader"], entries=[
    E("c18_text", jobs=2, params=({"len": 1}, {"len": 2}), reach=("text",), bounds="names, aliases, values and path values of up to len bytes (without control characters), 4 layouts"),
    E("c18_values", reach=("values",), bounds="values of every type, 4 layouts, quoted or not"),
    E("c18_records", jobs=3, params=({"recs": 2}, {"recs": 3}), reach=("records",), bounds="up to recs records of 10 forms, 9 selections, all layouts and options"),
    E("c18_globals", jobs=2, params=({"len": 1}, {"len": 2}), reach=("globals",), bounds="names and values of globals and metadata of up to len bytes (without control characters)"),
])])

PROPS["C19"] = dict(units=[dict(harness="C19.cpp", groups=["common", "reader"], entries=[
    E("c19_table", jobs=2, params=({"recs": 2}, {"recs": 3}), reach=("table",), bounds="up to recs records of 16 forms, numbers from 8 to 11, 5 selections"),
    E("c19_table_sort", jobs=2, params=({"recs": 3}, {"recs": 4}), reach=("sorted",), bounds="recs records with numbers from -5 to 10 and 3 strings, 6 sort orders"),
    E("c19_table_text", params=({"len": 2}, {"len": 4}), reach=("text",), bounds="values and titles of up to len bytes without whitespace"),
    E("c19_tree", jobs=2, params=({"recs": 2}, {"recs": 3}), reach=("tree",), bounds="recs records with any of 5 paths, numbers from -1 to 6, 3 sort orders"),
    E("c19_tree_sort", jobs=3, params=({"recs": 3}, {"recs": 4}), reach=("tree",), bounds="recs records with any of 3 paths and numbers from -1 to 2, ascending and descending"),
    E("c19_wide", reach=("wide",), bounds="values of 30 to 250 characters (around the padding blocks of 80) in a table or tree"),
    E("c19_tree_width", params=({"depth": 30}, {"depth": 60}), reach=("width",), bounds="paths up to depth deep, 3 column widths"),
    E("c19_expand", reach=("expand",), bounds="records of 24 forms, 4 selections"),
    E("c19_format", params=({"len": 2}, {"len": 3}), reach=("format",), bounds="format strings with up to len arbitrary bytes"),
])])

PROPS["C20"] = dict(units=[dict(harness="C20.cpp", groups=RT + ["src/services/event/*.cpp", "src/services/timer/*.cpp", "src/services/aggregate/*.cpp"], entries=[
    E("c20_profiles", jobs=2, params=({"recs": 2}, {"recs": 3}), reach=("profiles",), bounds="up to recs records of 16 forms, symbolic measurements below 256, 4 profiles, 6 region types"),
    E("c20_runtime", jobs=2, params=({"steps": 4}, {"steps": 6}), reach=("runtime",), bounds="all sequences of steps region events, recursion included"),
])])

PROPS["C21"] = dict(units=[dict(harness="C21.cpp", groups=RT + ["src/services/event/*.cpp"], entries=[
    E("c21_match", jobs=2, params=({"len": 3}, {"len": 4}), reach=("match",), bounds="names of up to len bytes, regions of up to len+1 bytes, 5 filters, 4 ways to write a name"),
    E("c21_combine", params=({"len": 3}, {"len": 4}), reach=("combine",), bounds="8 include lists x 8 exclude lists, regions of up to len bytes"),
    E("c21_malformed", reach=("malformed",), bounds="15 malformed filters, with any one-byte filter on the other side"),
    E("c21_bytes", params=({"len": 4}, {"len": 5}), reach=("bytes",), bounds="all texts of up to len bytes after 6 prefixes"),
    E("c21_regex", params=({"len": 4}, {"len": 5}), reach=("regex",), bounds="9 expressions, regions of up to len bytes"),
    E("c21_events", jobs=2, params=({"steps": 4}, {"steps": 6}), reach=("events",), bounds="all sequences of steps events, any one-byte name in 4 filters"),
])])
PROPS["C22"] = dict(units=[dict(harness="C22.cpp", groups=RT, entries=[
    E("c22_list", params=({"len": 2}, {"len": 3}), reach=("list",), bounds="lists of up to 2 items of up to len arbitrary bytes, 4 ways to write them"),
    E("c22_nested", jobs=2, params=({"len": 2}, {"len": 3}), reach=("nested",), bounds="lists and dicts of up to 2 values of up to len arbitrary bytes, nested values, cut or not"),
    E("c22_numbers", params=({"len": 3}, {"len": 5}), reach=("numbers",), bounds="all texts of up to len bytes as int, int64, uint, id, bool"),
    E("c22_bool", reach=("bool",), bounds="6 words with any byte changed"),
    E("c22_limits", reach=("limits",), bounds="10 numbers at the limits of the integer types"),
    E("c22_values", jobs=2, params=({"len": 2}, {"len": 3}), reach=("values",), bounds="values of up to len arbitrary bytes written in 5 ways at 4 places"),
    E("c22_options", jobs=2, params=({"len": 1}, {"len": 2}), reach=("options",), bounds="all combinations of 4 options, duplicates and metadata, values of up to len arbitrary bytes"),
    E("c22_precedence", reach=("precedence",), bounds="all combinations of 4 sources of an option's value"),
    E("c22_profiles", params=({"n": 3}, {"n": 4}), reach=("profiles",), bounds="lists of up to n of 8 profiles and options"),
    E("c22_unknown", params=({"len": 2}, {"len": 3}), reach=("unknown",), bounds="any unknown name of up to len bytes at 5 places"),
    E("c22_malformed", reach=("malformed",), bounds="42 malformed texts on their own and after a profile"),
    E("c22_bytes", jobs=2, params=({"len": 3}, {"len": 4}), reach=("ok", "error"), bounds="all texts of up to len bytes at 8 places"),
    E("c22_effects", jobs=2, reach=("effects",), bounds="profiles with and without services, 5x3 states of 2 options, 5 values of an int or double option, repeated options"),
    E("c22_metadata", params=({"len": 2}, {"len": 3}), reach=("metadata",), bounds="a file with nested entries, one value of up to len arbitrary bytes, 7 selections, missing or malformed files"),
    E("c22_cycle", reach=("cycle",), bounds="3 options that inherit any of the 3 options"),
    E("c22_spec", reach=("spec",), bounds="symbolic names and texts, 9 forms of specification"),
    E("c22_sources", reach=("sources",), bounds="all combinations of 6 sources of an entry's value"),
    E("c22_files", params=({"lines": 2}, {"lines": 3}), reach=("files",), bounds="two files with lines and 2 lines of 5 forms, with and without selected profiles"),
    E("c22_file_values", params=({"len": 2}, {"len": 3}), reach=("file_values",), bounds="values of up to len arbitrary bytes written in 4 ways"),
])])

PROPS["C27"] = dict(units=[dict(harness="C27.cpp", groups=RT + ["src/services/event/*.cpp", "src/services/timer/*.cpp", "src/services/aggregate/*.cpp", "src/services/trace/*.cpp"], entries=[
    E("c27_c_after", jobs=2, reach=("c",), bounds="each of 63 calls of the C interface after the end of a runtime in 10 states, symbolic ids and values"),
    E("c27_cpp_after", jobs=2, reach=("cpp",), bounds="each of 36 calls of the C++ interface after the end of a runtime in 10 states, kept or empty handles"),
    E("c27_objects", jobs=2, reach=("object",), bounds="15 kinds of annotation, channel and controller objects; the runtime ends, once or twice, at any point of their life"),
    E("c27_before", reach=("before",), bounds="each of 8 calls before initialization, symbolic ids"),
    E("c27_ids", jobs=2, params=({"ids": 60}, {"ids": 300}), reach=("ids",), bounds="each of 30 calls with all ids that are not in use"),
    E("c27_new_attribute", reach=("valid", "invalid"), bounds="all 32-bit types and property words"),
    E("c27_null", jobs=2, reach=("null",), bounds="each of 20 calls with an empty channel handle, an empty attribute, or both"),
    E("c27_callback", params=({"ops": 2}, {"ops": 3}), reach=("callback",), bounds="4 signal-safe calls in 10 callbacks, ops operations"),
])])

PROPS["C07"] = dict(units=[dict(harness="C07.cpp", groups=["common", "reader"], entries=[
    E("c07_paths", jobs=3, params=({"len": 1, "depth": 2, "depth2": 1, "attrs": 2}, {"len": 2, "depth": 2, "depth2": 2, "attrs": 3}), reach=("equal", "different"), bounds="two paths of up to depth entries of attrs attributes, symbolic 64-bit numbers and strings up to len bytes"),
    E("c07_lists", params=({"depth": 2}, {"depth": 3}), reach=("lists",), bounds="two paths of up to depth entries, with or without a parent, given as values or nodes"),
    E("c07_strings", params=({"n": 3, "len": 2}, {"n": 4, "len": 2}), reach=("strings",), bounds="n strings of up to len bytes"),
    E("c07_attributes", jobs=2, params=({"len": 1, "props": 1}, {"len": 2, "props": 4}), reach=("same name", "different name"), bounds="two attributes with names of up to len arbitrary bytes, all types, 4 property sets, with or without metadata, unit, alias"),
    E("c07_ids", reach=("found", "not found"), bounds="all 64-bit ids"),
    E("c07_import", jobs=2, params=({"len": 1}, {"len": 3}), reach=("import",), bounds="records of up to 4 entries, strings and blobs of up to len bytes, 3 kinds of content in the destination; source store destroyed"),
    E("c07_globals", jobs=2, params=({"sets": 2}, {"sets": 3}), reach=("globals",), bounds="sets set operations over 5 attributes, then import"),
    E("c07_streams", jobs=2, params=({"nodes": 3}, {"nodes": 4}), reach=("streams",), bounds="nodes nodes of two streams with ids 20-22 in any order and nesting"),
])])
PROPS["C11"] = dict(units=[dict(harness="C11.cpp", groups=RT + ["src/services/event/*.cpp", "src/services/timer/*.cpp", "src/services/aggregate/*.cpp", "src/services/trace/*.cpp", "src/services/statistics/*.cpp"], entries=[
    E("c11_init", jobs=3, preempt=(1, 2), threads=True, reach=("init",), bounds="two threads that start the runtime, 1 (2) preemptions"),
    E("c11_attributes", jobs=2, preempt=(1, 2), threads=True, reach=("same name", "different names"), bounds="two threads that create attributes of the same or different names and types, 64-bit metadata values"),
    E("c11_tree", jobs=2, preempt=(1, 2), threads=True, reach=("tree",), bounds="two threads that append paths of 2 nodes with symbolic 64-bit numbers and strings of 1-2 bytes at the same place"),
    E("c11_blocks", preempt=(1, 2), threads=True, reach=("blocks",), bounds="two threads that append 2 paths of 8 nodes"),
    E("c11_process", jobs=2, preempt=(1, 2), threads=True, reach=("process",), bounds="two threads that begin, end or set a process-scope value of 2 kinds"),
    E("c11_channel", jobs=2, preempt=(1, 2), threads=True, reach=("channel",), bounds="two threads that begin, end or set a channel value of 2 kinds"),
    E("c11_measure", jobs=2, preempt=(1, 2), threads=True, reach=("measure",), bounds="two threads with one region each, trace or aggregate"),
    E("c11_services", jobs=4, preempt=(1, 2), threads=True, reach=("services",), bounds="a thread that creates an attribute while another one measures or creates one too, 4 sets of services"),
    E("c11_db", jobs=2, preempt=(1, 2), threads=True, reach=("db",), bounds="two threads that create attributes and paths of a metadata store"),
])])

PROPS["C25"] = dict(units=[dict(harness="C25.cpp", groups=["common", "reader", "src/caliper/aggregate_over_mpi.cpp"], entries=[
    E("c25_ranks", jobs=4, params=({"size": 3, "recs": 2, "forms": 2, "types": 1}, {"size": 6, "recs": 2, "forms": 3, "types": 2}), reach=("ranks",), bounds="1 to size processes, recs records with any of `forms` context paths and arbitrary 64-bit values, distributed in any way; processes without records know the attributes or not"),
    E("c25_ops", jobs=4, params=({"forms": 3, "groups": 3, "wide": 0}, {"forms": 4, "groups": 5, "wide": 1}), reach=("ops",), bounds="2 processes, 2 records with any of `forms` context paths, `groups` groupings, 9 operators, any value 0-15 (thorough: any 64-bit value)"),
    E("c25_fp", jobs=4, params=({"forms": 2, "vals": 3}, {"forms": 4, "vals": 8}), reach=("fp",), bounds="2 processes, 2 records, one of vals values in one of them, 2 groupings, 7 operators"),
    E("c25_stat", reach=("stat",), bounds="2-3 processes, 3 records of real numbers in any distribution: sum, min, max, avg, variance"),
    E("c25_many", params=({"lo": 4, "n": 5}, {"lo": 4, "n": 14, "all": 1}), reach=("many",), bounds="lo to lo+n-1 processes with one record each, an arbitrary value on one of them (thorough: on any of them)"),
    E("c25_wide", jobs=2, max_steps=200000000, reach=("wide",), bounds="records with 1 to 127 metrics of small or 62-bit values and 1 to 100 keys, on one or both of two processes"),
    E("c25_text", params=({"len": 2}, {"len": 4}), reach=("text",), bounds="2-3 processes, a text of up to len bytes on any of them"),
]), dict(harness="C25F.cpp", groups=RT + ["src/services/trace/*.cpp", "src/caliper/aggregate_over_mpi.cpp", "src/caliper/collective_flush.cpp", "src/caliper/OutputCommMpi.cpp", "src/caliper/CollectiveOutputChannel.cpp"], entries=[
    E("c25_flush", secs=(120, 600), jobs=8, params=({"size": 2, "recs": 2}, {"size": 3, "recs": 3}), reach=("flush",), bounds="1 to size processes, recs records in any distribution (up to renaming) with 2 keys and 2 values, local and cross-process queries with LET, WHERE and GROUP BY; collective_flush and collective output channels, with and without MPI"),
    E("c25_comm", params=({"size": 3, "len": 1}, {"size": 3, "len": 3}), reach=("comm",), bounds="1 to size processes, all 32-bit numbers, texts of up to len bytes; MPI running, not initialized, finalized"),
])])

PROPS["C29"] = dict(units=[dict(harness="C29.cpp", groups=RT + ["src/services/monitor/LoopMonitor.cpp", "src/services/monitor/RegionMonitor.cpp", "src/services/monitor/Timeseries.cpp", "src/services/aggregate/*.cpp", "src/services/event/*.cpp", "src/services/LoopStatistics.cpp", "src/services/timer/*.cpp"], entries=[
    E("c29_loop", jobs=2, params=({"ops": 4}, {"ops": 6}), reach=("loop",), bounds="all nested sequences of ops begin and end operations on 3 loops, 2 iteration attributes and a region, 3 intervals, 4 target lists, any iteration number below 2^31"),
    E("c29_iterations", jobs=2, params=({"n": 3}, {"n": 5}), reach=("iterations",), bounds="loops of up to n iterations with any first number and an inner loop, 4 intervals, with and without a time interval and 5 iteration times"),
    E("c29_target", params=({"len": 2}, {"len": 4}), reach=("target",), bounds="loop names of up to len+1 arbitrary bytes, target names of up to len letters"),
    E("c29_late", reach=("late",), bounds="3 services started while up to 3 regions, loops or iterations are open"),
    E("c29_stats", params=({"ops": 6}, {"ops": 8}), reach=("stats",), bounds="all nested sequences of ops begin and end operations of loops and iterations, symbolic clock"),
    E("c29_timeseries", jobs=2, params=({"ops": 3}, {"ops": 5}), reach=("timeseries",), bounds="all nested sequences of ops begin, end and snapshot operations on two regions, symbolic clock"),
    E("c29_children", params=({"children": 2}, {"children": 4}), reach=("children",), bounds="a region with up to `children` subregions of 4 durations"),
    E("c29_region", jobs=2, params=({"ops": 6}, {"ops": 8}), reach=("region",), bounds="all nested sequences of ops begin and end operations of two regions, 3 durations"),
])])

PROPS["C32"] = dict(units=[dict(harness="C32.cpp", groups=RT + ["mpiwrap|CALIPER_MPIWRAP_USE_GOTCHA"], entries=[
    E("c32_p2p", secs=(150, 600), jobs=4, params=({"ops": 2}, {"ops": 2}), reach=("trace", "pattern"), bounds="3 processes, 2 communicators, `ops` operations out of 4 blocking and 4 nonblocking sends, receives (fixed or wildcard source and tag, status or none), MPI_Sendrecv(_replace), MPI_Probe; counts up to 65536, 3 data types; tracing or pattern statistics"),
    E("c32_request", secs=(150, 600), jobs=4, params=({"requests": 2, "calls": 1}, {"requests": 2, "calls": 2}), reach=("requests",), bounds="every combination of `requests` requests (none, MPI_Isend, MPI_Irecv, persistent send or receive, started or not), `calls` completion calls (MPI_Wait/Test, -all, -any, -some, MPI_Request_free) with every possible outcome, with and without statuses"),
    E("c32_restart", secs=(150, 600), jobs=4, params=({"calls": 2}, {"calls": 3}), reach=("requests",), bounds="one request of every kind; `calls` completion calls, restarted or not in between"),
    E("c32_coll", secs=(150, 600), jobs=8, params=({"ops": 1}, {"ops": 2}), reach=("collective",), bounds="15 collectives on 3 communicators, every rank and root, in-place buffers and missing insignificant arguments, followed by ops-1 further collectives"),
    E("c32_filter", secs=(150, 600), jobs=4, reach=("filter",), bounds="two channels with 8 function filters each, one inactive or deleted, created before or after MPI_Init; 3 MPI functions"),
])])
PROPS["C33"] = dict(units=[dict(harness="C33.cpp", groups=RT + ["src/services/ompt/*.cpp"], entries=[
    E("c33_thread", secs=(150, 600), jobs=8, params=({"ops": 3, "start": 3}, {"ops": 4, "start": 4}), reach=("thread",), bounds="all nested histories of `ops` begin and end callbacks of parallel regions, implicit tasks, worksharing, synchronization and user regions in a thread of 4 types; the service starts at any of the first `start` points, with or without CALI_USE_OMPT"),
    E("c33_kinds", reach=("kinds",), bounds="worksharing and synchronization kinds -2 to 15, 1-3 threads, the initial task; two channels deleted in either order"),
    E("c33_activation", reach=("activation",), bounds="6 values of CALI_USE_OMPT, with and without a channel that uses the service"),
    E("c33_threads", secs=(60, 900), jobs=8, threads=True, preempt=(1, 2), reach=("threads",), bounds="two OpenMP threads, each with or without a loop, 1 (2) preemptions"),
])])

PROPS["C34"] = dict(units=[dict(harness="C34.cpp", groups=RT + ["src/services/kokkos/*.cpp", "src/services/sysalloc/*.cpp", "src/services/pthread/*.cpp", "src/services/io/*.cpp"], entries=[
    E("c34_kokkos", secs=(150, 600), jobs=4, params=({"ops": 4}, {"ops": 5}), reach=("kokkos",), bounds="all histories of ops begins and ends of 4 kinds of kernels, Kokkos regions and program regions with 2 names, creation and deletion of 2 channels that use the service at any point"),
    E("c34_kokkos_memory", secs=(60, 600), jobs=4, params=({"ops": 4}, {"ops": 5}), reach=("kokkos memory",), bounds="all histories of ops allocations and releases (any address and size), copies and activations, deactivations and deletions of 2 channels"),
    E("c34_heap", secs=(60, 600), jobs=4, params=({"ops": 3}, {"ops": 4}), reach=("heap",), bounds="all histories of ops calls of malloc, calloc (elements up to 4 bytes), realloc and free with any address and size, failing or not (except realloc), and creation, (de)activation and deletion of 2 channels"),
    E("c34_heap_reentry", reach=("reentry",), bounds="one allocation and one region, each with an allocation in a callback of the runtime"),
    E("c34_thread", threads=True, preempt=(1, 2), reach=("thread",), bounds="one or two channels, one thread, before or after the end of the runtime, creation succeeds or fails"),
    E("c34_io", jobs=2, params=({"ops": 2}, {"ops": 4}), reach=("io",), bounds="all histories of ops read, write and metadata calls, with known or unknown file system; one or two channels, the second one activated or deactivated at any point"),
])])

PROPS["C30"] = dict(units=[dict(harness="C30.cpp", groups=RT + ["src/services/alloc/*.cpp"], entries=[
    E("c30_alloc", jobs=3, params=({"ops": 4}, {"ops": 5}), reach=("alloc",), bounds="all histories of ops allocations (the first one with up to 4 dimensions), releases and snapshots on 2 addresses, sizes up to 2^40, with and without allocation records"),
    E("c30_extra", jobs=2, reach=("extra",), bounds="two allocations, one with up to 3 extra attributes; snapshots with any subset of 3 address attributes declared before or after the channel"),
    E("c30_resolve", jobs=2, reach=("inside", "outside"), bounds="3 allocations of 3 element sizes and 3 lengths, one released or not, any address below 64 KiB, attribute declared before or after the channel"),
    E("c30_stats", jobs=3, params=({"ops": 4}, {"ops": 6}), reach=("stats",), bounds="all histories of ops regions, allocations, releases, flushes and clears on 2 addresses, sizes up to 2^40"),
])])
C31_MACROS = "CALIPER_HAVE_GOTCHA,CALIPER_HAVE_MPI,CALIPER_HAVE_OMPT,CALIPER_HAVE_CUPTI,CALIPER_HAVE_ROCPROFILER,CALIPER_HAVE_LIBDW,CALIPER_HAVE_PCP,CALIPER_HAVE_UMPIRE,CALIPER_HAVE_KOKKOS,CALIPER_HAVE_PAPI"
PROPS["C31"] = dict(units=[dict(harness="C31.cpp", groups=RT + ["src/caliper/controllers/*.cpp", "src/caliper/ConfigManager.cpp|" + C31_MACROS, "src/services/timer/*.cpp", "src/services/aggregate/*.cpp", "src/services/event/*.cpp", "src/services/trace/*.cpp", "src/services/report/*.cpp", "src/services/recorder/*.cpp", "src/services/monitor/LoopMonitor.cpp", "src/services/LoopStatistics.cpp"], entries=[
    E("c31_loop", secs=(150, 600), jobs=8, max_steps=900000000, params=({"iterations": 3}, {"iterations": 6}), reach=("loop",), bounds="one process; iteration intervals 1–2, timeseries.maxrows unset/0/1/2, 2 loops each present or not, up to `iterations` iterations, with and without target_loops"),
    E("c31_loop_names", jobs=4, max_steps=900000000, params=({"iterations": 1}, {"iterations": 4}), reach=("loop",), bounds="6 loop names with quotes, commas, blanks, backslashes, parentheses"),
    E("c31_loop_procs", secs=(150, 600), jobs=8, max_steps=900000000, params=({"iterations": 2, "all": 0}, {"iterations": 3, "all": 1}), reach=("loop",), bounds="two processes that meet in collective operations; iteration intervals 1–2, 2 loops each present or not on each, different iteration counts"),
    E("c31_runtime", jobs=8, max_steps=900000000, params=({"steps": 3}, {"steps": 5}), reach=("runtime",), bounds="every region tree built in `steps` begin/end steps under one root (2 names, depth 3), order_by_time on/off, serial report"),
    E("c31_profile", jobs=8, max_steps=900000000, params=({"steps": 3}, {"steps": 4}), reach=("profile",), bounds="the same region trees, 4 output formats, read back"),
    E("c31_spot", secs=(200, 900), jobs=8, max_steps=900000000, params=({"steps": 2}, {"steps": 4, "iterations": 11}), reach=("spot",), bounds="one process; the region trees or a loop of up to 43 iterations with time series in intervals of 1 to 3 and up to 3 rows (or all, or the default); .cali output read back"),
    E("c31_spot_procs", secs=(150, 600), jobs=8, max_steps=900000000, params=({"steps": 1}, {"steps": 3}), reach=("spot",), bounds="two processes with different region trees or loops; .cali output of the first process read back"),
    E("c31_columns", secs=(150, 600), jobs=8, max_steps=900000000, params=({"patterns": 1}, {"patterns": 3}), reach=("columns",), bounds="37 options of the built-in configurations × serial / MPI / MPI configuration in one process; `patterns` sets of measured values"),
])])

