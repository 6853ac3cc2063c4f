#!/usr/bin/env python3
"""The property list: writes properties.jsonl, MANIFEST.json (run after changing specs.py or this file)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, na=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {}), **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})), na=na))


prop("C01", "Binary record encodings decode to what was encoded",
     "Encoding values, entries, context-tree nodes and snapshot records into the packed binary buffers and decoding them returns the same ids, types, values and order. Encoders never write beyond the capacity they were given and report the entries they skipped. Decoders of values never read outside of the buffer they were given.",
     ["inputs"], "all 64-bit ids and payloads, all value types, all buffer capacities, record sizes up to the bounds given in DESIGN.md",
     "the unit tests encode a handful of constants; size computations depend on the magnitude of every id and value",
     ["src/common/CompressedSnapshotRecord.cpp", "src/common/SnapshotBuffer.cpp", "src/common/NodeBuffer.cpp", "src/common/Variant.cpp", "src/common/cali_variant.c", "src/common/util/vlenc.c"],
     [("variable-length integer encoding", "src/common/util/vlenc.c"), ("compressed snapshot record", "src/common/CompressedSnapshotRecord.cpp"), ("node buffer", "src/common/NodeBuffer.cpp")])
prop("C02", "Values survive conversion to text and back",
     "Writing a value as text and parsing that text with the value's type gives an equal value, escaping a string for a .cali stream loses nothing, and attribute property sets survive their text form. Parsers of numbers and type names accept every well-formed text, reject the rest without touching memory outside the text, and conversions between numeric types keep the value whenever the target type can represent it.",
     ["inputs"], "all values of every type (integers in windows around digit-count and range limits), all NUL-free texts up to the stated length",
     "tests use a few literals; digit counts, sign, escapes and range limits are combinatorial",
     ["src/common/Variant.cpp", "src/common/cali_variant.c", "src/common/util/format_util.h", "src/common/util/format_util.cpp", "src/common/util/parse_util.cpp", "src/common/StringConverter.cpp", "src/common/cali_types.c"],
     [("text output of values", "src/common/util/format_util.cpp"), ("text input of values", "src/common/Variant.cpp"), ("property strings", "src/common/cali_types.c")])
prop("C03", "Comparing values is a consistent total order",
     "For any values, equality is reflexive, symmetric and transitive, at most one of a<b, a==b, b<a holds, and exactly one holds for values of the same numeric or text type. The order of integers, doubles and text is the mathematical (lexicographic) one, so that grouping, sorting, minima and maxima are well defined.",
     ["inputs"], "all pairs of 64-bit payloads per type, strings up to the stated length, all pairs of different types",
     "tests compare small positive numbers; truncation and sign bugs only show for large or mixed values",
     ["src/common/cali_variant.c", "include/caliper/common/cali_variant.h", "include/caliper/common/Variant.h"],
     [("comparison", "src/common/cali_variant.c cali_variant_compare, cali_variant_eq")])
prop("C05", "Reading a written .cali stream returns the same records",
     "For every set of attributes, context paths, immediate values and globals, writing the records to a .cali stream and reading that stream yields the same sequence of records: same attribute names, types, properties and meta-data, same paths in the same order, same values. Each context-tree node is written once and before its first use, and reading several streams into one store keeps each stream's records unchanged.",
     ["inputs", "histories"], "all text values and names up to the stated length over bytes >= 0x20 and newline, number windows, property sets, record histories of 3",
     "tests write one fixed program's data; special characters, empty values, and id clashes between streams are not sampled",
     ["src/reader/CaliWriter.cpp", "src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp", "src/common/util/format_util.h"],
     [("writer", "src/reader/CaliWriter.cpp"), ("reader", "src/reader/CaliReader.cpp"), ("id mapping", "src/reader/CaliperMetadataDB.cpp merge_node")])
prop("C06", "Damaged .cali input is rejected without misbehaviour",
     "Whatever bytes a .cali stream contains - truncated lines, unknown fields, ids that are dangling, duplicated, built-in or of the wrong kind, unparsable values - reading it and processing the records it yields does not access invalid memory, recurse forever or throw. Every entry of every record handed to a consumer refers to an existing attribute and to a finite path of existing nodes.",
     ["inputs"], "all byte strings up to the stated length at every field position; all ids 0-19 in every field; truncation, replacement and removal of every byte of a record",
     "tests read one or two damaged files",
     ["src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp", "src/reader/Aggregator.cpp", "src/reader/Expand.cpp", "src/reader/JsonFormatter.cpp"],
     [("record parser", "src/reader/CaliReader.cpp"), ("node merge", "src/reader/CaliperMetadataDB.cpp")])
prop("C07", "The metadata store gives equal paths equal nodes and keeps imports exact",
     "In a metadata store, two context paths get the same node exactly if they have the same attributes and values from the root down, an attribute name identifies one attribute whose type, properties and meta-data are those of its creation, and looking up an id returns that node. Importing records or globals from another store yields records with the same content, and the store keeps its own copy of all values: its content does not change when the caller's buffers or the store it imported from go away.",
     ["inputs", "histories"], "all paths of bounded depth over symbolic values, all orders of insertion of bounded length",
     "tests build one tree; identity of nodes depends on values comparing equal and on insertion order",
     ["src/reader/CaliperMetadataDB.cpp", "include/caliper/common/Node.h", "include/caliper/common/lockfree-tree.hpp"],
     [("tree entry lookup", "src/reader/CaliperMetadataDB.cpp make_tree_entry"), ("import", "src/reader/CaliperMetadataDB.cpp merge_snapshot, import_globals")])
prop("C08", "The blackboard behaves like a map and snapshots show its visible entries",
     "After any sequence of set, exchange and delete operations, looking up a key returns the value last stored under it or nothing, and a snapshot contains each stored entry that was marked for snapshots exactly once and nothing else. Keys that collide never lose or mix up each other's values, and a full table rejects new keys without damaging old ones.",
     ["inputs", "histories"], "all operation sequences of bounded length over symbolic keys, including colliding keys and wrap-around at the end of the table",
     "the unit test uses a few ids; deletion of entries in a chain of colliding keys is order dependent",
     ["src/caliper/Blackboard.cpp", "src/caliper/Blackboard.h"],
     [("hash table with backward-shift deletion", "src/caliper/Blackboard.cpp del")])
prop("C09", "Annotations nest and unwind like a stack",
     "For any sequence of begin, set and end operations on a thread, the current region path is the stack of begun and not yet ended regions, the value reported for an attribute is its innermost open value (the value last set for attributes stored as values), and a snapshot contains exactly the open regions in order of nesting together with the immediate values. Mismatched end operations do not corrupt the other open regions.",
     ["histories", "inputs"], "all operation sequences of bounded length over nested, value and autocombined attributes",
     "tests run fixed, mostly well-nested sequences",
     ["src/caliper/Caliper.cpp", "src/caliper/cali.cpp", "src/caliper/Annotation.cpp", "src/caliper/AnnotationBinding.cpp"],
     [("begin/end/set", "src/caliper/Caliper.cpp"), ("blackboard keys", "src/caliper/Caliper.cpp get_blackboard_key")])
prop("C10", "Equal runtime context paths share one node and are never corrupted",
     "In the runtime context tree, building a path twice gives the same node, different paths give different nodes, removing or replacing an entry gives the path without or with that entry, and strings given by the user are copied so that later changes to them have no effect. Node allocation stays inside the memory pool for every sequence of sizes.",
     ["inputs", "histories"], "all paths of bounded depth over symbolic values, all sequences of pool allocations of bounded length and symbolic size",
     "tests build a few paths far below the block size limits",
     ["src/caliper/MetadataTree.cpp", "src/caliper/MemoryPool.cpp", "include/caliper/common/lockfree-tree.hpp"],
     [("path construction", "src/caliper/MetadataTree.cpp"), ("pool", "src/caliper/MemoryPool.cpp")])
prop("C11", "Concurrent use of the shared runtime structures is race free",
     "Threads that create attributes, append to the context tree or take their first measurement at the same time never lose a node, see each other's nodes completely initialised, agree on one attribute per name and on one runtime initialisation. No schedule of such operations has a data race or a deadlock.",
     ["schedules"], "all interleavings of two to three threads with a bounded number of preemptions at atomic and lock operations",
     "the tests with threads run one schedule per execution and have no race oracle",
     ["src/caliper/Caliper.cpp", "src/caliper/MetadataTree.cpp", "include/caliper/common/lockfree-tree.hpp", "src/caliper/MemoryPool.cpp", "src/reader/CaliperMetadataDB.cpp", "src/reader/CaliWriter.cpp"],
     [("lock-free append", "include/caliper/common/lockfree-tree.hpp"), ("attribute creation", "src/caliper/Caliper.cpp create_attribute")])
prop("C12", "Runtime aggregation adds up exactly what was measured",
     "For every stream of snapshots, on-line aggregation produces one record per distinct combination of key attributes, whose count is the number of matching snapshots and whose sum, minimum, maximum and average are those of the matching values. Totals do not depend on the order of the snapshots, and clearing the database starts over from zero.",
     ["inputs", "histories"], "all snapshot streams of bounded length with symbolic values over 2-3 keys, with clear operations in between",
     "tests aggregate a few hundred identical events; hash collisions and reuse after clear are not reached",
     ["src/services/aggregate/AggregationDB.cpp", "src/services/aggregate/Aggregate.cpp"],
     [("hash map of keys", "src/services/aggregate/AggregationDB.cpp"), ("kernels", "src/services/aggregate/AggregationDB.cpp AggregateKernel")])
prop("C13", "The trace buffer returns every snapshot in order",
     "Every snapshot recorded in a trace is returned exactly once, unchanged and in recording order when the trace is flushed, for every policy that keeps data. When a size limited trace is full, later snapshots are dropped whole and earlier ones stay intact.",
     ["inputs", "histories"], "all sequences of records of bounded length with symbolic ids and values, all buffer sizes in the stated range",
     "tests trace far less than one buffer",
     ["src/services/trace/TraceBufferChunk.cpp", "src/services/trace/Trace.cpp"],
     [("chunk list", "src/services/trace/TraceBufferChunk.cpp")])
prop("C14", "Query aggregation equals its definition and can be split",
     "For every set of records, each aggregation operator (count, sum, min, max, avg, variance, any, scale, ratio, percent of total, inclusive and scaled variants) gives one result per group that equals the operator's definition over the records of that group. Aggregating parts separately and combining the partial results gives the same as aggregating everything at once.",
     ["inputs", "histories"], "all record sets of bounded size with symbolic values and group keys, all splits into two parts",
     "tests check two or three operators on one fixed input; the combination of partial results is only reached with MPI",
     ["src/reader/Aggregator.cpp", "src/common/cali_variant.c", "include/caliper/common/Variant.h"],
     [("kernels", "src/reader/Aggregator.cpp"), ("grouping", "src/reader/Aggregator.cpp AggregatorImpl")])
prop("C15", "A WHERE filter keeps exactly the matching records",
     "For every record and every filter condition (existence, equality, less, greater, their negations and conjunctions), the record passes exactly if one of the record's values of the attribute satisfies the condition; negated existence and equality hold if none does, a negated ordering is the opposite ordering, and no ordering holds for a value that is not valid for the attribute's type. Values reached through context paths and immediate values are treated alike.",
     ["inputs"], "all records of bounded size with symbolic values of every type, all condition kinds",
     "tests filter two or three records",
     ["src/reader/RecordSelector.cpp"],
     [("clauses", "src/reader/RecordSelector.cpp")])
prop("C16", "LET expressions compute their definition and leave the rest alone",
     "For every record, each LET operator (ratio, scale, truncate, first, sum, leaf) adds an attribute whose value is the operator's definition applied to the record's values, adds nothing when its operands are missing or its IF condition is not met, and leaves all other entries unchanged.",
     ["inputs"], "all records of bounded size with symbolic values",
     "tests use small positive values",
     ["src/reader/Preprocessor.cpp"],
     [("kernels", "src/reader/Preprocessor.cpp")])
prop("C17", "Query text is parsed completely or rejected with an error",
     "A well-formed query yields a specification that contains every clause, name, argument, alias, condition and option that was written, with quoting and escapes resolved; unknown clauses, functions and options, missing terms and parentheses, wrong numbers of arguments and leftover text yield an error, and no text leads to a crash or an exception.",
     ["inputs"], "queries with names and arguments of arbitrary bytes up to the stated length; all byte strings of bounded length at every clause position",
     "tests parse about a dozen fixed queries",
     ["src/reader/CalQLParser.cpp", "src/common/util/parse_util.cpp"],
     [("recursive descent parser", "src/reader/CalQLParser.cpp")])
prop("C18", "JSON output is well-formed and complete",
     "For any records and any names and values in them, the JSON output (json and json-split, all layouts) is a well-formed JSON document in which each selected attribute of each record appears once with its value, values without a JSON literal form are quoted, each hierarchy node keeps its label, parent and column, and strings read back by a JSON parser equal the original text (control characters are left out).",
     ["inputs"], "all names and text values of bounded length, all value types, record sets of bounded size, all layout options",
     "tests check fixed output files with plain names",
     ["src/reader/JsonFormatter.cpp", "src/reader/JsonSplitFormatter.cpp", "src/common/util/format_util.h"],
     [("formatters", "src/reader/JsonFormatter.cpp, src/reader/JsonSplitFormatter.cpp")])
prop("C19", "Table, tree and text output show every record in the requested order",
     "For any records, table output has one row per record with each selected value in its column and under its title, rows sorted as requested with equal rows in input order; tree output shows each region path once, indented below its parent path, with the values of all records of the path, siblings and records sorted as requested; expand and format output write each selected value of each record once in the requested form.",
     ["inputs"], "record sets of bounded size with symbolic values, ascending and descending sort on any selected column",
     "tests compare a fixed report",
     ["src/reader/TableFormatter.cpp", "src/reader/TreeFormatter.cpp", "src/reader/SnapshotTree.cpp", "src/reader/Expand.cpp", "src/reader/UserFormatter.cpp"],
     [("rows and sorting", "src/reader/TableFormatter.cpp"), ("snapshot tree", "src/reader/SnapshotTree.cpp")])
prop("C20", "Region profiles account for all time once",
     "For any records with region paths and measurements, the exclusive profile of a region is the sum over the records whose innermost region it is, the inclusive profile is the sum over the records in which it is open, the total is the sum over all records, and the exclusive values of all regions and the part outside of regions add up to the total. A recursive region counts once, and a profile for one region type contains only that type.",
     ["inputs", "histories"], "record sets of bounded size over paths of bounded depth (with recursion) and symbolic measurements",
     "tests check one small program",
     ["src/reader/FlatExclusiveRegionProfile.cpp", "src/reader/FlatInclusiveRegionProfile.cpp", "src/reader/NestedExclusiveRegionProfile.cpp", "src/reader/NestedInclusiveRegionProfile.cpp", "src/caliper/RegionProfile.cpp"],
     [("profile accumulation", "src/reader/*RegionProfile.cpp")])
prop("C21", "Region filters accept exactly the configured regions",
     "A region passes the include/exclude filter exactly if it matches the include list (or there is none) and does not match the exclude list, for the match, prefix and regex forms and for quoted names and combinations of them. Malformed filter strings (unclosed argument lists, invalid expressions) yield an error instead of a filter. Event-triggered measurements are taken at exactly the regions that pass the region filter and, with a branch filter, lie in a selected branch.",
     ["inputs"], "all region names and filter texts of bounded length, all combinations of include and exclude lists",
     "tests use four fixed filter strings",
     ["src/caliper/RegionFilter.cpp", "src/services/event/EventTrigger.cpp"],
     [("filter parsing and matching", "src/caliper/RegionFilter.cpp")])
prop("C22", "Configuration strings mean what they say",
     "In configuration strings every profile, option and value that was written is recognised, quoted or nested values are kept verbatim, unknown names and malformed texts are reported as errors, the check of a configuration string agrees with what is accepted, options take effect exactly if they are enabled, and a setting for one profile overrides settings for all profiles and defaults. Runtime configuration entries get the value that was set explicitly or else the one from the environment, the selected profiles, the default profile, the preset or the default, the last definition in the configuration files counts, and conversions to numbers, booleans and lists are exact.",
     ["inputs", "configurations"], "all texts of bounded length at name and value positions, all precedence combinations",
     "tests check a fixed list of strings",
     ["src/caliper/ConfigManager.cpp", "src/common/RuntimeConfig.cpp", "src/common/StringConverter.cpp", "src/common/util/parse_util.cpp"],
     [("config string parser", "src/caliper/ConfigManager.cpp"), ("configuration sets", "src/common/RuntimeConfig.cpp"), ("conversions", "src/common/StringConverter.cpp")])
prop("C23", "Time and event data are attributed to the right region",
     "For every sequence of region events, event records contain the region that begins or ends, the duration reported between two snapshots equals the clock difference and inclusive durations equal the time from the matching begin, so that exclusive durations add up to the elapsed time.",
     ["histories", "inputs"], "all well-nested event sequences of bounded length with symbolic clock readings",
     "tests cannot control the clock",
     ["src/services/timer/Timer.cpp", "src/services/event/EventTrigger.cpp"],
     [("timer", "src/services/timer/Timer.cpp"), ("event trigger", "src/services/event/EventTrigger.cpp")])
prop("C24", "Allocation tracking finds the allocation that contains an address",
     "After any sequence of tracking and untracking allocations, looking up an address returns the tracked allocation that contains it, or nothing if there is none, and untracking removes exactly the allocation that starts at the given address.",
     ["histories", "inputs"], "all operation sequences of bounded length over symbolic addresses and sizes",
     "tests track two or three allocations; the splay tree restructures itself with every operation",
     ["src/services/alloc/SplayTree.hpp", "src/services/alloc/AllocService.cpp"],
     [("splay tree", "src/services/alloc/SplayTree.hpp")])
prop("C25", "Cross-process aggregation equals aggregation of all data",
     "Aggregating the data of several processes over a reduction tree gives the result of aggregating all of their records in one process, for any number of processes and any distribution of the records, including processes without records or without knowledge of the attributes. Names, types and properties of attributes and text arrive unchanged, every message sent is received, and processes never wait for each other forever. Collective output over several processes is the cross-process query applied to the local query results of all of them, written once, by the first process.",
     ["schedules", "inputs"], "all process counts and data distributions within the bounds",
     "MPI tests run with one to four ranks and fixed data",
     ["src/caliper/aggregate_over_mpi.cpp", "src/reader/Aggregator.cpp", "src/caliper/collective_flush.cpp", "src/caliper/OutputCommMpi.cpp", "src/caliper/CollectiveOutputChannel.cpp"],
     [("collective output", "src/caliper/collective_flush.cpp"), ("tree reduction", "src/caliper/aggregate_over_mpi.cpp"), ("partial results", "src/reader/Aggregator.cpp")])
prop("C26", "The Python reader returns what the stream contains",
     "For every stream that Caliper writes, the Python reader delivers each record once and in order with the value, or the list of values in path order over all references, of each visible attribute, the nested path, the globals, and each attribute with its type, properties and metadata, as the C++ library does.",
     ["inputs"], "all texts of bounded length in names and values, all shapes of node trees and references within the bounds",
     "its tests read three fixed files",
     ["python/caliper-reader/caliperreader/caliperreader.py", "python/caliper-reader/caliperreader/metadatadb.py"],
     [("Python reader", "python/caliper-reader/caliperreader/")])
prop("C27", "Calls outside the life of the runtime are harmless",
     "Annotation and query calls made after finalisation, or with invalid attributes, ids or empty channel handles, have no effect and return empty results instead of crashing; so do the signal-safe queries before initialisation and from inside a callback of the runtime itself. Annotation, channel and controller objects may be used and destroyed after the runtime's end, and a deleted channel stays inactive.",
     ["histories", "inputs"], "all single calls of the C and C++ interface with symbolic ids and values in each phase of the life cycle, and the end of the runtime at each point in the life of each kind of object",
     "tests call a few functions with invalid arguments",
     ["src/caliper/cali.cpp", "src/caliper/Caliper.cpp"],
     [("entry guards", "src/caliper/Caliper.cpp sigsafe instance, src/caliper/cali.cpp")])
prop("C28", "Channels do not influence each other",
     "Values set on one channel, and activating, deactivating, flushing or deleting a channel, never change what another channel's snapshots contain; inactive channels see no events.",
     ["histories"], "all operation sequences of bounded length over two or three channels",
     "tests use one or two channels in a fixed order",
     ["src/caliper/Caliper.cpp"],
     [("channel bodies", "src/caliper/Caliper.cpp")])
prop("C29", "Loop and region monitors measure what they select",
     "For every history of loops, iterations and regions, the loop monitor takes a snapshot exactly when the number of iterations or the time since the last one reaches the configured interval and when a selected loop ends, its iteration counts add up to the iterations executed, only loops with a target name are measured, loop statistics count and time each loop and iteration once, time series start with each selected loop, and the region monitor takes a snapshot at the end of exactly those outermost regions that lasted long enough. Regions and loops that were open before the service was active do not disturb this.",
     ["histories", "inputs"], "all nested sequences of loops, iterations and regions of bounded length, all intervals and target lists within the bounds, symbolic clock",
     "tests run one loop with one interval",
     ["src/services/monitor/LoopMonitor.cpp", "src/services/monitor/RegionMonitor.cpp", "src/services/monitor/Timeseries.cpp", "src/services/LoopStatistics.cpp"],
     [("loop monitor", "src/services/monitor/LoopMonitor.cpp"), ("region monitor", "src/services/monitor/RegionMonitor.cpp"), ("time series", "src/services/monitor/Timeseries.cpp"), ("loop statistics", "src/services/LoopStatistics.cpp")])
prop("C30", "Memory tracking accounts for every tracked allocation",
     "For every history of allocations, releases and snapshots, the tracking services report exactly the memory that is allocated at each point, record each tracked allocation and release with its label, address, dimensions and size, resolve an address to the label, element index and identity of the allocation that contains it, and report per region the sum, count and high-water mark of allocated memory since the last flush or clear.",
     ["histories", "inputs"], "all histories of bounded length over a few addresses with symbolic sizes",
     "tests track two or three allocations of fixed size",
     ["src/services/alloc/AllocService.cpp", "src/services/alloc/AllocStatsService.cpp"],
     [("allocation records", "src/services/alloc/AllocService.cpp"), ("allocation statistics", "src/services/alloc/AllocStatsService.cpp")])
prop("C31", "Built-in reports and profiles show what was measured",
     "For every history of regions and loops and every option, each labelled column of the built-in configurations (runtime-report, runtime-profile, loop-report, spot and the options they share) shows the measured quantity its label names, with the aggregation it names, for exactly the regions, loops and iteration blocks that were executed, with and without MPI; with several processes all processes' values are included, only the first process writes output, and no process waits for the others forever.",
     ["histories", "inputs"], "all region trees and loop histories of bounded size, all options with queries, one and two processes",
     "tests look for a few columns in the output of one program",
     ["src/caliper/controllers", "src/caliper/ConfigManager.cpp"],
     [("option queries", "src/caliper/controllers/controllers.cpp"), ("loop report", "src/caliper/controllers/LoopReportController.cpp"), ("spot", "src/caliper/controllers/SpotController.cpp"), ("runtime report", "src/caliper/controllers/RuntimeReportController.cpp"), ("runtime profile", "src/caliper/controllers/RuntimeProfileController.cpp")])

prop("C32", "MPI messages are recorded exactly",
     "For every sequence of MPI calls with every outcome MPI allows (any completion order and subset, wildcard receives, no active request, persistent requests that are started or not, in-place buffers, arguments that are not significant on this process, ignored statuses), message tracing creates exactly one record per message sent, message received and collective operation, with its peer, tag, size in bytes and communicator, in the region of the MPI function; the message statistics of a communication region count exactly the same; function filters and inactive or deleted channels are respected; and the program sees the unmodified results of its MPI calls.",
     ["histories", "inputs"], "all sequences of up to 3 requests/operations with every outcome the MPI standard permits, all filters and channel states",
     "the outcome of nonblocking communication depends on timing; a test sees one",
     ["src/services/mpiwrap"],
     [("wrappers", "src/services/mpiwrap/Wrapper.w"), ("tracing", "src/services/mpiwrap/MpiTracing.cpp"), ("statistics", "src/services/mpiwrap/MpiPattern.cpp"), ("attributes", "src/services/mpiwrap/MpiWrap.cpp")])
prop("C33", "OpenMP regions and thread information follow the OpenMP program",
     "For every properly nested sequence of OpenMP tool callbacks, on every thread, omp.parallel, omp.work, omp.sync, omp.thread.id, omp.num.threads, omp.thread.type and omp.proc.id are those of the innermost construct the thread is in, with the names the OpenMP specification gives to them; there is exactly one begin and one end event per region; threads do not affect each other; regions begun before the service was started, initial tasks and unknown constructs never disturb the program's own regions; and the tool is active exactly when a channel or CALI_USE_OMPT asks for it, until the last channel that uses it ends.",
     ["histories", "schedules"], "all nested callback histories up to the stated length with the service started at any point; two threads with up to 2 preemptions",
     "the callbacks' order depends on the OpenMP runtime; worker threads deliver some of them late",
     ["src/services/ompt/OmptService.cpp"],
     [("callbacks", "src/services/ompt/OmptService.cpp")])

prop("C34", "Events of Kokkos, the heap, threads and file I/O are recorded exactly",
     "Each kernel, fence and region that Kokkos reports is one region with its name and kind for every channel, nested with the program's own regions, whatever channels use the service and however these come and go; each Kokkos allocation, release and copy, and each successful call of malloc, calloc, realloc and free is reported with its address, size and label to every active channel that asks for it, and to no paused or deleted one; each read and write is one I/O region and one record with the number of bytes. Allocations of the runtime itself are not recorded. The program gets the results, arguments and errno of the wrapped functions unchanged; a new thread runs its function with its argument and knows its id.",
     ["histories", "inputs"], "all histories of bounded length with two channels that come, pause and go at any point; any addresses and sizes",
     "no test exercises these services beyond one run with one channel (Kokkos: none)",
     ["src/services/kokkos/KokkosTime.cpp", "src/services/kokkos/KokkosLookup.cpp", "src/services/kokkos/KokkosProfilingSymbols.cpp", "src/services/sysalloc/SysAllocService.cpp", "src/services/pthread/PthreadService.cpp", "src/services/io/IOService.cpp"],
     [("Kokkos", "src/services/kokkos/KokkosTime.cpp"), ("heap", "src/services/sysalloc/SysAllocService.cpp"), ("I/O", "src/services/io/IOService.cpp"), ("threads", "src/services/pthread/PthreadService.cpp")])

LEVEL_NOTE = "Bounded symbolic execution of the LLVM IR of the current sources with z3: every assertion and memory access is decided for all values within the bounds stated in DESIGN.md and the evidence file; beyond them nothing is claimed. Trusted: clang's front end, the engine, the library models in /verif/runtime (cross-checked by replaying solver-chosen inputs natively)."
TECH = "bounded symbolic execution of clang LLVM IR with z3 (own engine), counterexamples replayed natively under ASan"

if __name__ == "__main__":
    import specs
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "na"}) + "\n")
    TECHPY = "bounded symbolic execution of the Python sources with z3 (own executor over the rewritten syntax tree), counterexamples replayed with the unmodified package"
    NOTEPY = "Bounded symbolic execution of the current Python sources: every branch and assertion is decided by z3 for all values within the bounds stated in DESIGN.md and the evidence file; beyond them nothing is claimed. Trusted: CPython, lib/pysym.py's string model (cross-checked by replaying solver-chosen streams with the unmodified package and the C++ reader)."
    PY = ("C26",)
    man = dict(version=1, setup_cmd="make -s -j8 -C engine BUILD=/verif/build && python3 lib/prebuild.py",
               checks=[dict(property=p["id"], quick_cmd="python3 lib/check.py %s --tier quick" % p["id"], thorough_cmd="python3 lib/check.py %s --tier thorough" % p["id"], technique=TECH,
                            level="model_checking", level_note=specs.PROPS[p["id"]].get("level_note", LEVEL_NOTE)) if p["id"] not in PY else
                       dict(property=p["id"], quick_cmd="python3-vt lib/checkpy.py %s --tier quick" % p["id"], thorough_cmd="python3-vt lib/checkpy.py %s --tier thorough" % p["id"], technique=TECHPY, level="model_checking", level_note=NOTEPY)
                       for p in P if p["id"] in specs.PROPS or p["id"] in PY],
               hooks=dict(guard="CALIPER_VERIF", enable="no hooks are needed: the checks compile /repo's sources as they are", source_commits=[]),
               not_applicable=[dict(property=p["id"], reason=p["na"] or "no check has been built for it so far") for p in P if p["id"] not in specs.PROPS and p["id"] not in PY])
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
