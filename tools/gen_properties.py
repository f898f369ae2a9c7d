#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        }})

CORE="metriken-core/src/"; MK="metriken/src/"; EX="metriken-exposition/src/"; DV="metriken-derive/src/"

p("C01", "Counters and gauges are exact wrapping 64-bit registers",
  "After any sequence of increment, decrement, add, sub, set and reset calls, a counter (unsigned) or gauge (signed) holds exactly the value given by 64-bit wrapping arithmetic from its initial value, and every updating call returns the value held immediately before it. Reading it directly, through the Metric interface, or through any registered entry reports that same value under the right kind, without changing it.",
  ["inputs","histories"], "every initial value, every sequence of operations and every 64-bit operand, including overflow and underflow",
  "No repository test asserts a counter or gauge value at all; overflow and the returned previous values are never exercised.",
  [MK+"counter.rs", MK+"gauge.rs"],
  [("fetch_add/fetch_sub/swap on one atomic word", MK+"counter.rs, "+MK+"gauge.rs"), ("Metric::value mapping to Value::Counter / Value::Gauge", MK+"counter.rs, "+MK+"gauge.rs")],
  [("Counter.0 / Gauge.0","current value", MK+"counter.rs, "+MK+"gauge.rs")],
  ["Counter/Gauge methods","Metric::value","metrics()"])

p("C02", "Concurrent counter and gauge updates are never lost or duplicated",
  "When any number of threads update one counter or gauge (directly or through a lazily created one), every update takes effect exactly once and atomically: the previous values returned by all the calls and the final value are those of some sequential order of the same calls. Every value seen by a reader is one that some update left there, and a counter that is only added to is never seen to go backwards.",
  ["schedules","histories"], "every number of threads, every per-thread program of updates and every interleaving",
  "The repository has no multi-threaded test; a non-atomic read-modify-write passes all of them.",
  [MK+"counter.rs", MK+"gauge.rs", MK+"lazy.rs"],
  [("single atomic read-modify-write per update", MK+"counter.rs, "+MK+"gauge.rs")],
  [("Counter.0 / Gauge.0","current value", MK+"counter.rs, "+MK+"gauge.rs")],
  ["return values of add/sub/set/reset","final value","values seen by concurrent readers"])

p("C03", "The metric listing is exactly the declared plus the live dynamic metrics",
  "At every point of any history of creating, registering, re-registering, moving and dropping dynamic metrics, the global listing contains every statically declared metric and exactly one entry per dynamic metric that is registered and not yet dropped. Each dynamic entry carries the name and description given at that metric's latest registration, the metadata it was built with, and its current value and enabled state; a metric is gone from the listing before its destructor runs.",
  ["histories","inputs"], "every sequence of build/register/drop operations over boxed and pinned metrics of any metric type, with any (also equal or empty) names",
  "tests/dynmetrics.rs checks only the length of the dynamic list in five fixed two-or-three-step scripts.",
  [CORE+"dynmetrics.rs", CORE+"metrics.rs", CORE+"lib.rs"],
  [("address-keyed registry map", CORE+"dynmetrics.rs DynMetricsRegistry"), ("unregister in Drop before the fields are dropped", CORE+"dynmetrics.rs Drop for DynPinnedMetric"), ("MetricBuilder carries name/description/metadata", CORE+"dynmetrics.rs MetricBuilder")],
  [("REGISTRY","registered dynamic entries", CORE+"dynmetrics.rs"), ("METRICS","static entries", CORE+"lib.rs export")],
  ["metrics().iter()","metrics().dynamic_metrics()","metrics().static_metrics()"])

p("C04", "A held metrics view is a frozen, memory-safe picture under concurrency",
  "While a view of the metrics is held, its contents do not change: registrations and drops attempted by other threads wait until the view is released, so repeated iteration of one view yields the same entries and every entry reached through it refers to a metric that has not been destroyed. A metric registered for the whole time a view is taken is always in it, and once a drop has returned no later view contains that metric.",
  ["schedules","histories"], "every interleaving of view-taking readers with threads that register, re-register and drop dynamic metrics",
  "The dynamic-metric tests serialise themselves behind a mutex, so no reader ever runs concurrently with registration or drop.",
  [CORE+"dynmetrics.rs", CORE+"metrics.rs"],
  [("read guard held by Metrics", CORE+"metrics.rs Metrics"), ("write lock around register/unregister", CORE+"dynmetrics.rs"), ("Drop unregisters before memory is released", CORE+"dynmetrics.rs")],
  [("REGISTRY","lock-protected registry", CORE+"dynmetrics.rs")],
  ["metrics()","DynBoxedMetric/DynPinnedMetric drop"])

p("C05", "Metric iterators agree with the listing however they are driven",
  "Every iterator over all metrics or over the dynamic metrics yields each listed entry exactly once, whatever mix of front and back stepping, skipping, folding or counting is used, exactly as a double-ended iterator over a fixed sequence would. Its size hint always brackets the number of entries still to come, and after exhaustion it stays exhausted.",
  ["inputs","histories"], "every number of static and dynamic metrics and every sequence of iterator calls with any skip distance",
  "Tests only call next, len or find; skipping, backward stepping, folds and size hints across the static/dynamic boundary are never used.",
  [CORE+"metrics.rs"],
  [("hand-written Iterator/DoubleEndedIterator overrides", CORE+"metrics.rs MetricsIter, DynMetricsIter")],
  [("sm, dm","static and dynamic halves still to be visited", CORE+"metrics.rs MetricsIter")],
  ["Metrics::iter","Metrics::dynamic_metrics","IntoIterator for &Metrics"])

p("C06", "Metric metadata behaves as a faithful string map",
  "The metadata of a metric is exactly the key-value map it was given (the last value given for a key when a dynamic metric is built), whether it was declared statically or built dynamically: lookup, membership, length and emptiness all agree with that map, also for absent keys. Iteration yields each pair exactly once however the iterator is driven, and reports the exact number of remaining pairs at every step.",
  ["inputs","histories"], "every finite map of strings (empty, non-ASCII, long) and every sequence of lookups and iterator calls",
  "Tests look up two fixed keys in one dynamic metric and one key in two static ones.",
  [CORE+"metadata.rs", CORE+"dynmetrics.rs", CORE+"lib.rs"],
  [("two-representation dispatch", CORE+"metadata.rs Impl / IterImpl"), ("MetricBuilder::metadata", CORE+"dynmetrics.rs")],
  [("Metadata","key-value pairs", CORE+"metadata.rs")],
  ["Metadata methods","MetricEntry::metadata"])

p("C07", "Metric formatting honours custom formatters and Prometheus syntax",
  "Formatting an entry uses the formatter declared for that metric, static or dynamic, with that entry and the requested format; without one, the simple format is exactly the metric's name. The default Prometheus rendering is the name followed, if there is metadata, by a brace-enclosed label list that a Prometheus parser reads back as exactly the metric's metadata, whatever characters the values contain.",
  ["inputs","configurations"], "every name, every metadata map (identifier keys, arbitrary values), every format, with and without a custom formatter, for static and dynamic metrics",
  "tests/formatter.rs covers one static formatter, at most one label, and no value that needs escaping; no dynamic metric is ever formatted.",
  [CORE+"formatter.rs", CORE+"lib.rs", CORE+"dynmetrics.rs", CORE+"wrapper.rs"],
  [("formatter lookup", CORE+"lib.rs MetricEntry::formatted"), ("default_formatter", CORE+"formatter.rs"), ("MetricBuilder::formatter", CORE+"dynmetrics.rs")],
  [], ["MetricEntry::formatted","default_formatter"])

p("C08", "Typed context requests return the first matching provided datum",
  "Requesting a value or a reference of some type from a metric returns the first datum of exactly that type and mode (by value or by reference) that the metric provides, and nothing when it provides none, independently of anything else it provides. Lazily supplied data are computed at most once and only when they satisfy the request, and the would-be-satisfied queries say exactly whether a datum offered at that moment would be taken. Data attached while building a dynamic metric are found by reference through its entry, the last one attached per type winning and preceding the metric's own.",
  ["inputs","histories","programs"], "every sequence of provide calls over sized and unsized types, by value, by reference and by closure, and every requested type",
  "One unit test checks that one reference type is found in a one-element map.",
  [CORE+"provide.rs", CORE+"dynmetrics.rs", CORE+"wrapper.rs", CORE+"lib.rs"],
  [("type-tag checked downcast", CORE+"provide.rs Erased"), ("fill only while empty", CORE+"provide.rs Request::provide_with"), ("ProviderMap", CORE+"provide.rs")],
  [], ["request_value","request_ref","MetricEntry::request_value/request_ref","Request::would_be_satisfied_by_*"])

p("C09", "Lazy metrics initialise at most once and never by being observed",
  "A lazy metric's initialiser runs at most once over its whole life, whatever threads race on first use and even if it panics, and all users see the one value it produced. Until its initialisation has completed the metric reports itself disabled, with no value and no concrete object, and listing, formatting, snapshotting or peeking at it never initialises it; afterwards it reports itself enabled, with the inner metric as its concrete object and the inner metric's value.",
  ["schedules","histories"], "every sequence and interleaving of peeks, metric-interface reads, registry listings and forcing accesses, with initialisers that return or panic",
  "No repository test uses a lazy metric; its only doc example is compiled to an empty main.",
  [MK+"lazy.rs", MK+"lib.rs"],
  [("OnceCell guarded initialisation and take() of the initialiser", MK+"lazy.rs Lazy::force"), ("Metric impl peeks with get", MK+"lazy.rs impl Metric for Lazy")],
  [("cell, func","value once initialised, initialiser until then", MK+"lazy.rs")],
  ["Lazy::get/force/deref","Metric for Lazy","metrics()"])

p("C10", "A metric declaration registers exactly what its attribute says",
  "For every well-formed metric declaration the program contains exactly one static entry for that static, with the declared name (the static's identifier when omitted), the declared description or none, exactly the declared metadata, and the declared formatter or the default one, independent of argument order, of how metadata keys are written, and of how the metriken crate is named or re-exported. The static itself keeps its declared visibility, type and initial value and is the very object the entry reads.",
  ["programs","inputs"], "every combination, order and spelling of attribute arguments, any number of declarations across modules and functions, any metric type",
  "Nine fixed declarations in the tests; metadata is checked for one key, and the compile-pass case never runs.",
  [DV+"metric.rs", DV+"args.rs", CORE+"lib.rs", CORE+"wrapper.rs"],
  [("attribute parsing", DV+"metric.rs MetricArgs"), ("expansion into declare_metric_v1!", DV+"metric.rs metric, "+CORE+"lib.rs declare_metric_v1"), ("transparent wrapper", CORE+"wrapper.rs MetricWrapper")],
  [("METRICS","linker-collected entries", CORE+"lib.rs export")],
  ["metrics().static_metrics()","MetricEntry accessors"])

p("C11", "Malformed metric declarations are rejected at compile time",
  "A declaration that repeats an argument, repeats a metadata key (however spelled: identifier or string), uses an argument name the attribute does not know, or is not a comma-separated list of arguments with values (and of metadata entries with values) on a static item does not compile, so no metric is ever registered with an argument silently dropped or overridden. For repeated or unknown names the diagnostic names the offending argument or key.",
  ["programs"], "every declaration obtained from a well-formed one by duplicating or inserting an argument or a metadata key at any position",
  "Two fixed compile-fail files cover one duplicated argument and one duplicated string key.",
  [DV+"metric.rs", DV+"args.rs"],
  [("insert_or_duplicate", DV+"args.rs"), ("MetadataMap::insert", DV+"metric.rs"), ("unknown-argument arm", DV+"metric.rs")],
  [], ["compiler diagnostics of generated programs"])

p("C12", "Event histograms count every in-range value in the right bucket",
  "For every valid configuration, recording a value below two to the max-value power adds exactly one to the single bucket whose range contains it, under any number of concurrent recorders, and recording a larger value returns an out-of-range error and changes nothing; neither ever panics. Loading returns nothing before the first recording and afterwards exactly the counts recorded so far under the declared configuration, without resetting them; constructing with invalid powers panics.",
  ["inputs","histories","schedules"], "every valid configuration, every 64-bit value (bucket edges, powers of two and the maximum included), every sequence of recordings and loads and every interleaving",
  "No repository test records into an event histogram.",
  [MK+"histogram.rs"],
  [("once-initialised atomic bucket array", MK+"histogram.rs AtomicHistogram"), ("range check and bucket indexing", MK+"histogram.rs AtomicHistogram::increment (histogram crate)")],
  [("inner","bucket counts", MK+"histogram.rs AtomicHistogram")],
  ["AtomicHistogram::increment/load/config","Metric::value"])

p("C13", "Bulk histograms publish whole updates or nothing",
  "After any sequence of bulk updates a bulk histogram holds exactly the bucket counts of the last update whose length matched its configuration; an update of any other length fails with an incompatible-parameters error and leaves it unchanged, and before the first successful update there is nothing to load. Concurrent loads always return the counts of one single update (or the empty start), never a mixture of two.",
  ["inputs","histories","schedules"], "every valid configuration, every bucket vector of right or wrong length, every interleaving of writers and loaders",
  "No repository test updates a bulk histogram.",
  [MK+"histogram.rs"],
  [("length check before initialisation", MK+"histogram.rs RwLockHistogram::update_from"), ("write lock around the copy, read lock around the clone", MK+"histogram.rs")],
  [("inner","published bucket counts", MK+"histogram.rs RwLockHistogram")],
  ["RwLockHistogram::update_from/load/config"])

p("C14", "A snapshot is a complete and faithful reading of the selected metrics",
  "A snapshot contains exactly one reading for every listed metric that its filter accepts and that currently has a counter, gauge or recorded-histogram value, filed under that kind, with the entry's simple-format name and current value, and nothing else. Each reading's metadata is the metric's metadata plus its description if it has one (and, for histograms, their configuration powers); the snapshot carries the snapshotter's own metadata and a time within the call, and taking it changes no metric.",
  ["inputs","histories","configurations"], "every set of static and dynamic metrics of any kind and state, every filter, every snapshotter metadata",
  "The repository never builds a Snapshotter in a test.",
  [EX+"snapshotter.rs", EX+"snapshot.rs"],
  [("iteration, filter and kind dispatch", EX+"snapshotter.rs Snapshotter::snapshot")],
  [], ["Snapshotter::snapshot"])

p("C15", "Snapshots survive JSON and MessagePack encoding unchanged",
  "Any snapshot of either version, encoded as JSON or MessagePack and decoded again as a snapshot, has the same version, time, duration, metadata and readings (names, values, histogram buckets and configuration, metadata, order). Encodings can be concatenated into a stream and are decoded back one by one with nothing left over; the JSON form is a single line ending in one newline.",
  ["inputs","histories"], "every snapshot content (any names, values over the full 64-bit ranges, any histograms, any maps) and every sequence of snapshots",
  "No repository test encodes or decodes a snapshot.",
  [EX+"snapshot.rs"],
  [("untagged version enum", EX+"snapshot.rs Snapshot"), ("derived field encodings", EX+"snapshot.rs"), ("to_json / to_msgpack", EX+"snapshot.rs")],
  [], ["Snapshot::to_json","Snapshot::to_msgpack","serde deserialisation of Snapshot"])

p("C16", "Recordings in the published wire layout stay readable",
  "Snapshots written by other or earlier producers in the published layout are decoded with every field in its place: in JSON or field-named MessagePack whatever the order of the fields, with snapshot-level metadata absent (read as empty) or unknown extra fields present, and in compact MessagePack in the established field order of each version. What the library encodes is itself in that layout, and what lacks a time, a list of readings or a reading's name or value, or holds the wrong kind of value there, is refused and never read with a guess.",
  ["inputs","configurations"], "every snapshot content in every permitted spelling of the layout",
  "No repository test decodes stored bytes; a change of field order or names on both sides would pass any round-trip.",
  [EX+"snapshot.rs"],
  [("serde derives with default metadata", EX+"snapshot.rs SnapshotV1/SnapshotV2")],
  [], ["serde deserialisation of Snapshot","Snapshot::to_msgpack","Snapshot::to_json"])

p("C17", "A Parquet file holds exactly the readings of the snapshots pushed",
  "After feeding any sequence of snapshots to the schema and then to the writer, the file has one row per snapshot in order, with its time in nanoseconds, its duration or null, and one column per distinct metric of each kind seen in any of them. Each cell holds exactly that snapshot's reading - the full-range integer, or the histogram as its bucket counts (or, in sparse form, the indices and counts of its non-zero buckets in ascending order) - and is null exactly when the snapshot lacks the metric.",
  ["inputs","histories"], "every sequence of V1 and V2 snapshots over any changing set of metrics, values and histogram configurations",
  "Tests write two snapshots with one metric of each kind present in both, so nulls, unions, ordering and extreme values are never checked, and the sparse V2 test actually runs the dense one.",
  [EX+"parquet.rs", EX+"snapshot.rs"],
  [("union schema", EX+"parquet.rs ParquetSchema::push/finalize"), ("row assembly with null filling", EX+"parquet.rs ParquetWriter::push"), ("list cells", EX+"parquet.rs listu64_entry_*")],
  [("counters, gauges, histograms","schema-ordered column names", EX+"parquet.rs ParquetWriter")],
  ["the written Parquet file read back"])

p("C18", "Parquet output options never change the recorded data",
  "Writing the same snapshots under any compression, any batch size and either histogram form yields files with the same rows, columns and readings (sparse and dense histogram columns expand to each other). The batch size only decides row groups: every group but the last holds exactly that many rows and none is empty. The columns are stored with the compression asked for, and an invalid compression level is refused with an error.",
  ["configurations","inputs"], "every snapshot sequence under every combination of compression level, batch size from one up, and histogram form",
  "Tests use default options, or batch size one with two rows, and compare only row-group counts.",
  [EX+"parquet.rs"],
  [("ParquetOptions to writer properties", EX+"parquet.rs ParquetSchema::finalize"), ("ParquetCompression", EX+"parquet.rs")],
  [], ["the written Parquet files read back"])

p("C19", "Parquet column identity follows a metric's labels, not incidental order",
  "A metric's column is named by its reading's name, or, when its metadata has a 'metric' key, by that key's value followed by slash-separated label values: name, op, state, direction first in that order, then all other labels in ascending key order, and id last, with unit, grouping_power and max_value_power left out. The same identity always maps to the same column across snapshots regardless of map iteration order or of the reading's own name, histogram columns append their part suffix to it, and within a kind columns appear in ascending name order: counters, then gauges, then histograms.",
  ["inputs","histories"], "every metadata map and reading name, in every insertion order, across any sequence of snapshots",
  "No test metric has any metadata, so the naming code beyond its first line never runs.",
  [EX+"snapshot.rs", EX+"parquet.rs"],
  [("canonicalize_metric_name", EX+"snapshot.rs"), ("ordered maps in the schema", EX+"parquet.rs ParquetSchema")],
  [], ["column names of the written Parquet file"])

p("C20", "Parquet annotations carry the metric and recording metadata",
  "Each metric column is annotated with exactly the metadata of the first reading seen for it plus its metric type (counter, gauge, histogram or sparse_histogram), the time and duration columns with their type and the unit nanoseconds. The file's own metadata is that of the first snapshot having any, overridden and extended by the caller's, and nothing else.",
  ["inputs","histories"], "every sequence of snapshots with any per-metric and per-snapshot metadata, and every caller-supplied metadata",
  "No test sets or reads any metadata in the Parquet path.",
  [EX+"parquet.rs", EX+"convert.rs"],
  [("first-seen metadata", EX+"parquet.rs ParquetSchema::push"), ("field and file metadata", EX+"parquet.rs ParquetSchema::finalize"), ("converter metadata", EX+"convert.rs")],
  [], ["Arrow field metadata and Parquet key-value metadata of the written file"])

p("C21", "MessagePack-to-Parquet conversion preserves the whole recording",
  "Converting a stream of MessagePack snapshots, by path or by handle, produces the same rows, columns, readings and annotations as pushing those snapshots to a schema and writer with the same options and metadata (of several values given for a key, the last), and returns the number of snapshots in the stream; an empty stream gives a valid empty file. The result does not depend on how the input is chunked by the reader, on where the handle was positioned, or on the output accepting only part of each write.",
  ["inputs","histories","configurations"], "every sequence of snapshots of mixed versions and sizes (also far larger than any buffer), every read/write chunking, every option set",
  "No repository test runs the converter.",
  [EX+"convert.rs", EX+"parquet.rs", EX+"snapshot.rs"],
  [("two passes over the input", EX+"convert.rs convert_file_handle")],
  [], ["MsgpackToParquet::convert_file_path/convert_file_handle"])

p("C22", "Damaged input or failing I/O ends conversion in an error, never a panic",
  "Converting a stream that is truncated inside a snapshot, corrupted so that it does not decode, followed by garbage, or whose reader, seek or writer fails at any point returns an error: it never panics or reports success for a recording it did not completely read and write. Whenever conversion does report success, the output is a valid file with that many rows.",
  ["fault_sequences","inputs"], "every truncation point, arbitrary byte corruption, and an I/O failure at every single read, seek, write or flush operation",
  "No repository test feeds the converter anything, let alone damaged input or failing streams.",
  [EX+"convert.rs", EX+"parquet.rs", EX+"snapshot.rs"],
  [("error propagation", EX+"convert.rs convert_file_handle")],
  [], ["MsgpackToParquet::convert_file_path/convert_file_handle results and output bytes"])

p("C23", "An entry identifies exactly its own metric",
  "Asking an entry whether it is for a given metric object answers yes for the object it reads, whether statically declared or dynamically registered, boxed or pinned, lazy or not, initialised or not. It answers no for every other metric object of non-zero size, including another metric of the same type, and a metric that reports a different concrete type but happens to lie at the same address.",
  ["inputs","histories","programs"], "every pair of entry and metric object among any mix of static, dynamic, lazy, zero-sized-neighbour and nested metrics",
  "Tests use it only to find static counters; they never ask a dynamic entry and never check a negative answer.",
  [CORE+"lib.rs", CORE+"dynmetrics.rs", CORE+"wrapper.rs"],
  [("type and address comparison", CORE+"lib.rs MetricEntry::is"), ("layout of the wrapped metric", CORE+"dynmetrics.rs ProviderMetric, "+CORE+"wrapper.rs MetricWrapper")],
  [], ["MetricEntry::is"])

p("C24", "Snapshots taken during concurrent activity stay consistent",
  "While other threads update, register and drop metrics, every snapshot contains each continuously registered metric exactly once, never one whose drop had completed before it was taken, and only names, kinds, metadata and values that the metric really had at some moment during the call. Successive snapshots by one thread never show a continuously registered, only-increased counter or event-histogram bucket going backwards, and the first snapshot after the activity ends shows every completed update.",
  ["schedules","histories"], "every interleaving of snapshotting threads with threads updating, registering and dropping metrics",
  "No repository test takes a snapshot, concurrently or otherwise.",
  [EX+"snapshotter.rs", CORE+"metrics.rs", CORE+"dynmetrics.rs", MK+"histogram.rs"],
  [("one metrics view per snapshot", EX+"snapshotter.rs"), ("registry lock", CORE+"dynmetrics.rs")],
  [], ["Snapshotter::snapshot"])

p("C25", "User code called back may use the library and may panic",
  "User code that the library calls back - a metric's value, enabled state and provider, formatters, snapshot filters, lazy initialisers, and the destructors of metrics and of data attached to them - may itself read the listing, hold further views, take snapshots, format, request and update metrics and, where no view is held, create and drop other metrics (no other thread waiting to register or drop one meanwhile), and sees exactly the state of that moment. If it panics, nothing but that call is affected: every later listing, view, snapshot, formatting, request, update, registration and drop, on any thread, works and gives what it would have given had the panicking call not been made (a metric whose destructor panics is gone, a lazy metric whose initialiser panics stays uninitialised).",
  ["inputs","histories","fault_sequences"], "every history of operations with every callback position at which user code acts on the library or panics",
  "The repository's tests never call the library from inside a callback and never let one panic.",
  [CORE+"dynmetrics.rs", CORE+"metrics.rs", CORE+"provide.rs", CORE+"formatter.rs", MK+"lazy.rs", EX+"snapshotter.rs"],
  [("unregister before the destructor", CORE+"dynmetrics.rs"), ("shared read lock per view", CORE+"metrics.rs"), ("snapshot holds only a view", EX+"snapshotter.rs")],
  [], ["metrics", "DynPinnedMetric", "Snapshotter::snapshot", "MetricEntry::formatted", "Lazy::force"])

p("C26", "Everything handed over is destroyed exactly once and no memory is kept",
  "Every object handed to the library - a metric built into a dynamic one, data attached to it, an initialiser with what it captures and the value it produces, data offered in answer to a request, the reader and writer of a conversion - stays intact for as long as it belongs to a living metric or running call (a replaced datum or an initialiser that has run may go earlier) and is destroyed exactly once, at the latest when that metric, abandoned builder or entry is dropped or that call and its result end, also when it ends in an error or on another thread. No history of building, registering, using, formatting, snapshotting, encoding, converting and dropping leaves memory or open files behind: repeating it does not make the process grow.",
  ["inputs","histories","schedules"], "every history of building, registering, requesting, initialising, snapshotting, converting and dropping",
  "A unit test drops a handful of metrics and looks at the listing, never at what happened to the objects and the memory.",
  [CORE+"dynmetrics.rs", CORE+"provide.rs", MK+"lazy.rs", MK+"histogram.rs", EX+"snapshotter.rs", EX+"convert.rs"],
  [("registry entry owned until unregistered", CORE+"dynmetrics.rs"), ("attached data owned by the metric", CORE+"provide.rs"), ("initialiser taken once", MK+"lazy.rs"), ("reader and writer taken by value", EX+"convert.rs")],
  [], ["MetricBuilder", "DynPinnedMetric", "ProviderMap::insert", "Request::provide_value", "Lazy::force", "MsgpackToParquet::convert_file_handle"])

p("C27", "Safe code cannot reach a destroyed or moved metric or break thread safety",
  "No program without unsafe code can use the library to reach a metric, or anything belonging to one, after it has been destroyed or moved, or to share between threads what is not thread-safe: such programs do not compile. Entries and everything reached through a view or a handle (iterators, names, metadata, the metric, its value, attached data) cannot outlive that view or handle; an entry cannot be copied or moved out of its view, made up, or pointed at a metric that may go away; a pinned metric cannot be registered unless it is pinned for good, nor a registered one be moved out of or changed in place through its handle. Metrics, attached data, names and initialisers that borrow, or may not be sent or shared as their use requires, are not accepted, nor is a reference to a local provided in answer to a request; a view stays on the thread that took it.",
  ["inputs"], "every program without unsafe code",
  "The repository's tests are programs that compile; nothing tests that a program is refused, and a loosened bound or lifetime leaves every test passing.",
  [CORE+"dynmetrics.rs", CORE+"metrics.rs", CORE+"lib.rs", CORE+"provide.rs", CORE+"metadata.rs", MK+"lazy.rs"],
  [("registered pointer kept valid by Pin", CORE+"dynmetrics.rs"), ("entries borrow from the view", CORE+"metrics.rs"), ("entry's metric borrows from the entry", CORE+"lib.rs"), ("bounds of attached data", CORE+"provide.rs"), ("conditions of sharing a lazy", MK+"lazy.rs")],
  [], ["DynPinnedMetric::register", "Metrics::iter", "Metrics::dynamic_metrics", "MetricEntry", "MetricBuilder::provide", "Request::provide_ref", "Lazy"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
