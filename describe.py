"""The properties, and the descriptions of their checks: properties.jsonl,
MANIFEST.json and the evidence files are all generated from here (see gen.py)"""

LEVEL = "exploration"

REAL = ["arki dataset, segment, index, metadata and core code, unmodified, compiled from /repo's working tree", "sqlite, zlib, lzo, libarchive and libzip"]
STUB = ["kernel: file system, clock, locks, processes, pipes and threads (sim/posix.cc, sim/sim.cc)", "sqlite VFS (sim/sqlvfs.cc, same locking protocol)", "data scanners and validators for all formats (sim/scanners.cc)"]

ASSUME = ["the file system is POSIX with an ordered metadata journal: metadata changes survive a power loss in order, data that was not flushed may be lost, zeroed or torn",
          "processes interleave at system calls, at sqlite lock operations and at thread synchronisation",
          "data scanners are pure functions of the bytes of one item"]

P = {}
NA = []


def prop(id, **kw):
    kw["id"] = id
    P[id] = kw


prop("C01",
     title="Acknowledged imports survive crashes",
     statement="Once an import into a dataset has been reported as successful, every item it acknowledged is returned by queries exactly once, with its own bytes and metadata, after any sequence of killed processes and power losses followed by a repairing check, and it stays so after later imports, checks and repacks. Items whose import was interrupted appear at most once, and never with bytes that are not theirs. The repairing check itself completes.",
     over=["crash_points", "histories", "configurations"],
     qtext="every sequence of imports, repairing checks and repacks on one dataset of either type, every data format and segment layout, with a kill or a power loss before any file system change of any of them or while idle, and every subset of unflushed writes lost or torn",
     why="Tests import and query in one go on a file system that never loses anything: no test kills a process or loses unflushed writes, and the outcome depends on which of dozens of file system changes was the last to reach the disk.",
     files=["arki/dataset/simple/writer.cc", "arki/dataset/simple/manifest.cc", "arki/dataset/iseg/writer.cc", "arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/segment/metadata.cc", "arki/segment/iseg.cc", "arki/metadata/collection.cc"],
     mechanism=[("flush data before indexing it", "arki/segment/data/fd.cc"), ("write aside, flush, rename for metadata", "arki/metadata/collection.cc"), ("flushed manifest replacement", "arki/dataset/simple/manifest.cc"), ("detection and rescan of inconsistent segments", "arki/dataset/segmented.cc")],
     observe="import results and query results after a repairing check",
     rule="Each case is a seeded plan of imports, repairing checks and repacks on one dataset, with kills and power losses inside or between them. Non-trivial: at least one crash hit a running operation or an idle dataset with unflushed state. Distinct: different event-log hash.",
     design="Model: a set of acknowledged items (must be there once) and one of interrupted items (at most once). Each operation runs as a simulated process that may be killed, or lose power, before its n-th file system change; a power loss keeps a prefix of the metadata journal, and the data writes that were not flushed up to a random point in each file. After a repairing check, a query must match the model.",
     )


prop("C02",
     title="Failed imports change nothing, succeed when retried",
     statement="When an import fails because of a system error (I/O error, short write, full disk, too many open files), queries keep returning everything that was stored before, and of each segment the batch goes to either all or none of the new items appear, never damaged. Items reported as stored are there exactly once; retrying the failed ones once the errors stop succeeds and stores each of them. Checks and repacks run afterwards complete and keep it so.",
     over=["fault_sequences", "histories", "configurations"],
     qtext="every sequence of import batches, retries, checks and repacks on one dataset of either type, every data format and segment layout, with any system call of an import failing, short or interrupted, or the disk filling up at any byte",
     why="Tests fail an import by making a file read-only at one point; they do not reach the hundreds of system calls of an import at which an error leaves a different half-done state.",
     files=["arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/segment/metadata.cc", "arki/segment/iseg.cc", "arki/dataset/simple/writer.cc", "arki/dataset/simple/manifest.cc", "arki/dataset/iseg/writer.cc", "arki/core/transaction.cc"],
     mechanism=[("rollback of appended data", "arki/segment/data/fd.cc"), ("transactions around index updates", "arki/segment/iseg.cc"), ("write aside and rename of metadata", "arki/segment/metadata.cc")],
     observe="import results, and query results after each import, retry, check and repack",
     rule="Each case is a seeded plan of imports on one dataset, most of them with a random subset of fault kinds enabled, each verified by a fault-free query, then retried. Non-trivial: at least one item failed to import. Distinct: different event-log hash.",
     design="Model: minimum and maximum number of copies of each item (bag.h). A failed import raises the maximum only; the query that follows narrows it to what is there and checks the all-or-nothing rule per segment; a retry must succeed (or, where the index is unique, report a duplicate of an item that did get in).",
     )

prop("C03",
     title="Queries under I/O errors are exact or report an error",
     statement="A query, a summary query or a request for the data bytes that reports success has returned exactly the matching items with their own bytes and metadata (or their exact count and size), even when reads are short or interrupted, files cannot be opened, or the system reports I/O errors while it runs. When an error prevents that, the error is reported: no item is silently missing, repeated, or replaced by other bytes.",
     over=["fault_sequences", "configurations", "histories"],
     qtext="every dataset configuration and history of imports and one maintenance operation (repack, tar, zip, compress), every query by reference time, with any system call of the query failing, short or interrupted",
     why="Tests query intact files on a file system without errors; none injects a failing or short read in the middle of a query.",
     files=["arki/dataset/simple/reader.cc", "arki/dataset/iseg/reader.cc", "arki/segment/data/base.cc", "arki/segment/data/gz.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/metadata/reader.cc", "arki/utils/sys.cc", "arki/dataset/segmented.cc"],
     mechanism=[("readers for each segment layout", "arki/segment/data/base.cc"), ("metadata stream reader", "arki/metadata/reader.cc"), ("index queries", "arki/segment/iseg/index.cc")],
     observe="results and errors of query_data, query_summary and query_bytes",
     rule="Each case imports items, possibly converts segments, then runs queries with a random subset of read fault kinds enabled. Non-trivial: at least one fault was injected in a query. Distinct: different event-log hash.",
     design="Model: the set of stored items filtered by an independent reimplementation of the reference time match. A query that succeeds must return exactly that set, item by item with the right bytes; without injected faults it must succeed.",
     )


prop("C04",
     title="Queries are not disturbed by concurrent writers",
     statement="Queries and summary queries that run while other processes import, check, repack or convert the same dataset succeed and return every item that was stored when they started and not removed since, at most once, with its own bytes and metadata, and nothing that was never imported. Once the writers are done, the next query, data or summary, sees everything they stored: nothing computed while they ran is served as current afterwards.",
     over=["schedules", "histories", "configurations"],
     qtext="every interleaving of up to a few reader and writer processes on one dataset of either type, any format and layout; readers may read the data bytes long after getting the metadata, or slowly",
     why="Tests run one process, or two at one hand-made point; what a query sees depends on which of its dozens of system calls falls between which two of a writer's.",
     files=["arki/core/lock.cc", "arki/dataset/simple/reader.cc", "arki/dataset/simple/manifest.cc", "arki/dataset/simple/writer.cc", "arki/dataset/iseg/reader.cc", "arki/dataset/index/summarycache.cc", "arki/segment/iseg/index.cc", "arki/segment/metadata.cc", "arki/segment/data/fd.cc", "arki/segment/data/dir.cc"],
     mechanism=[("read, append and check locks", "arki/core/lock.cc"), ("sqlite WAL transactions", "arki/segment/iseg/index.cc"), ("atomic replacement of metadata, manifest and summaries", "arki/metadata/collection.cc")],
     observe="results of queries that overlap with writers, and of quiet queries afterwards",
     rule="Each case is a seeded plan of phases in which two to five simulated processes run at the same time under the seeded scheduler, preempted at system calls, sqlite locks and thread operations. Non-trivial: at least two processes overlapped. Distinct: different event-log hash.",
     design="Shared model: how many copies of each item are certainly there and how many may be there, updated when an operation starts and when it is acknowledged; each reader accumulates the range over its own lifetime and its results must fit. After each phase a query, summaries and a read-only check, run alone, must match the model exactly.",
     )

prop("C05",
     title="Concurrent writers lose nothing and duplicate nothing",
     statement="When several processes import into, check, repack or convert the same dataset at the same time, each import either succeeds or waits, and afterwards every acknowledged item is there exactly once (a copy for each acknowledgement where duplicates are allowed), with its own bytes and metadata. If some of the processes are killed, what the others acknowledged is still there after a repairing check, and the survivors and that check complete.",
     over=["schedules", "crash_points", "histories", "configurations"],
     qtext="every interleaving of up to a few importing and maintaining processes on one dataset of either type, any format and layout, each of which may be killed before any file system change",
     why="Tests start two importers and hope; the outcome depends on the interleaving of lock acquisition with the reading of manifests and indices.",
     files=["arki/core/lock.cc", "arki/dataset/simple/writer.cc", "arki/dataset/simple/manifest.cc", "arki/dataset/simple/checker.cc", "arki/dataset/iseg/writer.cc", "arki/dataset/iseg/checker.cc", "arki/segment/iseg.cc", "arki/segment/metadata.cc", "arki/segment/data/fd.cc"],
     mechanism=[("append and check locks", "arki/core/lock.cc"), ("manifest read under lock", "arki/dataset/simple/manifest.cc"), ("index transactions", "arki/segment/iseg.cc")],
     observe="import results, and query results after the phase (and, after a kill, after a repairing check)",
     rule="Each case is a seeded plan of phases in which two to five simulated writer processes run at the same time under the seeded scheduler, some killed midway. Non-trivial: at least two processes overlapped. Distinct: different event-log hash.",
     design="Same shared model and machinery as C04, with mostly writers and with kills.",
     )

HIST_ASSUME = ["operations follow one another by at least two seconds, since arkimet compares modification times with a granularity of one second"]

prop("C06",
     title="Summaries always match the data",
     statement="After any sequence of imports, removals, checks, repacks and conversions, the summary a dataset returns for any reference time query, whether computed or taken from a cache, counts exactly the items, bytes and reference time span that a data query with the same expression returns. Overall date extremes follow the same data.",
     over=["histories", "configurations"],
     qtext="every history of imports, removals, repairing checks, repacks, conversions and remove-all on one dataset of either type, with summaries and data queried in between, so that cached summaries of any age are in place",
     why="Cached summaries live in several places (dataset, month, segment) and are only wrong when a particular operation follows a particular query; tests do not run long mixed histories.",
     files=["arki/dataset/index/summarycache.cc", "arki/dataset/iseg/reader.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/reader.cc", "arki/dataset/simple/checker.cc", "arki/segment/metadata.cc", "arki/summary.cc"],
     mechanism=[("monthly and global summary cache", "arki/dataset/index/summarycache.cc"), ("segment summaries", "arki/segment/metadata.cc"), ("dataset summary", "arki/dataset/simple/reader.cc")],
     observe="query_summary compared with query_data for the same expression",
     rule="Each case is a seeded history of 4 to 20 operations with queries in between. Non-trivial: at least three operations. Distinct: different event-log hash.",
     design="Model: the set of stored items (model.h). After each operation a query and two summary queries (one of everything, one with a random reference time expression: partial dates, times of the day, time steps, sequences and alternatives) must match count, size and reference time span computed from the model. No faults are injected in these runs: what errors and crashes do is C08's.",
     extra_assume=HIST_ASSUME)

prop("C07",
     title="Dry runs change nothing and predict the real run",
     statement="arki-check without --fix, and repack, removal, conversion, remove-all or remove-old run as a simulation, leave every file of the dataset byte for byte as it was and queries unchanged. The actions they announce are the ones that the same operation then performs when run for real on the same dataset.",
     over=["histories", "configurations"],
     qtext="every history of imports, removals, clock changes and maintenance on one dataset of either type, with archive and delete ages, each maintenance operation run first as a simulation and then for real",
     why="Tests compare the messages of single operations on a fixed dataset; they do not compare the simulated and the real run over histories, nor the files.",
     files=["arki/dataset/maintenance.cc", "arki/dataset/segmented.cc", "arki/dataset/local.cc", "arki/dataset/simple/checker.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/archive.cc"],
     mechanism=[("mock and real agents", "arki/dataset/maintenance.cc"), ("read-only checkers", "arki/dataset/segmented.cc")],
     observe="hash of the file system and reporter messages",
     rule="Each case is a seeded history in which maintenance is run first simulated, then for real. Non-trivial: at least one simulated run. Distinct: different event-log hash.",
     design="The hash of the simulated file system (names, contents, modification times, except for lock files) must be the same before and after the dry run; messages of the dry run, translated from 'should be' to 'has been' actions, must equal those of the real run as a multiset of (action, segment).",
     extra_assume=HIST_ASSUME)

prop("C08",
     title="Interrupted maintenance loses and corrupts nothing",
     statement="If a check --fix, repack, removal, conversion to tar, zip or gz, archival or unarchival is killed at any point, hit by a power loss, or fails because of a system error, a repairing check run afterwards completes, and then every item that was stored is returned exactly once with its own bytes and metadata. Only items whose removal was under way, or had been done but not yet repacked, may be either present or absent. Summaries match what queries return.",
     over=["crash_points", "fault_sequences", "histories", "configurations"],
     qtext="every history of imports and maintenance operations on one dataset of either type, any format and segment layout, with archive ages and clock changes, each operation interrupted before any file system change by a kill or a power loss, or with any of its system calls failing",
     why="Each operation has tens of points between file system changes, and what survives depends on what the repairing check makes of the leftovers; tests never interrupt maintenance.",
     files=["arki/segment/data/dir.cc", "arki/segment/data/fd.cc", "arki/segment/data/gz.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/segment/data.cc", "arki/segment/metadata.cc", "arki/segment/iseg.cc", "arki/dataset/simple/checker.cc", "arki/dataset/simple/manifest.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/archive.cc"],
     mechanism=[("replacement of segment data", "arki/segment/data.cc"), ("ordering of data and index changes", "arki/segment/metadata.cc"), ("detection of inconsistent segments", "arki/dataset/segmented.cc")],
     observe="query and summary results after a repairing check",
     rule="Each case is a seeded history in which most maintenance operations are interrupted or run with faults enabled. Non-trivial: at least one crash or injected fault. Distinct: different event-log hash.",
     design="Model: range of copies of each item; an interrupted removal, or a removal not yet followed by a repack, widens it, anything else does not. After each interruption a repairing check without faults must succeed, and data and summaries must match the model.",
     extra_assume=HIST_ASSUME)

prop("C09",
     title="Maintenance preserves the contents of datasets",
     statement="Checks, repacks and conversions to tar, zip and gz that complete leave the set of items returned by any query, their bytes and their metadata unchanged (except for where they are stored), in any order and combination; so do taking segments back from the archive, moving the dataset or its archives elsewhere, and taking an archive offline (while it is, only its summary is there) and back. When they are done, every segment that can be converted is, and a further check finds nothing left to do that they should have done.",
     over=["histories", "configurations"],
     qtext="every history of imports, removals, checks, repacks, conversions, archivals, unarchivals and moves of the dataset and of its archives on one dataset of either type, any format, segment layout, step and gz group size",
     why="Tests run one operation on one dataset; defects live in combinations of layouts, formats and prior operations.",
     files=["arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/segment/data/gz.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/segment/metadata.cc", "arki/segment/iseg.cc", "arki/dataset/segmented.cc", "arki/dataset/maintenance.cc"],
     mechanism=[("segment conversion", "arki/segment/data.cc"), ("repack", "arki/segment/metadata.cc"), ("dataset maintenance", "arki/dataset/maintenance.cc")],
     observe="query results before and after maintenance, and reports of a further check",
     rule="Each case is a seeded history of maintenance operations, verified after each. Non-trivial: at least three operations. Distinct: different event-log hash.",
     design="Model: the set of stored items. After each operation data, bytes, metadata and summaries must match the model; after a repairing check, a second read-only check must have nothing to fix.",
     extra_assume=HIST_ASSUME)

prop("C10",
     title="Archive and delete ages act on exactly what is old enough",
     statement="At any time, repack and remove-old archive or delete exactly the segments all of whose data is older than the configured ages: nothing younger is archived or deleted, archived data is still returned by queries (also from archives that were renamed or made read only, and by archives opened by their own path), and what is old enough is moved or removed by the first repack that runs. Imports of data past the delete age are accepted and discarded, those past the archive age are refused. This holds when the clock moves forward or backwards between operations.",
     over=["histories", "configurations"],
     qtext="every history of imports, repacks, checks, remove-old and conversions with clock moves in either direction, with archive ages 0-9 and delete ages 0-29 days and all calendar steps",
     why="The outcome depends on the current time and on earlier archivals; tests run at one or two fixed times.",
     files=["arki/dataset/segmented.cc", "arki/dataset/archive.cc", "arki/dataset/maintenance.cc", "arki/dataset/local.cc", "arki/dataset/step.cc", "arki/dataset.cc"],
     mechanism=[("age checks", "arki/dataset/segmented.cc"), ("archival", "arki/dataset/archive.cc"), ("acquire age check", "arki/dataset/local.cc")],
     observe="query results and import results under a simulated clock",
     rule="Each case is a seeded history with clock moves. Non-trivial: the clock was moved. Distinct: different event-log hash.",
     design="Model: online and archived items with an independent computation of segment time spans and of the age thresholds. After each operation the online and archived copies must match.",
     extra_assume=HIST_ASSUME)

prop("C11",
     title="Removals are exact and final",
     statement="After arki-check --remove of a set of items, queries and summaries return everything else and nothing of what was removed, whatever the segment layout. Later checks, repacks, conversions and imports of other items do not bring the removed items back; importing a removed item again stores it again.",
     over=["histories", "configurations"],
     qtext="every history of imports, re-imports, removals of any subset (whole segments included), checks, repacks and conversions on one dataset of either type, any format and layout",
     why="Tests remove one item and query; whether it stays removed depends on what later operations rescan.",
     files=["arki/segment/metadata.cc", "arki/segment/iseg.cc", "arki/segment/data/dir.cc", "arki/dataset/segmented.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/checker.cc"],
     mechanism=[("removal from the index", "arki/segment/iseg.cc"), ("removal from segment metadata", "arki/segment/metadata.cc"), ("dispatch of removals to segments", "arki/dataset/segmented.cc")],
     observe="query and summary results after removals and later operations",
     rule="Each case is a seeded history with removals. Non-trivial: at least one removal. Distinct: different event-log hash.",
     design="Model: the set of stored items, minus those removed. After each operation data and summaries must match the model.",
     extra_assume=HIST_ASSUME)

prop("C12",
     title="iseg datasets keep one version of each datum, by the replace strategy",
     statement="An iseg dataset holds at most one version of each datum, as identified by its reference time and the metadata the dataset is configured to be unique by, and no query ever returns two. An import accepts or rejects each datum as its replace strategy says (never: only if there is none; always; by update sequence number: if it is higher than that of the version stored), and results and contents of any number of concurrent imports are those of the same imports run one after the other, each atomic in each segment. Interrupted imports leave each datum with its old or its new version; checks, repacks, conversions and rebuilding a lost index keep the current version and never bring back a replaced one.",
     over=["schedules", "histories", "configurations", "crash_points"],
     qtext="every interleaving of importing processes with colliding data and different replace strategies, of queries and of maintenance, with processes killed and imports failing for system errors, for every data format, and with or without a unique configuration",
     why="Tests import a handful of duplicates one at a time in one process. Races between the duplicate check and the write, replacements inside one batch, and what a rescan makes of replaced data left in the segment only show in interleavings and histories no test builds.",
     files=["arki/segment/iseg.cc", "arki/segment/iseg/index.cc", "arki/dataset/iseg/writer.cc", "arki/dataset/iseg/checker.cc", "arki/metadata/collection.cc", "arki/dataset/segmented.cc"],
     mechanism=[("replace strategies", "arki/segment/iseg.cc"), ("unique constraints of the index", "arki/segment/iseg/index.cc"), ("deduplication when rescanning", "arki/metadata/collection.cc")],
     observe="results of each import, and contents of queries and summaries while imports run and after them",
     rule="Each case is a seeded plan of phases of concurrent imports of data that share few identities, with queries and maintenance among and between them. Non-trivial: more than one process in a phase, a kill, or a fault. Distinct: different event-log hash.",
     design="Model: a map from identity to the version stored, per segment. After each phase the results of all imports, what all queries saw and the final contents must be explained by some order of the operations compatible with their real-time order (a linearizability check with memoised search, per segment); interrupted imports are optional in it, item by item. Versions with the same update sequence number may be accepted or rejected (the documentation and the tests disagree). Indices are also removed, to have them rebuilt from segments that still contain the versions replaced.",
     )


prop("C13",
     title="Dispatched data ends up exactly once where it is reported to be",
     statement="Each item handed to a dispatcher ends up in the dataset whose filter selects it, in the error dataset if none or more than one does, if it does not pass validation or if storing it fails, or in the duplicates dataset only if the first holds one with its identity; in every outbound dataset that selects it; and nowhere else. What is reported for each item, the counts of arki-scan and its copies of what was and was not imported agree with what datasets then contain, whatever other processes do or what system calls fail, and what is reported as not imported can be dispatched again without loss. A source that cannot be read does not affect the others, and a test dispatch gives the same answers and changes nothing.",
     over=["schedules", "fault_sequences", "histories", "crash_points", "configurations"],
     qtext="every sequence and interleaving of dispatches and of arki-scan runs over files (also truncated ones) by concurrent processes to the same datasets, for every filter and validation outcome, dataset type, data format and batch threshold, with any system call failing and processes killed anywhere",
     why="Tests dispatch one or two files to working datasets in one process. Losing or duplicating data on the way to a dataset takes an error halfway, a process interleaved with another, or long-lived dispatchers whose cached state others have changed.",
     files=["arki/dispatcher.cc", "arki/dataset/pool.cc", "arki/python/arki-scan/dispatch.cc", "arki/python/arki-scan/results.cc", "arki/dataset/outbound.cc", "arki/dataset/simple/writer.cc", "arki/dataset/simple/manifest.cc", "arki/dataset/iseg/writer.cc"],
     mechanism=[("routing by filters, with error and duplicates datasets", "arki/dispatcher.cc"), ("pool of dataset writers", "arki/dataset/pool.cc"), ("batches and result counts", "arki/python/arki-scan/dispatch.cc"), ("segment list shared by processes", "arki/dataset/simple/manifest.cc")],
     observe="result and destination of each item, arki-scan counts and copyok/copyko files, and query results of all datasets",
     rule="Each case is a seeded plan of phases; in each, one to three processes dispatch batches or scan files into the same datasets, among faults or kills, then datasets are compared with the model, and what failed is dispatched again. Non-trivial: more than one process in a phase, a kill, or a fault. Distinct: different event-log hash.",
     design="Model: a bag of items per dataset with minimum and maximum counts; an item may get anywhere on its route until its dispatch returns, then it must be where it is reported. Real components include RealDispatcher, TestDispatcher and arki-scan's MetadataDispatch (only the Python progress callback is a stub). When a dispatch ends with an exception its reports are not believed; what it handled may or may not be stored and is dispatched again. Items have one format per run.",
     )


prop("C14",
     title="Output streams deliver exactly what is sent, or report an error",
     statement="When every send operation on an output stream (buffers, lines, file segments; to a pipe, a file, a file in append mode or memory) succeeds, the destination gets exactly the bytes sent, in order, after what it had already, however the kernel splits the writes. Otherwise the destination gets a prefix of them and the failure (error, timeout, end of file on the destination) is reported; no failure is reported without a reason and no send blocks forever while the destination is being read.",
     over=["schedules", "inputs", "fault_sequences"],
     qtext="every sequence of send operations of up to 120 kB, to every kind of destination, under every interleaving with a consumer that reads in any chunk size, stalls or closes early, with short writes, EAGAIN, missing sendfile support, timeouts, interrupted polls and read errors",
     why="Unit tests replay a few mocked sequences of system calls, and real pipes that are never full.",
     files=["arki/stream/loops.tcc", "arki/stream/loops-send.tcc", "arki/stream/concrete.cc", "arki/stream/abstract.tcc", "arki/stream/buffer.cc", "arki/stream.cc"],
     mechanism=[("event loop for unfiltered output", "arki/stream/loops.tcc"), ("partial transfers", "arki/stream/loops-send.tcc")],
     observe="bytes received by the consumer process, results and exceptions of send operations",
     rule="Each case is a seeded sequence of sends with a seeded schedule and faults. Non-trivial: at least two bytes were sent. Distinct: different event-log hash.",
     design="Contents that tell their position are sent; what the consumer got must be equal to what was sent, or a prefix of it if a failure was reported (or the consumer closed its end), and a failure needs a reason that was injected. Half of the destinations have contents already (a file in append mode from its start, a file positioned at its end, a buffer), which must stay, and the descriptor must be left in the mode it was in.",
     extra_assume=["A file description shared with another writer is not simulated: the destination has one writer."])

prop("C15",
     title="Postprocessing filters get all the input and deliver all the output",
     statement="A filter attached to an output stream gets exactly what is sent, and all that it writes to its standard output reaches the destination in order, unless an error is reported: also when it exits with data still in the pipe while the destination is slow, closes its output or its input early, writes to standard error or when splice or sendfile are not available. A filter that exits with an error or is killed is always reported, with its standard error; one that succeeds is not. Stopping or aborting a filter never hangs, and never leaves it running, also when it fails. A query with a postprocessor sends it the metadata and data of what it matches, reports its failure, and runs only programs that the dataset allows.",
     over=["schedules", "inputs", "fault_sequences"],
     qtext="every sequence of sends through ten kinds of filter programs with any buffer sizes, delays and exit codes, killed at any time, under every interleaving of the writer, the filter and a consumer that stalls or closes early, with short and refused transfers, missing splice and sendfile support, timeouts and interrupted polls; queries of datasets in all formats through the same programs, allowed or not",
     why="The outcome depends on the order in which three processes fill and drain four pipes; unit tests run one fast filter or replay mocked polls.",
     files=["arki/stream/concrete-parts.tcc", "arki/stream/loops.tcc", "arki/stream/concrete.cc", "arki/stream/abstract.tcc", "arki/stream/base.cc", "arki/stream/filter.cc", "arki/utils/subprocess.cc", "arki/metadata/postprocess.cc", "arki/dataset.cc"],
     mechanism=[("event loop with a filter", "arki/stream/concrete-parts.tcc"), ("fallback when splice is not available", "arki/stream/concrete.cc"), ("end of the filter", "arki/stream/base.cc")],
     observe="bytes received by the consumer process, what the filter process read and wrote, exceptions and results of stop_filter",
     rule="Each case is a seeded sequence of filters and sends with a seeded schedule and faults. Non-trivial: at least two bytes were sent or generated. Distinct: different event-log hash.",
     design="Simulated programs do ordinary blocking I/O on the pipes made by the real code; all they read and write is recorded. Their input must be equal to what was sent (or a prefix if they stop reading), the destination must get all they wrote, and failures must be reported. A run with no process able to make progress is a violation.",
     extra_assume=["Filters are simulated programs run in forked simulated processes; exec and the shell are not run."])


prop("C16",
     title="A query over many datasets is the ordered union of their queries",
     statement="A query over any set of datasets and files delivers exactly the matching data that each of them would deliver alone, each once and with its own metadata and bytes, in order of reference time or of the requested sort expression, and its summaries count the same data. It stops delivering as soon as its consumer stops or fails, reports that outcome and no other, reports progress once, and fails if any component fails. It never hangs or ends the process, however its threads are scheduled and also when they cannot be started, and leaves the process umask and the permissions of the files it creates as they should be.",
     over=["schedules", "fault_sequences", "inputs"],
     qtext="every interleaving of the reader threads of one to six datasets, archives and files with each other, with the consumer and with concurrent imports and queries; every sort expression; consumers that are slow, stop or throw at any item; read errors, missing file descriptors and threads that cannot be started; datasets found by their path, through a configuration file or given directly",
     why="Reader threads hand data over through bounded queues and share the process: which thread is ahead, blocked or missing when the consumer stops is decided by the scheduler, and tests run one undisturbed query.",
     files=["arki/dataset/merged.cc", "arki/dataset/pool.cc", "arki/dataset/file.cc", "arki/metadata/sort.cc", "arki/query/progress.cc", "arki/dataset/simple/reader.cc", "arki/dataset/iseg/reader.cc", "arki/dataset/archive.cc", "arki/utils/sys.cc"],
     mechanism=[("merge of reader threads", "arki/dataset/merged.cc"), ("sorted streams", "arki/metadata/sort.cc"), ("temporary files", "arki/utils/sys.cc")],
     observe="data, bytes and summaries received by each query and what it returned or threw; calls made on the progress object; umask of the process and permissions of the files",
     rule="Each case is a seeded set of datasets, a sequence of imports and queries and a seeded schedule and faults. Non-trivial: at least one query of data that is there. Distinct: different event-log hash.",
     design="The model is the set of items stored in each dataset before (lower bound) and during (upper bound) the query. Threads of the process under test are coroutines of the simulator, switched at every system call, mutex and condition variable operation. A run with no thread able to make progress is a violation.",
     extra_assume=["Threads are preempted at system calls and at mutex, condition variable and thread operations, not between two memory accesses.", "Summaries of simple datasets select data by reference time one segment at a time (they are checked exactly with daily segments only)."])


prop("C17",
     title="What arki-query writes is what the tools downstream read",
     statement="The output of a query that succeeds, as metadata with or without data, YAML, JSON, raw data, summaries or tar and zip archives, has each matching item exactly once, and every reader of that format gets back the same metadata, sources and bytes, in whatever pieces the output is written and read, from a pipe or as a dataset made of that file, also when it is queried repeatedly. When the writer fails or is killed, a reader of binary metadata gets the records that were written whole and no others, and truncated data or summaries are errors. A writer that could not write everything reports it.",
     over=["fault_sequences", "inputs", "schedules", "crash_points"],
     qtext="every set of one to three datasets of any configuration, every output mode and reader, every size of the pipe and of the pieces in which it is written and read, slow readers and readers that stop, writers killed before any system call, and any system call of writer or reader failing",
     why="Tests encode and decode whole buffers in memory or small files; splits, short reads and streams cut at each byte between two processes are decided by the pipe, the schedule and the faults.",
     files=["arki/metadata.cc", "arki/metadata/reader.cc", "arki/metadata/stream.h", "arki/types/bundle.cc", "arki/python/cmdline/processor.cc", "arki/metadata/libarchive.cc", "arki/dataset/file.cc", "arki/summary.cc", "arki/structured/json.cc", "arki/core/file.cc", "arki/stream/base.cc", "arki/stream/concrete.cc"],
     mechanism=[("framing of metadata", "arki/types/bundle.cc"), ("readers of metadata files", "arki/metadata/reader.cc"), ("incremental parser of streams", "arki/metadata/stream.h"), ("output of arki-query", "arki/python/cmdline/processor.cc"), ("files as datasets", "arki/dataset/file.cc")],
     observe="bytes in the pipe or file, records and summaries given by the reader, outcome of both",
     rule="Each case is a seeded set of datasets and a sequence of writer and reader pairs, with seeded pipe and piece sizes, kills, stops and faults. Non-trivial: something matched the query. Distinct: different event-log hash.",
     design="The bytes that went through the pipe are recorded and split into records by an independent parser (walk.h). They are compared with the model of what is stored (what the writer owes) and with what the reader delivered (what the reader owes). Errors of either side are excused only when a fault was injected in it, or the other side ended early.",
     extra_assume=["arki::metadata::Stream cannot tell missing inline data at the end: its users check, and C18 covers that.", "A short read of a regular file is end of file or an error, as for C03."])


prop("C18",
     title="Queries of remote datasets are complete or report an error",
     statement="A query of datasets served by other hosts, alone or together with local ones, that reports success has delivered exactly the matching metadata, data or summary of each of them, with sources that point to the server, and the aliases and configuration it used are those of the servers. When a server cannot be reached, answers with an error, redirects without end, or the connection ends early in a way that the protocol or the structure of the response lets one tell, the query fails, with the message of the server if there is one, after delivering only what was received whole. It never hangs, makes requests without end, or sends more to a consumer that stopped or failed.",
     over=["fault_sequences", "inputs", "configurations"],
     qtext="every placement of one to four datasets on two servers and the client, every query mode, matcher, alias and sort, responses in pieces of any size, cut at any byte, delimited or not, refused, timed out, redirected, replaced by garbage or by an error, consumers that stop or throw, and any system call failing in the server",
     why="The tests need a server written in Python and a network that works; they do not cut responses, and cannot choose where.",
     files=["arki/dataset/http.cc", "arki/core/curl.cc", "arki/metadata/stream.h", "arki/dataset/merged.cc", "arki/dataset/pool.cc", "arki/summary.cc", "arki/core/binary.cc", "arki/matcher/aliases.cc", "arki/core/cfg.cc"],
     mechanism=[("client of remote datasets", "arki/dataset/http.cc"), ("requests and redirects", "arki/core/curl.cc"), ("incremental parser of streams", "arki/metadata/stream.h"), ("conflicts of aliases", "arki/dataset/pool.cc")],
     observe="metadata, data and summaries delivered, errors reported, and requests received by the servers",
     rule="Each case is a seeded set of datasets, servers and queries, with a seeded network failure for some of the requests. Non-trivial: at least one request was made. Distinct: different event-log hash.",
     design="libcurl is replaced by a simulated one that calls back the client code as libcurl does. Responses are made by the same library calls that arki-server makes, on the simulated datasets, then cut, split, redirected or replaced. The model is the set of stored items, and the exchanges tell which failures the client could notice.",
     extra_stub=["libcurl (sim/curlstub.cc)", "the Python part of arki-server"],
     extra_assume=["The server is the part of arki-server that is in the library (queries, summaries, aliases, expansion): its Python code is not run.", "A response without length cut between two records, raw data, aliases and configuration that are cut short, and other content sent in their place, cannot be told from good ones and are not judged."])

prop("C19",
     title="Dataset locks exclude what they say and are always obtained",
     statement="On each dataset or segment, at any time at most one process or thread holds an append or a check lock; while one holds the write lock that a check escalated to, nobody else holds a lock of any kind; readers wait for nothing else, and are let in again as soon as the last user of the escalation ends. A lock that is waited for is obtained once those in the way are released or their owners are killed, however signals interrupt the wait, and nothing stays locked when everybody has ended.",
     over=["schedules", "crash_points", "fault_sequences"],
     qtext="every interleaving of up to seven processes with up to two threads each that take read, append, check and write locks on a dataset or on its segments, hold them for any time, escalate and go back repeatedly, are killed at any time, and have their waits interrupted",
     why="The tests take locks from one process, and never wait.",
     files=["arki/core/lock.cc", "arki/dataset/lock.cc", "arki/dataset/simple.cc", "arki/dataset/iseg.cc", "arki/utils/sys.cc"],
     mechanism=[("locks as byte ranges of a lock file", "arki/core/lock.cc"), ("waiting and retrying", "arki/utils/sys.cc")],
     observe="who is inside a section protected by each kind of lock, at each step",
     rule="Each case is a seeded set of processes and threads, each with a sequence of locks to take and hold. Every case is non-trivial. Distinct: different event-log hash.",
     design="The simulated kernel implements open file description locks. Each process records when it enters and leaves the sections that its locks protect; at every step inside one of them the check verifies who else is inside. A deadlock, or a run that does not end, is a violation, and in the end a new process must get all the locks.",
     )

prop("C20",
     title="arki-xargs hands each datum to the command once, or fails",
     statement="When arki-xargs succeeds, each datum of its input has been given whole, once and in order to an invocation of the command that succeeded, in groups that respect the given number of items, size, time interval and time range and are not smaller than needed, with a file, arguments and environment that describe them. When the command fails, cannot be run, or is killed, or data cannot be read or written, it reports an error and runs nothing more. No temporary file is left behind either way.",
     over=["inputs", "fault_sequences", "configurations"],
     qtext="every input of data of mixed formats, times and time ranges, from files or a pipe, cut at any byte, every grouping option, commands that fail, are slow or killed at any invocation, and any system call failing",
     why="The tests run a command that works on a few items; they do not kill it, nor fail system calls.",
     files=["arki/metadata/xargs.cc", "arki/metadata/clusterer.cc", "arki/utils/subprocess.cc", "arki/metadata/reader.cc"],
     mechanism=[("grouping of data", "arki/metadata/clusterer.cc"), ("running the command on a temporary file", "arki/metadata/xargs.cc"), ("child processes", "arki/utils/subprocess.cc")],
     observe="the files, arguments and environment that each invocation gets, the outcome reported, and the files left",
     rule="Each case is a seeded list of runs, each with its input, options and a command that may fail. Every case is non-trivial. Distinct: different event-log hash.",
     design="The command is a simulated process that reads the file it is given and then exits, fails or is killed as the plan says. The model is the list of input items: the files of the invocations, one after the other, must be its beginning, or all of it if arki-xargs succeeds.",
     extra_stub=["the Python binding of arki-xargs (the harness makes the same library calls)"],
     extra_assume=["A metadata cut at the end of the input is an end of input, as elsewhere in arkimet."])

# Pure functions of their input: nothing to schedule, nothing to fail
prop("N01",
     title="A query selects exactly what its expression means",
     statement="A match expression selects a metadata if and only if each of its conditions holds, as documented for each type and for each of the styles of its values. Parsing, printing, expanding and optimising an expression do not change what it selects.",
     over=["inputs"], qtext="every expression and every metadata",
     why="Tests sample a few expressions of each type.",
     files=["arki/matcher.cc", "arki/matcher/parser.cc", "arki/matcher/reftime.cc"],
     mechanism=[("parser", "arki/matcher/parser.cc")], observe="Matcher::operator() and toString",
     rule="", design="",
     na="A pure function of an expression and a metadata: no concurrency, time, I/O or party for a simulator to control. Only expressions on reference time and aliases are checked, as parts of C03, C16 and C18.")

prop("N02",
     title="Scanning extracts the metadata that is in the data",
     statement="Scanning a GRIB, BUFR, ODIMH5, NetCDF, JPEG or VM2 datum gives the metadata that its headers contain, and the offset and size of each datum in a file.",
     over=["inputs"], qtext="every file of a supported format",
     why="Tests scan a few sample files.",
     files=["arki/data/grib.cc", "arki/data/bufr.cc", "arki/data/odimh5.cc", "arki/data/vm2.cc"],
     mechanism=[("scanners", "arki/data.cc")], observe="metadata returned by scanners",
     rule="", design="",
     na="A pure function of the bytes, computed by libraries (eccodes, wreport, HDF5, meteo-vm2) that are partly not installed and that the simulator replaces with stubs.")

prop("N03",
     title="Encodings and orderings of metadata and summaries are consistent",
     statement="Encoding and decoding a metadata item or a summary in memory, as binary, text, YAML or JSON, gives back an equal one. Comparison is a total order consistent with equality, and merging summaries is associative and commutative.",
     over=["inputs"], qtext="every value of every metadata type",
     why="Tests sample a few values of each type.",
     files=["arki/types.cc", "arki/types/product.cc", "arki/summary/table.cc", "arki/summary/codec.cc"],
     mechanism=[("types", "arki/types.cc")], observe="decoded values",
     rule="", design="",
     na="Pure functions in memory. What streams, pipes, files and faults do to encoded data is C17.")

prop("N04",
     title="Time and interval arithmetic is exact",
     statement="Normalisation, ordering, steps of segments and relative times agree with the proleptic Gregorian calendar, and intervals are half-open with the set operations that their names say.",
     over=["inputs"], qtext="every time and interval",
     why="Tests sample a few dates.",
     files=["arki/core/time.cc", "arki/dataset/step.cc"],
     mechanism=[("time", "arki/core/time.cc")], observe="results of the functions",
     rule="", design="",
     na="Pure functions. Their uses against the clock (ages of archived and deleted data) and in segment names are checked by C10 and by all dataset histories.")



def real(p):
    return P[p].get("real") or REAL


def stub(p):
    return STUB + P[p].get("extra_stub", [])


def assumptions(p):
    return ASSUME + P[p].get("extra_assume", [])


def rule(p):
    return P[p]["rule"]
