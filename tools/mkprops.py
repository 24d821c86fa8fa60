#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "A snapshot shows exactly the annotations open on its thread",
     "A context snapshot taken on a thread contains exactly the attribute/value pairs that this thread has begun or set and not yet ended, nested regions in the order they were opened, by-value attributes with their latest value, and nothing opened by any other thread. "
     "This holds for every interleaving of the threads, for any number of attributes up to the documented snapshot capacity, and for the innermost value returned when a single attribute is read back. "
     "A mismatched end is reported and stops region tracking on the offending thread only; no other thread's context changes.",
     ["schedules", "histories", "inputs"], "every history of begin/set/end/snapshot/read operations of nested, plain, unaligned, by-value and hidden attributes over 1-5 threads, and every interleaving of those threads",
     "The unit tests run one thread with a handful of attributes; collisions of the per-thread table, reference paths shared between threads and mis-nesting while other threads run are never exercised.",
     ["src/caliper/Caliper.cpp", "src/caliper/Blackboard.cpp", "src/caliper/MetadataTree.cpp", "src/caliper/cali.cpp", "include/caliper/Caliper.h"],
     [("per-thread blackboard with open addressing", "src/caliper/Blackboard.cpp"), ("path replace / remove-first-in-path in the shared context tree", "src/caliper/MetadataTree.cpp"), ("stack check in handle_end", "src/caliper/Caliper.cpp")],
     ["Caliper::pull_snapshot", "push_snapshot -> process_snapshot event", "Caliper::get", "Caliper::get_path_node"])

prop("C02", "One name is one attribute, for every thread and forever",
     "However many threads create or look up attributes at the same time, a name maps to exactly one attribute: all callers get the same identifier, type and properties, different names get different identifiers, and an attribute once returned can be found by name and by identifier from every thread with unchanged name, type, properties and metadata. "
     "A lookup never returns a partly built attribute, and each channel is told about each new attribute exactly once, before any thread can see it.",
     ["schedules", "histories"], "every interleaving of 2-6 threads creating, finding and listing overlapping sets of attributes with varying types, properties and metadata",
     "The attribute tests create attributes from a single thread; the create/create and create/find races have no test.",
     ["src/caliper/Caliper.cpp", "src/caliper/MetadataTree.cpp", "src/common/Attribute.cpp"],
     [("attribute lock with re-check before publication", "src/caliper/Caliper.cpp create_attribute"), ("lock-free child lists of the metadata tree", "src/caliper/MetadataTree.cpp")],
     ["Caliper::create_attribute", "Caliper::get_attribute", "Caliper::find_attributes_with_prop", "create_attr_evt"])

prop("C03", "A context reference always resolves to the path it was made for",
     "A context-tree reference obtained from a snapshot or built by the application resolves, on every thread and at any later time, to exactly the attribute/value sequence it was created from, and two different paths never share a reference or identifier. "
     "Every identifier handed out can be looked up again, walking from any reference to the root always ends, and string and binary values keep their full contents even after the caller's buffer is reused.",
     ["schedules", "histories", "inputs"], "every interleaving of 2-6 threads extending, replacing and reading shared context paths with values of all types and sizes",
     "Unit tests of the tree use a single thread and short paths; concurrent insertion below the same parent, pool and block boundaries and simultaneous lookups are untested.",
     ["src/caliper/MetadataTree.cpp", "src/caliper/MemoryPool.cpp", "include/caliper/common/util/lockfree-tree.hpp", "src/common/Node.cpp"],
     [("compare-and-swap insertion of child nodes", "include/caliper/common/util/lockfree-tree.hpp"), ("per-thread node blocks claimed atomically", "src/caliper/MetadataTree.cpp"), ("per-thread memory pool", "src/caliper/MemoryPool.cpp")],
     ["Caliper::make_tree_entry", "Caliper::node", "SnapshotView"])

prop("C04", "On-line aggregation conserves every snapshot",
     "At a flush, the aggregated records of each distinct combination of key attribute values add up to exactly the count, sum, minimum, maximum and average of the snapshots processed with that combination on all threads since the last clear, including threads that have exited (each thread that saw a combination may contribute a record of its own for it). "
     "No snapshot is lost, duplicated or counted under another key, for any key configuration, any number of attributes and any interleaving of the threads.",
     ["schedules", "histories", "configurations"], "every history of snapshots with arbitrary keys and values over 1-5 threads, explicit, implicit and default aggregation keys, and every interleaving and thread exit",
     "Tests aggregate a handful of records from one thread against golden output; table growth, key sets with many attributes, attributes created while running and threads exiting around a flush are not reached.",
     ["src/services/aggregate/Aggregate.cpp", "src/services/aggregate/AggregationDB.cpp"],
     [("per-thread aggregation tables merged at flush", "src/services/aggregate/Aggregate.cpp"), ("hash table of keys and kernels with inclusive pools", "src/services/aggregate/AggregationDB.cpp")],
     ["records passed to the flush callback"])

prop("C05", "A trace holds every snapshot exactly once, in thread order",
     "A flushed trace contains every snapshot taken while tracing, exactly once and with unchanged contents, with the snapshots of each thread in the order in which they were taken, including those of threads that have exited. "
     "With a bounded buffer, only whole snapshots are dropped and the number reported as dropped equals the number missing; with flush-on-full nothing is written twice, and only snapshots that other threads take during such a flush may be dropped and are reported.",
     ["schedules", "histories", "configurations"], "every history of snapshots of varying size over 1-5 threads, every buffer size and buffer policy, interleaved with flush and clear",
     "The trace tests take a few snapshots with one large buffer; chunk boundaries, policies at overflow and many threads are not tested.",
     ["src/services/trace/Trace.cpp", "src/services/trace/TraceBufferChunk.cpp"],
     [("per-thread chunk chains", "src/services/trace/TraceBufferChunk.cpp"), ("buffer policy on a full chunk", "src/services/trace/Trace.cpp")],
     ["records passed to the flush callback", "end-of-run statistics in the log"])

prop("C06", "Measured time equals elapsed time, attributed to the right region",
     "Under any clock behaviour the operating system may show and any interleaving, the time durations recorded by a thread add up to the time that passed on that thread's clock between its first and last measurement, each interval attributed to the context that was open during it. "
     "Inclusive durations equal the time between begin and end of a region that was entered and left while the channel was active, no duration is negative, and a jump of the wall clock changes no duration.",
     ["schedules", "histories", "fault_sequences"], "every history of nested regions, timed by a simulated clock, over 1-4 threads with wall-clock jumps and stalls",
     "Tests run against the real clock and can only check that a duration is present or positive.",
     ["src/services/timer/Timer.cpp", "src/caliper/AsyncEvent.cpp", "src/services/event/EventTrigger.cpp"],
     [("per-thread last-snapshot time and inclusive timer stack", "src/services/timer/Timer.cpp"), ("snapshot before and after region events", "src/services/event/EventTrigger.cpp")],
     ["time attributes of processed snapshots"])

prop("C07", "Sampling signals never corrupt, deadlock or misattribute",
     "A sampling signal may arrive on a thread at any instruction, including inside this library or the memory allocator, without deadlock, crash, corrupted records or a changed result of the interrupted operation. "
     "Every sample that is recorded carries a context that was open on its thread at that moment, samples that cannot be taken safely are dropped, and no sampling timer outlives its thread or channel.",
     ["schedules", "fault_sequences", "histories"], "every arrival point of timer signals in every interleaving of annotating, sampled threads, together with failing timer system calls",
     "Real timers hit a random, unrepeatable instruction; the tests only check that some samples arrive.",
     ["src/services/sampler/Sampler.cpp", "src/caliper/Caliper.cpp", "include/caliper/common/util/callback.hpp"],
     [("per-thread lock flag tested by the signal handler", "src/caliper/Caliper.cpp sigsafe_instance"), ("per-thread timers", "src/services/sampler/Sampler.cpp")],
     ["process_snapshot event with sampler attribute", "active simulated timers at exit"])

prop("C08", "Threads may come and go without losing or leaking data",
     "Starting and ending threads at any time, including threads that never annotate, threads that exit with open regions and threads that exit while another thread flushes or takes snapshots, leaves every other thread's data intact, and everything an exited thread recorded appears exactly once in later output. "
     "Thread start and end notifications are delivered exactly once per thread that uses the library, and an ended thread stops contributing to what is collected afterwards.",
     ["schedules", "histories"], "every schedule of creation, use and exit of up to 12 short-lived threads against flushes and snapshots of others",
     "Tests create a fixed set of threads that are joined before any output is written.",
     ["src/caliper/Caliper.cpp", "src/services/trace/Trace.cpp", "src/services/aggregate/Aggregate.cpp", "src/services/sampler/Sampler.cpp"],
     [("thread-local data destructor", "src/caliper/Caliper.cpp ThreadData"), ("retired flags of per-thread buffers", "src/services/trace/Trace.cpp")],
     ["create_thread_evt / release_thread_evt", "flushed records"])

prop("C09", "Concurrent first use initialises the library exactly once",
     "When several threads make the program's first calls into the library at the same time, through any entry point, initialisation happens exactly once and before any of these calls takes effect: every thread sees the same attributes, channels and configuration, no call is lost, and none crashes or blocks forever. "
     "Configured channels and services are created once, and the end of the thread that happened to be first does not end data collection for the others.",
     ["schedules"], "every interleaving of 2-5 threads performing their first begin, attribute creation, channel or configuration call",
     "Each test process initialises the library once from its main thread.",
     ["src/caliper/Caliper.cpp", "src/caliper/cali.cpp"],
     [("double-checked initialisation lock", "src/caliper/Caliper.cpp instance()"), ("initial-thread marker in thread-local data", "src/caliper/Caliper.cpp")],
     ["create_channel / initialisation messages", "attributes and snapshots after start"])

prop("C10", "Finishing the program writes each channel's data exactly once",
     "However the program ends (normal return, exit from any thread, explicit finalize, other threads still annotating, or static destructors that annotate), every channel with flush-on-exit active is written exactly once with all data collected before the end began, and each service's finish notification is delivered exactly once. "
     "Calls into the library during or after the end have no effect and neither crash nor deadlock.",
     ["schedules", "crash_points", "histories"], "every interleaving of process end with running threads, and every order of explicit finalize, exit handlers and destructors",
     "Tests end with a clean return from main on a single thread.",
     ["src/caliper/Caliper.cpp", "src/caliper/cali.cpp", "src/services/recorder/Recorder.cpp"],
     [("release state and atexit/TLS destructor order", "src/caliper/Caliper.cpp release()"), ("flush_on_exit in channel finish", "src/caliper/Caliper.cpp")],
     ["output streams after process end", "finish_evt"])

prop("C11", "Channels are independent and only active channels record",
     "An active channel sees every event and snapshot exactly once, an inactive one sees none, and what one channel is configured to do, its activation, deactivation, flush, clear or deletion never changes what another channel records. "
     "Region context is shared by all channels: a region begun while a channel was inactive is part of its snapshots once it is active again, and data set on one channel is visible only through that channel (its value lookups, globals and flush information).",
     ["schedules", "histories", "configurations"], "every history of channel creation, activation, deactivation, deletion, flush and clear interleaved with annotations over 1-4 threads and 1-5 channels",
     "Tests use two channels in a fixed single-threaded order.",
     ["src/caliper/Caliper.cpp", "src/services/Services.cpp", "include/caliper/Caliper.h", "include/caliper/common/util/callback.hpp"],
     [("per-channel callbacks and active channel list", "src/caliper/Caliper.cpp"), ("channel blackboard", "src/caliper/Caliper.cpp")],
     ["per-channel process_snapshot and event callbacks", "per-channel flushed records"])

prop("C12", "Flushing while other threads annotate loses and invents nothing",
     "A flush that runs while other threads take snapshots outputs every snapshot completed before it started, only whole and unchanged records, and nothing twice; the other threads keep running and their data stays valid. A snapshot taken while its thread's data is being flushed may be dropped, but only as a whole, and is then counted as dropped. "
     "Flushing again without a clear outputs the earlier data again, and after a clear only later data remains.",
     ["schedules", "histories"], "every interleaving of flush, clear and write operations with annotating threads, for tracing and aggregating channels",
     "Tests flush after all threads have stopped.",
     ["src/services/trace/Trace.cpp", "src/services/aggregate/Aggregate.cpp", "src/caliper/Caliper.cpp"],
     [("stopped flag of thread buffers during flush", "src/services/trace/Trace.cpp"), ("thread list lock", "src/services/aggregate/Aggregate.cpp")],
     ["records passed to the flush callback"])

prop("C13", "Failing output never harms the program or garbles earlier output",
     "When writing profile or trace output fails at any point (file cannot be created, disk full, I/O error, short or interrupted write, or the process dies), the application continues unaffected, and the bytes that reached the file are a prefix of the output a fault-free run would have produced, so every complete line is valid. "
     "Interrupted or short writes that can be continued lose nothing, and a failed output is followed by correct output for later flushes and other channels.",
     ["fault_sequences", "crash_points", "histories"], "every sequence of I/O faults and crash points during the writing of one or more outputs in every output format",
     "Tests only write to working file systems.",
     ["src/common/OutputStream.cpp", "src/reader/CaliWriter.cpp", "src/services/recorder/Recorder.cpp", "src/services/report/Report.cpp"],
     [("lazy stream initialisation and stream kinds", "src/common/OutputStream.cpp"), ("node-before-use order of records", "src/reader/CaliWriter.cpp")],
     ["simulated file contents"])

prop("C14", "Reading damaged profile data fails cleanly and keeps intact records",
     "Reading a data file that was truncated, had bytes flipped, lines lost, duplicated or reordered, or whose reads fail part-way never crashes, hangs or corrupts memory, and every complete record preceding the first damage is delivered with exactly its original contents. "
     "Merging several files, also concurrently from several threads into one metadata database, gives the same records as reading them one after another.",
     ["fault_sequences", "inputs", "schedules"], "every fault sequence applied to the bytes and read calls of valid data files, and every interleaving of concurrent readers",
     "The reader tests use intact files only.",
     ["src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp", "src/reader/Preprocessor.cpp"],
     [("id map and node merge", "src/reader/CaliperMetadataDB.cpp"), ("record parser", "src/reader/CaliReader.cpp")],
     ["records delivered by the reader"])

prop("C15", "Cross-process aggregation equals aggregating all data in one place",
     "Aggregating profiles across any number of processes gives, for every key, the same counts, sums, minima and maxima as aggregating all the processes' records in one place, whatever the message timing, the process arrival order or which processes have no data. "
     "The collective output is written exactly once, and every process returns from the collective call.",
     ["schedules", "fault_sequences", "configurations"], "every number of ranks from 1 to 13, message delays, slow ranks, eager or rendezvous delivery, and per-rank data distributions",
     "MPI tests need an MPI launcher and use one fixed, lucky message order.",
     ["src/caliper/aggregate_over_mpi.cpp", "src/caliper/collective_flush.cpp", "src/caliper/OutputCommMpi.cpp", "src/reader/Aggregator.cpp"],
     [("binary reduction tree over ranks", "src/caliper/aggregate_over_mpi.cpp"), ("collective output channel and communicator", "src/caliper/CollectiveOutputChannel.cpp")],
     ["output written by rank 0"])

prop("C16", "Process-wide values behave as one shared, atomic variable",
     "Process-scope, global and channel-scope attributes behave like single shared variables: concurrent begin, set, end, exchange and read operations take effect one at a time in some order consistent with each thread's calls, exchange returns the value it replaced, and no update is lost. "
     "Every snapshot on any thread contains the value current at some moment during the call, values never go backwards within a thread, and global attributes appear in every output.",
     ["schedules", "histories"], "every interleaving of 2-5 threads operating on shared process-scope, global and channel attributes and taking snapshots",
     "Tests set process-scope values from one thread.",
     ["src/caliper/Caliper.cpp", "src/caliper/Blackboard.cpp", "src/caliper/cali.cpp"],
     [("process blackboard lock", "src/caliper/Caliper.cpp"), ("cached process snapshot with update count", "src/caliper/Caliper.cpp")],
     ["get / exchange / snapshots / get_globals"])

prop("C17", "MPI calls and messages are recorded exactly once",
     "With the MPI service enabled, every MPI call gives the program the same results as without it, and shows as exactly one region with matching begin and end in every channel that was active throughout. "
     "Every message sent and every receive completed - by whichever call completes it, in whatever order, on whichever thread - and every collective appears exactly once in the trace of each channel that traces messages, with its true partner, tag, size and communicator; cancelled receives, inactive requests and requests that were started, completed or freed while the channel was inactive never produce a record, and reused request or communicator handles are never taken for earlier ones. "
     "The message pattern totals of a communication region equal the messages sent, received and exchanged in it.",
     ["schedules", "histories", "inputs"], "every sequence of MPI calls over 1-4 threads (MPI_THREAD_MULTIPLE), every order and delay of message and request completion, reuse of handles, and channels created, deleted, activated and deactivated at any point, also during a call",
     "The MPI tests run one program with a handful of blocking and non-blocking calls on a single thread.",
     ["src/services/mpiwrap/Wrapper.w", "src/services/mpiwrap/MpiTracing.cpp", "src/services/mpiwrap/MpiPattern.cpp", "src/services/mpiwrap/MpiWrap.cpp"],
     [("request and communicator maps", "src/services/mpiwrap/MpiTracing.cpp"), ("completion of requests", "src/services/mpiwrap/Wrapper.w")],
     ["mpi.function regions and mpi.msg/mpi.coll/mpi.comm attributes of processed snapshots", "results of the MPI calls"])

prop("C18", "Memory tracking matches the live allocations at every moment",
     "With allocation tracking enabled, the region a tracked address is attributed to is the live allocation that contains it, the reported active memory and high-water mark equal the sum and maximum over all tracked allocations minus frees, and every allocation and free is reported exactly once, for any interleaving of allocations and frees by several threads and any reuse of addresses. "
     "Freeing an untracked address or allocating over a stale range leaves the accounting of the other allocations intact.",
     ["schedules", "histories"], "every interleaving of tracked allocations, frees, address reuse and address lookups over 1-4 threads",
     "The allocation tests track a few arrays from one thread.",
     ["src/services/alloc/AllocService.cpp", "src/services/alloc/SplayTree.hpp", "src/caliper/cali_datatracker.cpp"],
     [("splay tree of allocations under a lock", "src/services/alloc/AllocService.cpp")],
     ["alloc.* attributes of processed snapshots"])

prop("C19", "Configured measurement runs start, stop and report as requested",
     "A configured set of profiling configurations can be started, stopped and flushed any number of times, from any point of a running multi-threaded program: regions executed between start and stop are reported with their exact visit counts and simulated times, regions executed while stopped are not, and each output is complete. "
     "Deleting or replacing configurations at any time neither crashes nor affects the other configurations.",
     ["schedules", "histories", "configurations"], "every history of start/stop/flush/add/delete of several configurations interleaved with annotated regions over 1-4 threads",
     "Tests run one start/flush cycle per configuration.",
     ["src/caliper/ConfigManager.cpp", "src/caliper/ChannelController.cpp", "src/caliper/RegionProfile.cpp", "src/caliper/controllers/controllers.cpp"],
     [("channel controller state", "src/caliper/ChannelController.cpp"), ("region profile aggregation", "src/caliper/RegionProfile.cpp")],
     ["output of the configurations"])

prop("C20", "Loop, region and time-series monitors count every iteration",
     "The loop monitor, loop statistics and region monitor attribute every iteration or monitored interval to exactly one record of the loop or region it belongs to, so that iteration counts and times over all records equal those executed, for any iteration or time interval configured, any nesting and any clock. "
     "The time-interval monitor thread takes its measurements at the configured rate until it is stopped, survives interrupted sleeps, and stops when told to.",
     ["schedules", "histories", "fault_sequences"], "every history of monitored loops and regions, intervals, clock progress, interrupted sleeps and interleavings",
     "Tests run one loop with a fixed interval on the real clock.",
     ["src/services/monitor/LoopMonitor.cpp", "src/services/monitor/RegionMonitor.cpp", "src/services/monitor/Timeseries.cpp", "src/services/monitor/ThreadMonitor.cpp", "src/services/LoopStatistics.cpp"],
     [("iteration counters and snapshot triggers", "src/services/monitor"), ("monitor thread loop", "src/services/monitor")],
     ["processed snapshots with loop and region attributes"])

prop("C21", "Reaching a limit degrades measurement, not the program or other data",
     "When a configured or built-in limit is reached - the context tree's node blocks or memory pool, a blackboard, a snapshot record - or when region tracking stops after a nesting error, the program keeps running: the operation that does not fit has no effect and is reported, that thread's region tracking stops at a consistent point, and everything recorded before, by other threads, or in snapshots taken later stays correct and complete. "
     "The number of threads a program starts one after another, and the number of snapshots it takes after a nesting error, are not limited by these resources.",
     ["inputs", "schedules", "fault_sequences", "configurations"], "every history of annotations, attribute creations, snapshots and thread starts over 1-4 threads that meets a limit at any point, for any tree, pool and buffer configuration",
     "Unit tests overflow a blackboard and a snapshot buffer directly; none runs out of context tree nodes or memory, or of nodes for new threads.",
     ["src/caliper/MetadataTree.cpp", "src/caliper/Caliper.cpp", "src/caliper/Blackboard.cpp", "src/caliper/MemoryPool.cpp", "src/services/event/EventTrigger.cpp", "include/caliper/SnapshotRecord.h"],
     [("node allocation", "src/caliper/MetadataTree.cpp"), ("begin/end/set error handling", "src/caliper/Caliper.cpp")],
     ["thread context, processed snapshots, log messages"])

prop("C22", "A query's answer depends on the records only",
     "The result of a CalQL query - LET, SELECT ... AS, WHERE, AGGREGATE, GROUP BY, ORDER BY, in the expand, json, json-split, table, tree, cali and user-defined formats - is determined by the set of records delivered. "
     "Their order, the threads that deliver them at the same time, the order in which attributes were created, partial results aggregated separately and then combined, and context tree nodes that threads created twice make no difference: each record that passes the filter appears (or is aggregated) exactly once, each group has exactly one result record with the value the records define, and the output is well-formed.",
     ["inputs", "schedules", "configurations"], "every set of records delivered by 1-6 threads in any order and interleaving, for any combination of query clauses and formats",
     "Unit and CI tests run fixed queries over fixed files in one thread; cali-query -t and in-process queries deliver records from several threads.",
     ["src/reader/Aggregator.cpp", "src/reader/QueryProcessor.cpp", "src/reader/Preprocessor.cpp", "src/reader/RecordSelector.cpp", "src/reader/FormatProcessor.cpp", "src/reader/JsonFormatter.cpp", "src/reader/JsonSplitFormatter.cpp", "src/reader/TableFormatter.cpp", "src/reader/TreeFormatter.cpp", "src/reader/Expand.cpp", "src/reader/UserFormatter.cpp", "src/reader/SnapshotTree.cpp"],
     [("aggregation keys and kernels", "src/reader/Aggregator.cpp"), ("pipeline", "src/reader/QueryProcessor.cpp"), ("filter", "src/reader/RecordSelector.cpp"), ("let", "src/reader/Preprocessor.cpp")],
     ["query output in every format"])

prop("C23", "I/O profiling records the program's I/O exactly and does not change it",
     "With the io service, every POSIX and C stdio call that it wraps reaches the operating system exactly once with the program's arguments, and the program gets the system's result and errno. "
     "Each active io channel gets exactly one record for each call that transferred bytes (none for failed or empty transfers), with the number of bytes transferred, the kind of I/O, the enclosing regions, and the file system and mount point of the file (or unknown), and one io.region begin and end. "
     "This holds for any order of opening, closing, re-opening and reusing descriptors, for errors, short transfers and a missing mount table, on any thread, while other channels start, stop and change state; nothing of a call remains on the thread afterwards.",
     ["inputs", "schedules", "faults", "configurations"], "every sequence of I/O calls by up to 5 threads with error, short-transfer and delay injection and concurrent changes of up to 3 channels",
     "One CI test runs an example program with one channel and checks that some records exist.",
     ["src/services/io/IOService.cpp", "src/services/io/CurIOus/src/wrappers.c", "src/services/io/CurIOus/src/file_registry.c", "src/services/io/CurIOus/src/mount_tree.c", "src/services/io/CurIOus/src/callbacks.c", "src/services/io/CurIOus/src/curious.c", "src/services/io/CurIOus/src/dynamic_array.c"],
     [("region and record", "src/services/io/IOService.cpp handle_io()"), ("forwarding", "src/services/io/CurIOus/src/wrappers.c"), ("mount lookup", "src/services/io/CurIOus/src/mount_tree.c")],
     ["io.bytes.read/io.bytes.written/io.region records", "results and errno of I/O functions"])

prop("C24", "Kokkos and OpenMP runtime events are recorded exactly once",
     "Every Kokkos kernel, fence and user region and every OpenMP parallel region, task, work-sharing construct, synchronisation and thread that the runtimes report through their tool interfaces appears on the reporting thread as exactly one begin and one end, with its name or type and properly nested with the program's own regions, in every channel that was active throughout and records events (OpenMP events: in channels with the ompt service); every Kokkos allocation, deallocation and deep copy appears exactly once, with label, space, size and addresses, in every active channel with the kokkoslookup service. "
     "The number of channels that use these services makes no difference. Channels may be created, switched off, and deleted at any time, and the runtimes may start before the first channel and go on after the last one, without crash, lost or extra records, or ends without a begin; the OpenMP tool is finalized only when no channel uses it.",
     ["schedules", "histories", "configurations"], "every sequence of properly nested runtime events on 1-4 threads, interleaved with the program's regions and with creation, deletion and activity changes of up to 5 channels; callbacks are registered (by the first channel that uses the service) before several threads report at the same time",
     "CI tests do not run Kokkos or OpenMP programs with changing channels; a Kokkos run is not possible in unit tests.",
     ["src/services/kokkos/KokkosTime.cpp", "src/services/kokkos/KokkosLookup.cpp", "src/services/kokkos/KokkosProfilingSymbols.cpp", "src/services/ompt/OmptService.cpp"],
     [("Kokkos regions", "src/services/kokkos/KokkosTime.cpp pushRegion()/popRegion()"), ("Kokkos data", "src/services/kokkos/KokkosLookup.cpp for_each_active()"), ("OpenMP callbacks", "src/services/ompt/OmptService.cpp cb_*()")],
     ["trace records of kokkos.* / omp.* events", "output of the Kokkos connector"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
