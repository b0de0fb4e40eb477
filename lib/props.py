from vrun import Check, Job
J = Job
SPECS = {}
def spec(prop, jobs, rule, level="exploration", assumptions=(), extra=None):
    SPECS[prop] = dict(jobs=jobs, rule=rule, level=level, assumptions=list(assumptions), extra=extra)

NOTE = "Real code executed under address/undefined-behaviour (or thread) sanitizers with an independent oracle judging every step; holds on the executions explored (seeded, reproducible), not for all."
NOTES = {}
TECH = {}
NA = {}

def run(prop):
    s = SPECS[prop]
    c = Check(prop, s["level"], s["rule"], s["assumptions"])
    return c.run(s["jobs"], s["extra"])

spec("C12", [
    J("d_num", "cast", 4000), J("d_num", "transform", 3000), J("d_num", "parse", 2500),
    J("d_num", "cast", 1500, variant="asan-rel"), J("d_num", "transform", 1000, variant="asan-rel"), J("d_sep", "apart", 80, variant="tsan", args=["only=numbers"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=numbers"]),
  ], "Random (source type, value, destination type) triples biased to the limits of every width, NaN/infinity/subnormals; arrays and nested vectors of them; number texts around every limit. Non-trivial: every distinct (value, destination) pair judged against exact arithmetic.")
spec("C07", [
    J("d_map", "history", 3000), J("d_map", "orders", 1600), J("d_map", "history", 800, variant="asan-rel"), J("d_map", "orders", 600, variant="asan-rel"), J("d_sep", "apart", 80, variant="tsan", args=["only=histories"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=histories"]),
  ], "Random histories of every map operation over key universes of one type or mixed types (colliding hashes), judged after each step against an ideal dictionary; adversarial integer insertion/removal orders. Non-trivial: distinct (history prefix, content) states.")
spec("C08", [
    J("d_seq", "list", 2400), J("d_seq", "vector", 2400), J("d_seq", "array", 800), J("d_seq", "dims", 800),
    J("d_seq", "list", 600, variant="asan-rel"), J("d_seq", "vector", 600, variant="asan-rel"), J("d_sep", "apart", 80, variant="tsan", args=["only=histories"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=histories"]),
  ], "Random histories of list and vector operations (both ends, iterator removal and replacement, holes, resizing, compaction), arrays of every element type, nested vectors of regular and irregular shape; judged after each step against an ideal sequence. Non-trivial: distinct (history prefix, content) states.")
spec("C09", [
    J("d_laws", "pool", 2400), J("d_laws", "history", 1600), J("d_laws", "inplace", 400), J("d_laws", "typecode", 200),
    J("d_laws", "pool", 800, variant="asan-rel"), J("d_laws", "history", 500, variant="asan-rel"), J("d_sep", "apart", 80, variant="tsan", args=["only=values"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=values"]),
  ], "Pools of 20-25 values per case (random, equal ones built differently, near neighbours, other widths of the same number, constant storage, wrapped in containers), all pairs and all triples judged; containers reached by random histories and values changed in place, hashed early or late, judged against fresh equal values and neighbours. Non-trivial: distinct values judged.")
spec("C10", [
    J("d_own", "own", 1600), J("d_own", "own", 1200, variant="asan-rel"), J("d_own", "values", 800), J("d_own", "values", 500, variant="asan-rel"),
  ], "Random ownership-respecting histories over pools of leaves (copied, taken, referenced buffers, pointers with release callbacks), keys, containers, metadata, static lists, deep and shallow copies, heap and block-cached allocation; after each step every live object's reference count is compared with its owners and every release callback with the moment its last owner let go; at the end heap and block cache must balance. Non-trivial: distinct history prefixes.", assumptions=["The owner graph kept by the driver is the oracle; ownership misuse by the caller is not generated."])
spec("C11", [
    J("d_path", "path", 1600), J("d_path", "copy", 1600), J("d_path", "compress", 1200), J("d_path", "path", 500, variant="asan-rel"), J("d_path", "copy", 500, variant="asan-rel"), J("d_path", "compress", 300, variant="asan-rel"), J("d_sep", "apart", 80, variant="tsan", args=["only=histories"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=histories"]),
  ], "Histories of path lookups, additions, removals, updates and in-place changes over a growing set of versions derived from one another (heap and static paths, valid and invalid), every version re-read after each step; deep and shallow copies of random values with metadata, diverged and re-read; compression with and without a shared cache. Non-trivial: distinct (history prefix, value) states.")
spec("C02", [
    J("d_json", "encode", 8000, expect_counters=("roundtrips",)), J("d_json", "order", 4000), J("d_json", "encode", 4000, variant="asan-rel"), J("d_json", "order", 1500, variant="asan-rel"), J("d_json", "deep", 100), J("d_sep", "apart", 80, variant="tsan", args=["only=values,json"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=values,json"]),
  ], "Random values of every encodable type (maps with keys of every type, unset vector elements, long and hostile strings, extreme numbers), encoded with several initial sizes and an exactly sized caller's buffer; the text is judged by a strict RFC 8259 parser written for the check and compared with the ideal value, then decoded again. Explicit member orders (complete, partial, with absent names). Non-trivial: distinct values.")
spec("C03", [
    J("d_json", "decode", 8000, expect_counters=("orders_checked", "duplicate_members", "integers_beyond_64_bits")), J("d_json", "broken", 1200), J("d_json", "decode", 4000, variant="asan-rel"), J("d_json", "broken", 500, variant="asan-rel"), J("d_json", "deep", 200), J("d_sep", "apart", 80, variant="tsan", args=["only=json"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=json"]),
  ], "Random documents generated together with the value they denote (every escape form, surrogate pairs, integers around and beyond 64 bits, all number formats, duplicate members, random whitespace, depth to 200), decoded plainly, with ordering, with cold, warm and foreign caches and with different whitespace; every truncation and single-bracket edit of container documents must be refused. Non-trivial: distinct documents.")
spec("C04", [
    J("d_cbor", "encode", 12000), J("d_cbor", "scalar", 2000), J("d_cbor", "encode", 5000, variant="asan-rel"), J("d_cbor", "scalar", 800, variant="asan-rel"), J("d_cbor", "negative", 1, 1, probe="negative"), J("d_sep", "apart", 80, variant="tsan", args=["only=values"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=values"]),
  ], "Random values of every encodable type (NaN, infinities, denormals, unset elements, keys of any type, lengths across every length encoding), encoded with several initial sizes; an independent RFC 8949 decoder reads the bytes back and compares them item by item with the ideal value. Non-trivial: distinct values.")
spec("C05", [
    J("d_xmlyaml", "xml", 12000), J("d_xmlyaml", "xmlbroken", 2000, expect_counters=("malformed_refused", "mutants_still_documents")), J("d_xmlyaml", "yaml", 12000), J("d_xmlyaml", "yamlbroken", 2500, expect_counters=("malformed_refused", "mutants_still_documents", "documents_with_aliases")), J("d_xmlyaml", "scalars", 800),
    J("d_xmlyaml", "xml", 800, variant="asan-rel"), J("d_xmlyaml", "yaml", 800, variant="asan-rel"), J("d_sep", "apart", 80, variant="tsan", args=["only=xml,yaml"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=xml,yaml"]),
  ], "Random XML documents (attributes, every kind of reference, CDATA, comments, processing instructions, mixed content, long text) and YAML documents (block and flow collections, every scalar style, numbers in every base and around 64 bits, duplicates, comments), generated together with the value they denote; truncations, random edits, splices and trailing content judged against expat and against libyaml's document loader with an independent scalar resolver. Non-trivial: distinct documents.")
spec("C06", [
    J("d_b64", "codec", 12000, expect_counters=("refused_too_small", "refused_invalid")), J("d_b64", "bytes", 1500), J("d_b64", "map", 6000, expect_counters=("members_converted",)), J("d_b64", "conv", 8000, expect_counters=("takes_copied", "takes_moved")),
    J("d_b64", "codec", 3000, variant="asan-rel"), J("d_b64", "map", 2000, variant="asan-rel"), J("d_b64", "conv", 3000, variant="asan-rel"), J("d_sep", "apart", 80, variant="tsan", args=["only=base64"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=base64"]),
  ], "Random byte sequences (every length modulo 3, all byte values) encoded and decoded into buffers of every size around the exact one with guard bytes, unpadded, with line breaks, mutated, every byte value at every position; map members of every kind converted in place; strings, binaries and byte arrays of every ownership converted and taken, shared or not. Non-trivial: distinct byte sequences or maps.")
spec("C22", [
    J("d_cfg", "get", 12000, expect_counters=("values_read", "reads_refused", "components_found", "cases_reported_to_the_default_logger")), J("d_cfg", "env", 48000, expect_counters=("substituted", "refused")), J("d_cfg", "get", 5000, variant="asan-rel"), J("d_cfg", "env", 16000, variant="asan-rel"), J("d_sep", "apart", 80, variant="tsan", args=["only=configuration"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=configuration"]),
  ], "Random configuration maps (numbers around every limit, NaN/infinity, strings, containers, absent keys) read through every typed getter with guard bytes around the output, judged against exact arithmetic; random texts with environment references of every length, adjacent, unterminated, empty, unset, with values that look like references, judged by an independent substitution. Non-trivial: distinct maps or texts.")
spec("C21", [
    J("d_log", "chain", 16000, expect_counters=("messages_enabled", "messages_suppressed", "lines_checked")), J("d_log", "threads", 800, expect_counters=("concurrent_messages",)), J("d_log", "threads", 160, variant="tsan"), J("d_log", "threads", 800, variant="plain-rel"),
    J("d_log", "udp", 2000), J("d_log", "names", 1000, expect_counters=("console_lines",)), J("d_log", "default", 16, shards=16, variant="tsan"), J("d_log", "chain", 4000, variant="asan-rel"), J("d_log", "switch", 800, expect_counters=("level_changes_during_logging",)), J("d_log", "switch", 200, variant="tsan"), J("d_log", "switch", 6000, variant="plain-rel"),
  ], "Random histories over graphs of recording and file loggers (levels, stop/start, chaining, references, hostile and over-long names and texts), each message compared with an ideal logger graph and the exact line expected; 2-5 threads writing through chains with levels changed between phases, the files checked offline for completeness, wholeness and per-thread order; UDP datagrams and console output read back. Non-trivial: distinct histories / thread interleavings seen in the files.")
spec("C14", [
    J("d_queue", "seq", 40000, expect_counters=("calls_after_stop", "items_left_for_free")), J("d_queue", "conc", 12000, expect_counters=("blocked_calls_released", "released_by_resize")), J("d_queue", "conc", 4000, variant="tsan"), J("d_queue", "conc", 20000, variant="plain-rel"), J("d_queue", "stress", 400, expect_counters=("resizes", "refused_try_enqueue", "empty_results")), J("d_queue", "stress", 150, variant="tsan"), J("d_queue", "stress", 1500, variant="plain-rel"),
  ], "Random call sequences against a bounded FIFO; concurrent histories of 2-5 threads mixing every call, recorded with a global clock, checked by a linearizability search, with every call the queue's state allows required to return (blocked ones are released by one more recorded call at a time: enqueue, dequeue, resize or stop); large histories of 1-4 producers and 1-4 consumers with tries and concurrent resizing, checked for conservation, per-producer order, real-time FIFO order, false-empty results and the length bound. Non-trivial: distinct event orders observed.")
POOLRULE = "Controlled histories on pools of 1-6 threads (queue limit none or 1-12): every job waits at a gate, so the controller knows exactly what is queued and running and judges each start, refusal, blocked submitter, waiter, stop and start against the model (stable priority order); stress histories of 1-4 submitters with tries, nested submissions, concurrent waiters, stop/start toggling and reference holders, judged afterwards on a global clock for exactly-once, thread bound, wait and stop; "
spec("C15", [
    J("d_pool", "ctl", 5000, expect_counters=("blocked_submitters_resumed", "waits_judged", "stops", "destroyed_with_jobs")), J("d_pool", "stress", 1200, expect_counters=("refused", "stops")), J("d_pool", "stress", 300, variant="tsan"), J("d_pool", "stress", 3000, variant="plain-rel"), J("d_pool", "free", 5000, expect_counters=("destroyed_from_job", "destroyed_by_racing_holders", "destroyed_outside", "pools_short_of_threads")), J("d_pool", "free", 600, variant="tsan"), J("d_pool", "ctl", 300, variant="tsan"),
  ], POOLRULE + "destruction from outside, from the pool's own job and by racing reference holders, with jobs queued and running and with threads that cannot be created. Non-trivial: distinct operation histories and start orders.")
spec("C16", [
    J("d_pool", "ctl", 16000, expect_counters=("refused", "blocked_submitters_resumed", "jobs_at_their_priority", "jobs_refused_their_priority")), J("d_pool", "ctl", 20000, variant="plain-rel"), J("d_pool", "stress", 2000, variant="plain"),
  ], POOLRULE + "Non-trivial: distinct operation histories and start orders.")
SCHEDRULE = "Virtual-time histories (the library reads a clock the driver advances; its timed waits follow it): random schedules (sync, own thread, pool, full pool; delays, periods and repeat counts including 0 and the maximum), add/remove/reset/delete/create/stop/start/free from outside, from run, abort and sync callbacks and from running activations, threads that cannot be created, spurious wake-ups; every dispatch, callback, skip, refusal, count, call result and argument release is compared with a model of the documented behaviour; "
spec("C17", [
    J("d_sched", "virt", 9600, expect_counters=("activations", "skipped_activations", "refused_activations", "completed_schedules", "stops", "spurious_wakeups", "stops_as_time_passes", "threads_at_their_priority", "pooled_at_their_priority")), J("d_sched", "virt", 12000, variant="plain-rel"), J("d_sched", "real", 640, expect_counters=("real_time_runs",)), J("d_sched", "real", 640, variant="plain-rel"),
  ], SCHEDRULE + "real-clock runs of 1-10 synchronous schedules for never-early, exact counts and due order. Non-trivial: distinct histories of events.")
spec("C18", [
    J("d_sched", "virt", 9600, expect_counters=("calls_from_callbacks", "calls_from_activations", "freed_from_activation", "freed_from_sync_function", "freed_from_run_callback", "freed_outside", "freed_with_activations_running", "stops_from_callbacks")), J("d_sched", "virt", 2400, variant="tsan"), J("d_sched", "stress", 2400, expect_counters=("removals_watched", "deletes_while_running", "refused_activations")), J("d_sched", "stress", 1200, variant="tsan"), J("d_sched", "stress", 1600, variant="asan-rel"),
  ], SCHEDRULE + "real-clock stress from 1-4 threads and from callbacks with monitors for overlap, late runs, use of released arguments and release counts. Non-trivial: distinct histories of events.")
spec("C19", [
    J("d_comp", "seq", 4096), J("d_comp", "conc", 16000, expect_counters=("waits_returned", "changes")), J("d_comp", "conc", 5000, variant="tsan"), J("d_comp", "conc", 40000, variant="plain-rel"), J("d_comp", "race", 5000, variant="plain-rel"), J("d_comp", "race", 800, variant="tsan"), J("d_comp", "race", 800),
  ], "Every request sequence of length 5 from the initial state (and random longer ones) against the transition rule; concurrent histories of 2-3 requesting and 0-2 waiting threads (waits for random state sets, with and without keeping the lock) recorded with a global clock and checked by a linearizability search, with every waiter the state satisfies required to return; races of 2-6 identical requests and of reference releases. Non-trivial: distinct event orders observed.")
spec("C20", [
    J("d_cont", "graph", 24000, expect_counters=("containers_with_failures", "starts", "deletes", "saves")), J("d_cont", "real", 600, shards=24, expect_counters=("library_components", "refused_components")), J("d_cont", "slow", 8, shards=8), J("d_cont", "dynamic", 1500, expect_counters=("types_loaded", "loads_refused", "libraries_opened")), J("d_cont", "threads", 200, variant="tsan"), J("d_cont", "graph", 8000, variant="asan-rel"), J("d_cont", "real", 300, shards=16, variant="asan-rel"), J("d_sep", "apart", 80, variant="tsan", args=["only=containers"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=containers"]),
  ], "Random configurations (acyclic, cyclic, missing, malformed, refusing components, unknown types, environment references) of a recording component type, judged against an ideal loader for what exists, once each and after its dependencies; then random histories of start, stop, find, delete, add, reconfigure and listing, each judged; graphs of the library's own logger, pool and scheduler components; containers loaded in parallel threads. Non-trivial: distinct (operation, existing components and states).")
spec("C23", [
    J("d_file", "hist", 3000, expect_counters=("writes", "read_back", "deletes", "lists", "refused", "memory_store_calls")), J("d_file", "fault", 400, variant="plain", expect_counters=("crashes", "faults", "short_transfers", "double_faults", "untyped_listings", "writes_after_a_fault")), J("d_file", "fault", 150), J("d_file", "conc", 300, expect_counters=("reads_during_writes",)), J("d_file", "conc", 100, variant="tsan"), J("d_file", "hist", 1000, variant="asan-rel"), J("d_file", "conc", 600, variant="plain-rel"), J("d_file", "fault", 100, variant="plain-rel"), J("d_sep", "apart", 80, variant="tsan", args=["only=files"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=files"]),
  ], "Histories of every file and store call over a scratch directory (hostile names, existing temporaries, directories, links, fifos) against an ideal directory; single operations in a forked child traced at its system calls, killed before and after each call and with each call failing or transferring less (and random pairs of such faults), the files then judged to hold the old or the new content whole, and a reported success the new one; several writers and readers of one file. Non-trivial: distinct (operation, outcome) histories and (system call sequence, fault) pairs.")
spec("C24", [
    J("d_time", "nsecs", 400, expect_counters=("runs_interleaved", "clock_steps", "values_one_apart")), J("d_time", "nsecs", 80, variant="tsan"), J("d_time", "nsecs", 1600, variant="plain-rel"), J("d_time", "units", 400, expect_counters=("readings_judged", "interrupted_sleeps")), J("d_time", "wait", 64),
    J("d_time", "uuid", 400, expect_counters=("uuids_judged", "bit_balances_judged")), J("d_time", "uuid", 16, shards=16, variant="tsan"), J("d_time", "uuid", 1600, variant="plain-rel"), J("d_time", "procs", 160, variant="plain-rel", expect_counters=("processes_short_of_randomness",)), J("d_time", "procs", 80),
  ], "Bursts of unique-time calls from 1-8 threads on a clock the driver holds still, lets tick slowly or coarsely, steps forwards and backwards and delivers late; every value judged for uniqueness, order against calls already returned, and not being behind the reading the call was given. Clock units at random instants, waits (interrupted at random points) on a virtual sleep and with real signals. UUIDs from 1-8 threads in every form, judged for form, canonical text, balance of the free bits and uniqueness over the process, and over 2-31 processes started at the same instant with the same process identifier and randomness refused or short at first. Non-trivial: distinct runs (interleavings of the values, instants, identifiers).")
spec("C13", [
    J("d_conc", "share", 400, variant="tsan", expect_counters=("joint_releases", "metadata_reads", "lookups")), J("d_conc", "share", 300, variant="tsan-rel"), J("d_conc", "share", 800, expect_counters=("reference_storms", "values_taken_from_threads")), J("d_conc", "share", 800, variant="asan-rel", expect_counters=("blocks_used",)), J("d_conc", "share", 32, shards=32, variant="tsan-rel"), J("d_conc", "share", 4000, variant="plain-rel"),
  ], "2-6 threads sharing 2-6 random values (with common parts, metadata, release callbacks, static storage, not yet hashed), each reading, comparing, hashing, looking up, copying, encoding, referring and releasing them, while allocating, parsing, freeing and exchanging values and raw blocks with the other threads; every result compared with what one thread computed beforehand from equal values built separately; batches of values whose last references all threads drop at once; race detector, heap and block-cache balance at the end; fresh processes for first use. Non-trivial: distinct interleavings sampled (order in which threads reach every 64th step).")
spec("C29", [
    J("d_sep", "apart", 400, variant="tsan", expect_counters=("values", "json", "xml", "yaml", "base64", "numbers", "configuration", "histories", "files", "identifiers", "queues", "loggers", "pools", "schedulers", "containers")), J("d_sep", "apart", 32, shards=32, variant="tsan-rel"), J("d_sep", "apart", 1000), J("d_sep", "apart", 4000, variant="plain-rel"),
  ], "2-6 threads, each running 6-25 tasks that touch only what they make (values encoded, compared, converted; texts of every format decoded; numbers, configuration, histories of containers, files and configurations under names of their own, identifiers, queues, loggers, pools, schedulers, containers of components), often the same few kinds in all threads; the written-down results of every task compared with those of the same task run alone, before or afterwards; race detector, also in fresh processes for first use. Non-trivial: distinct interleavings sampled (order in which threads complete tasks).")
spec("C30", [
    J("d_built", "built", 1200, expect_counters=("messages_expected", "messages_suppressed", "file_loggers", "udp_loggers", "console_loggers", "pools_run", "limits_judged", "thread_numbers_judged", "schedulers_run", "levels_reconfigured", "component_loggers_judged")), J("d_built", "built", 200, variant="tsan"), J("d_built", "built", 600, variant="asan-rel"), J("d_built", "built", 2000, variant="plain-rel"),
  ], "Random configurations of 1-4 loggers (destination, level, start, next), up to 2 thread pools (threads, job limit, priority, processor, logger) and up to 2 schedulers in one container, settings often left out and in any order, some components added later; then starts, stops and new levels while messages at every level, batches of jobs held until all threads run, and schedules are judged: files, datagrams and console output line by line, jobs queued and running at once, priority and processor of each thread, and where the components' own messages go. Non-trivial: distinct configurations.")
spec("C25", [
    J("d_misc", "query", 20000, expect_counters=("typecodes_equal", "typecodes_different")), J("d_misc", "tags", 24000), J("d_misc", "count", 24000, expect_counters=("integers_counted", "floats_counted")), J("d_misc", "text", 12000, expect_counters=("uuids", "not_uuids", "names_of_none", "texts_found")),
    J("d_misc", "query", 8000, variant="asan-rel"), J("d_misc", "tags", 8000, variant="asan-rel"), J("d_misc", "count", 8000, variant="asan-rel"), J("d_misc", "text", 4000, variant="asan-rel"), J("d_sep", "apart", 80, variant="tsan", args=["only=identifiers,values"]), J("d_sep", "apart", 300, variant="plain-rel", args=["only=identifiers,values"]),
  ], "Random values of every type asked for their type, element type, key type, typecode, address, value and being NaN; typecodes of the same and neighbouring containers compared with each other; histories of setting tags on up to 8 values among other operations; counting up and down from the ends of every type; formatted strings, type names, UUID texts, hashes and text searches against the C library or a rule written for the check. Non-trivial: distinct values and texts.")
spec("C26", [
    J("d_cost", "map", 2000, expect_counters=("histories_near_the_bound",)), J("d_cost", "map", 400, variant="asan-rel"),
  ], "Histories of additions, removals and lookups (random churn, keys added between others and removed again in several orders, sliding windows, thinning, keeping the keys that cost most, both ends) on maps keyed by text; the key comparisons of every operation counted and judged against the bound of a balanced search tree. Non-trivial: distinct (history, size) states.")
spec("C27", [
    J("d_thread", "create", 4000, expect_counters=("failures_logged", "real_time_refused", "created_at_second_attempt", "created_at_priority", "created_with_affinity", "concurrent_callers")), J("d_thread", "create", 800, variant="tsan"), J("d_thread", "create", 2000, variant="asan-rel"),
    J("d_thread", "prio", 4000, expect_counters=("priorities_set", "priorities_refused")), J("d_thread", "first", 24, shards=24, variant="tsan"), J("d_thread", "first", 4000, variant="plain-rel", args=("fork=1",)), J("d_thread", "mutex", 400, expect_counters=("increments", "locks_found_held")), J("d_thread", "mutex", 200, variant="tsan"), J("d_thread", "mutex", 2000, variant="plain-rel"),
  ], "Threads created by 1-4 threads with every kind of priority and affinity, with and without identifier and logger, as root or not, with creations and real-time scheduling refused once or twice; what each was created with recorded at pthread_create (a stand-in for real-time scheduling, nothing is asked of the kernel) and what ran reported by the thread itself, judged against what was asked and granted; priorities of the own and other threads set, refused and read against a model; first use of the priority check by 2-8 threads at once in fresh processes; mutexes under contention. Non-trivial: distinct requests and outcomes.")
spec("C28", [
    J("d_work", "value", 14000, variant="steps", expect_counters=("operations_on_values", "more_operations_on_values", "library_reports_steps")), J("d_work", "text", 6000, variant="steps", expect_counters=("texts_accepted", "texts_refused")), J("d_work", "queue", 1000, variant="steps"),
  ], "Each of 27 operations on each of 16 kinds of value (lists, vectors, maps, texts, binary, arrays, records, rows, deep nesting, equal and unset elements) of 80-500 parts and on one sixteen times as large, otherwise alike; the same for 23 kinds of text and for queues. Work is counted in basic blocks the library executes plus bytes its string and memory calls handle: deterministic, whatever the machine's load. Non-trivial: distinct (operation, kind).")
spec("C01", [
    *[J("d_text", k, n) for k, n in (("json", 1500), ("xml", 2500), ("yaml", 1500), ("b64", 2000), ("str", 2000), ("env", 1500), ("near", 500), ("far", 120))],
    *[J("d_text", k, n, variant="asan-rel") for k, n in (("json", 700), ("xml", 1000), ("yaml", 700), ("b64", 500), ("str", 500), ("env", 300), ("near", 150), ("far", 40))],
    *[J("f_text", k, n, variant="fuzz", expect_counters=("guided_texts_decoded",)) for k, n in (("json", 40000), ("xml", 80000), ("yaml", 60000), ("b64", 80000), ("str", 60000), ("env", 40000))],
  ], "Texts of each kind (JSON, XML, YAML, base64, typed values, environment references): grammar-shaped, nested up to thousands deep, with extreme numbers, broken escapes and encodings, mutated up to 20 times, every truncation and byte edits of small documents; and texts evolved by libFuzzer for coverage of the decoders; each in a block of its exact size, decoded by every entry point for its kind, the result walked, compared, hashed, copied, encoded and freed, decoded again, followed by an ordinary text. Non-trivial: distinct (shape of the value or refusal).")

# Quick tiers of the cheap single-threaded checks, brought up to a common cost of a few tens of seconds.
for _p, _k in (("C01", 2), ("C02", 5), ("C03", 6), ("C04", 3), ("C05", 2), ("C06", 6), ("C07", 6), ("C08", 6), ("C09", 3), ("C10", 5), ("C11", 2), ("C12", 5), ("C26", 3), ("C28", 3)):
    for _j in SPECS[_p]["jobs"]:
        if _j.driver != "d_sep" and not _j.probe and _j.shards is None: _j.quick *= _k; _j.thorough = max(_j.thorough, _j.quick * 10)

# Sizes around and beyond the limits of the narrower integer types.
for _p, _m, _n in (("C07", "map", 24), ("C08", "seq", 48), ("C09", "value", 48), ("C11", "value", 24), ("C02", "json", 48), ("C03", "json", 24), ("C04", "cbor", 48), ("C05", "markup", 40), ("C06", "b64", 64), ("C12", "num", 48), ("C14", "queue", 32), ("C15", "pool", 16), ("C16", "pool", 16), ("C17", "sched", 16), ("C22", "env", 40), ("C23", "file", 32), ("C20", "cont", 16), ("C10", "refs", 48), ("C19", "objrefs", 24)):
    SPECS[_p]["jobs"].append(J("d_large", _m, _n, variant="plain-rel" if _m in ("env", "markup", "sched", "cont") else "asan", expect_counters=("large_cases",)))  # plain: the sanitizer's string checks make parsing quadratic
