#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

D, J = "src/c/data.c", "src/c/data-json.c"
prop("C01", "Decoding untrusted text never corrupts memory, crashes, hangs or leaks",
 "For every NUL-terminated byte string, however malformed, decoding it as JSON (with or without ordering or a cache), XML, YAML, base64, a non-empty typed value string, or substituting environment references in it, returns promptly without a memory error, undefined behaviour, failed assertion, or leak. The result is either the documented failure result or a complete value that can be traversed, compared, copied, re-encoded and freed. The input text is never modified and failure leaves no state behind that affects a later decode.",
 ["inputs"], "Every finite byte string without embedded NUL, for each decoder, including truncations and byte mutations of valid documents, extreme numbers, deep nesting (beyond any stack) and invalid escapes and encodings.",
 "The unit tests decode a few dozen hand-written, mostly valid documents; the quantifier is over all byte strings, and memory errors on malformed ones usually leave no visible result without instrumentation.",
 ["src/c/json.c", J, "src/c/data-xml.c", "src/c/data-yaml.c", "src/c/base64.c", "src/c/yxml.c", "src/c/config.c", D],
 [("JSON tokeniser with token counting before allocation", "src/c/json.c: iot_json_parse, iot_json_parse_string, iot_json_parse_primitive"), ("token tree walk", "src/c/data-json.c: iot_data_from_json_with_cache, iot_data_value_from_json"), ("YAML event loop", "src/c/data-yaml.c: iot_data_from_yaml"), ("XML element recursion", "src/c/data-xml.c: iot_data_from_xml"), ("environment substitution", "src/c/config.c: iot_config_substitute_env")])
prop("C02", "Encoding to JSON yields valid text that denotes the same value",
 "For every value built from null, booleans, finite numbers, UTF-8 strings, binaries, arrays, vectors, lists and maps (of keys of one type that render as distinct text), the JSON encoding is one well-formed RFC 8259 document denoting exactly that value (member set and nesting, element order, integer values exactly, floating values to full precision, any explicitly requested member order). The text is the same whatever initial buffer size is supplied, and decoding it gives back an equal value up to the documented widening of number and container types. Encoding does not change the value encoded.",
 ["inputs"], "All value trees of the listed types, all legal initial buffer sizes (including ones that force growth at every output position), strings with any characters including control characters, quotes and multi-byte sequences.",
 "Tests encode a handful of fixed trees with ample buffers and compare strings; growth at each output offset and every escaping or numeric boundary cannot be enumerated by examples.",
 [J, D], [("recursive dumper with growing holder", "src/c/data-json.c: iot_data_dump_json, iot_data_holder_realloc, iot_data_strcat_escape"), ("ordering metadata", "src/c/data-json.c: iot_data_map_dump_ordered / ordering key")])
prop("C03", "Decoding JSON yields exactly the value the document denotes",
 "For every well-formed RFC 8259 document of bounded nesting, the decoder returns the value it denotes: member sets (last duplicate wins), element order, strings with every escape resolved to UTF-8 (other than escaped NUL and unpaired surrogates), integers exactly when they fit 64 bits and otherwise as the nearest double, and document member order (each member once) recorded when ordering is requested. The result does not depend on insignificant whitespace or on whether, or in what state, a value cache is supplied. A truncated or bracket-mismatched document never decodes to a container.",
 ["inputs"], "All well-formed documents over objects, arrays, strings with arbitrary escapes, numbers in every syntactic form and range, and literals; with random insignificant whitespace; their proper prefixes; all cache histories.",
 "Tests check fixed documents; escapes at every position, token-count boundaries, number extremes and cache contents left by earlier documents form an unbounded input space.",
 ["src/c/json.c", J], [("tokeniser", "src/c/json.c: iot_json_parse"), ("value construction", "src/c/data-json.c: iot_data_value_from_json, iot_data_string_from_json"), ("string cache", "src/c/data-json.c: iot_data_from_json_with_cache")])
prop("C04", "CBOR encoding is well-formed RFC 8949 and denotes the same value",
 "For every value built from null, booleans, integers of every width, floats, strings, binaries, typed arrays, vectors, lists and maps, the CBOR encoding is exactly one well-formed RFC 8949 data item that an independent decoder reads back as the same value (integer value, float bits, text, bytes, element order, key/value pairs), every integer and length in its shortest form. The bytes produced do not depend on the initial buffer size requested, and encoding does not change the value.",
 ["inputs"], "All value trees of the listed types, with integers at every width boundary and sign, floats with any bit pattern, lengths crossing each header-size boundary, and every initial buffer size.",
 "Tests compare a few encodings to stored bytes; header-width boundaries, negative extremes, float bit patterns and buffer growth positions are not enumerated.",
 ["src/c/data-cbor.c", D], [("header writer", "src/c/data-cbor.c: iot_data_write_uint / iot_data_write_int"), ("buffer growth", "src/c/data-cbor.c: iot_data_holder / iot_data_cbor_check")])
prop("C05", "XML and YAML documents decode to the structure they denote",
 "For every well-formed XML document in the supported subset the decoder returns the element tree with each element's name, attributes, children in document order and text content (for an element with both, the text after its last child); for every well-formed YAML document in the supported subset it returns the mapping/sequence/scalar tree with plain scalars resolved to null, true, false, integer (decimal, 0x hexadecimal, 0-prefixed octal; as the nearest double beyond 64 bits), float or string and quoted or block scalars kept as strings. A document that is not well formed produces no value: the decoder returns nothing, and for YAML an error description.",
 ["inputs"], "All generated documents over nested elements, attributes, entities, CDATA, comments, mixed text; nested block and flow mappings and sequences, quoted and plain scalars of every class; and truncations/mutations of them that an independent parser rejects.",
 "Tests decode a few sample documents; nesting, text-chunk boundaries, scalar classification and error positions are unbounded.",
 ["src/c/data-xml.c", "src/c/data-yaml.c", "src/c/yxml.c"], [("recursive element construction", "src/c/data-xml.c"), ("event loop and scalar classification", "src/c/data-yaml.c")])
prop("C06", "Base64 and binary/string conversions are lossless and size-exact",
 "Base64 encoding of any byte sequence is the RFC 4648 padded encoding, fits exactly in the advertised encoded size and never writes past it; decoding it returns the original bytes and length, whether done through the raw interface, as an array value, or by replacing a map member in place. Strings holding invalid base64 characters, or whose decoded form does not fit the destination, are refused and leave the destination map or value unchanged. Converting between string, binary and byte-array values, and taking ownership of a value's bytes, preserves content and length exactly.",
 ["inputs"], "All byte sequences (every length modulo 3, all byte values), all destination sizes, and all non-base64 strings.",
 "Tests try a few strings; size arithmetic, padding and rejection are properties of every length and byte.",
 ["src/c/base64.c", D], [("codec tables and size functions", "src/c/base64.c: iot_b64_encode, iot_b64_decode, iot_b64_encodesize, iot_b64_maxdecodesize"), ("array/binary conversions", "src/c/data.c: iot_data_alloc_array_from_base64, iot_data_map_base64_to_array, iot_data_binary_take, iot_data_binary_from_string")])
prop("C07", "Maps behave as ordered dictionaries under every operation history",
 "After any sequence of insertions, conditional insertions, replacements, merges, removals, empties and in-place iterator replacements, a map contains exactly the key/value pairs an ideal dictionary would: lookups of every flavour return the last value stored for an equal key and nothing (or the caller's default) for absent keys or mismatched types, and size is the number of distinct keys. Iteration in either direction visits every entry exactly once in strictly increasing (decreasing) key order and the first/last entry queries agree with it. Typed maps only ever hold keys and values of their declared types.",
 ["histories", "inputs"], "All operation histories over all key types (including mixed-type keys of equal hash, key duplicates, and adversarial insertion/removal orders exercising each rebalancing case) and all value types.",
 "Tests exercise fixed short sequences; balancing cases and operation interactions depend on the history.",
 [D], [("red-black tree insert/remove/rotate", "src/c/data.c: iot_node_add, iot_node_remove, iot_node_rotate_left/right, iot_node_repair_*"), ("key ordering", "src/c/data.c: iot_data_key_cmp / iot_data_compare"), ("iterators", "src/c/data.c: iot_data_map_iter_next / _prev")])
prop("C08", "Lists, vectors and arrays behave as sequences under every operation history",
 "After any sequence of pushes, pops, indexed stores, resizes, compactions, finds, removals and iterator removals/replacements, a list or vector holds exactly the elements, in exactly the order and number, that an ideal sequence would, and arrays and binaries hold exactly the elements they were built from. Iterators in both directions visit each position once in order, restart after the end, and report index and value correctly, and counts by element type (recursive or not), reported dimensions and reported lengths/sizes match the contents.",
 ["histories", "inputs"], "All operation histories on lists (both ends, middle removal while iterating forward or backward), vectors of any size with holes, arrays of each element type.",
 "Tests exercise fixed short sequences; linked-structure bugs show only for specific histories (for example removing head or tail during iteration).",
 [D], [("doubly linked list", "src/c/data.c: iot_data_list_* "), ("vectors and arrays", "src/c/data.c: iot_data_vector_*, iot_data_array_*"), ("generic iterator", "src/c/data.c: iot_data_iter_*")])
prop("C09", "Comparison is a total order that agrees with equality and hashing",
 "For all values not containing NaN, comparison is reflexive, antisymmetric and transitive, compares equal exactly when equality holds, and equal values have equal hashes, however each value was built (any construction order, copies, sharing, static storage, mutation history, with hashes computed early or late). For numbers, booleans and strings of the same type the sign of comparison is the natural order of their contents (numeric for numbers, lexicographic for strings). The type-insensitive comparison orders all integers of any width and sign by mathematical value and floats by numeric value.",
 ["inputs", "histories"], "All pairs and triples of values of every type, reached by any construction/mutation history not mutating a value while it is inside another.",
 "Laws over pairs and triples and over histories that leave the lazily cached hash stale cannot be settled by examples.",
 [D, "src/c/hash.c"], [("compare/equal", "src/c/data.c: iot_data_compare, iot_data_equal, iot_data_compare_value, iot_data_equal_value"), ("lazy hash", "src/c/data.c: iot_data_hash, rehash flag")])
prop("C10", "Every value is released exactly once, when its last owner lets go",
 "Under every sequence of allocations, insertions, extractions, reference takes and frees that respects the documented ownership rules, a value (and any caller-supplied buffer or pointer handed over with it) is released exactly once and only when its last owner lets go; nothing is leaked, used after release or released twice, and reference counts equal the number of owners. Data handed over by copy, take or reference is respectively duplicated, freed by the library, or never touched or freed. This holds for heap and block-cached allocation alike and for metadata and static values.",
 ["histories", "configurations"], "All ownership-respecting operation histories over all value types and ownership modes, in builds with and without the block cache.",
 "Leaks, double frees and use-after-free are invisible to functional assertions, and depend on the history of sharing.",
 [D], [("reference counting", "src/c/data.c: iot_data_add_ref, iot_data_free"), ("element release", "src/c/data.c: iot_data_map_free, iot_data_list_free, iot_data_vector_free, iot_node_delete"), ("block cache", "src/c/data.c: iot_data_block_alloc, iot_data_block_free")])
prop("C11", "Copies and path updates give the right value and never alter the original",
 "A copy equals its source and shares no mutable state with it: later changes to either are invisible in the other; a shallow copy has the same elements, held by reference. Path lookup returns exactly the element addressed, or nothing for a path the value does not have; path add, remove and update (through intermediate elements that exist) return exactly the value obtained by applying that change to an ideal nested structure, and leave the original and every untouched part equal to what they were. Compressing a value (with or without a shared cache) leaves it equal to what it was, with equal sub-values shared.",
 ["histories", "inputs"], "All value trees (maps, lists, vectors, arrays, metadata, static values), all paths valid or not, and all sequences of updates on originals and derived versions.",
 "Tests check a few fixed paths; aliasing between versions only shows after particular later mutations.",
 [D], [("persistent updates", "src/c/data.c: iot_data_add_at, iot_data_remove_at, iot_data_update_at, iot_data_get_at"), ("copy", "src/c/data.c: iot_data_copy, iot_data_shallow_copy"), ("compression", "src/c/data.c: iot_data_compress, iot_data_compress_with_cache")])
prop("C12", "Numeric conversion and text-to-value parsing are exact or refused",
 "Converting a number or boolean to any numeric type succeeds exactly when the source value lies in the destination's range, and then yields that value (truncated toward zero only when converting a float to an integer type, rounded only when converting to a float type); otherwise it fails and leaves the destination untouched (infinity to the 32-bit float type excepted). Transforming a value, array or vector (flat or nested) to another element type applies exactly this rule to every element in order, dropping elements that do not convert only where documented. Constructing a typed value from text gives the value the whole text denotes, when it is a literal of that type within its range, or nothing.",
 ["inputs"], "All source types and values (all boundaries of every width, signed zero, NaN, infinities, subnormals, values adjacent to every type limit), all destination types, all nestings.",
 "The tests sample a few values per type pair; boundary and rounding behaviour is over the product of 12 source types, 11 destination types and all values.",
 [D], [("cast", "src/c/data.c: iot_data_cast, iot_data_cast_val"), ("transforms", "src/c/data.c: iot_data_transform, iot_data_array_transform, iot_data_vector_to_array, iot_data_vector_to_vector"), ("from text", "src/c/data.c: iot_data_alloc_from_string")])
prop("C13", "Values can be shared, read and released from many threads safely",
 "Values shared between threads may be concurrently referenced, released, read, iterated, looked up, compared, hashed, copied and encoded, while other threads allocate and free unrelated values, without data race, corruption, premature or missing release, or a wrong result. The library's shared statics, allocation caches, parsing caches private to a thread, and first-use initialisation are equally safe.",
 ["schedules"], "All interleavings of read, reference, release and allocation operations on any number of threads, in builds with and without the block cache.",
 "Unit tests of data are single threaded; a lost reference-count update or free-list race needs a particular interleaving.",
 [D, "src/c/uuid.c"], [("atomic reference count", "src/c/data.c: iot_data_add_ref, iot_data_free"), ("block cache mutex", "src/c/data.c: iot_data_block_alloc / iot_data_block_free")])
prop("C14", "The queue is a linearizable bounded FIFO that loses and duplicates nothing",
 "Under any number of concurrent producers and consumers, queue operations are linearizable with respect to a bounded first-in-first-out queue: each enqueued item is dequeued exactly once and in order, the length never exceeds the current maximum, producers block only while full and consumers only while empty. Changing the maximum size or stopping the queue wakes the blocked callers it should. Whatever is left in a queue is released when it is freed, and an element whose blocked enqueue a stop refuses is released too.",
 ["schedules", "histories"], "All interleavings of enqueue, dequeue, length, resize, stop and reference/free calls from any number of threads.",
 "The tests use one or two threads and fixed sequences; missed wake-ups and ordering faults need particular schedules.",
 ["src/c/queue.c"], [("mutex and two condition variables", "src/c/queue.c: iot_queue_enqueue, iot_queue_dequeue, iot_queue_set_max_size, iot_queue_stop")])
prop("C15", "The thread pool runs every accepted job exactly once and waits correctly",
 "Every job accepted by a thread pool runs exactly once with its own argument as long as the pool is eventually running and not destroyed first; a try-submission refused for capacity never runs, and is refused only when the pool holds its maximum number of queued jobs. Waiting returns only when no accepted job is queued or running, for every waiter; stopping finishes running jobs and starts no others until restarted, with queued jobs retained; freeing joins all threads, including when done from one of its own jobs, after which no job runs. Blocked submitters resume when capacity appears.",
 ["schedules", "histories"], "All interleavings of submit, try-submit, wait, stop, start and free from any number of threads, with any thread count and queue bound.",
 "Tests use fixed small workloads; lost wake-ups, double runs and shutdown races need particular schedules.",
 ["src/c/threadpool.c", "src/c/thread.c"], [("job list under mutex with work/job/queue conditions", "src/c/threadpool.c: iot_threadpool_thread, iot_threadpool_add_work_locked, iot_threadpool_wait, iot_threadpool_stop")])
prop("C16", "Jobs start in priority then submission order, within the thread bound",
 "Whenever a pool thread becomes free it starts the queued job with the highest priority, and among equal priorities (or jobs without one) the one submitted first. The number of jobs executing at once never exceeds the pool's thread count, all of its threads can be busy at once, and the number queued never exceeds the configured maximum. A job with a priority runs at it where the system grants it, and threads run at the pool's own priority otherwise until a job changes it.",
 ["schedules", "histories", "inputs"], "All submission sequences with any mix of priorities (and none), any thread counts and queue bounds.",
 "Tests submit one or two priority patterns; ordered insertion into a linked list has position-dependent cases that depend on the whole queue content.",
 ["src/c/threadpool.c"], [("priority ordered insertion", "src/c/threadpool.c: iot_threadpool_add_work_locked"), ("dequeue from front", "src/c/threadpool.c: iot_threadpool_thread")])
prop("C17", "Schedules run on time: never early, in due order, the right number of times",
 "While the scheduler runs, a schedule that has been added is activated first no earlier than its start delay after its creation (or, once reset, its period and delay after the reset) and then no more than once per period, its repeat count of times in all (or indefinitely when unlimited), and the same again when added again after it completed. An activation is run, skipped because the one before still runs, or refused by its thread pool, and exactly the refused ones are counted as dropped. Schedules due at different times are started in due order, with none starved by others. Stopping the scheduler halts all firing until it is started again, also of what falls due at that moment. Each activation runs at its schedule's priority, and the scheduler's thread at the priority and affinity asked for, where the system grants it.",
 ["schedules", "histories"], "All sets of schedules (delays, periods, repeat counts, inline and pooled, with or without concurrency) and all add/remove/reset/stop/start histories.",
 "Tests use coarse sleeps and a few schedules; ordering, counting and drift across many schedules and histories are not sampled.",
 ["src/c/scheduler.c"], [("time-keyed queue map", "src/c/scheduler.c: iot_scheduler_thread, iot_schedule_enqueue"), ("repeat/period bookkeeping", "src/c/scheduler.c: iot_schedule_requeue / iot_scheduler_thread")])
prop("C18", "Schedule lifecycle calls are safe: no late runs, overlaps or double release",
 "After removal or deletion returns, no new activation of that schedule is dispatched until it is added again (one already handed to a thread may still run); add and remove report whether they changed anything; each schedule's argument and user data are released exactly once and never while one of its activations is still using them, whichever of deletion, scheduler destruction, or completion comes last. Destroying a scheduler from outside its callbacks returns with that done for every schedule none of whose activations still runs. Activations of a schedule never overlap unless it was made concurrent, and abort and run notifications are delivered once per refused or performed activation as documented. All calls are safe from any thread, including from inside the schedule's own callbacks.",
 ["schedules", "histories"], "All interleavings of create, add, remove, reset, delete, stop, start and free calls with running activations, from outside and inside callbacks.",
 "Lifecycle races between a running activation and deletion or destruction need a particular interleaving and sanitizer observation.",
 ["src/c/scheduler.c", "src/c/threadpool.c"], [("reference counts on schedules and scheduler", "src/c/scheduler.c: iot_schedule_free, iot_scheduler_free"), ("run/abort callbacks", "src/c/scheduler.c")])
prop("C19", "Component state changes follow the lifecycle and waiters observe them",
 "A component's state only ever changes along its lifecycle (initial to running or stopped or starting, running and stopped interchangeably, deletion final and only once not running), a request for the current state or for a forbidden change reports that it changed nothing, and under concurrent requests exactly one caller per change is told it succeeded. A thread waiting for a state change, or for a state, returns as soon as the state satisfies it, having seen the state actually set. Reference counting destroys a component exactly once.",
 ["schedules", "histories"], "All interleavings of state requests and waits from any number of threads, and all request sequences.",
 "Tests call the transitions in sequence from a single thread; missed broadcasts and double transitions depend on interleavings.",
 ["src/c/component.c"], [("state lock and condition", "src/c/component.c: iot_component_set_state, iot_component_wait, iot_component_wait_and_lock")])
prop("C20", "Containers start dependencies first, stop in reverse and clean up exactly once",
 "For every acyclic configuration, initialising a container creates each configured component exactly once, each after everything it depends on; starting the container starts components in creation order and stopping stops them in the reverse order, each only when it needs it; finding, listing, adding and deleting components always reflects exactly the components that exist. Component types in libraries named by the configuration are loaded when first needed and known from then on; a missing library or symbol fails that component only. Cyclic, missing or malformed configuration (text that is no JSON object, unresolved references, members of the wrong type, unknown types) makes loading fail cleanly, without a crash, leak or partial component. Freeing the container stops what still runs and releases every component exactly once.",
 ["configurations", "histories"], "All component dependency graphs (acyclic and cyclic), factories, missing or invalid configuration and all start/stop/find/add/delete histories.",
 "Tests load one or two fixed configurations; order and cleanup depend on the graph shape and history.",
 ["src/c/container.c", "src/c/component.c"], [("recursive dependency load", "src/c/container.c: iot_container_load / iot_container_find_component_locked"), ("start/stop order", "src/c/container.c: iot_container_start, iot_container_stop")])
prop("C21", "Every enabled log message reaches every enabled logger once, whole and in order",
 "A message logged through a logger enabled at its level is delivered exactly once to that logger and to each logger chained after it that is enabled at that level, and never to one whose level excludes it or that is stopped; changing level, chaining, stopping and starting take effect for every later message, also when made by several threads at once. File output is one complete line per message (of text without line breaks) with level, name and text intact up to the documented length limit, in each thread's order and, for one logger, never interleaved with another thread's, and long or hostile text or names never corrupt memory or later lines.",
 ["inputs", "schedules", "histories"], "All messages (any length and content), logger chains, level settings and stop/start histories, and concurrent logging from many threads.",
 "Tests log a few short fixed messages from one thread to a few loggers and do not read back what was written.",
 ["src/c/logger.c"], [("level test and chain walk", "src/c/logger.c: iot_logger_log, iot_log__*"), ("bounded formatting", "src/c/logger.c: iot_log_file / iot_log_console / iot_log_udp")])
prop("C22", "Configuration access is type-exact, with all environment references resolved",
 "Reading a configuration entry as a given type returns the entry's value when it is present and convertible to exactly that type without loss of range, and otherwise reports failure (or the caller's default) leaving the output untouched. A failure is logged once as an error, to the logger given or, when there is none, to the default logger. Environment substitution replaces every ${NAME} reference whose variable is set with the variable's value, recursively nowhere, and leaves all other text (including an unterminated ${) byte-for-byte intact, for any number and position of references, names of up to 63 characters and values of any length; an unset variable, an empty name or a longer name is reported as failure.",
 ["inputs", "configurations"], "All configurations (any value type under any key), all getters, all texts with any placement of references, and all environments.",
 "Tests try a few texts with a couple of variables; buffer sizing depends on the length differences and positions of all references.",
 ["src/c/config.c"], [("typed getters", "src/c/config.c: iot_config_*"), ("substitution", "src/c/config.c: iot_config_substitute_env, iot_update_parsed")])
prop("C23", "Stored files are replaced atomically and read back exactly",
 "Writing a file or stored configuration and reading it back returns the same bytes or an equal value; listing returns exactly the matching names and deletion removes exactly the named entry. If the process dies or any system call fails at any point during a write, the target afterwards holds either its complete old or complete new content, and a write that reports success has produced the complete new content. Failures are reported, never crash, and neither leak descriptors nor destroy the previous content; nothing else is left behind unless the process died or its removal failed. (Names too long to append a temporary suffix to may be refused.)",
 ["crash_points", "fault_sequences", "inputs"], "Every system-call boundary in a write as crash point or as failure (no space, open, write, close, rename and permission failures), every content, any history of saves, loads, lists and deletes.",
 "Tests write once to a healthy file system; crash points and I/O faults never occur in them.",
 ["src/c/file.c", "src/c/store.c"], [("write to temporary and rename", "src/c/file.c: iot_file_write_binary"), ("store wrappers", "src/c/store.c")])
prop("C24", "Unique timestamps strictly increase and generated UUIDs are valid and distinct",
 "The unique-time function never returns the same value twice and successive calls ordered by happens-before, in any threads, return strictly increasing values that are never behind the clock. Every generated UUID, as 16 bytes or as text, is a well-formed random (version 4, RFC variant) identifier whose text form is the canonical 36-character lower-case rendering, no two generated in a process (by any threads) or in processes started together are equal, and their free bits are evenly random. Time-unit functions agree with the same clock, and a wait lasts at least the interval asked, also when signals interrupt it.",
 ["schedules", "histories"], "All interleavings of calls from any number of threads, and all sequences of calls, including bursts faster than the clock tick and clock steps backwards.",
 "Tests call these a few times from one thread; uniqueness under contention and clock steps is not sampled.",
 ["src/c/time.c", "src/c/uuid.c"], [("compare-and-swap on last timestamp", "src/c/time.c: iot_time_nsecs"), ("seeded generator under a lock", "src/c/uuid.c")])
prop("C25", "Queries and small helpers agree with the value asked about",
 "What a value reports about itself is true of it whatever its type or history: its type, element, key and value types, hash of its content as the documented hash of its bytes, tags, metadata, not-a-number status, the address of its storage, the length and content of its text. Counters and increment operations give exactly the arithmetic result, string building writes exactly the formatted text, the text forms of types and identifiers map back to them, and finding an element by text or by comparison returns exactly the first (or only) matching one.",
 ["inputs", "histories"], "All values of every type, built by any history, and all arguments of the query, tag, counter and text helpers.",
 "Tests ask a few fixed values; each query is a table over all types (and nestings of them), whose rarely used entries no example reaches.",
 ["src/c/data.c", "src/c/hash.c", "src/c/uuid.c"], [("type tables and queries", "src/c/data.c: iot_data_type, iot_data_name, iot_typecode_*, iot_data_address"), ("tags, increments, formatting", "src/c/data.c: tag and metadata functions, iot_data_increment, iot_data_alloc_string_fmt"), ("content hash", "src/c/hash.c, src/c/data.c: iot_data_hash")])
prop("C26", "A map finds, adds or removes a key in logarithmically many comparisons",
 "Whatever the history of additions, replacements and removals (including keys added in order, alternating ends, and removals of any subset in any order), finding, adding or removing one key of a map of n entries takes a number of key comparisons bounded by a small constant times log2 n: no order of operations degrades a map to a list.",
 ["histories", "inputs"], "All histories of adds and removes over maps of any size and any key type, including adversarial orders.",
 "Tests check what a map contains, which an unbalanced map still gets right; imbalance needs particular removals followed by many additions and shows only as cost.",
 ["src/c/data.c"], [("red-black insertion and removal repair", "src/c/data.c: iot_node_insert_balance, iot_node_remove_balance, iot_node_remove")])
prop("C27", "Threads run once each, at the priority asked for when it can be granted",
 "Creating a thread reports success exactly when its function runs, once, with the argument given, detached, under the identifier returned; a valid priority is granted as real-time scheduling when the process may have it, and when creation with it is refused the thread still runs with ordinary scheduling; only when no thread can be created at all is failure reported, and logged. A valid processor affinity is honoured, an invalid one ignored. Setting a thread's priority succeeds exactly when it is valid and permitted, changes that thread's only, and reading it gives what it was last set to; a priority is valid exactly within the system's range, whichever thread asks first. Mutexes the library initialises exclude each other's holders and work with conditions.",
 ["inputs", "schedules", "fault_sequences"], "All priorities, affinities, privileges, refusals of creation or of real-time scheduling, and calling threads.",
 "The tests run with one set of privileges and never have a thread creation refused; the fallback paths and first use from several threads are not sampled.",
 ["src/c/thread.c"], [("two attempts at creation", "src/c/thread.c: iot_thread_create"), ("priority range", "src/c/thread.c: iot_thread_priority_valid"), ("mutex attributes", "src/c/thread.c: iot_mutex_init")])

prop("C28", "Work on values and texts grows no faster than their size times a logarithm",
 "Building, iterating, copying, comparing, hashing, compressing, converting, compacting, emptying and freeing a value, writing it as JSON or CBOR, decoding JSON (with or without ordering or a cache), XML, YAML or base64 text, substituting references, and filling or emptying a queue take work at most proportional to the number of parts and bytes involved, times the logarithm of the number of keys where a map is concerned; no value or text, valid or not, makes such a call quadratic. Comparing and compressing deeply nested values may also depend on the depth.",
 ["inputs", "histories"], "All values (every kind of container, scalar, text and binary, wide or deeply nested) and all texts of each kind, at every size.",
 "Tests use values of a few elements, for which a quadratic implementation gives the right answer as quickly; growth shows only between sizes, and in time that tests do not judge.",
 [D, J, "src/c/json.c", "src/c/data-cbor.c", "src/c/data-xml.c", "src/c/data-yaml.c", "src/c/base64.c", "src/c/config.c", "src/c/queue.c"],
 [("one pass per conversion, growing buffers with a remembered end", "src/c/data-json.c: iot_data_strcat, src/c/data-cbor.c: iot_cbor_holder_check_size"), ("constant time list and queue ends", "src/c/data.c: iot_data_list_tail_push; src/c/queue.c"), ("token walk that never restarts", "src/c/json.c: iot_json_parse; src/c/data-json.c: iot_data_value_from_json")])
prop("C29", "Threads working on unrelated values, texts, files and objects do not interfere",
 "A call that builds, encodes, decodes, converts, compares, hashes, copies, updates, configures, stores, reads, logs, queues or manages objects gives the result it would give alone, whatever other threads do at the same time with other values, texts, files, queues, loggers, pools, schedulers and containers, and without data race: nothing a call keeps for itself lies in storage shared between threads, first uses included. Global by design are only the allocation caches, the default logger, the registries of factories and containers, and the unique clock, all of which are safe to share.",
 ["schedules", "inputs"], "All combinations and interleavings of calls in any number of threads on objects none of which is shared.",
 "Unit tests run one call at a time; a static buffer or an unprotected lazy initialisation gives the right answer until two threads meet in it.",
 [D, J, "src/c/json.c", "src/c/data-cbor.c", "src/c/data-xml.c", "src/c/data-yaml.c", "src/c/base64.c", "src/c/config.c", "src/c/store.c", "src/c/file.c", "src/c/uuid.c", "src/c/util.c", "src/c/queue.c", "src/c/logger.c", "src/c/container.c", "src/c/threadpool.c", "src/c/scheduler.c"],
 [("buffers on the caller's stack or heap", "src/c/data-json.c: iot_data_dump_json; src/c/config.c: iot_config_substitute_env; src/c/store.c: iot_store_config_path"), ("per thread policy and parsing state", "src/c/data.c: iot_data_alloc_from_heap; src/c/container.c: iot_load_in_progress"), ("once-only initialisation", "src/c/logger.c: iot_logger_default; src/c/uuid.c: iot_uuid_generate")])
prop("C30", "Built-in loggers, pools and schedulers do what their configuration says",
 "A logger, thread pool or scheduler that a container creates from configuration, in whatever order its settings and the components stand, has every setting given and the default for each one left out. A logger has its name and level (by name in any case, the default level for an unknown one), writes to the file, UDP address or console named (a file that cannot be opened is no crash), keeps what the file held, is started at once unless told otherwise, and passes on to the logger named next; its level can be reconfigured, which is saved. A pool runs as many jobs at once as its number of threads, queues no more than its job limit (any number when 0), and its threads have its priority and processor, like a scheduler's thread its own. What pools and schedulers log goes to the logger they name, and to no other.",
 ["configurations", "histories"], "All configurations of the built-in component types, settings present or not and in any order, and all start, stop and reconfigure histories.",
 "Tests create each built-in type from one or two fixed configurations and check that it exists, not what it then does.",
 ["src/c/logger.c", "src/c/threadpool.c", "src/c/scheduler.c", "src/c/container.c", "src/c/component.c"],
 [("logger configuration", "src/c/logger.c: iot_logger_config, iot_logger_reconfig, iot_logger_level_from_string"), ("pool configuration", "src/c/threadpool.c: iot_threadpool_config"), ("scheduler configuration", "src/c/scheduler.c: iot_scheduler_config")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
