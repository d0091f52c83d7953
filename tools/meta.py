#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "src/main/aerospike/"; C = "src/main/citrusleaf/"; HA = "src/include/aerospike/"; HC = "src/include/citrusleaf/"

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook))

PROPS = [
P("P01", "Serialized values decode back to equal values",
  "Any tree of nil, booleans, integers, doubles, strings, geojson, byte blobs, lists and maps, once serialized and then deserialized, gives back a tree equal in shape, types and content: every integer, every double bit pattern, the text, the blob bytes with their type tag, list order, map entries and the map's key-ordering attributes. "
  "Decoding consumes exactly the bytes that encoding produced, so values packed back to back decode one after another.",
  ["inputs"], "all value trees: every scalar boundary, string/blob/list/map sizes across every header-width boundary, sizes above the internal packing block, arbitrary nesting",
  "unit tests round-trip a few dozen fixed values; header-width boundaries crossed with buffer-block boundaries and nesting are not enumerated",
  [A+"as_msgpack.c", A+"as_msgpack_serializer.c", A+"as_serializer.c"],
  [("as_pack_val / as_unpack_val", A+"as_msgpack.c"), ("serializer block chaining", A+"as_msgpack_serializer.c")],
  observe=["as_serializer_serialize/deserialize, as_pack_val/as_unpack_val results"]),
P("P02", "Packed bytes are standard, shortest-form MessagePack",
  "Packing a value produces exactly the MessagePack bytes of that value in shortest form, strings and blobs carrying a one-byte type prefix and key-ordered maps a leading zero-length extension entry, independent of which packing entry point is used. "
  "Conversely every well-formed encoding of a value, shortest or not, decodes to that value.",
  ["inputs"], "all values and all legal encodings of each",
  "tests check a handful of literals; wire compatibility needs every width boundary of every type",
  [A+"as_msgpack.c"], [("pack_* header selection", A+"as_msgpack.c"), ("as_unpack_val type switch", A+"as_msgpack.c")],
  observe=["bytes written by as_pack_* and as_serializer_serialize; values from as_unpack_*"]),
P("P03", "Announced packed size is exact and fixed buffers are never overrun",
  "The size announced for a value or header before packing equals the number of bytes packing it writes. "
  "Packing into a caller-supplied fixed-size buffer either writes the complete encoding inside the buffer or reports failure, never touches a byte outside the buffer, and never replaces the caller's buffer. A tree holding a value that has no encoding is refused as a whole by sizing and packing alike.",
  ["inputs", "configurations"], "all values and all buffer capacities from zero to larger than needed",
  "tests use ample buffers; the failing capacities are a product of value and offset",
  [A+"as_msgpack.c", A+"as_msgpack_serializer.c", HA+"as_msgpack.h"],
  [("*_size functions and NULL-buffer sizing", A+"as_msgpack.c"), ("pack_append/pack_byte capacity tests", A+"as_msgpack.c")],
  observe=["guard bytes around the buffer, returned sizes, packer offset"]),
P("P04", "Decoding arbitrary bytes is memory-safe and all-or-nothing",
  "Given any byte string whatsoever, decoding, skipping, sizing, peeking at or comparing packed data reads only inside the given bytes, terminates, and either reports an error or returns a result consistent with the bytes it consumed. "
  "A failed decode leaves nothing allocated.",
  ["inputs"], "all byte strings, in particular truncations, corruptions and hostile length fields of valid encodings",
  "tests decode only data produced by the packer",
  [A+"as_msgpack.c"], [("remaining-length tests in the as_unpack_* functions", A+"as_msgpack.c")],
  observe=["AddressSanitizer red zones around an exactly sized copy of the input, LeakSanitizer, return values"]),
P("P05", "Packed comparison and value comparison agree and are a total order",
  "Comparing two packed values gives the same answer as comparing the two values themselves: by type rank first, then by content, lists element by element, maps (of the same ordering attribute) by size and then by sorted entries, with wildcard and infinity markers treated alike on both sides. "
  "Without wildcards and not-a-number doubles the relation is reflexive, antisymmetric and transitive, and a packed comparison leaves both cursors just past the compared values.",
  ["inputs"], "all pairs and triples of values of all types, at any nesting depth",
  "order laws quantify over pairs and triples; tests compare a few dozen pairs",
  [A+"as_msgpack.c"], [("as_val_cmp", A+"as_msgpack.c"), ("msgpack_compare_* and the non-recursive fallback", A+"as_msgpack.c")],
  observe=["as_val_cmp, as_unpack_compare, as_unpack_buf_compare results and cursor positions"]),
P("P06", "Skipping and inspecting packed data agree with decoding it",
  "For well-formed packed data, skipping an element advances to exactly where decoding it would, at any nesting depth; the reported type, element count, scalar value, text, blob and extension contents are those of the decoded element. "
  "Asking for an element as the wrong type fails.",
  ["inputs"], "all well-formed encodings of all element types, nested to thousands of levels",
  "tests skip shallow values; the deep path uses separate code",
  [A+"as_msgpack.c"], [("unpack_size_internal / unpack_size_non_recursive", A+"as_msgpack.c"), ("as_unpack_peek_type and direct unpackers", A+"as_msgpack.c")],
  observe=["as_unpack_size, as_unpack_peek_type, header counts, direct scalar unpackers"]),
P("P07", "Reference-counted values live until the last release, then are freed once",
  "A reference-counted value or allocation stays intact and readable as long as at least one reference is held, whichever threads take and drop references, and its resources (including caller-supplied memory it was told to own) are released exactly once when the last reference is dropped. "
  "Everything written before a thread drops its reference is visible to the thread that destroys the value, and taking or dropping references on shared constants has no effect.",
  ["schedules", "histories"], "all interleavings of reserve and release by any number of threads, over every value type",
  "tests drop references from one thread; races and double frees need concurrent drops",
  [A+"as_val.c", C+"cf_alloc.c", A+"as_result.c"],
  [("atomic count with release decrement and acquire fence", A+"as_val.c"), ("cf_rc_reserve/release", C+"cf_alloc.c")],
  state=[("count", "outstanding references", HA+"as_val.h")],
  observe=["allocation ledger on cf_* allocations, destroy results, ThreadSanitizer"]),
P("P08", "Containers release each element exactly once",
  "A list, map, pair or result takes over one reference of each element given to it and drops that reference exactly once: when the element is overwritten, removed, trimmed, cleared, rejected by a convenience setter, or when the container is destroyed; elements shared with a derived list stay valid until both are gone. "
  "After everything is destroyed no allocation remains and nothing is freed twice.",
  ["histories"], "all sequences of container operations, including failing ones, over heap and stack containers and elements",
  "tests rarely run under a leak checker and exercise few failing or overwriting calls",
  [A+"as_arraylist.c", A+"as_orderedmap.c", A+"as_pair.c", A+"as_result.c", A+"as_list.c", A+"as_map.c"],
  [("as_val_destroy on overwrite/remove/trim/destroy", A+"as_arraylist.c"), ("set/remove/clear/destroy", A+"as_orderedmap.c")],
  observe=["per-element reference counts, allocation ledger, LeakSanitizer"]),
P("P09", "A list behaves as an index-addressed sequence",
  "After any sequence of append, prepend, insert, set, remove, concat and trim, the size, every get, every typed get, head, tail, take, drop, iteration and visitor order are those of the ideal sequence, with gaps created by writing past the end reading as nil. "
  "An operation that reports failure (no growth allowed, index out of range) changes nothing.",
  ["histories", "configurations"], "all operation sequences over all capacities and growth settings, through the concrete and the generic interface",
  "state depends on the whole history of growth and shifting; tests use short scripted sequences",
  [A+"as_arraylist.c", A+"as_arraylist_hooks.c", A+"as_arraylist_iterator.c", A+"as_list.c"],
  [("ensure / delta growth", A+"as_arraylist.c"), ("hook table dispatch", A+"as_arraylist_hooks.c")],
  observe=["every public read accessor compared with a reference sequence after each step"]),
P("P10", "A map behaves as a sorted dictionary",
  "After any sequence of set, remove, clear and lookups, a map holds exactly the entries of the ideal dictionary: the latest value per key, correct size, absent keys reading as nothing, and iteration and visitors presenting each entry once in ascending key order. "
  "Setting an unsupported key type is refused and changes nothing, and the ordering attributes read back as last set.",
  ["histories"], "all operation sequences and insertion orders, from empty to many thousands of entries, with reads interleaved anywhere",
  "inserts are buffered and merged lazily, so behaviour depends on order, size and when reads happen",
  [A+"as_orderedmap.c", A+"as_map.c", HA+"as_stringmap.h", HA+"as_hashmap.h"],
  [("hold table, merge", A+"as_orderedmap.c"), ("binary search on as_val_cmp", A+"as_orderedmap.c")],
  observe=["get/size/iterate/foreach compared with a reference sorted map after each step"]),
P("P11", "Text form of any value is complete, bounded and faithful",
  "The text form of any value is a terminated string that contains the values' contents in full: integers parse back to the same number, doubles to the same number within 16 significant digits, strings appear quoted, lists, maps and pairs show every member once in order with nested values rendered the same way (a member without a text form, such as an empty byte buffer, as <NULL>). "
  "Producing it never reads or writes outside the value or the result, whatever the sizes, and equal values hash equally.",
  ["inputs"], "all value trees, including empty and very long members",
  "buffer growth in the renderers depends on element count and text lengths; tests print a few small values",
  [A+"as_arraylist_hooks.c", A+"as_list.c", A+"as_map.c", A+"as_orderedmap.c", A+"as_bytes.c", A+"as_string.c", A+"as_geojson.c", A+"as_pair.c", A+"as_integer.c", A+"as_double.c", A+"as_boolean.c"],
  [("*_val_tostring functions", A), ("*_val_hashcode functions", A)],
  observe=["as_val_tostring, as_val_hashcode vs an independent renderer"]),
P("P12", "A byte buffer keeps its contents and bounds",
  "A byte buffer behaves as an ideal bounded byte array under any sequence of set, append, get, truncate and capacity changes: reads return what was written, reads and writes outside the permitted range are refused without any effect, growing preserves contents, and a buffer that does not own its memory is never resized in place of its owner. "
  "Variable-length integers written to it read back as the same number and length.",
  ["histories", "inputs"], "all operation sequences, indexes, sizes and ownership modes, including extreme index/size values",
  "tests use in-range indexes; refusal cases are a large product",
  [A+"as_bytes.c", HA+"as_bytes.h"], [("as_bytes_copy/set/append/ensure/truncate", A+"as_bytes.c")],
  observe=["every accessor vs a reference byte array, sanitizer red zones"]),
P("P13", "The single-threaded queue is an exact double-ended queue",
  "After any sequence of pushes and pops at either end, the queue returns exactly the items an ideal double-ended queue would, in that order and with intact bytes, across wrap-around, growth and stack-to-heap transfer. "
  "A limited push is refused exactly when the queue is at its current capacity, and refusals and pops from an empty queue change nothing.",
  ["histories", "configurations"], "all operation sequences, item sizes and capacities",
  "wrap-around and growth depend on history; tests run a few scripted sequences",
  [A+"as_queue.c", HA+"as_queue.h"], [("virtual index modulo capacity; growth copy", A+"as_queue.c")],
  observe=["pop results, size, emptiness vs std::deque"]),
P("P14", "The blocking queue delivers every item exactly once and wakes its waiters",
  "Under any number of concurrent producers and consumers each item pushed is popped exactly once and intact, items of one producer taken by one consumer from the head come out in push order, and every pop order is explainable by some sequential order of the operations. "
  "A pop that waits returns as soon as an item is available, a timed pop gives up no earlier than its limit and not long after it, and an unlimited wait never misses a push.",
  ["schedules", "histories"], "all interleavings of pushes at both ends and waiting, timed and non-waiting pops",
  "lost wakeups and duplicated items need particular interleavings",
  [A+"as_queue_mt.c", HA+"as_queue_mt.h"], [("mutex + condition variable, wait loop", A+"as_queue_mt.c")],
  observe=["per-operation history with unique values and timestamps, ThreadSanitizer"]),
P("P15", "The general queue follows its sequential specification",
  "After any sequence of push, push at head, push at index, limited and unique push, pop, peek, delete, delete all, reduce in either direction and selective pop, the queue contains exactly the elements an ideal sequence would, in order and intact. "
  "Deleting by value removes every match (or just the first if asked), visitors see each element once in order, and each call reports the documented outcome.",
  ["histories", "configurations"], "all operation sequences, element sizes and initial capacities, thread-safe and not",
  "the ring's wrap, growth and middle deletion interact; tests cover a few shapes",
  [C+"cf_queue.c", HC+"cf_queue.h"], [("ring buffer with virtual offsets, cf_queue_resize, cf_queue_delete_offset", C+"cf_queue.c")],
  observe=["all results and a full snapshot by visitor vs std::vector"]),
P("P16", "The general queue is safe and live under concurrency",
  "In its thread-safe mode, with any number of threads pushing, popping, deleting, peeking, reducing and selectively popping, every element is delivered exactly once or deleted exactly once, order within a producer is kept, and results are explainable by a sequential order. "
  "Waiting pops and waiting selective pops wake when an element is available and timed ones end near their limit.",
  ["schedules", "histories"], "all interleavings of the operations",
  "needs concurrency; the tests are single-threaded or lightly threaded",
  [C+"cf_queue.c"], [("LOCK / CV discipline", C+"cf_queue.c")],
  observe=["histories with unique values, ThreadSanitizer, watchdog on progress"]),
P("P17", "The thread pool runs every accepted task exactly once",
  "Every task accepted by a thread pool is executed exactly once with its own argument, with at most as many running at a time as there are threads; destroying the pool first lets every accepted task finish, runs the thread finalizer once per thread, and leaves no thread running. "
  "Submitting to an already destroyed pool is refused and destroying it again has no effect.",
  ["schedules", "histories"], "all interleavings of submissions (also from inside tasks), executions and shutdown, for any number of threads",
  "loss or duplication around shutdown depends on timing",
  [A+"as_thread_pool.c", C+"cf_queue.c"], [("dispatch queue plus one shutdown message per thread", A+"as_thread_pool.c")],
  observe=["per-task execution counters, concurrency gauge, thread count after destroy, ThreadSanitizer"]),
P("P18", "The buffer pool never shares a live buffer and honours its limits",
  "A buffer obtained from the pool is large enough for the request, writable in its whole advertised capacity and headroom, and is not handed to anyone else until returned, under any concurrent use. "
  "Regular buffers returned within the limit are reused, oversized or excess ones are freed, dropping removes exactly as many as reported, and destroying the pool frees all idle buffers.",
  ["schedules", "histories"], "all interleavings and sequences of take, return, limited return, drop and destroy for all sizes",
  "needs concurrent histories and leak accounting",
  [A+"as_buffer_pool.c"], [("cf_queue of free buffers, header offset arithmetic", A+"as_buffer_pool.c")],
  observe=["ownership ledger of buffers, fill patterns, allocation ledger"]),
P("P19", "The string builder never overflows and never lies about its content",
  "After any sequence of appends the builder holds a terminated string equal to the concatenation of the appended pieces, as long as every append succeeded; numbers are in plain decimal and bytes in hex. "
  "A fixed-size builder that runs out of room reports failure, keeps a terminated prefix of the concatenation, and never writes outside its buffer, while a growable one never fails for lack of room.",
  ["histories", "configurations"], "all append sequences, capacities, and fixed/growable/stack/external buffers",
  "the failing position sweeps over every offset within every piece",
  [A+"as_string_builder.c", HA+"as_string_builder.h"], [("append with capacity test and growth", A+"as_string_builder.c")],
  observe=["content, length and result vs std::string, guard bytes"]),
P("P20", "Text utilities stay within their buffers and convert faithfully",
  "Converting bytes to hex text and back, bounded string copy, path base name and digest printing yield the exact expected text, truncate only with the documented terminated prefix and truncation report, and reject malformed hex. "
  "They never write past the stated target size nor read past the source terminator, for any sizes.",
  ["inputs"], "all inputs and all target sizes",
  "edge sizes (0, 1, exact, exact minus one) across all inputs are not covered",
  [A+"as_bytes.c", A+"as_string.c", HC+"cf_digest.h"],
  [("as_bytes_to_string*/from_string", A+"as_bytes.c"), ("as_strncpy, as_basename", A+"as_string.c")],
  observe=["outputs vs reference strings, exact-size heap buffers under AddressSanitizer"]),
P("P21", "Base64 is standard, invertible and strictly validated",
  "Encoding any bytes gives the standard padded base64 text of the announced length, and decoding it (also in place) returns the original bytes and length. "
  "Validated decoding accepts exactly the well-formed padded texts and rejects everything else; nothing is ever written beyond the announced sizes.",
  ["inputs"], "all byte strings and all candidate texts",
  "tests decode a few literals; validation quantifies over all malformed texts",
  [C+"cf_b64.c", HC+"cf_b64.h"], [("encode/decode tables and padding rules", C+"cf_b64.c")],
  observe=["outputs vs OpenSSL and an independent validator, exact-size buffers"]),
P("P22", "Digests equal the published algorithms for all inputs and chunkings",
  "The SHA-1 and RIPEMD-160 digests equal the published algorithms' result for every message, and feeding a RIPEMD-160 message in pieces gives the same digest however it is split, including two-part digests. "
  "The non-cryptographic hashes (FNV, Jenkins, Murmur3, wyhash) equal their published definitions for every input, reading only the input bytes.",
  ["inputs"], "all messages, all lengths across block boundaries, all splits",
  "record digests are a wire/storage contract; tests check few vectors and no chunkings",
  [C+"cf_crypto.c", C+"cf_digest.c", HC+"cf_digest.h", HC+"cf_hash_math.h"],
  [("block buffering in Update/Final", C+"cf_crypto.c"), ("inline hash functions", HC+"cf_hash_math.h")],
  observe=["digests vs OpenSSL and independent implementations"]),
P("P23", "Password hashing is standard bcrypt and tells passwords apart",
  "Hashing a password with a salt gives exactly the standard bcrypt result (60 characters, terminated, within the fixed-size hash buffer), deterministic, also from several threads at once, and failing for malformed salts; a prompted or given password is taken over as typed, cut to its buffer. "
  "Generated salts are well formed and differ, and verification accepts a hash exactly when it is identical.",
  ["inputs"], "all passwords (any length and byte content) and salts",
  "interoperability quantifies over all passwords; tests check a few",
  [A+"as_password.c", A+"crypt_blowfish.c", HA+"as_password.h"], [("BF_crypt, key schedule, self-test", A+"crypt_blowfish.c")],
  observe=["hashes vs the system's bcrypt"]),
P("P24", "TLS certificates match exactly the names they certify",
  "A certificate is accepted for a name exactly when its subject common name or one of its DNS alternative names equals that name without regard to case, or, where wildcards are allowed, is a single left-most wildcard label standing for exactly one label. "
  "Names containing embedded terminators, partial wildcards, empty or extra labels never match; matching by alternative name alone accepts exactly equal DNS names and addresses denoting the same address.",
  ["inputs"], "all certificates (any number and kind of names) and all requested names",
  "tests have a few fixed certificates; hostile names are a large space",
  [A+"ssl_util.c", HA+"ssl_util.h"], [("as_tls_match_name / as_tls_match_san", A+"ssl_util.c")],
  observe=["match results on generated certificates vs an independent matcher"]),
P("P25", "Locks, monitors and atomic operations keep their guarantees",
  "Spin locks admit one holder at a time, the spin reader/writer lock never admits a reader together with its single writer, and whatever one holder wrote is seen by the next. "
  "A monitor waiter returns only after, and always after, a notification, and may then destroy the monitor; concurrent atomic add, exchange, compare-and-swap and set-maximum of every width lose no update.",
  ["schedules"], "all interleavings of lock, unlock, wait, notify and atomic updates by any number of threads",
  "no test runs these concurrently under a race detector",
  [HA+"as_atomic_gcc.h", HA+"as_atomic.h", HA+"as_monitor.h"],
  [("as_spinlock_*, as_swlock_*", HA+"as_atomic_gcc.h"), ("as_monitor_*", HA+"as_monitor.h")],
  observe=["guarded non-atomic data, holder gauges, final sums, ThreadSanitizer"]),
P("P26", "Random output fills exactly the request and is independent across threads",
  "Requests for random bytes, integers or alphanumeric text fill exactly the requested length (text is terminated and purely alphanumeric), never touch neighbouring memory, and can be made from any number of threads at once. "
  "Streams of different threads or instances differ, successive outputs do not repeat, and every byte position and alphabet symbol varies. When the system has no randomness to give, a byte request that says so leaves nothing locked or repeated, and works again afterwards.",
  ["inputs", "schedules"], "all request lengths, all threads",
  "tests ask for a few lengths in one thread",
  [A+"as_random.c", C+"cf_random.c", HA+"as_random.h"], [("xorshift128+ per thread", A+"as_random.c"), ("locked entropy buffer", C+"cf_random.c")],
  observe=["guard bytes, per-position statistics, duplicates across threads, ThreadSanitizer"]),
P("P27", "The linked list stays consistent under every operation",
  "After any sequence of prepend, append, insert before/after, ordered insert, delete and reducing visits, walking the list forwards and backwards gives exactly the ideal sequence and the size agrees; removed elements are handed to the destructor exactly once. "
  "With locking enabled this also holds under concurrent use.",
  ["histories", "schedules"], "all operation sequences and interleavings",
  "pointer surgery at head, tail and middle under reduce/delete needs long histories",
  [C+"cf_ll.c", HC+"cf_ll.h"], [("cf_ll_* link updates under LOCK", C+"cf_ll.c")],
  observe=["forward/backward walks vs a reference list, destructor counts, ThreadSanitizer"]),
P("P28", "The vector is an exact growable array",
  "After any sequence of append, unique append, reserve, set, remove, clear and capacity growth, the vector holds exactly the items of the ideal array with intact bytes, across growth and stack-to-heap transfer, and array snapshots equal its contents. "
  "Freshly reserved items are zero, unique append adds an item exactly when it is absent, and removing an index outside the array is refused.",
  ["histories", "configurations"], "all operation sequences, item sizes and capacities",
  "growth and shifting depend on history",
  [A+"as_vector.c", HA+"as_vector.h"], [("as_vector_increase_capacity, as_vector_remove", A+"as_vector.c")],
  observe=["contents vs std::vector, sanitizer red zones"]),
P("P29", "Deadlines and epoch conversions are correct at every instant",
  "A wait deadline computed at any moment is a valid, normalized time equal to that moment plus the requested delay. "
  "Conversions between UTC and the product epoch are inverse where defined and floor at zero before the epoch, and an expiry time converts to a time-to-live of at least one second, never-expires staying never-expires.",
  ["inputs"], "all clock readings (including the last nanosecond of a second), delays and timestamps",
  "tests cannot choose the clock; the faulty instant occurs once in a billion",
  [HC+"cf_clock.h"], [("cf_set_wait_timespec, cf_clock_current_add, cf_*clepoch*", HC+"cf_clock.h")],
  observe=["results under a substituted system clock"]),
P("P30", "Running out of memory is reported, never corrupting",
  "When an allocation fails inside an operation of a queue, list, map, byte buffer, string builder, serializer or value (creation, growth, copying, encoding, decoding, measuring, comparing, text form), the operation reports failure, everything stored before is still there and readable, later operations work once memory is available again, and nothing leaks or is freed twice. A queue whose lock or condition cannot be set up is not created.",
  ["fault_sequences", "histories"], "every allocation made by every operation, failed one at a time (and repeatedly), at every point of a history",
  "tests never inject allocation failures",
  [A+"as_queue.c", C+"cf_queue.c", A+"as_arraylist.c", A+"as_orderedmap.c", A+"as_bytes.c", A+"as_msgpack_serializer.c", A+"as_msgpack.c"],
  [("NULL checks and state updates around growth", A)],
  observe=["allocation fault injector at the cf_* boundary, model comparison after the fault, allocation ledger"]),
P("P31", "Pluggable objects dispatch every call faithfully",
  "A list, map, record, stream, timer, iterator, module, serializer or service object built on user-supplied operations passes each call's arguments unchanged to the supplied operation and returns its result, and falls back to its fixed default when the operation is missing. "
  "Lists, maps, records, streams, iterators and timers release their source exactly once, with the last reference; a result keeps the value set last and releases each value once; typed accessors give the value when its type matches and the empty default otherwise. "
  "Log messages reach the installed callback exactly when their level is enabled, with level, location and arguments intact.",
  ["inputs", "configurations"], "all objects, operation subsets, arguments and log levels",
  "tests exercise one implementation with all operations present",
  [A+"as_rec.c", A+"as_stream.c", A+"as_timer.c", A+"as_aerospike.c", A+"as_module.c", A+"as_iterator.c", A+"as_result.c", A+"as_log.c", HA+"as_rec.h", HA+"as_stream.h", HA+"as_log_macros.h"],
  [("as_util_hook dispatch", HA+"as_util.h"), ("as_log macros", HA+"as_log_macros.h")],
  observe=["recording implementations, uninitialised-memory detection"]),
P("P32", "Values convert and read back exactly as what they are",
  "Taking a value as a boolean, integer, double, string, geojson, byte buffer, list, map, record or pair gives that same value exactly when it is of that type and nothing otherwise, also for an absent value. "
  "Accessors return the number, text, bytes, length, kind or members the value was made with, for as long as any reference is held, and the given or fixed fallback when the value is absent; only true booleans and non-zero integers count as true. "
  "Releasing a reference reports whether the value remains; the shared constants (nil, true, false, wildcard, infinity) survive any number of reserves and releases, and borrowed contents are neither changed nor freed.",
  ["inputs", "histories"], "all values of all types, sizes and ways of construction",
  "tests read back a few values of the expected type",
  [A+"as_val.c", A+"as_boolean.c", A+"as_integer.c", A+"as_double.c", A+"as_string.c", A+"as_geojson.c", A+"as_pair.c", A+"as_nil.c", HA+"as_val.h", HA+"as_util.h", HA+"as_string.h", HA+"as_bytes.h"],
  [("as_util_fromval", HA+"as_util.h"), ("as_val_tobool", A+"as_val.c"), ("as_string_len", A+"as_string.c")],
  observe=["conversion and accessor monitor, allocation ledger"]),
P("P33", "Platform helpers: byte order, directories, names and pauses",
  "Conversions to and from big- and little-endian 16-, 32- and 64-bit numbers and doubles give the number whose bytes in memory are in that order, and undo each other. "
  "Listing a directory yields every entry exactly once, then nothing, and leaves no descriptor open; a directory is said to exist exactly when it can be listed. "
  "A thread takes the name given to it, with its index appended, cut to the system's limit, and a pause lasts at least as long as asked.",
  ["inputs"], "all numbers, directory contents, names and durations",
  "tests do not exercise these helpers directly",
  [HC+"cf_byte_order.h", HA+"as_dir.h", HA+"as_thread.h", HA+"as_sleep.h"],
  [("cf_swap_to_be64", HC+"cf_byte_order.h"), ("as_dir_read", HA+"as_dir.h"), ("as_thread_set_name_index", HA+"as_thread.h")],
  observe=["byte-wise comparison, directory model, descriptor census"]),
]

NOT_APPLICABLE = {}

def main():
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    from checks import CHECKS
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in PROPS]
    man = dict(version=1, setup_cmd="python3 run.py --setup",
        checks=[dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
            technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["note"]) for i in ids if i in CHECKS],
        not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")) for i in ids if i not in CHECKS],
        notes="No hooks in /repo: instrumentation is applied to the compiled objects (see DESIGN.md).")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    main()
