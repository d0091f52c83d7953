"""What decides each property: harness programs, builds, texts for MANIFEST and evidence."""

def V(harness, build="asan", **k):
    return dict(harness=harness, build=build, **k)

SAN = "AddressSanitizer+UndefinedBehaviorSanitizer (fatal) on every execution; allocation ledger"
CHECKS = {}

def C(id, variants, technique, rule, note, level="exploration", assumptions=()):
    CHECKS[id] = dict(variants=variants, technique=technique, rule=rule, note=note, level=level, assumptions=list(assumptions))

C("P13", [V("p13"), V("p13l", "plain", shards=8)],
  "model-based runtime monitor (ideal deque) under ASan/UBSan",
  "random operation histories over item sizes 1..40 and capacities 1..33, three construction modes, queues of more than 65535 items, and the moment the offsets turn over after 2^30 pushes at every fill of small queues; a history is distinct by its operation sequence and configuration",
  "Every result, size and byte of each history compared with an ideal deque; plus histories of more than 2^30 pushes. Exploration: histories not generated are not covered.")
C("P01", [V("p01")], "round-trip monitor against an independent value model under ASan/UBSan",
  "generated value trees (scalars at every width boundary, strings/blobs up to 70000 bytes, containers across 16/65536, spines up to 900 deep); distinct by encoded bytes",
  "Every tree is rebuilt from an independent model, serialized, decoded from an exactly sized copy and compared structurally, and again back to back with cursor positions. Exploration of generated trees only.",
  assumptions=["strings and geojson contain no NUL byte; blobs tagged STRING/GEOJSON are by design decoded as those types and are not generated"])
C("P02", [V("p02")], "differential monitor against an independent MessagePack encoder under ASan/UBSan",
  "all integers and element counts in a block around zero exhaustively, plus generated trees through every packing entry point and random legal (also non-shortest) encodings decoded back; distinct by encoded bytes",
  "Bytes from every packing entry point are compared with an independent encoder; decoding is driven with alternative encodings of the same model value.",
  assumptions=["as P01 for strings and blob tags"])
C("P03", [V("p03")], "size oracle and fixed-buffer monitor (red zones at the capacity) under ASan/UBSan",
  "each direct pack function at every capacity around its encoding size from random offsets, and announced sizes of generated trees, trees with a member that has no encoding; distinct by encoded bytes",
  "Announced sizes compared with an independent encoder; every write outside the caller's buffer lands in an ASan red zone or a canary, and the packer is checked for a replaced buffer.")
C("P04", [V("p04")], "structure-aware fuzzing with exactly sized inputs under ASan/UBSan, allocation ledger",
  "all inputs of 1-2 bytes (thorough: 3), mutated/truncated encodings of generated values, hostile headers, values damaged 0-600 levels deep, extreme nesting; distinct by input bytes",
  "Every decoding, skipping, peeking and comparing entry point runs on heap copies of exactly the input size; oracle: no sanitizer report, cursor inside the input after success, sizes consistent with decoding, no block left after failure.",
  assumptions=["allocations above 64 MiB fail (hostile element counts)"])
C("P05", [V("p05")], "differential monitor: reference order vs as_val_cmp vs packed comparison, cursor and ledger checks, ASan/UBSan",
  "pools of related and unrelated generated values and of extension elements compared pairwise, plain and wrapped up to 2000 levels deep; distinct by packed pair",
  "All ordered pairs of a pool are compared by an independent reference order, by as_val_cmp and on packed bytes (shortest and alternate encodings, with trailing data); results, antisymmetry, reflexivity and both cursors are checked.",
  assumptions=["map comparison is exercised with the same ordering attribute on both sides"])
C("P06", [V("p06")], "differential monitor: independent MessagePack parser vs every skip/peek/direct accessor on every element, ASan/UBSan",
  "streams of generated values in all legal encodings, up to 3000 levels deep, with extension elements, and headers, texts and extensions of up to 2^32 elements or bytes; distinct by bytes",
  "An independent iterative parser gives each element's kind, extent and content; every accessor of the library is asked about every element, right type and wrong type, and the decoder must stop at the same place.")
C("P07", [V("p07", build="tsan"), V("p07")], "ThreadSanitizer and ASan/UBSan over concurrent reserve/release histories, destructor observer, allocation ledger",
  "2-4 threads reserve, read and release every value type and cf_rc blocks under randomised delays; distinct by hash of the order of atomic operations observed",
  "Exactly one release reports the end, a record's destroy hook sees every thread's last writes, contents stay intact while referenced, the ledger returns to its start, no race report.",
  assumptions=["interleavings are sampled, not enumerated"])
C("P09", [V("p09")], "model-based runtime monitor (ideal sequence) under ASan/UBSan, allocation ledger",
  "random histories over every list operation in its concrete, generic and typed forms, all construction modes, capacities 0-19, growth steps 0 to 2^32-1, indexes up to 2^32-1, lists of 200-1400 and more than 65535 elements; distinct by operation sequence and configuration",
  "After every operation size and every element are compared with an ideal sequence; visitors, iterators, typed reads and derived lists are compared as well; a refused operation must have been impossible and must have changed nothing.",
  assumptions=["single allocations above 16 MiB fail, so that writes far past the end stay affordable"])
C("P10", [V("p10")], "model-based runtime monitor (ideal sorted dictionary) under ASan/UBSan, allocation ledger",
  "random histories over every map operation in its concrete, generic, hash-map and string-key forms, small key universes and maps of up to several thousand (some more than 65535) entries filled in orders that defer inserts; distinct by operation sequence and configuration",
  "Lookups, sizes, visitors and iterators compared with an ideal dictionary ordered by an independent reference order; unsupported keys must be refused without effect; ordering attributes must read back as set; large maps are driven with the deferred-insert table non-empty.")
C("P08", [V("p08")], "reference-count monitor: every element's count against an ideal ownership model after each operation, destructor observer, ASan/UBSan, allocation ledger",
  "random histories over several lists, maps, pairs and results sharing elements of every type, with refused, overwriting, derived and self-concatenating operations; distinct by operation sequence",
  "The harness keeps one reference per element, so every count must equal one plus the element's occurrences in live containers; at the end nothing may remain allocated.")
C("P11", [V("p11")], "independent reader of the text form, hash comparison between differently built equal values, ASan/UBSan, allocation ledger",
  "generated value trees (strings up to 70000 bytes, containers whose text passes every length up to 1600, nesting up to 300), each built in two ways; distinct by encoded value",
  "Every text is parsed by an independent reader against the model value and must end exactly there; the same value built differently must give the same text and hash.",
  assumptions=["strings contain no NUL byte; doubles are read back to within 1e-15 relative (the text has 16 significant digits); empty byte buffers have no text of their own"])
C("P12", [V("p12")], "model-based runtime monitor (ideal bounded byte array) under ASan/UBSan, allocation ledger",
  "random histories over every byte-buffer operation, six construction modes, capacities 0-49 and up to 70000, indexes and lengths up to 2^32-1 including wrapping sums; distinct by operation sequence and configuration",
  "Every result, size, capacity and byte compared with an ideal array; buffers have exactly their capacity, so an escape lands in a red zone; lent memory is watched after the buffer moves away.",
  assumptions=["bytes of a gap created by writing past the size are unspecified"])
C("P14", [V("p14", build="tsan"), V("p14", build="asan", scale=1.5)], "offline linearizability checker over recorded concurrent histories, exactly-once/order monitor, wake-up monitor with injected spurious wakeups and delays, ThreadSanitizer and ASan",
  "short histories (2-4 threads, up to 20 operations), blocked-waiter scenarios and producer/consumer runs with injected delays and spurious wakeups; distinct by observed order of synchronisation events",
  "Every history is searched for a sequential explanation by an ideal double-ended queue; timed pops are timed against the wall clock; an endless wait with an element available for 20 s is a lost wakeup.",
  assumptions=["schedules are sampled, not enumerated"])
C("P15", [V("p15"), V("p15l", "plain", shards=7)], "model-based runtime monitor (ideal sequence) under ASan/UBSan, allocation ledger",
  "random histories over every queue operation, element sizes 1-40, capacities 1-9, 64 and about 2^30 (offset folding), queues of 65300 elements, runs of more than 2^30 pushes in an optimised build, with and without locking; distinct by operation sequence and configuration",
  "After each operation the whole queue is visited in one direction and compared with an ideal sequence; every result and visited element is compared too.",
  assumptions=["a selective pop whose visitor never names a candidate is not judged"])
C("P16", [V("p16", build="tsan"), V("p16", build="asan", scale=1.5)], "offline linearizability checker over recorded concurrent histories, exactly-once/order monitor, wake-up monitor with injected spurious wakeups and delays, ThreadSanitizer and ASan",
  "short histories (2-4 threads, up to 20 operations of 16 kinds), blocked-waiter scenarios and producer/consumer/deleter runs with injected delays and spurious wakeups; distinct by observed order of synchronisation events",
  "Every history is searched for a sequential explanation by an ideal sequence; timed pops are timed against the wall clock; an endless wait with an element available for 20 s is a lost wakeup.",
  assumptions=["schedules are sampled, not enumerated", "the size accessor is an unsynchronised read by design: judged by linearizability (not next to multi-element deletes), not by the race detector"])
C("P17", [V("p17", build="tsan"), V("p17", build="asan")], "per-task exactly-once monitor, concurrency gauge, thread census and finalizer counter under injected delays, spurious wakeups and thread-creation failures, ThreadSanitizer and ASan",
  "pools of 0-6 threads, up to several hundred tasks submitted by up to 4 threads and, three levels deep, by the tasks themselves, with shutdown at arbitrary moments by up to 4 threads at once, and backlogs of more than 65535 tasks; distinct by observed order of synchronisation events",
  "Every accepted task must have run exactly once with its own argument when destroy returns; nothing may run or remain afterwards.",
  assumptions=["schedules are sampled, not enumerated", "no thread other than the pool's own tasks submits while the pool is being destroyed"])
C("P18", [V("p18", build="asan"), V("p18", build="tsan", scale=0.6)], "ownership monitor (stamped buffers, idle-set model), allocation ledger, ASan and ThreadSanitizer",
  "random sequential histories with headers 0-40, buffers up to 140 bytes and requests up to 2^32-1, and concurrent histories by 2-5 threads; distinct by operation sequence or observed order of synchronisation events",
  "Every buffer is filled over its whole advertised area and re-verified while held; the number of live allocations must equal idle plus held buffers after every call.",
  assumptions=["schedules are sampled, not enumerated"])
C("P19", [V("p19"), V("p19l", build="plain", shards=3, par=8)], "model-based runtime monitor (std::string) under ASan/UBSan with exactly sized buffers, allocation ledger",
  "random histories over every append kind on heap, stack and lent buffers, capacities 1-600 and 60000-150000, growable and fixed, pieces aimed at the exact end of the buffer, byte pieces of up to 2^32-1 bytes, texts of 2^31 to 2^33 characters in an optimised build; distinct by operation sequence and configuration",
  "After each append the text, length and terminator are compared with the concatenation; a refusal must be impossible to avoid and leave a terminated prefix.",
  assumptions=["capacity is at least one (room for the terminator)"])
C("P20", [V("p20")], "differential runtime monitor (reference conversions) under ASan/UBSan with exactly sized buffers, allocation ledger",
  "generated byte strings, hex texts with single-character damage, copies and paths into targets of every size around the needed one (0 included), sources of up to 2^32-1 bytes; distinct by input and target size",
  "Text, result and untouched remainder of every target compared with reference functions; source and target have exactly the stated sizes so an escape lands in a red zone.",
  assumptions=["hex texts are shorter than 2^31 characters"])
C("P21", [V("p21")], "differential runtime monitor (OpenSSL encoder, independent validator and decoder) under ASan/UBSan with exactly sized buffers",
  "random byte strings, damaged and arbitrary texts through all four decoders, announced sizes over the whole 32-bit range, one text of more than 2^31 characters; distinct by bytes or text",
  "Texts, decoded bytes, sizes and acceptance compared with independent implementations; refused texts must leave every buffer as it was.",
  assumptions=["unvalidated decoding is given well-formed text only; unused low bits of the last symbol are not judged"])
C("P22", [V("p22"), V("p22l", "plain", shards=8)], "differential runtime monitor (OpenSSL digests, independently written hash definitions anchored on published vectors) under ASan/UBSan",
  "messages of every length up to 400 and up to 9000 bytes at odd addresses, random splittings into pieces, and messages of 2^29+77 and 2^32+3 bytes; distinct by message and alignment",
  "Every digest and hash compared with an independent implementation; messages, pieces and contexts are exactly sized so a read outside them is reported.",
  assumptions=["the expected digests of the two very long messages were computed with OpenSSL and are recomputed in the thorough tier"])
C("P23", [V("p23")], "differential runtime monitor (the system's bcrypt) under ASan/UBSan with exactly sized buffers, sequential and from several threads",
  "passwords of 0-400 bytes of every content (eighth-bit and 0xff patterns included), random and re-used salts of all three subtypes, damaged salts, prompted passwords from a pipe, work factors 4, 5 and 10; distinct by password and salt",
  "Every hash compared with libcrypt; malformed salts judged by an independent format check; prompted text compared with the line typed.",
  assumptions=["libcrypt's bcrypt is correct", "as_password_prompt_hash considers the first 63 characters (its buffer)"])
C("P24", [V("p24")], "differential runtime monitor (independent name matcher on generated certificates) under ASan/UBSan, allocation ledger",
  "certificates with 0-50 alternative names of five kinds and 0-20 common names in five string encodings, derived from the asked name by case changes, wildcards in every position, label changes, embedded terminators; host, IPv4 and IPv6 names; OpenSSL's own allocations counted before and after; distinct by certificate and name",
  "Acceptance by both entry points compared with an independent matcher over the generated names.",
  assumptions=["names asked for contain no control characters or backslashes", "OpenSSL decodes certificates correctly"])
C("P25", [V("p25", build="tsan"), V("p25", build="plain")], "mutual-exclusion and version monitors over guarded plain data, conservation checks on atomic results, publication tests, spurious-wakeup injection, ThreadSanitizer and optimised native build",
  "2-4 threads contending on each lock, monitor rounds with early and late notifications, every typed and generic atomic operation; distinct by observed order of synchronisation events",
  "Holders are counted with plain data, readers check for half-made and older versions, every addition, exchange and compare-and-swap is accounted for, and data published with release operations is read plainly after the matching acquire.",
  assumptions=["schedules are sampled, not enumerated", "hardware reorderings beyond x86 are judged through ThreadSanitizer's happens-before only"])
C("P26", [V("p26"), V("p26", build="tsan", scale=0.3)], "guard bytes and red zones around every request, statistical monitors (position, symbol, bit), duplicate detection across threads, seeding-fault injection, AddressSanitizer+UBSan and ThreadSanitizer",
  "request lengths 0-8191 aligned or not for every source, up to 6 threads drawing at once, processes without descriptors or with a generator that fails in between; distinct by (source, length)",
  "Every request is compared with its guard bytes and with its repetitions; all 64-bit draws of all threads of a case must differ.",
  assumptions=["randomness is judged by variation and balance only, not by cryptographic quality", "processes forked after first use are not covered"])
C("P27", [V("p27"), V("p27c", build="tsan")], "model-based monitoring of every operation against a reference sequence, destructor accounting, per-thread visibility monitors under concurrent use, AddressSanitizer+UBSan and ThreadSanitizer",
  "up to 60 operations per history over all list operations in both directions, lists of more than 65535 elements; 2-4 threads on a locked list; distinct by operation history or observed schedule",
  "After every operation the list is walked both ways and compared; every visit's order, result and removals are compared; removed elements are really freed, so that a stale link is a reported access.",
  assumptions=["index, iterators and direct head/tail/next/prev access take no lock and are only used while nobody modifies the list"])
C("P28", [V("p28"), V("p28l", build="plain", shards=1)], "model-based monitoring of every operation against a reference array, allocation ledger, AddressSanitizer+UBSan; one native run beyond 4 GB of items",
  "item sizes 1-300, capacities 0-19, stack and heap storage, up to 150 operations, vectors of more than 65535 items; one vector of 4.1 GB; distinct by operation history",
  "After every operation all items, the size and the snapshot are compared byte for byte with the reference array.",
  assumptions=["indices given to get and set are below the size", "the appended value does not lie inside the vector being grown"])
C("P29", [V("p29")], "results compared with exact 128-bit arithmetic under a substituted system clock, AddressSanitizer+UBSan",
  "clock readings at and around second boundaries, 32-bit limits and the product epoch; delays 0 to 2^31-1 ms; all conversion functions; distinct by (reading, argument)",
  "Each deadline, reading, conversion and time-to-live is compared with the exact value; deadlines must be normalized.",
  assumptions=["delays are not negative", "the clock reads later than the product epoch where seconds since it are asked for"])
C("P30", [V("p30")], "allocation fault injection at every allocation of every growing operation (once, and from there on), model comparison after the fault and after recovery, allocation ledger, AddressSanitizer+UBSan",
  "queues, lists, maps (including the large-map insertion path), byte buffers, values, string builder, serializer both ways, size and comparison of deep encodings, text forms, buffer pool, thread pool start and close, lock and condition set-up of queues; distinct by (operation, failing allocation, history)",
  "Each injected failure must be reported or harmless, the contents must equal the reference before or after the operation, the operation must work once memory is back, and no allocation may be left over.",
  assumptions=["vector, which has no way to report failure, is not covered", "the failing allocation is one the library itself makes (OpenSSL's are not failed)"])
C("P31", [V("p31")], "recording implementations of every operation with random subsets missing, argument and result comparison per call, allocation ledger, stale-memory initialisation, AddressSanitizer+UBSan",
  "list, map, record, stream, iterator, timer, service, module, serializer and result objects, on the stack and the heap, with all, some or no operations; typed access over values of every type; log macros at every level; distinct by (call, present or missing, arguments)",
  "Every call must run exactly its own operation with its own object and arguments and return that result, or run nothing and return the default; sources are released once with the last reference; a log message arrives exactly when its level is enabled.",
  assumptions=["the destroy operations of the service object and of the serializer, which the library never runs, are not judged", "the log callback and level are not changed while another thread logs"])
C("P32", [V("p32")], "model-based runtime monitor (what each value was made from) over every conversion and accessor, allocation ledger, stale-memory initialisation, AddressSanitizer+UBSan",
  "values of all fourteen kinds made in place or on the heap, with owned, borrowed or no contents, numbers with only high or low bits set, texts of up to 70000 bytes, and the absent value; distinct by kind, way of making and contents",
  "Every conversion must give the value exactly for its own type and nothing otherwise; accessors must return what the value was made from, before and after extra references come and go, and the fallback for an absent value; constants survive any number of releases.",
  assumptions=["the length given with a text is its length"])
C("P33", [V("p33", shards=4)], "differential runtime monitor (byte-wise conversion, the generated directory, the requested name and time) under AddressSanitizer+UBSan, descriptor census",
  "all 16-bit and random 32- and 64-bit numbers and doubles in four directions, scratch directories of 0-900 entries with names of 1-255 arbitrary bytes, thread names with and without index, short pauses; distinct by number, listing or name",
  "Converted numbers are compared byte for byte, listings with the entries created, thread names with the text asked for; listing must leave no descriptor open.",
  assumptions=["little-endian host (the only one available here)", "nobody else changes the scratch directory"])

# How many times the harness's own number of quick cases is run.
for _id, _n in dict(P01=4, P02=2, P03=4, P04=3, P05=3, P06=2, P08=4, P09=3, P10=3, P11=4, P12=3, P14=3, P16=3, P17=3,
                    P18=2, P19=2, P20=4, P21=3, P23=2, P24=4, P27=4, P28=4, P29=4, P30=2, P31=2, P32=10, P33=4).items():
    for _v in CHECKS[_id]["variants"]:
        if _v["build"] != "plain":      # those have a fixed list of long cases
            _v["quick"] = _n
CHECKS["P13"]["variants"][0]["quick"] = 4
