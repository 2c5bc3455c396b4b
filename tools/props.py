# the properties: text, anchors and how each is decided
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   observe_at=observe or [], hook_needed=None),
                      technique=technique, note=note))


LL = "pkg/storage/logfs/locallog.go"
CH = "pkg/storage/chunkfs/chunk.go"
SV = "pkg/api/service.go"
IB = "pkg/ql/intervalbuilder.go"
BD = "pkg/storage/buntdb/buntdb.go"

EXPL = "Exploration: holds on the executions driven and observed (PRNG seeded, replayable); says nothing about those not driven. "

P("D01", "Acknowledged records are read back exactly once, in order, byte for byte",
  "Every record the storage acknowledges is returned by a full read of its log exactly once, with the acknowledged ID, the bytes that were sent and the creation time its ID encodes, in the order of appending, in both directions, no matter how records are spread over storage files. "
  "A batch is acknowledged as its leading part up to the first record which cannot be stored even in an empty storage file, and only such a record is ever refused while there is place on the disk; when there is none, what is acknowledged stays readable and the appends work as soon as there is some. IDs within a log grow strictly.",
  ["inputs", "histories", "configurations"],
  "every sequence of appends with any batch and record sizes (empty, exactly filling, oversized), every storage file size, growth step, read limit, bunch limit and number of simultaneously opened files",
  "tests append a few fixed-size records with one configuration; the layout corner cases (capacity-exact records, growth steps, batches split over files) depend on the combination of sizes",
  [LL, CH, "pkg/storage/chunkfs/provider.go"],
  [("append loop which rolls over chunks", LL), ("chunk layout, growth and capacity check", CH)],
  "online reference-model monitor over generated append/read histories",
  EXPL + "The model is the list of acknowledged records per log; payload buffers are scribbled after use to catch aliasing.",
  ["AppendRecords result", "QueryRecords result"])

P("D02", "Following page IDs returns every matching record exactly once and ends",
  "Repeating a record query with the start set to the returned next-page ID, until no next-page ID is returned, yields exactly the matching records, each once, in the requested order, for any limit. Every page respects the limit.",
  ["inputs", "histories", "configurations"],
  "every history, set of logs, direction, start, condition, page limit, and every internal read limit that can cut a page short",
  "tests page forward over one log with one limit; descending pages, size-cut pages and pages ending on storage file borders are not sampled",
  [SV, "pkg/api/riterator.go", "pkg/api/mixer.go", LL],
  [("next page ID computation", SV), ("per-log iterator continuation", "pkg/api/riterator.go")],
  "online reference-model monitor walking the pages of generated queries", EXPL + "Oracle: the reference selection over the model of acknowledged records.",
  ["QueryRecords result"])

P("D03", "A query over several logs is the ordered union of the logs",
  "A record query that covers several logs, chosen by IDs or by a logs condition, returns the leading part (up to the limit) of the union of the matching records of these logs ordered by record ID in the requested direction, and a next-page ID if something is left. "
  "If more logs are covered than can be merged, the request is refused but never answered from a part of the logs.",
  ["inputs", "histories", "configurations"],
  "every set of logs (including empty ones), every interleaving of appends over them, both directions, every start, condition and limit",
  "tests merge a handful of records from mocked logs; the merge tree depends on the number of logs, exhausted sources and refills",
  [SV, "pkg/api/mixer.go", "pkg/api/riterator.go", "golibs/container/iterable/mixer.go"],
  [("merge tree", "pkg/api/mixer.go"), ("two-way mixer", "golibs/container/iterable/mixer.go")],
  "online reference-model monitor over generated multi-log queries", EXPL + "Oracle: sort-merge of the per-log models.", ["QueryRecords result"])

P("D04", "Start ID and creation-time condition select exactly the matching records",
  "A record query returns a record if and only if its ID is not before (not after, when descending) the start ID and its creation time makes the condition true, for every well-formed condition built of comparisons, NOT, AND, OR and parentheses over any instants. "
  "A malformed condition, logs condition or start ID is refused as an invalid argument. A blank condition selects everything.",
  ["inputs", "histories"],
  "every condition (any nesting, any operator, instants of any precision, inside, between and far outside the recorded times), every start ID, both directions, every history",
  "tests try a dozen of conditions with times far from record times; negations of unions, sub-millisecond instants and out-of-range times are never evaluated",
  [LL, IB, "pkg/intervals/intervals.go", "pkg/ql/parser.go"],
  [("condition to time intervals", IB), ("intervals to ID ranges", LL)],
  "differential monitor: an independent condition evaluator against the returned selection", EXPL + "The reference evaluator works on the generated AST, not on the parsed text.",
  ["QueryRecords result", "gRPC status"])

P("D05", "Counting records agrees with reading them",
  "The total reported by a count request is the number of records in the covered logs, and the reported count is the number of records a read with the same start, direction and condition returns, whatever the limit is.",
  ["inputs", "histories", "configurations"],
  "every history, set of logs, start ID, direction and condition",
  "tests count a few fixed records; whole storage files are counted by metadata while the border ones are scanned, so disagreement depends on positions",
  [SV, LL], [("chunk-level and record-level counting", LL)],
  "online reference-model monitor of generated count requests", EXPL + "Oracle: the model of acknowledged records.", ["CountRecords result"])

P("D06", "Appends are atomic and reads under load see prefixes of the log",
  "While any number of clients append to and read a log, every read returns a prefix of the final log order (a suffix-free one when descending) that includes everything acknowledged before the read started and never returns a part of a record or a record of a refused append. "
  "The batches are contiguous, their records keep the order of the request, and the counts, log totals and returned IDs agree with the final log.",
  ["schedules", "histories"],
  "every interleaving of concurrent appends, reads and counts over the same and over different logs, with storage files being rolled over and evicted meanwhile",
  "unit tests append and read sequentially; the visible interleavings depend on the schedule of the metadata and data updates",
  [LL, CH, "golibs/ulidutils/ulidutils.go", "pkg/storage/cache/cache.go"],
  [("per-log locker", LL), ("chunk read/write lock", CH), ("strictly increasing IDs", "golibs/ulidutils/ulidutils.go")],
  "offline history checker (prefix linearizability) of recorded concurrent runs under the race detector",
  EXPL + "Delays are injected around the metadata calls. Race reports are violations.", ["AppendRecords result", "QueryRecords result", "CountRecords result"])

P("D07", "Acknowledged records survive a process kill and a restart",
  "After the process is killed at any moment, or is stopped, and the storage is opened again, possibly with other size settings, every record acknowledged before is read back once, in order, byte for byte, and nothing is returned that was not sent. "
  "The storage continues to accept and serve appends after that.",
  ["crash_points", "histories", "configurations"],
  "every kill point between and inside of system calls of appends, file growth, roll-over, uploads and evictions; every sequence of restarts with changed settings",
  "unit tests never kill the process; the file growth relocates the records table in place, so a kill in the middle needs the exact moment",
  [CH, LL, BD, "golibs/files/mmfile.go"],
  [("file growth and table relocation", CH), ("recovery on open", CH), ("metadata commit", BD)],
  "crash injection (SIGKILL at random moments and at chosen system calls) with a durability monitor over the acknowledged history",
  EXPL + "Process crashes only: pages written to the mapped file survive; no power failure.", ["AppendRecords result", "QueryRecords result"])

P("D08", "A storage file keeps what was written; the full check refuses damaged ones",
  "A single storage file returns exactly the appended records from any start ID in either direction, before and after it is closed and reopened, never exceeds its maximum size, and refuses to work when it is closed. "
  "Opening with the full check accepts every undamaged file and, when a header or table byte of a file is damaged or the file is cut, either refuses it or serves the same records as before the damage.",
  ["inputs", "histories", "configurations"],
  "every size configuration, batch sizes sequence, start ID, and every damage of the records table",
  "tests write a few records to default-size files and damage nothing but the length",
  [CH, "golibs/files/mmfile.go"], [("file layout", CH), ("full check", CH)],
  "online reference-model monitor plus byte-level fault injection", EXPL + "Payload bytes are not covered by any checksum, so only the header and the table are damaged.",
  ["Chunk.AppendRecords", "ChunkReader"])

P("R01", "Remote storage faults never lose acknowledged records",
  "Whatever calls to the remote storage fail, break off, deliver damaged data or lose their response, or when there is no place on the local disk for a while, no acknowledged record is lost: after the faults end, all of them are read back from local files and, after those are moved away, from the remote copies. "
  "A failed replication leaves the local file as it was, and a damaged local file is replaced by its intact remote copy.",
  ["fault_sequences", "histories"],
  "every sequence of uploads, downloads, moves, appends and reads with any of the remote calls failing in any way",
  "tests use a remote storage that never fails",
  ["pkg/storage/chunkfs/replicator.go", "pkg/storage/chunkfs/provider.go", CH],
  [("upload, download and move", "pkg/storage/chunkfs/replicator.go"), ("download on open", "pkg/storage/chunkfs/provider.go")],
  "fault injection into the remote storage with a durability monitor over the acknowledged history",
  EXPL + "A local damage is injected only where the light check on open can see it (header or size).", ["QueryRecords result", "remote storage calls"])

P("R02", "The background scanner replicates every change and sweeps only safely",
  "With the scanner running, every file change is eventually replicated, so the remote copy equals the local file once it is idle, and losing the local disk then loses nothing. "
  "A folder over its upper size threshold is eventually swept down to the lower one, oldest idle files first and not further than needed, never a file in use and never before its content is stored remotely; reads and appends stay correct meanwhile and a stopped scanner stops.",
  ["schedules", "fault_sequences", "configurations"],
  "every load, timing, threshold configuration and remote failures, as long as the remote storage recovers eventually",
  "tests scan a couple of prepared directories once without a load",
  ["pkg/storage/chunkfs/scanner.go", "pkg/storage/chunkfs/replicator.go", "pkg/storage/chunkfs/caccessor.go"],
  [("scan, sweep and replicate", "pkg/storage/chunkfs/scanner.go")],
  "stress workload with bounded-liveness and content-equality monitors under the race detector",
  EXPL + "Eventually is bounded by 8 seconds with scan periods of milliseconds.", ["remote storage content", "local files"])

P("R03", "Append, read, upload, download and removal of one file exclude each other",
  "However these operations overlap on the same storage file, an uploaded image is always a consistent file holding everything acknowledged before the upload was requested, an append is never acknowledged into a file that is being moved away, readers never see torn content, and every operation ends.",
  ["schedules"],
  "every overlap of appends, reads, handle holders, uploads, downloads and moves of the same files, with any delays",
  "unit tests of the access states are sequential; violations need a particular overlap",
  ["pkg/storage/chunkfs/caccessor.go", "pkg/storage/chunkfs/replicator.go", "pkg/storage/chunkfs/provider.go", LL],
  [("access states", "pkg/storage/chunkfs/caccessor.go")],
  "stress under the race detector with inspection of every uploaded image", EXPL, ["remote storage calls", "AppendRecords result", "QueryRecords result"])

P("R04", "Open file handles are bounded, valid while held and all closed at the end",
  "Never more storage files are mapped than configured, a held file stays readable until it is released even over a shutdown, waiting for a free place ends when one becomes free or the deadline passes, and a file that fails to open blocks nobody else. "
  "After the shutdown nothing can be opened and no mapping or descriptor is left; a refused append leaves no file behind.",
  ["schedules", "fault_sequences"],
  "every schedule of takers and releasers, with any deadlines, failing openings and a shutdown at any moment",
  "tests open a couple of files sequentially; wake-ups are lost only if a failure and a waiter coincide",
  ["pkg/storage/chunkfs/provider.go", "golibs/container/lru/releasable.go", "golibs/files/mmfile.go"],
  [("capacity, waiters and closing", "golibs/container/lru/releasable.go"), ("open and close", "pkg/storage/chunkfs/provider.go")],
  "stress under the race detector with an operating-system level monitor of mappings and descriptors", EXPL, ["/proc/self/maps", "/proc/self/fd"])

CA = "pkg/storage/cache/cache.go"

P("M01", "The logs catalogue behaves as a table of logs and their storage files",
  "Creating, reading, updating, querying (by IDs, by a condition, with or without deleted ones, page by page), marking and deleting logs and recording their storage files behave, with or without the cache and over restarts, exactly as the same operations on a plain table: every answer is what the preceding acknowledged operations imply, pages concatenate to all the matching logs in ID order with the exact total, and a refused operation, or one which fails because there is no place on the disk, changes nothing. "
  "A missing or deleted log is reported as not existing, malformed input as invalid, and a blank delete condition deletes nothing.",
  ["histories", "inputs"],
  "every sequence of the catalogue operations with any tags, conditions, IDs lists with repetitions and unknown IDs, pages and limits, and any number of logs",
  "tests call every operation a couple of times on a few logs; paging over the limit, marked logs between pages, repeated IDs and eviction of the cache are not sampled",
  [BD, CA, "pkg/ql/evaluator.go"], [("transactions over the key-value database", BD), ("logs and storage files caches", CA)],
  "online reference-model monitor over random operation sequences", EXPL + "Conditions come from a generator with its own AST evaluator.",
  ["storage.Logs results", "LogsMetaStorage results"])

P("M02", "The catalogue cache never serves what was changed before the read",
  "A read of a log or of its storage files that starts after an update, a delete or a storage files change was acknowledged returns the state of that change or a later one, however reads, changes and cache evictions overlap. "
  "Concurrent deletes by a condition all succeed, delete only logs matching at that moment, and no log is deleted by two of them.",
  ["schedules", "histories"],
  "every overlap of reads and changes of the same logs, with any duration of the underlying calls and any number of logs",
  "tests of the cache are sequential; a stale entry needs a change that happens while the value is being loaded",
  [CA, "golibs/container/lru/ecache.go", BD], [("invalidation on change", CA), ("loading of a missing value", "golibs/container/lru/ecache.go")],
  "monitor of read freshness (regular register) over concurrent histories with injected delays, under the race detector", EXPL,
  ["GetLogByID", "GetChunks", "GetLastChunk", "DeleteLogs"])

P("M03", "Acknowledged catalogue changes survive a kill; others are whole or absent",
  "After the process is killed at any moment and the catalogue is opened again, every acknowledged create, update, mark, delete and storage files change is there, and a request that was in progress is applied either completely or not at all, even if it covers many logs.",
  ["crash_points", "histories"],
  "every kill point of every sequence of the operations done by concurrent clients",
  "unit tests never kill the process",
  [BD], [("one transaction per request", BD)],
  "crash injection (SIGKILL at random moments and at chosen system calls) with a state monitor over the acknowledged history",
  EXPL + "Process crashes only, no power failure.", ["QueryLogs", "GetChunks"])

PG = "pkg/storage/postgres/postgres.go"

P("M04", "The relational catalogue behaves as the same table of logs, also under faults",
  "With the relational database behind the catalogue, creating, reading, updating, querying, paging, marking and deleting logs and recording their storage files answer exactly as the same operations on a plain table would, for any tags, conditions and lists, with or without the cache. "
  "A refused or failed operation changes nothing, a lost connection or a failed commit is reported instead of a partial answer, nothing a client sends can alter the meaning of a statement, and no connection or transaction is left open.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of the catalogue operations with any tags, conditions (hostile constants included), ID lists and pages, and failures of the database at any statement, row or commit",
  "the tests of this storage need a database container and do a handful of operations; none injects failures",
  [PG, "pkg/storage/postgres/transformers.go", "pkg/storage/postgres/model.go", "pkg/ql/translator.go", CA],
  [("statements and transactions", PG), ("condition to SQL", "pkg/ql/translator.go"), ("invalidation on change", CA)],
  "online reference-model monitor over the real storage code driven through a database driver with an in-memory SQL engine and injected faults",
  EXPL + "The statements are executed by an in-memory engine of the used PostgreSQL subset (bytewise collation); tags mentioned are present in all logs, no _ and \\ in LIKE patterns.",
  ["storage.Logs results", "LogsMetaStorage results", "statements seen by the driver"])

EV = "pkg/ql/evaluator.go"
DT = "pkg/ql/datetime.go"

P("Q01", "A condition selects exactly the logs and records it describes",
  "For every well-formed condition over log IDs, tags or creation time, with any nesting, spacing, quoting and keyword case, a log or record is selected exactly when the condition is true for it by the documented meaning of the operators and their precedence. "
  "A condition that is malformed or uses an operation its operand does not support is refused as invalid.",
  ["inputs"],
  "every condition and every log or record",
  "tests list a few dozen texts; precedence, negation and type combinations multiply",
  [EV, "pkg/ql/parser.go", "pkg/ql/dialect.go"],
  [("evaluator", EV), ("grammar", "pkg/ql/parser.go")],
  "differential monitor against an independent evaluator of the generated syntax trees", EXPL, ["BuildExprF result"])

P("Q02", "A time condition is turned into exactly the intervals where it holds",
  "The time intervals computed from a condition over creation time contain exactly the instants at which the condition is true, including the border instants, and are sorted and disjoint. A condition over anything else is refused as invalid.",
  ["inputs"],
  "every creation-time condition with any nesting, negation and border instants",
  "the errors sit on borders and empty or full results of nested combinations, tests check a few",
  [IB, "pkg/intervals/intervals.go", DT],
  [("interval builder", IB), ("interval algebra", "pkg/intervals/intervals.go")],
  "differential monitor: membership of border points versus an independent evaluator", EXPL, ["ParamIntervalBuilder.Build result"])

P("Q03", "Interval operations are the operations on sets of points",
  "Complement, intersection, union and the order relations of intervals with open and closed borders agree with the same operations on the sets of points the intervals denote, for any ordered type.",
  ["inputs"],
  "every pair of intervals of any kind of borders, degenerate and touching ones included",
  "tests list chosen pairs; the combinations of touching borders are many",
  ["pkg/intervals/intervals.go"], [("interval algebra", "pkg/intervals/intervals.go")],
  "monitor of the algebraic laws on all pairs over small domains", EXPL + "All pairs over the domains of 4 to 7 values are covered for four types.",
  ["Basis operations results"])

P("Q04", "A condition translated to SQL means the same, whatever constants it has",
  "The SQL produced from a logs condition selects exactly the logs for which the condition is true, and no constant or tag name can end its literal and become a part of the statement. A malformed condition is refused as invalid.",
  ["inputs"],
  "every condition, including constants built of quotes, comments and SQL fragments",
  "tests compare a few produced texts to expected ones; nothing executes them",
  ["pkg/ql/translator.go", "pkg/ql/dialect.go"], [("translation", "pkg/ql/translator.go")],
  "differential monitor: the produced SQL is executed by an in-memory engine and compared with an independent evaluator",
  EXPL + "Bytewise collation; all the mentioned tags exist; no _ and \\ in LIKE patterns.", ["Translate result"])

P("Q05", "Any condition text is answered; time literals mean the instant they name",
  "Whatever text is given as a condition, it is accepted or refused as invalid, always the same way, without a crash or a hang, however long or deeply nested. "
  "A time literal in any documented format denotes exactly the instant it names, and a text that names no instant is refused.",
  ["inputs"],
  "every text, any length and nesting; every instant in every documented format, zone and precision",
  "a crash needs a hostile text and a wrong instant a particular month, hour or zone; tests use the same date everywhere",
  ["pkg/ql/parser.go", DT, "golibs/datetime/date.go", "pkg/ql/dialect.go"],
  [("parser", "pkg/ql/parser.go"), ("time literals", DT), ("date formats", "golibs/datetime/date.go")],
  "hostile-input stress with crash, hang and error-kind monitors, and a round-trip monitor of time literals", EXPL, ["Parse result", "interval of an equality condition"])

KI = "golibs/kvs/inmem/inmem.go"
KR = "golibs/kvs/redis/redis.go"
DL = "golibs/kvs/distlock/kvlock.go"
LRUC = "golibs/container/lru/cache.go"
LRUR = "golibs/container/lru/releasable.go"

P("K01", "The key-value storages behave as one versioned map, atomically",
  "Concurrent creates, reads, writes, version-checked updates and deletions of keys give results explainable by executing them one at a time in an order consistent with real time, in the in-memory storage and in the Redis one alike. "
  "Every change gives a version never used before for the key, only one of several creations or updates expecting one version succeeds, an expired record doesn't exist, and a listing gives exactly the existing matching keys.",
  ["schedules", "histories", "inputs"],
  "every interleaving of operations of any number of clients on any keys, values and expiration times",
  "tests run operations one by one, or a couple of goroutines over one key; lost updates need an interleaving between a read and a write",
  [KI, KR, "golibs/kvs/kvs.go"],
  [("locked map with versions", KI), ("optimistic transactions", KR)],
  "offline linearizability checker (porcupine) over recorded histories of concurrent clients, and an online reference-model monitor",
  EXPL + "Redis is a miniredis server in the process.", ["kvs.Storage results"])

P("K02", "A waiter for a change of a key is woken up by the change and only by it",
  "A caller waiting for a change of a key version returns promptly once the version differs, the record is deleted or expires, or its context ends, and reports which of them happened; it doesn't return before one of them. A follower of a key sees its last version.",
  ["schedules", "histories"],
  "every order and timing of the waiters registration, changes, deletions, expirations and cancellations",
  "a wake-up is lost only when a change falls between the check and the registration of the waiter",
  [KI, KR], [("waiters notification", KI), ("waiting over Redis", KR)],
  "online liveness and ordering monitor of concurrent waiters, with the race detector", EXPL, ["Storage.WaitForVersionChange result"])

P("K03", "A distributed lock has one holder, and is passed on",
  "A named lock is never held by two holders at once, within a provider and between providers sharing one storage, as long as the holder keeps renewing its lease; a lock of a dead holder can be taken only after its lease is over, and a release never affects another holder. "
  "Everyone waiting for the lock gets it after it is released, or its own deadline error, and everyone is refused after a shutdown.",
  ["schedules", "fault_sequences"],
  "every interleaving of lock, try-lock, lock with a deadline, unlock, loss of the holder and shutdown",
  "tests use a few goroutines and happy paths; double holders need a lost lease or a deadline racing with a release",
  [DL, "golibs/kvs/kvs.go"], [("lease over the key-value storage", DL)],
  "online monitor of mutual exclusion and progress with injected holder losses, with the race detector", EXPL + "Process stalls over a quarter of the lease disable the judgement.",
  ["gsync.Locker results"])

P("L01", "The cache creates a value once, evicts the oldest, and hands over every value",
  "A cached value is returned until it is removed, evicted or expired; concurrent requests for a missing key create its value once and get that value; when the cache is over its size the least recently used value goes, and every value that leaves the cache is passed to the deletion callback exactly once. "
  "A value removed before a request started is never returned by it, and a failed creation leaves nothing.",
  ["schedules", "histories"],
  "every sequence and interleaving of requests, failures, removals and clearings, any size and expiration",
  "tests check sequential eviction and one concurrent creation; a removal during a creation is not sampled",
  [LRUC, "golibs/container/lru/expirable.go"], [("LRU list and creation in progress", LRUC)],
  "online reference-model monitor and conservation monitor of the values under concurrent clients", EXPL, ["Cache.GetOrCreate result", "deletion callback"])

P("L02", "Borrowed objects are limited, shared, never closed in use, closed once",
  "The cache of borrowed objects never has more objects alive than its limit, never disposes an object somebody holds, disposes every object exactly once in the end, and lends one object per key to all its holders. "
  "A caller waiting for a place goes on as soon as there is one, or gets its deadline, creation or closing error.",
  ["schedules", "histories"],
  "every interleaving of borrowing, releasing, failing creations, deadlines and closing",
  "tests have a few fixed scenarios; lost wake-ups and early disposals depend on the interleaving",
  [LRUR], [("reference counting and waiting for a place", LRUR)],
  "online reference-model monitor and monitor of the objects life cycle under concurrent clients, with the race detector", EXPL, ["ReleasableCache results", "deletion callback"])

P("L03", "Iterators keep their order and lose nothing while the collection changes",
  "Iterating over the ordered map gives every element present during the iteration exactly once in the order of addition, whatever is added or removed meanwhile, and the map itself always answers as a plain one. "
  "Mixing sorted sources gives the sorted merge of them without losses and duplicates, and asking whether there is more never moves it.",
  ["histories", "inputs"],
  "every sequence of changes with any number of iterators opened, moved and closed in between; every tree of sources",
  "tests remove an element or two under one iterator",
  ["golibs/container/iterable/map.go", "golibs/container/iterable/mixer.go"],
  [("deleted elements kept for iterators", "golibs/container/iterable/map.go"), ("merge", "golibs/container/iterable/mixer.go")],
  "online reference-model monitor over generated operation sequences", EXPL, ["Map and Iterator results"])

P("L04", "Ring buffer and block storage give back what was put into them",
  "The ring buffer behaves as a bounded queue of any capacity. The block storage hands out every block to one owner at a time until all are taken, keeps the content of blocks apart, restores what is allocated after a re-opening, and refuses wrong sizes and indices.",
  ["histories", "inputs"],
  "every sequence of operations and every capacity, block size and storage size",
  "tests use one or two sizes; wrap-around and exhaustion over several segments need particular combinations",
  ["golibs/container/ringbuffer.go", "golibs/container/bytes/blocks.go"],
  [("ring indices", "golibs/container/ringbuffer.go"), ("allocation bitmap", "golibs/container/bytes/blocks.go")],
  "online reference-model monitor over generated operation sequences", EXPL, ["RingBuffer results", "Blocks results"])

P("L05", "Encoding is lossless and safe for any bytes; hashes and embedded objects survive",
  "Values written to a stream or marshalled to a buffer give the same bytes of the size announced, and decode to the same values; a short buffer is refused and never written behind. "
  "Decoding any bytes never panics, never reads behind them and refuses what does not fit. A hash survives its text form and doesn't follow the caller's buffer, an object embedded to an error is found in it after wrapping and gRPC.",
  ["inputs"],
  "every sequence of values of all the kinds, every buffer size, every mutated or random input, every hash and every chain of wrapped errors",
  "tests round-trip several constants; overlong and overflowing numbers, exact-size buffers and hostile inputs need generated cases",
  ["golibs/xbinary/xbinary.go", "golibs/strutil/hash.go", "golibs/errors/errors.go"],
  [("variable length numbers, strings and bytes", "golibs/xbinary/xbinary.go"), ("embedded objects", "golibs/errors/errors.go")],
  "online round-trip and differential monitor (against encoding/binary) over generated and mutated inputs", EXPL, ["Marshal and Unmarshal results", "ObjectsWriter output"])

P("L06", "A delayed call runs once and in time, unless it is cancelled before",
  "A function scheduled by a timeout is called exactly once, not before its time and soon after it, even if other scheduled functions run long. It is not called at all if it was cancelled before its time.",
  ["schedules", "histories"],
  "every mix of delays, nested scheduling, cancels at any moment from any goroutine, long running functions",
  "the outcome depends on the race of the cancel, the timer and the workers; tests schedule a few calls",
  ["golibs/timeout/timeout.go"],
  [("heap of futures and the workers", "golibs/timeout/timeout.go")],
  "event monitor of calls and cancels under stress; Go race detector", EXPL + "Timing is judged with a wide margin and not at all when the machine stalls.", ["Call", "Future.Cancel"])

P("L07", "Object storages keep exactly what was put, for any keys and clients",
  "A value put by a key is read back byte for byte until it is overwritten or deleted, a missing key is reported as not existing, and a listing gives exactly the immediate keys and sub-paths of the path. "
  "Wrong keys are refused, a put which fails doesn't spoil the previous value, a reader keeps the value it was got for, and concurrent operations of a key behave as if they happened one by one.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "every sequence of operations over every valid and wrong key, with failing sources and failing S3 requests, and every interleaving of clients",
  "tests put and list a few keys from one goroutine; paging, prefixes which look like each other and concurrent use are not sampled",
  ["golibs/sss/inmem/storage.go", "golibs/sss/s3/storage.go", "golibs/sss/service.go"],
  [("in-memory storage", "golibs/sss/inmem/storage.go"), ("S3 storage", "golibs/sss/s3/storage.go")],
  "reference-model monitor over generated histories (an S3 server in the process for the S3 client), linearizability checker (porcupine) over concurrent ones; Go race detector",
  EXPL + "Keys with . and .. segments are left out: the AWS library rewrites them.", ["Get", "Put", "List", "Delete results"])

P("L08", "Contexts end once with one error, sleeps and channel helpers lose nothing",
  "A context with a custom error ends exactly once, with the error of the first of its cancels or of its parent, and everybody sees that error since then. A sleep ends by its time or its context, a signal which comes at any time after the creation ends the signals context, and a value written to one of many channels gets to the reported one exactly once.",
  ["schedules"],
  "every interleaving of cancels, parents which end, observers, writers, readers and closers",
  "tests cancel from one goroutine; the first-wins races need concurrent schedules",
  ["golibs/context/cnclderr.go", "golibs/context/signal.go", "golibs/context/sleep.go", "golibs/context/wrapper.go", "golibs/chans/chans.go", "golibs/chans/select.go"],
  [("cancel with an error", "golibs/context/cnclderr.go"), ("writing to many channels", "golibs/chans/chans.go")],
  "event monitor over concurrent schedules; Go race detector", EXPL, ["Done and Err", "WriteFirst result"])

P("L09", "The configuration in force is defaults, then the file, then the environment",
  "Every setting has the value of its environment variable if it is provided, else of the configuration file (JSON or YAML) if it is provided there, else the default; names are matched in any letter case and by aliases, and nothing else changes, the configurations applied over each other included (they share lists and maps only). A file which is missing or wrong is an error. "
  "The database receives exactly the configured user, database name and password.",
  ["configurations", "inputs"],
  "every subset of the settings given by the file and by the environment, every value (quotes, spaces, control characters, zeroes), every letter case, and sequences of changes over nested and missing structures",
  "tests check a couple of settings; the precedence of every combination and values with special characters are not sampled",
  ["golibs/config/enricher.go", "pkg/server/config.go", "pkg/db/config.go"],
  [("applying values", "golibs/config/enricher.go"), ("precedence", "pkg/server/config.go"), ("connection string", "pkg/db/config.go")],
  "online reference-model monitor over generated configurations; an emulated database server observes the connection parameters", EXPL, ["BuildConfig result", "Enricher.Value", "database start-up message"])

P("L10", "Identifiers are unique, grow and encode their time; neighbours are exact",
  "No identifier is generated twice; an identifier requested after another one was returned is greater than it, as bytes and as text, and encodes the time of its generation. The next and the previous identifiers of any one are exactly its neighbours.",
  ["schedules", "inputs"],
  "every interleaving of concurrent generators, any number of identifiers within a millisecond, every identifier with any number of carried bytes",
  "tests generate several identifiers in a row",
  ["golibs/ulidutils/ulidutils.go"],
  [("monotonic entropy under the lock", "golibs/ulidutils/ulidutils.go")],
  "off-line checker of the event log (real-time order, uniqueness) of concurrent generators; Go race detector; big integers as the oracle of neighbours",
  EXPL + "The clock is not moved back: it cannot be set in the sandbox.", ["New, NewID, NewUUID, NextID, PrevID results"])

P("L11", "File helpers keep trees intact and never leave the folder they are given",
  "Listing, copying, hashing, archiving with filters, joining and unpacking archives and removing give exactly the expected files with the same content, however the folder's path is spelled; equal hashes mean equal content. "
  "Unpacking never touches anything out of the destination folder and damaged archives are reported. A memory mapped file gives access to exactly the bytes of the file, and growing it keeps them.",
  ["inputs", "histories"],
  "every tree, filter, spelling of the path, archive (hostile and damaged ones too), sequence of mapped file operations",
  "tests use a tree of three files named in one way",
  ["golibs/files/files.go", "golibs/files/ziputil.go", "golibs/files/hash.go", "golibs/files/mmfile.go"],
  [("tree walks", "golibs/files/files.go"), ("archives", "golibs/files/ziputil.go"), ("mapping", "golibs/files/mmfile.go")],
  "differential monitor: the file system state after every helper against the model; hostile archives in a deep scratch folder", EXPL, ["file system state"])

P("L12", "Collection, string, pointer and address helpers do what they are named for",
  "Set operations over slices, copies, reversing, removing, filling, map keys and values, string de-duplication, truncation and random strings, byte and string casts, and addresses with ports give what their descriptions define for any arguments and leave the arguments as they were, unless they work in place.",
  ["inputs"],
  "every argument: empty, nil, repeated elements, any sizes",
  "tests try one or two arguments without repetitions",
  ["golibs/container/sliceutils.go", "golibs/container/maputils.go", "golibs/strutil/string.go", "golibs/cast/bytes_string.go", "golibs/transport/transport.go"],
  [("slices", "golibs/container/sliceutils.go")],
  "online comparison with the definitions over generated arguments", EXPL, ["results"])

P("L13", "An error keeps its class and its object over any number of network hops",
  "An error which is of one of the common classes is of the same class, and of no other, after it was wrapped any number of times and passed over the network as a status any number of times; a foreign error becomes an internal one. The same error always gets the same status code, and the object embedded to the error is extracted there unchanged.",
  ["inputs"],
  "every chain of wrapping, embedding and network hops over every class, foreign errors and statuses",
  "tests wrap a couple of classes once",
  ["golibs/errors/errors.go", "golibs/errors/grpc.go"],
  [("classes and status codes", "golibs/errors/grpc.go"), ("embedded objects", "golibs/errors/errors.go")],
  "online monitor of the class and the object after every hop over generated chains of errors", EXPL + "Errors of several classes at once are not judged: which class wins is not specified.",
  ["GRPCWrap, FromGRPCError, Is, ExtractObject results"])

P("L14", "A date found in a text is the instant written there, by the first format fitting",
  "A date written in a format of a parser anywhere in a text is found and gives exactly the instant it names, to the precision of the format, with its zone if it has one (UTC otherwise), the 12-hours clock marks in either letter case; the first format of the parser which fits the text decides and is reported. A parser of exact dates accepts the date only as the whole text. All the known formats accept the dates written in them. A text without a date is refused, no text makes the parser crash or is changed by it, and the answer doesn't change if the caller uses its buffer again.",
  ["inputs"],
  "every text, format, instant, zone and combination of formats",
  "tests parse four samples by the whole list of formats",
  ["golibs/datetime/date.go"],
  [("formats and terms", "golibs/datetime/date.go")],
  "online monitor: dates written by an independent writer are parsed and the instants, the reported formats and the buffers are compared", EXPL + "Dates without a year are never Feb 29, zones without an offset are UTC and GMT only.",
  ["Parse results", "state of the buffer and of the answer after it"])

RS = "pkg/api/rest/rest.go"
GS = "pkg/grpc/server.go"
RT = "pkg/http/router.go"

P("A01", "No request, whatever it contains, crashes or hangs the server or harms others",
  "Whatever is sent to the gRPC and the HTTP ports - unexpected fields, garbage messages, methods, paths, headers and bodies, broken off requests - every request is answered or refused in time, no handler panics, and the server keeps serving. "
  "Logs which the requests do not address keep their records, and nothing is written outside the storage folders.",
  ["inputs", "schedules"],
  "every request with any bytes in it, valid and wrong, from several clients at once",
  "tests call the service with well-formed requests; no test sends a hostile or a malformed one over a real connection",
  [SV, RS, GS, RT],
  [("request validation and recovery", SV), ("REST parsing", RS), ("servers", GS)],
  "online monitor of handlers (panics, deadlines), of witness logs and of the file system under hostile traffic to the real servers; Go race detector", EXPL,
  ["gRPC status", "HTTP status", "log output of recovered panics", "storage folders"])

P("A02", "A refused request tells the reason, the same over gRPC and REST, changes nothing",
  "A request which fails reports its kind over both protocols: an unknown or deleted log as not found, a malformed condition, start ID, parameter or body and an oversized record as an invalid request, too many logs at once as a too large one, and a storage failure by its class. The data stays as it was.",
  ["inputs", "fault_sequences"],
  "every refused request of any kind, over both protocols, and every failure of the metadata storage at any call",
  "tests check that an error is returned, not its kind at the client side, and never over the REST API",
  ["golibs/errors/grpc.go", RS, SV],
  [("kinds of errors to gRPC codes", "golibs/errors/grpc.go"), ("kinds of errors to HTTP statuses", RS)],
  "online monitor comparing the reported status with the known reason of generated wrong requests and injected storage faults; Go race detector", EXPL,
  ["gRPC status code", "HTTP status code"])

P("A03", "gRPC and REST APIs give the same answers, the REST ones as published",
  "Logs and records created over one protocol are seen over the other one with the same content, and the same query gives the same result over both: what the conditions, the direction, the limit and the page select, with the same totals and next pages. "
  "Every REST answer follows the published API schema.",
  ["inputs", "histories"],
  "every history of changes over both protocols mixed, and every query",
  "no test reaches the REST API at all, the conversion of parameters and answers is not sampled",
  ["pkg/api/rest/transformers.go", RS, SV],
  [("conversion between the REST and the service types", "pkg/api/rest/transformers.go")],
  "online differential monitor (REST against gRPC against a reference model) and a schema validator of REST answers; Go race detector", EXPL,
  ["REST answers", "gRPC answers"])

P("A04", "Concurrent clients over both APIs lose nothing, even over an orderly restart",
  "Every change acknowledged to a gRPC or a REST client is at once visible to all clients over both protocols and is still there after an orderly shutdown and a restart; a request in progress at the shutdown is either applied or refused. After the shutdown nothing is served, even over the connections and streams kept open, and nothing is left running.",
  ["schedules", "histories"],
  "every interleaving of several clients of both protocols with the shutdown at any moment, and several restarts",
  "tests never start the servers; the loss depends on the moment of the shutdown against the requests in progress",
  [GS, RT, "pkg/server/server.go", SV],
  [("start and shutdown of the gRPC server", GS), ("start and shutdown of the HTTP server", RT), ("assembling", "pkg/server/server.go")],
  "conservation and visibility monitor over concurrent histories of real clients, goroutine leak monitor; Go race detector", EXPL + "A kill of the process is D05 and M03.",
  ["API answers", "goroutines after the shutdown"])

P("A05", "The server as it is started keeps what it acknowledged over kills and stops",
  "The server command, configured by a file and the environment, serves both protocols, and every acknowledged change is visible at once and after the process is killed, is asked to stop by a signal in the middle of requests, or loses its database connections, and is started again; the request in progress is applied or not, an append by a prefix of its records. Asked to stop, it answers the requests it is working on, unless they take longer than the second it gives them, and ends in time without an error, and it ends with an error when it cannot work: a wrong configuration file, a busy port, no database, no place for the data. It keeps to the configured limits of mapped files and database connections.",
  ["crash points", "histories", "schedules", "configurations"],
  "every moment of the kill, the signal or the loss of the database connections against the requests of several clients, several restarts, every configuration source",
  "tests never run the server command; the loss depends on the moment of the end against the requests in progress",
  ["pkg/server/server.go", "pkg/server/config.go", "cmd/solaris/commands/start.go", "pkg/storage/postgres/postgres.go", "pkg/storage/postgres/db.go", RT, GS, SV],
  [("assembling and the life cycle", "pkg/server/server.go"), ("the command", "cmd/solaris/commands/start.go"), ("configuration", "pkg/server/config.go"), ("log catalogue over the database", "pkg/storage/postgres/postgres.go")],
  "crash and fault injection on the real server process over an emulated PostgreSQL server, durability and visibility monitor over client histories, process monitors (exit status, mapped files, connections); Go race detector", EXPL + "The server stops itself by design when it cannot record in the database what is already written.",
  ["API answers", "exit status and output of the process", "mapped files", "database connections"])
