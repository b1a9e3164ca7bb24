#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

ENG = ["src/pogocache.c", "src/pogocache.h"]
NOTEST = "No stable test touches the embedded engine directly; the HTTP test stores 1000 alphanumeric keys one at a time and never combines options. "

p("C01", "Engine is an exact key/value map under every option",
  "For any sequence of store, load and delete calls with any mix of options (nx, xx, keepttl, expires/ttl, flags, entry callbacks that accept or cancel, in-place updates made from a load callback), the return codes, the callback arguments and the later contents are those of a plain map from keys to (value, flags, expiry). An operation that reports FOUND, NOTFOUND (on xx), CANCELED or NOMEM leaves the stored entry exactly as it was, and no operation on one key changes another key.",
  ["inputs", "histories", "configurations"], "every history of engine calls, for every shard count, load factor, hash seed, sixpack/cas/shrink setting and table size (growth, shrinking, wrap-around of the open-addressed table)",
  NOTEST + "Robin-hood displacement, growth, shrinking and put-back paths depend on the history and on which keys collide.",
  ENG, [("map_insert/map_delete/delbkt", "src/pogocache.c map section"), ("storeop/loadop/deleteop", "src/pogocache.c"), ("resize/tryshrink", "src/pogocache.c")],
  ["pogocache_store/load/delete return codes and callbacks"])

p("C02", "An entry is visible exactly until its expiration time",
  "An entry stored with an absolute expiry or a ttl is returned by every read strictly before that instant and by none at or after it; ttl arithmetic saturates instead of overflowing; entries without expiry never expire. keepttl keeps the live predecessor's expiry (including 'none'), an expired predecessor counts as absent for nx, xx, cas, keepttl and delete, and is never handed to a callback.",
  ["inputs", "histories"], "every history of engine calls with an arbitrary non-decreasing caller-supplied clock, including reads at expiry-1, expiry and expiry+1 and extreme int64 ttl/expires values",
  NOTEST + "No test in the stable set uses a ttl at all; real-time tests can only sleep and cannot hit the boundary instant.",
  ENG, [("entry_alive_exp", "src/pogocache.c"), ("int64_add_clamp in storeop", "src/pogocache.c"), ("keepttl branch of storeop", "src/pogocache.c")],
  ["load/iter/entry_iter/delete/store results at chosen times"])

p("C03", "Keys, values and attributes round-trip byte-exactly",
  "Whatever bytes and lengths (including empty, NUL, high bytes, and lengths around every internal size boundary) are stored as key and value, with whatever flags and expiry, every way of reading the entry back (load, iteration, entry handles, notification and eviction callbacks) yields exactly those bytes and attributes. Two different keys never alias.",
  ["inputs", "configurations"], "all byte strings as keys and values, all flags/expiry presence combinations, with and without cas and key compression; lengths swept around 0,1,127..130,0x7f,0xff,0xffff boundaries",
  NOTEST + "Key compression, variable-width size fields and optional attribute fields form a combinatorial layout; the test uses short alphanumeric keys only.",
  ENG, [("entry_new/entry_extract", "src/pogocache.c"), ("sixpack/unsixpack", "src/pogocache.c"), ("varint_write_u64/varint_read_u64", "src/pogocache.c")],
  ["bytes returned by load, iter, entry_key/entry_value, notify, evicted"])

p("C04", "Compare-and-store succeeds only on the current version",
  "With cas enabled every successful change of an entry gives it a cas value different from every earlier value that key had; a cas store succeeds exactly when the key is live and the supplied value equals its current cas, otherwise reports FOUND (mismatch) or NOTFOUND (absent) and changes nothing. With cas disabled a cas store never overwrites an existing entry. Reads, touches and failed or cancelled operations do not change an entry's cas.",
  ["inputs", "histories", "configurations"], "every history mixing plain, cas, nx, xx stores, updates, cancelled operations and deletes on colliding keys, with cas on and off",
  NOTEST + "The race-free guarantee is over histories; the only cas test is not in the stable set and performs two increments.",
  ENG, [("casop branch of storeop", "src/pogocache.c"), ("shard->cas counter", "src/pogocache.c")],
  ["cas passed to load callbacks", "store return codes"])

p("C05", "Iteration visits each live entry exactly once",
  "A full iteration reports every live entry exactly once with its true contents and never reports an expired one, whatever mix of continue, delete and stop actions the callback returns; exactly the entries for which delete was returned disappear, and stop ends it early with CANCELED. Restricting to one shard partitions the entries by shard, and a cursor scan over an unchanged cache returns every live entry, without repeats unless entries were expiring.",
  ["inputs", "histories", "configurations"], "every table state reachable by insert/delete/expire (incl. clusters that wrap around the end of the table) x every per-entry action pattern; any cursor value for cursor scans",
  NOTEST + "Deleting while walking an open-addressed table shifts entries over the walk position; only adversarial layouts show duplicates or misses.",
  ENG, [("iterop", "src/pogocache.c"), ("entryiter/pogocache_entry_iter", "src/pogocache.c"), ("delbkt", "src/pogocache.c")],
  ["pogocache_iter callback multiset", "pogocache_entry_iter results"])

p("C06", "Count, total and size always match the contents",
  "At any quiescent moment the entry count equals the number of entries held (inserted and not yet removed, by any route), the total equals the number of stores that reported INSERTED, and the entries-only size equals the sum of the memory of exactly the entries held, returning to zero when the cache is empty; per-shard figures add up to the whole. Failed, refused and cancelled operations change none of them.",
  ["histories", "configurations"], "every history of engine operations (store, update, delete, cancel, expire on read, iterate-delete, sweep, clear, low-memory eviction, allocation failure), checked after each step",
  NOTEST + "Accounting drifts accumulate along histories through rarely used removal routes; no test reads these figures in the stable set.",
  ENG, [("map->count/total/entsize updates", "src/pogocache.c"), ("countop/totalop/sizeop", "src/pogocache.c")],
  ["pogocache_count/total/size; allocator's own live-bytes ledger"])

p("C07", "Change notifications form a faithful log of the cache",
  "Replaying the notify callbacks (inserted, replaced, deleted) in order into an empty map yields exactly the cache's contents at every moment, with each callback's old entry equal to what the log held for that key and its new entry equal to what was stored. Every removal by expiry, low memory or clear additionally produces exactly one evicted callback with that entry's data and a true reason, and refused or cancelled operations produce no callback.",
  ["histories"], "every history of engine operations with both callbacks installed",
  "No test installs either callback; the server itself does not use them, so nothing exercises them at all.",
  ENG, [("notify()", "src/pogocache.c"), ("evict_entry/clearop/sweepop/iterop call sites", "src/pogocache.c")],
  ["opts.notify and opts.evicted arguments"])

p("C08", "Allocation failure is reported and leaves the cache intact",
  "If the allocator returns null at any point of any operation, that operation completes normally or reports NOMEM (or a null cache from creation), the cache stays fully usable with exactly the contents and figures the result implies, and nothing is leaked, freed twice or touched after free. Freeing the cache releases every allocation. An entry the caller has retained stays readable, with its contents, until it is released, even after it was replaced, deleted or cleared.",
  ["fault_sequences", "histories"], "every position of every allocation in every history (single and repeated failures), plus entry handles retained across replacement, deletion and clear",
  "Allocators never fail in tests.",
  ENG, [("nomem paths of storeop, map_init, resize, clearop, pogocache_new", "src/pogocache.c"), ("entry reference counting", "src/pogocache.c")],
  ["custom malloc/free ledger with fault injection under AddressSanitizer"])

p("C09", "Low-memory stores evict one other, older entry",
  "A store made under low memory that adds an entry evicts at most one entry and evicts one whenever the shard holds another evictable entry; the victim is never the key being stored and, among live entries, never the most recently used of two or more others; an expired entry met first is evicted with reason EXPIRED. Replacing an existing key evicts nothing, and with eviction disabled a low-memory store is refused with NOMEM and changes nothing.",
  ["histories", "configurations"], "every access/store history and table layout followed by low-memory stores, for any shard count",
  "The stable tests never reach memory pressure.",
  ENG, [("auto_evict_entry (2-random)", "src/pogocache.c"), ("opts.lowmem/noevict in storeop", "src/pogocache.c")],
  ["evicted/notify callbacks and later loads"])

p("C10", "Sweep and clear remove exactly what they should",
  "A sweep removes all and only the entries expired at its time and reports exactly how many it removed and how many it kept; a clear (with or without deferred freeing, whole cache or one shard) removes everything in scope and nothing else. The sweep poll never modifies the cache and returns a fraction in [0,1] that is 0 when nothing is expired and 1 when a polled non-empty shard is fully expired.",
  ["histories", "configurations"], "every table state (incl. wrapped clusters) x times x whole/one shard",
  NOTEST, ENG, [("sweepop/clearop/sweeppollop", "src/pogocache.c")],
  ["swept/kept outputs, contents and counts afterwards"])

p("C11", "Batches behave like the same calls made one by one",
  "Every engine operation made through a batch handle (key operations, iteration, count, size, total, sweep, clear, cursor scan, entry handle accessors) has the same results and effects as through the cache itself, never deadlocks against locks the batch already holds, and after the batch ends all locks are free. While a batch holds a shard no other thread observes or changes that shard's keys.",
  ["histories", "schedules", "configurations"], "every interleaving of batch-begin, arbitrary operations and batch-end in one thread (thread-local and allocated batches, several batches in sequence), and concurrent read-modify-write batches from several threads",
  "The server uses batches only for increments and appends; nothing else exercises them.",
  ENG, [("pogocache_begin/end", "src/pogocache.c"), ("lock/acquire_for_key/acquire_for_scan", "src/pogocache.c")],
  ["differential run: batch vs direct"])

p("C12", "Concurrent engine use is linearizable per key",
  "When several threads use one cache at once (loads, stores, cas stores, deletes, batch read-modify-writes, iteration, sweeps, clears), every single-key history is linearizable, values are never torn or mixed between keys, no successful increment is lost, and the process stays free of data races and memory errors.",
  ["schedules"], "thread interleavings over few keys and shards (hash collisions and growth included)",
  "The stable tests drive one client sequentially.",
  ENG, [("shard spin lock", "src/pogocache.c lock()"), ("atomic entry refcount", "src/pogocache.c entry_clone/entry_free")],
  ["per-key linearizability checker over recorded invocations"])

RESPF = ["src/resp.c", "src/cmds.c", "src/conn.c", "src/parse.c"]
p("C13", "RESP commands behave as documented on every input",
  "For any sequence of RESP commands (SET with all options, SETEX, GET, MGET, MGETS, DEL, EXISTS, TTL/PTTL, EXPIRE, TOUCH, APPEND/PREPEND, INCR family, DBSIZE, FLUSH*, SWEEP, ECHO, PING) with binary-safe arguments, each reply is the well-formed RESP value that a simple reference model of the cache gives, and a command answered with an error changes nothing. Command names and option words are case-insensitive.",
  ["inputs", "histories"], "every sequence of commands and arguments over the wire, inline (telnet) or multibulk form",
  "RESP tests are not in the stable set and sample one value per command.",
  RESPF, [("cmdSET..cmdPREPEND", "src/cmds.c"), ("parse_resp/parse_resp_telnet", "src/resp.c"), ("conn_write_*", "src/conn.c, src/util.c")],
  ["RESP replies on a socket"])

p("C14", "Memcache text protocol behaves as documented",
  "For any sequence of memcache text commands (set, add, replace, append, prepend, cas, get, gets, delete, incr, decr, touch, flush_all, version) with arbitrary data blocks, the server consumes exactly the command and its data block and answers with exactly the protocol's reply line(s), with the effect a reference model gives; a command sent with noreply has the same effect and produces no reply. Malformed lines get an ERROR/CLIENT_ERROR line and do not desynchronise or corrupt the connection.",
  ["inputs", "histories"], "every sequence of text-protocol requests, data blocks of any bytes and length, flags, expiry forms (relative, absolute unix, zero, negative), noreply on and off",
  "Memcache tests are not in the stable set and use well-formed alphanumeric items.",
  ["src/memcache.c", "src/cmds.c", "src/parse.c"], [("parse_memcache", "src/memcache.c"), ("execSET reply table", "src/cmds.c"), ("noreply", "src/memcache.c, src/conn.c")],
  ["bytes on a socket"])

p("C15", "HTTP interface stores and serves exact bytes",
  "For any sequence of HTTP/1.x GET, PUT and DELETE requests (keys of 1 to 250 printable bytes other than % + @ $ ? =, taken literally; any body bytes; query options ttl, nx, xx, flags, cas, auth; any header set and order), each response is well formed with a Content-Length equal to its body and the status and body the reference model gives, bodies come back byte-exact, and the connection is closed after the response as the response announces. Invalid requests get an error status (4xx or 5xx) and have no effect.",
  ["inputs", "histories"], "every sequence of requests, keys, bodies, headers and option combinations",
  "TestHTTP uses one alphanumeric key at a time through one Go client with no options.",
  ["src/http.c", "src/cmds.c", "src/conn.c"], [("parse_http/decode/query parsing", "src/http.c"), ("conn_write_http", "src/conn.c")],
  ["HTTP responses on a socket"])

p("C16", "Postgres protocol: values survive every query form",
  "Over the Postgres wire protocol, any command written as a simple query (bare, single-quoted, E'' or ::bytea arguments), or as an extended-protocol statement with any number of $n parameters used in any order and repetition, acts on exactly the argument bytes given and returns messages in the legal order (row description, data rows, completion, ready) carrying exactly the stored bytes. Named statements stay what they were prepared as and portals keep their bound parameters until replaced; an error in an extended-protocol message yields one error response after which everything up to the next Sync is skipped, and errors leave the connection usable.",
  ["inputs", "histories"], "every sequence of simple queries and Parse/Bind/Describe/Execute/Sync with arbitrary names, quoting, escapes and parameter bytes",
  "Postgres tests are not in the stable set and send alphanumeric text through one client library.",
  ["src/postgres.c", "src/hashmap.c", "src/cmds.c"], [("parse_query_args and unescape", "src/postgres.c"), ("statement/portal maps", "src/postgres.c, src/hashmap.c"), ("pg_write_*", "src/postgres.c")],
  ["Postgres messages on a socket"])

p("C17", "All protocols see one and the same cache",
  "A value, its flags, its remaining lifetime and its existence are the same no matter which of the RESP, memcache, HTTP and Postgres protocols wrote it and which reads, overwrites, increments, appends to or deletes it, and from which connection, transport (TCP or unix socket) or server thread. A completed write is visible to every request sent afterwards on any connection.",
  ["inputs", "histories", "configurations"], "every interleaving of operations from connections speaking different protocols over shared keys",
  "Each existing test file speaks one protocol.",
  ["src/cmds.c", "src/conn.c", "src/http.c", "src/memcache.c", "src/resp.c", "src/postgres.c"], [("single evcommand dispatch over one cache", "src/cmds.c")],
  ["replies across connections"])

p("C18", "Replies do not depend on how bytes are packetised",
  "For any client byte stream in any supported protocol, the reply stream and the effects are the same however the stream is split into packets and however many requests are pipelined in one packet; replies come back complete, in request order, one per request. This includes commands finished in the background, very large requests and very large replies.",
  ["inputs", "schedules"], "every stream of valid requests x every split into segments (down to single bytes) x pipelining depth, request and reply sizes from 0 to megabytes",
  "Clients in tests send one request per packet and wait for the reply.",
  ["src/conn.c", "src/net.c", "src/parse.c", "src/resp.c", "src/memcache.c", "src/http.c", "src/postgres.c"], [("evdata packet accumulation", "src/conn.c"), ("sniff_proto and 'not enough data' returns", "src/parse.c"), ("qread/qwrite/qattach, flush_conn", "src/net.c")],
  ["byte streams on a socket"])

p("C19", "No input bytes can crash or corrupt the server",
  "No byte sequence on any connection, before or after authentication and in any protocol, makes the server crash, hang, leak memory contents, or read or write outside its buffers; the answer is always a well-formed reply or error of that protocol or a close. Other connections and stored data are not affected beyond the commands actually expressed.",
  ["inputs"], "all byte sequences, biased to mutated protocol grammar (lengths, counts, truncation, extreme numbers, nested control characters) and arbitrary segmentation",
  "Tests send only well-formed requests.",
  ["src/parse.c", "src/resp.c", "src/memcache.c", "src/http.c", "src/postgres.c", "src/args.c", "src/cmds.c", "src/util.c"], [("parse_command and per-protocol parsers", "src/parse.c etc."), ("error text sanitising", "src/conn.c, src/util.c")],
  ["server process under ASan/UBSan, a canary connection"])

p("C20", "With a password set, nothing works before authenticating",
  "When the server has an auth password, a connection in any protocol that has not presented the right password can neither read, change nor learn about stored data nor run any command, whatever it sends and however often it tries; presenting the right password unlocks that connection only (each HTTP request carries its own; memcache clients have no way to authenticate and are refused throughout). Without a password every command is available.",
  ["inputs", "histories", "configurations"], "every pre-authentication request sequence, wrong/partial/prefix passwords, in all four protocols, interleaved with authenticated connections",
  "The test server runs without --auth.",
  ["src/cmds.c", "src/http.c", "src/postgres.c", "src/conn.c"], [("evcommand auth gate / cmdAUTH", "src/cmds.c"), ("Authorization header and auth query", "src/http.c"), ("startup password exchange", "src/postgres.c")],
  ["replies and cache state seen from an authenticated connection"])

p("C21", "Expiry works to the clock tick in every protocol",
  "Through every protocol, a key given a lifetime (EX, PX, EXAT, PXAT, SETEX, EXPIRE, memcache exptime relative/absolute/negative, touch, HTTP ttl) is served strictly before its deadline and never from the deadline on; TTL/PTTL report the remaining time. Relative lifetimes follow elapsed time and absolute ones the wall clock, KEEPTTL, INCR and APPEND preserve the deadline, and plain overwrites clear it.",
  ["inputs", "histories"], "every history of commands and clock advances, with reads placed around each deadline; extreme numbers",
  "Real-time tests sleep and cannot probe the boundary nor absolute times.",
  ["src/cmds.c", "src/pogocache.c", "src/sys.c", "src/memcache.c", "src/http.c"], [("expiry parsing in cmdSET/cmdEXPIRE", "src/cmds.c"), ("clocks", "src/sys.c")],
  ["replies under a virtual clock (clock_gettime interposed)"])

p("C22", "Counters are exact 64-bit arithmetic in every protocol",
  "INCR/DECR/INCRBY/DECRBY (signed), UINCR/UDECR/UINCRBY/UDECRBY (unsigned) and memcache incr/decr compute exact 64-bit results, treat a missing key as 0 (NOT_FOUND in memcache), keep flags and expiry, and reject overflow, non-integers and malformed deltas without changing the value (memcache: incr wraps modulo 2^64, decr stops at 0). The stored text is the canonical decimal of the returned number.",
  ["inputs", "histories"], "all stored byte strings x all delta strings, dense around 0, +-2^63, 2^64, leading zeros, signs, spaces",
  "RESP tests (not in the stable set) check six fixed numbers.",
  ["src/cmds.c", "src/util.c"], [("execINCRDECR", "src/cmds.c"), ("parse_i64/parse_u64/i64toa/u64toa", "src/util.c")],
  ["replies and following GETs"])

p("C23", "KEYS and SCAN find exactly the matching live keys",
  "KEYS pattern returns each live key that matches the glob pattern exactly once and nothing else; walking SCAN from cursor 0 until it returns 0, with any COUNT and MATCH, over a cache in which nothing is stored, deleted or swept meanwhile returns the same set exactly once and always terminates. Glob semantics (* for any run, ? for any one byte, backslash to take the next byte literally, every other byte itself) agree with a reference matcher on all byte strings, and any cursor number is answered safely.",
  ["inputs", "configurations"], "all key sets x patterns x counts x shard layouts; arbitrary cursors",
  "RESP tests (not in the stable set) use '*', 'a*' and '*a' only.",
  ["src/cmds.c", "src/util.c", "src/pogocache.c"], [("match()", "src/util.c"), ("cmdKEYS/cmdSCAN", "src/cmds.c"), ("pogocache_entry_iter cursor", "src/pogocache.c")],
  ["KEYS/SCAN replies"])

p("C24", "SAVE then LOAD reproduces the cache",
  "For any contents, saving to a file and loading it into an empty server (same or different shard count, thread count, options; fast or not; via SAVE/LOAD or --persist with shutdown and restart) restores exactly the live entries: keys, values, flags and remaining lifetime by the wall clock, so entries that expired meanwhile stay dead and the rest neither gain nor lose lifetime. Loading over existing data overwrites the file's keys and keeps the others.",
  ["inputs", "histories", "configurations"], "all key/value contents (incl. incompressible, empty, multi-megabyte, many small), lifetimes and clock advances between save and load",
  "No test saves or loads.",
  ["src/save.c", "src/lz4.c", "src/cmds.c", "src/main.c"], [("save/load block format", "src/save.c"), ("expiry conversion to unix time", "src/save.c"), ("startup load / shutdown save", "src/main.c")],
  ["contents after LOAD/restart"])

p("C25", "A failed or killed save never harms the previous file",
  "If a save fails or the process dies at any point of it (any write, open, sync, rename or thread error, or a kill at any instant; a failed allocation ends the process), the error is reported when the process survives, and the persist path still holds either the complete previous snapshot or the complete new one, loadable in full; leftover temporary files never prevent a later start, which removes them, and stored data in memory is unaffected. Concurrent saves to different or the same path do not corrupt one another's result.",
  ["crash_points", "fault_sequences"], "every failing system call position (error and short write) and kill point during SAVE/shutdown save, with 1..n worker threads",
  "No test saves, let alone with faults.",
  ["src/save.c", "src/main.c"], [("work file + rename", "src/save.c"), ("cleanwork", "src/save.c")],
  ["file state and reload after fault injection"])

p("C26", "A damaged snapshot is detected, never loaded as wrong data",
  "Loading a file that was truncated, bit-flipped or is not a snapshot at all reports failure or loads only entries that were really saved, with their exact contents; it never crashes, hangs, over-allocates without bound, or invents or alters an entry, and entries already in memory keep their values or get the saved ones. A missing file is an error for LOAD and a fresh start for --persist.",
  ["inputs", "fault_sequences"], "all single/multi byte corruptions, truncations and splices of valid snapshot files, and random files",
  "No test loads a file.",
  ["src/save.c", "src/lz4.c"], [("block header and checksum validation", "src/save.c"), ("decompressor bounds", "src/lz4.c")],
  ["LOAD reply, process health and contents"])

p("C27", "Concurrent clients get atomic commands",
  "With many connections on many server threads at once, every command on a single key is atomic: increments, appends and compare-and-store updates are never lost or doubled, SET NX elects one winner, reads never return a torn or never-written value, and each connection gets exactly its own replies in its own order. The server survives clients that connect, disconnect or stall at any moment, including during background commands.",
  ["schedules", "histories"], "client interleavings across threads, protocols and abrupt disconnects",
  "Stable tests use one sequential client.",
  ["src/net.c", "src/conn.c", "src/cmds.c", "src/pogocache.c"], [("per-shard locks and batches", "src/pogocache.c, src/cmds.c"), ("connection ownership and bgwork hand-over", "src/net.c, src/conn.c")],
  ["per-key linearizability over recorded client histories"])

p("C28", "Connection limits and counters are honoured",
  "At most --maxconns clients are served at once and further ones are closed without service, a slot freed by any kind of disconnect becomes usable again, and the reported current, total and rejected connection figures match reality; this holds through any pattern of connects and disconnects. Serving many connections over time does not consume ever more memory per finished connection.",
  ["histories", "configurations"], "every connect/disconnect/abort history (TCP and unix socket) around the limit",
  "Tests open a handful of connections with the default limit of 1024.",
  ["src/net.c", "src/main.c", "src/cmds.c"], [("nconns accounting in qaccept/qclose", "src/net.c"), ("connection map", "src/net.c cmap_*")],
  ["connect results, STATS figures"])

p("C29", "At the memory limit the server evicts or refuses as configured",
  "When memory use exceeds --maxmemory, new keys keep being accepted by evicting older entries if eviction is on, and are refused with an out-of-memory error leaving all data intact if it is off, through every protocol; entries that remain are never altered, reads and deletes always work, and normal service resumes when memory falls below the limit.",
  ["histories", "configurations", "fault_sequences"], "every workload history across transitions of the measured memory use over and under the limit, evict yes/no",
  "Tests never reach the limit (80% of the machine).",
  ["src/main.c", "src/cmds.c", "src/pogocache.c"], [("memticker/lowmem flag", "src/main.c"), ("lowmem store option", "src/cmds.c, src/pogocache.c")],
  ["replies under an interposed memory reading"])

p("C30", "Server statistics match what happened",
  "After any history of commands the STATS figures for gets, sets, hits, misses, deletes, increments, decrements, touches, flushes, stored items, total items and bytes equal the counts implied by the replies the clients received, in every protocol, and never decrease while the server runs (current figures excepted).",
  ["histories"], "every history of commands across protocols and connections, with STATS read at quiescent points",
  "No stable test reads STATS.",
  ["src/stats.c", "src/cmds.c", "src/net.c"], [("stat_*_incr call sites", "src/cmds.c"), ("per-connection to global summing", "src/net.c sumstats")],
  ["STATS output"])

p("C31", "MONITOR reports every executed command exactly once, in order and byte for byte",
  "A connection that issued MONITOR is sent one line for every command that any client then runs over any protocol, before that command's reply: the time, the client's address and the arguments, quoted so that they decode to exactly the bytes that were executed; the commands of one connection keep their order. AUTH, QUIT, MONITOR, unknown and refused commands are never reported, so that no password shows. Any number of monitors can come and go, however they end, without affecting other clients or each other.",
  ["histories", "schedules", "inputs"], "every history of commands over all protocols, with monitors coming and going and connections running at the same time",
  "No test uses MONITOR.",
  ["src/monitor.c", "src/cmds.c", "src/conn.c", "src/net.c"], [("monitor_cmd/start/stop", "src/monitor.c"), ("evcommand, monitor_work", "src/cmds.c")],
  ["bytes received by monitoring connections"])

p("C32", "No client can hold up another",
  "A client that sends requests without reading the replies, that leaves a request unfinished for any length of time, or that has a long background command running never keeps another client, on any protocol or thread, from getting its replies promptly. When such a client goes on, every request it sent is answered completely and in order and every value it stored arrived whole; when it disconnects instead, nobody else notices.",
  ["schedules", "histories"], "every history of stalled, half-sent and background requests on several connections, mixed with requests of other clients",
  "Tests use one client that reads every reply at once.",
  ["src/net.c", "src/conn.c", "src/cmds.c"], [("qread/qout/qattach queues and output back pressure", "src/net.c"), ("partial packets", "src/conn.c evdata"), ("conn_bgwork", "src/conn.c, src/net.c")],
  ["replies to the other clients within a time", "replies to the client that went on"])

p("C33", "Start-up options mean what the help says, and wrong ones are refused",
  "Every command-line option, in each accepted spelling, order and repetition, gives the server the documented setting or the documented default, as shown by the start-up report and by the behaviour of the server: listening address, port and socket, password, number of connections, threads and shards, memory limit in any unit or per cent, eviction, cas and snapshot file. An unknown option, a missing, malformed or out-of-range value, or a listener that cannot be set up is reported and ends the program with a failure status, never with a crash and never with a half-configured server.",
  ["configurations", "inputs"], "every command line",
  "Tests start the server in one configuration.",
  ["src/main.c", "src/net.c"], [("option parsing and validation", "src/main.c main"), ("calc_memlimit", "src/main.c"), ("listen_tcp, listen_unixsock", "src/net.c")],
  ["exit status and messages", "start-up report", "behaviour of the running server"])

p("C34", "Expired entries are reclaimed and live ones are left alone",
  "SWEEP in all its forms, and with autosweep on the background sweeper, removes expired entries from the cache so that they no longer count in the number of items and bytes, and removes nothing else: entries that are alive, however their lifetime was given, changed or renewed, keep their value, flags and remaining lifetime. With autosweep off nothing is removed behind the clients' backs.",
  ["histories", "configurations"], "every history of stores with lifetimes, clock advances, renewals and sweeps, on any number of shards",
  "No stable test lets an entry expire and be swept.",
  ["src/pogocache.c", "src/cmds.c", "src/main.c"], [("sweepop, sweep_poll", "src/pogocache.c"), ("cmdSWEEP, sweepfast", "src/cmds.c"), ("autosweepticker", "src/main.c")],
  ["STATS curr_items and bytes", "KEYS, MGET, PTTL"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
