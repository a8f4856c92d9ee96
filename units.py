"""Harness units (what is compiled together) and the properties they decide."""
LEVEL = "model_checking"
ROCKS = "-lrocksdb -lspdlog -lfmt"

UNITS = {}
PROPS = {}


def unit(name, harness, mode, **kw):
    UNITS[name] = dict(harness=harness if isinstance(harness, list) else [harness], mode=mode, **kw)


def prop(pid, units, rule, technique, note, **kw):
    PROPS[pid] = dict(units=units, rule=rule, technique=technique, note=note, **kw)


SCHED_ASSUME = [
    "sequentially consistent interleavings; weaker memory orders are covered by the happens-before race detector only",
    "scheduling points are synchronization, atomic and I/O operations; plain accesses are covered by the race detector",
    "standard library, pthread and malloc behave as specified (they are modelled by the scheduler)",
]

# ------------------------------------------------------------------ P09
unit("p09", "p09_thread_pool.cpp", "sched")
prop("P09", ["p09"],
     "every schedule of each scenario within its preemption/delay bound is one execution; outcomes are the accept/reject patterns observed",
     "stateless model checking of the real thread pool under a controlled scheduler",
     "All interleavings within the stated preemption or delay bound of small pools (1-3 workers, up to 4 tasks) on the real code, "
     "with data-race and use-after-free detection; larger pools and deeper preemption are not covered.",
     assumptions=SCHED_ASSUME)

# ------------------------------------------------------------------ P07
AIO = ["lib/abstractio/linux_aio_scheduler.cpp", "lib/abstractio/scheduler.cpp",
       "lib/abstractio/thread_pool_aio_scheduler.cpp"]
UTILS = ["lib/utils/utils.cpp", "lib/utils/logger.cpp"]
unit("p07", ["p07_linux_aio.cpp", "model_aio.cpp"], "sched", repo=AIO + UTILS, libs="-lspdlog -lfmt")
prop("P07", ["p07"],
     "every schedule within the preemption bound combined with every reply of the model kernel is one execution; outcomes are vectors of (return code, callbacks, result)",
     "stateless model checking of the real scheduler against a nondeterministic model kernel",
     "All interleavings within the preemption bound of submitters, the notification thread and a model kernel (queue capacity 1-8, partial "
     "acceptance, any completion order and grouping, injected interrupted waits, failed submissions and failed or short transfers) for up to 4 requests.",
     assumptions=SCHED_ASSUME + ["the model kernel covers the replies io_submit/io_getevents document; callbacks that submit on a full queue are not covered"])

# ------------------------------------------------------------------ P05
unit("p05", ["p05_vector.cpp", "model_aio.cpp"], "sched", repo=AIO + UTILS, libs="-lspdlog -lfmt")
prop("P05", ["p05"],
     "every operation sequence up to the depth bound is one execution, ended by reads of every position through every procedure and by a reopening; states are the distinct histories",
     "exhaustive enumeration of operation sequences on the real vector against a reference model",
     "All histories of up to 5 (quick) or 6 (thorough) operations over append, asynchronous append, reservation, commit, access-mode switch, "
     "move and reopening, for the kernel back end on the model kernel, the thread-pool back end and no back end, three element types; every placement of 1 (thorough 2) refused, partly accepted, failing or short reads in a batch and a single read of 1-3 values.",
     assumptions=["writes do not fail and the process is not killed",
                  "O_DIRECT alignment rules are enforced by the harness on an ordinary file",
                  "thread-pool histories run on the native schedule; schedules are covered by P06 and P08"])

# ------------------------------------------------------------------ P06
unit("p06", ["p06_vector_threads.cpp", "model_aio.cpp"], "sched", repo=AIO + UTILS, libs="-lspdlog -lfmt")
prop("P06", ["p06"],
     "every schedule within the preemption bound and every completion order of the model kernel is one execution; outcomes are the assignments of positions to appends",
     "stateless model checking of the real vector under a controlled scheduler",
     "All interleavings within the preemption bound (0-3 by scenario, one more in the thorough tier within a time limit) of 2-3 threads appending or "
     "reading up to 4 values, blocking and asynchronously, over the kernel back end on the model kernel and the thread-pool back end.",
     assumptions=SCHED_ASSUME)

# ------------------------------------------------------------------ P08
unit("p08", ["p08_pool_aio.cpp", "model_aio.cpp"], "sched", repo=AIO + UTILS, libs="-lspdlog -lfmt")
prop("P08", ["p08"],
     "every schedule within the preemption bound is one execution (one process each, since the pool is a global)",
     "stateless model checking of the real scheduler and thread pool under a controlled scheduler",
     "All interleavings within the preemption bound (0-2 by scenario) of 1-2 submitters and 1-3 of the pool's workers (the other workers are never "
     "scheduled) for up to 4 requests, with race, use-after-free and destruction-while-in-use detection.",
     assumptions=SCHED_ASSUME)

# ------------------------------------------------------------------ P01-P04
STORE = ["lib/utils/rocksdb_wrapper.cpp"] + UTILS
STORE_ASSUME = ["the installed RocksDB 8.9 is correct and is run, not modelled; stores are on tmpfs"]
unit("p01", ["p01_store.cpp", "fault_db.cpp"], "plain", repo=STORE, libs=ROCKS)
prop("P01", ["p01"],
     "every operation sequence up to the depth bound is one execution on a fresh store, with every key looked up through every procedure after each "
     "operation; states are (depth, contents)",
     "exhaustive enumeration of operation sequences on the real store against a reference map",
     "All histories of up to 4 (quick) or 5 (thorough) operations over put, remove, flush and reopening with three keys, with up to two failing "
     "accesses at depth 3-4, plus every per-key history of 5-6 rounds under every placement of flushes and reopenings.",
     assumptions=STORE_ASSUME)
unit("p02", ["p02_counter.cpp", "fault_db.cpp"], "plain", repo=STORE, libs=ROCKS)
unit("p02s", ["p02s_counter_threads.cpp", "mem_db.cpp"], "sched", repo=STORE, libs=ROCKS)
prop("P02", ["p02", "p02s"],
     "every operation sequence up to the depth bound combined with every choice of failing accesses is one execution on a fresh store, with all "
     "counters compared after each operation; states are (depth, counters); schedules: one execution each, checked for linearisability",
     "exhaustive enumeration of operation sequences and store failures on the real counters against a reference model; stateless model checking of concurrent operations",
     "All histories of up to 4 (quick) or 5 (thorough) operations on one counter and 3-4 on two, with up to two failing reads or writes (two kinds of "
     "read failure), plus every per-counter history of 4-5 rounds under every placement of flushes and reopenings, and runs across byte boundaries; "
     "2-3 threads with 1-3 operations each, on every schedule within 1-3 (thorough, within a time limit, 2-6) preemptions.",
     assumptions=STORE_ASSUME + SCHED_ASSUME + ["on the schedules, the store is an in-memory one whose accesses are single steps","failures are injected at the RocksDB interface (a failed write is not applied); counter overflow is not covered"])
unit("p03", ["p03_lists.cpp", "fault_db.cpp"], "plain", repo=STORE, libs=ROCKS)
prop("P03", ["p03"],
     "every operation sequence up to the depth bound is one execution on a fresh store, with every key looked up through all six procedures into empty "
     "and pre-filled lists after each operation; states are (depth, stored lists)",
     "exhaustive enumeration of operation sequences on the real list store against a reference map",
     "All histories of up to 3 (quick) or 4 (thorough) operations over stores of four shapes of lists under two keys, flushes and reopenings, for two "
     "element types, default and caller-supplied serializers, with one failing write.",
     assumptions=STORE_ASSUME)
unit("p04", ["p04_kill.cpp", "fault_db.cpp"], "plain", repo=STORE, libs=ROCKS)
prop("P04", ["p04"],
     "every operation sequence up to the depth bound is one execution; the state of the file system is captured before every mutation of the store's "
     "directory and at several cuts inside every write, and each distinct one is reopened, compared, updated and reopened again",
     "exhaustive enumeration of operation sequences and kill points on the real stores",
     "All histories of up to 3 (quick) or 4 (thorough) operations over updates, flush, clean reopening and kill, killed at every file-system mutation of "
     "the store's directory and inside every write (3-4 cuts, every byte of short writes in the thorough tier), for the three kinds of stores; for short "
     "histories a second kill at every mutation of the recovery.",
     assumptions=STORE_ASSUME + ["a kill preserves what the kernel was given (no power loss, no reordering)",
                                 "mutations made by RocksDB's background threads are captured in the order of one run"])

# ------------------------------------------------------------------ P10, P12, P13
GRAPH = ["lib/tethys/tethys_graph.cpp", "lib/tethys/tethys_allocator.cpp"] + UTILS
GFLAGS = "-O2 -D_GLIBCXX_ASSERTIONS"
unit("p10", "p10_maxflow.cpp", "plain", tag="-assert", flags=GFLAGS, repo=GRAPH, libs="-lspdlog -lfmt")
prop("P10", ["p10"],
     "every graph of the enumerated families is one evaluation (the inner edges are the choice tree, the attachments to source and sink are enumerated "
     "within each execution and counted as transitions)",
     "exhaustive enumeration of small graphs on the real computation against the minimum over all cuts",
     "All directed multigraphs with up to 3 vertices, 3 edges (4 with restricted attachments) and capacities 0-2 and every attachment to source and sink, 4 "
     "vertices with 3-4 unit edges (5 in the thorough tier), in every insertion order; multiple attachments; capacities up to 2^62.")
unit("p12", "p12_graph.cpp", "plain", tag="-assert", flags=GFLAGS, repo=GRAPH, libs="-lspdlog -lfmt")
prop("P12", ["p12"],
     "every graph (and for paths every residual state of it) or operation sequence is one evaluation; states are the graphs reached by operation sequences",
     "exhaustive enumeration of small graphs, residual states and operation sequences on the real graph against brute-force reachability",
     "Components: all graphs with up to 5 vertices and 3-4 edges. Paths: all graphs with up to 4 vertices and 2-3 edges with all their residual states. "
     "Misuse: all sequences of 4 (quick) or 6 (thorough) operations over 12 kinds, with six out-of-range vertices at each position.")
unit("p13", "p13_alloc.cpp", "plain", tag="-assert", flags=GFLAGS, repo=GRAPH, libs="-lspdlog -lfmt")
prop("P13", ["p13"],
     "every instance (buckets, bucket size, ordered lists with their two buckets and length) is one evaluation, counted as transitions",
     "exhaustive enumeration of small allocation instances on the real allocator against the best cut over all sets of buckets",
     "All instances with 1-2 buckets and up to 4 lists (5-6 restricted), 3-4 buckets and up to 3 lists (4-5 restricted), bucket sizes 1-3(4), and all misuse "
     "sequences of 4 operations. Pooled flow computation is P11; the allocator itself only uses the sequential one.")
unit("p11", "p11_parallel.cpp", "sched", repo=GRAPH, libs="-lspdlog -lfmt")
prop("P11", ["p11"],
     "every schedule within the preemption bound is one execution (graph fixed per scenario); in addition every small graph is computed once on natively "
     "scheduled workers (counted as transitions); outcomes are the flow values",
     "stateless model checking of the real pooled computation under a controlled scheduler, validated against the minimum over all cuts",
     "Six graphs (0-3 components, detours, self-loops, isolated vertices) with 1-3 workers under all interleavings within the preemption bound (1-2, one more "
     "in the thorough tier within a time limit); all graphs with up to 4 vertices and 2 (thorough 3) edges on native schedules.",
     assumptions=SCHED_ASSUME)

# ------------------------------------------------------------------ P27
unit("p27", "p27_files.cpp", "plain", repo=UTILS, libs="-lspdlog -lfmt")
prop("P27", ["p27"],
     "every tree, path or operation sequence is one execution in its own unprivileged process; the whole work area is compared before and after "
     "each call (states are the trees or file-system contents)",
     "exhaustive enumeration of small directory trees and operation sequences on the real file system against raw system calls",
     "All trees of up to 3 top-level entries of 22 kinds (links in, out, up, dangling, looping, hard links, fifos, odd names), nested trees of up to 2 "
     "(thorough 3) further directories, chains of 200 and 3000 entries, 8 ways to name the tree; helpers: 28 paths, all sequences of 3 (thorough 4) operations.",
     assumptions=["permissions allow the removal; paths stay below PATH_MAX; one file system (no mount points)"])

# ------------------------------------------------------------------ P28
unit("p28", "p28_serial.cpp", "asan", repo=UTILS, libs="-lspdlog -lfmt")
prop("P28", ["p28"],
     "every sequence of records, pair of containers or first byte is one execution; within it every way to write and read back, or every second byte, is tried",
     "exhaustive enumeration of small inputs on the real helpers against reference implementations, under AddressSanitizer",
     "All sequences of up to 4 (thorough 5) records over 4 keys and 3 values through 9 ways of writing and 4 of reading (stateful inner serializers included); "
     "all pairs of containers of up to 4 elements; all strings of 1-2 bytes, every byte value at every place of longer ones; every byte of 32 and 64-bit values.")

# ------------------------------------------------------------------ P14
CRYPTO = ["standins/sse/crypto/standins.cpp"]
TETHYS = AIO + GRAPH
unit("p14", ["p14_tethys_store.cpp", "plain_aio.cpp"], "asan", tag="-si", repo=TETHYS, extra=CRYPTO, inc=["standins"],
     libs="-lspdlog -lfmt")
prop("P14", ["p14"],
     "every instance (table size, ordered lists with their two buckets and length) is built, reopened and read back, and counted as one transition; misuse: "
     "every sequence of calls is one execution",
     "exhaustive enumeration of small sets of lists and call sequences on the real builder and store against a reference map, under AddressSanitizer",
     "All instances with 2 buckets and up to 4-5 lists of every length, 4 buckets and up to 2-3 lists, 6 buckets and 2 lists (deeper in the thorough tier), every "
     "pair of buckets for each list, in six configurations of key size, value type and encoding (plain, encrypted, with stash); all misuse sequences of 4 calls.",
     assumptions=["the hash of a key and the stream cipher are ideal stand-ins (the real crypto submodule is absent)",
                  "at least one element is announced (max_n_elements > 0)",
                  "O_DIRECT is not used (its alignment rules are P05's)"])

# ------------------------------------------------------------------ P15
unit("p15", ["p15_tethys_async.cpp", "model_aio.cpp"], "sched", tag="-si", repo=TETHYS, extra=CRYPTO, inc=["standins"],
     libs="-lspdlog -lfmt")
unit("p15n", ["p15_tethys_async.cpp", "model_aio.cpp"], "sched", tag="-si-noaio", flags="-DMC_NO_LIBAIO", repo=TETHYS,
     extra=CRYPTO, inc=["standins"], libs="-lspdlog -lfmt")
prop("P15", ["p15", "p15n"],
     "every schedule within the preemption bound combined with every reply of the model kernel is one execution",
     "stateless model checking of the real store under a controlled scheduler",
     "All interleavings within the preemption bound (0-1 by scenario, one more in the thorough tier within a time limit) of 1-2 threads making 1-3 lookups "
     "(lists split over buckets and stash, empty and unknown ones, raw buckets, lookups made by callbacks), of the notification thread and of the model kernel, "
     "or of 2 pool workers in a build without libaio; then the destruction of the store.",
     assumptions=SCHED_ASSUME + ["transfers do not fail; lookups made by a callback are made before the destruction begins"])

# ------------------------------------------------------------------ P16
CUCKOO = AIO + ["lib/oceanus/cuckoo.cpp"] + UTILS
unit("p16", ["p16_cuckoo.cpp", "plain_aio.cpp"], "asan", tag="-si", repo=CUCKOO, extra=CRYPTO, inc=["standins"],
     libs="-lspdlog -lfmt")
unit("p16s", ["p16s_cuckoo_async.cpp", "model_aio.cpp"], "sched", tag="-si", repo=CUCKOO, extra=CRYPTO, inc=["standins"],
     libs="-lspdlog -lfmt")
unit("p16n", ["p16s_cuckoo_async.cpp", "model_aio.cpp"], "sched", tag="-si-noaio", flags="-DMC_NO_LIBAIO", repo=CUCKOO,
     extra=CRYPTO, inc=["standins"], libs="-lspdlog -lfmt")
prop("P16", ["p16", "p16s", "p16n"],
     "every instance (places per table, keys with their two places in insertion order, search depth) is built, reopened and read back, and counted as one "
     "transition; misuse: every sequence of calls is one execution",
     "exhaustive enumeration of small sets of keys and call sequences on the real builder and table against a reference map, under AddressSanitizer",
     "All key sequences with 1 place per table and up to 3 keys, 2 places and up to 5 keys, 3 places and up to 4 keys (6, 5 and 4 places in the thorough tier), every "
     "pair of places for each key, five search depths, three ways of ending; asynchronous lookups and Oceanus with 2 places and up to 3 keys; twelve capacities "
     "with six load factors; look-ups of keys that differ from an inserted one in any single byte; all sequences of 5 (thorough 6) calls. Schedules: 1-2 threads making 1-2 lookups within 0-1 preemptions, kernel and pool back ends.",
     assumptions=["keys are distinct; capacities are at least 1", "the hash of a key is given by the key (the crypto submodule is absent)",
                  "transfers do not fail"] + SCHED_ASSUME)

# ------------------------------------------------------------------ P17
PLUTO = sorted(set(CUCKOO + TETHYS + STORE + ["lib/pluto/rocksdb_store.cpp"]))
unit("p17", ["p17_pluto.cpp", "plain_aio.cpp"], "asan", tag="-si", repo=PLUTO, extra=CRYPTO, inc=["standins"],
     libs=ROCKS)
unit("p17r", ["p17r_pluto.cpp", "plain_aio.cpp", "fault_db.cpp"], "plain", tag="-si", repo=PLUTO, extra=CRYPTO,
     inc=["standins"], libs=ROCKS)
prop("P17", ["p17", "p17r"],
     "every instance (lengths of the lists in insertion order, bucket pair of each incomplete list, announced size, way of building) is built, reopened and "
     "every keyword and unknown keywords in every bucket pair are searched; it counts as one transition, states are the vectors of lengths",
     "exhaustive enumeration of small inverted indexes on the real builder, server and client against the inserted lists",
     "Blocks of 2 and 10 indexes; tables of 2 and 4 buckets (6 in the thorough tier): every length up to two blocks and two more for 1-2 keywords, lengths around the "
     "block size for 3-4 keywords (5 in the thorough tier), every bucket pair; 1-2 keywords with up to 258 blocks; complete lists in a cuckoo table (under AddressSanitizer) and in RocksDB.",
     assumptions=["hash, pseudo-random function and stream cipher are ideal stand-ins (the real crypto submodule is absent)",
                  "each keyword is inserted once; the announced sizes are respected, and leave place in the cuckoo table",
                  "the parser of inverted indexes is a stand-in"])

# ------------------------------------------------------------------ P18
unit("p18", ["p18_tethys.cpp", "plain_aio.cpp", "fault_db.cpp"], "plain", tag="-si", repo=sorted(set(TETHYS + STORE)), extra=CRYPTO,
     inc=["standins"], libs=ROCKS)
prop("P18", ["p18"],
     "every instance (lengths of the lists in insertion order, bucket pair of each block) is built, reopened and every keyword and unknown keywords are "
     "searched; it counts as one transition, states are the vectors of lengths",
     "exhaustive enumeration of small inverted indexes on the real builder, server and client against the inserted lists, and of the stored tables against "
     "tables built with a cipher that does nothing",
     "Blocks of 2 and 10 indexes; tables of 2 and 4 buckets (6 in the thorough tier): every length up to two blocks and two more for one keyword, lengths around the "
     "block size for 2-3 keywords (4 in the thorough tier), every bucket pair for each of up to 4-5 blocks; one keyword with up to 258 blocks.",
     assumptions=["hash, pseudo-random function and stream cipher are ideal stand-ins (the real crypto submodule is absent)",
                  "each keyword is inserted once; a key is used for one database only",
                  "the parser of inverted indexes is a stand-in"])

# ------------------------------------------------------------------ P19
SOPHOS = ["lib/sophos/sophos_client.cpp", "lib/sophos/sophos_server.cpp", "lib/sophos/sophos_common.cpp"] + STORE
unit("p19", ["p19_sophos.cpp", "mem_db.cpp"], "asan", tag="-si", repo=SOPHOS, extra=CRYPTO, inc=["standins"], libs=ROCKS)
unit("p19r", ["p19r_sophos.cpp", "fault_db.cpp"], "plain", tag="-si", repo=SOPHOS, extra=CRYPTO,
     inc=["standins"], libs=ROCKS)
prop("P19", ["p19", "p19r"],
     "every operation sequence up to the depth bound is one execution, each search made through one of nine ways of searching and at the end every keyword "
     "searched through all of them; states are the contents of the database",
     "exhaustive enumeration of operation sequences on the real client and server against a reference model",
     "All histories of up to 5 (thorough 7) operations over one keyword, 4 (6) over two and 2 (4) over four: insertions (indexes repeated, 0, all ones), searches, "
     "restarts of client and server, on an in-memory store under AddressSanitizer and, less deep, on RocksDB; 1-300 results with 1-100 threads on 1-64 cores; more than 65536 updates.",
     assumptions=["hash, pseudo-random functions and trapdoor permutation are ideal stand-ins (the real crypto submodule is absent)",
                  "at most twice as many derivation threads as cores (larger counts are refused by the crypto library)",
                  "threads of this check run on native schedules (schedules are P20's)"])

# ------------------------------------------------------------------ P20
unit("p20", ["p20_sophos_threads.cpp", "mem_db.cpp"], "sched", tag="-si", repo=SOPHOS, extra=CRYPTO, inc=["standins"], libs=ROCKS)
prop("P20", ["p20"],
     "every schedule within the preemption bound is one execution; outcomes are the orders of the results",
     "stateless model checking of the real search procedures under a controlled scheduler",
     "All interleavings within the preemption bound (0-3 by scenario, one more in the thorough tier within a time limit) of the derivation, access and "
     "delivery threads (1-3 of each) of the four parallel procedures, for 0-3 results.",
     assumptions=SCHED_ASSUME + ["the store is an in-memory one whose accesses are single steps", "crypto is an ideal stand-in"])

# ------------------------------------------------------------------ P21
DIANA = ["lib/diana/diana_common.cpp"] + STORE
unit("p21", ["p21_diana.cpp", "mem_db.cpp"], "asan", tag="-si", repo=DIANA, extra=CRYPTO, inc=["standins"], libs=ROCKS)
unit("p21r", ["p21r_diana.cpp", "fault_db.cpp"], "plain", tag="-si", repo=DIANA, extra=CRYPTO,
     inc=["standins"], libs=ROCKS)
prop("P21", ["p21", "p21r"],
     "every operation sequence up to the depth bound is one execution, each search made through one of eight ways of searching, at the end every keyword "
     "is searched through all of them and then its results are deleted; states are the contents of the database",
     "exhaustive enumeration of operation sequences on the real client and server against a reference model",
     "All histories of up to 4 (thorough 6) operations over one keyword, 3 (4) over two and 2 (3) over four: single and bulk insertions (also received in another "
     "order), removals of keywords, searches, searches with deletion, restarts of client and server, on an in-memory store under AddressSanitizer and, less deep, on "
     "RocksDB; results of 8 and 41 bytes; 1-520 results with 1-255 threads, each with other keys; more than 65536 updates.",
     assumptions=["hash, pseudo-random functions and constrained pseudo-random functions are ideal stand-ins (the real crypto submodule is absent)",
                  "in the deep histories the key-value store is an in-memory one (RocksDB behind the wrappers is P01, P02)"])

# ------------------------------------------------------------------ P22
unit("p22", ["p22_diana_threads.cpp", "mem_db.cpp"], "sched", tag="-si", repo=DIANA, extra=CRYPTO, inc=["standins"], libs=ROCKS)
prop("P22", ["p22"],
     "every schedule within the preemption bound is one execution; outcomes are the orders of the results and the work of each thread",
     "stateless model checking of the real search procedures under a controlled scheduler",
     "All interleavings within the preemption bound (1-3 by scenario, one or two more in the thorough tier within a time limit) of the 1-4 workers of the four "
     "parallel procedures, with and without deletion, for 0-5 results; two searches at the same time.",
     assumptions=SCHED_ASSUME + ["the store is an in-memory one whose accesses are single steps", "crypto is an ideal stand-in"])

# ------------------------------------------------------------------ P23
JANUS = ["lib/janus/janus_client.cpp", "lib/janus/janus_server.cpp"] + DIANA
unit("p23", ["p23_janus.cpp", "mem_db.cpp"], "asan", tag="-si", repo=JANUS, extra=CRYPTO, inc=["standins"], libs=ROCKS)
unit("p23r", ["p23r_janus.cpp", "fault_db.cpp"], "plain", tag="-si", repo=JANUS, extra=CRYPTO,
     inc=["standins"], libs=ROCKS)
unit("p23s", ["p23s_janus.cpp", "mem_db.cpp"], "sched", tag="-si", repo=JANUS, extra=CRYPTO, inc=["standins"], libs=ROCKS)
prop("P23", ["p23", "p23r", "p23s"],
     "every operation sequence up to the depth bound is one execution, at the end every keyword is searched through every procedure in turn; states are the "
     "contents of the database; schedules: every interleaving within the preemption bound is one execution",
     "exhaustive enumeration of operation sequences on the real client and server against a reference model",
     "All histories of up to 4 (thorough 6) operations over one keyword and two indexes, 3 (6) over three indexes, 3 (5-6) over two keywords, 2 (5) over four: insertions (also repeated), "
     "deletions (also of indexes never inserted), sequential and parallel searches, restarts of client and server, on an in-memory store under AddressSanitizer and, "
     "less deep, on RocksDB; up to 260 insertions and 257 deletions with 1-255 threads; interleavings of the parallel searches within 2-3 preemptions.",
     assumptions=["no index is inserted for a keyword after it was deleted from it",
                  "hash, pseudo-random functions and puncturable encryption are ideal stand-ins (the real crypto submodule is absent); as in the original, a key "
                  "decrypts only with the shares of all its punctures, each once",
                  "in the deep histories the key-value store is an in-memory one (RocksDB behind the wrappers is P01-P03)"] + SCHED_ASSUME)

# ------------------------------------------------------------------ P24
unit("p24", ["p24_privacy.cpp", "mem_db.cpp"], "plain", tag="-si", repo=sorted(set(SOPHOS + JANUS)), extra=CRYPTO, inc=["standins"],
     libs=ROCKS)
prop("P24", ["p24"],
     "every operation sequence up to the depth bound is one execution; after each operation everything the server can compute is computed and compared with "
     "the tokens and masks of all updates",
     "exhaustive enumeration of operation sequences on the real clients and servers, with the closure of what the server can compute over ideal cryptography",
     "All histories of up to 6 (thorough 8) operations of Sophos over two keywords, 4 (6) of Diana and Janus over two, 6 (8) over one, 4 (5) of Sophos over six with "
     "confusable names: single and bulk updates, deletions, searches, restarts of the client; up to 80 (300) updates before a search; up to 34 (60) searches.",
     assumptions=["cryptography is ideal: a value can be computed only in the ways in which the library's functions compute it, keywords and indexes are public",
                  "keywords are not removed from Diana's client (its tokens start again)",
                  "the key-value store is an in-memory one"])

# ------------------------------------------------------------------ P25
RUNNER = ["standins/protos/grpc_standin.cpp"]
RUNFLAGS = "-I{repo}/lib/include/sse/runners -I{repo}"
SOPHOS_RUN = SOPHOS + ["lib/sophos/sophos_client_runner.cpp", "lib/sophos/sophos_server_runner.cpp"]
DIANA_RUN = DIANA + ["lib/diana/client_runner.cpp", "lib/diana/server_runner.cpp"]
for n, m in (("", "plain"), ("a", "asan"), ("s", "sched")):
    unit("p25" + n, [f"p25{n}_sophos_runner.cpp", "mem_db.cpp"], m, tag="-run", repo=SOPHOS_RUN, extra=CRYPTO + RUNNER,
         inc=["standins"], protos=["sophos"], flags=RUNFLAGS, libs=ROCKS + " -lprotobuf")
    unit("p26" + n, [f"p26{n}_diana_runner.cpp", "mem_db.cpp"], m, tag="-run", repo=DIANA_RUN, extra=CRYPTO + RUNNER,
         inc=["standins"], protos=["diana"], flags=RUNFLAGS, libs=ROCKS + " -lprotobuf")
for i, n in (("25", "Sophos"), ("26", "Diana")):
    prop("P" + i, [f"p{i}", f"p{i}a", f"p{i}s"],
         "every operation sequence up to the depth bound, with every loss of calls, replies and messages, is one execution; states are the contents of the "
         "database; schedules: every interleaving within the preemption bound is one execution",
         "exhaustive enumeration of operation sequences and of schedules on the real client and server programs against a reference model",
         f"All histories of up to 4 (thorough 5-6) operations of {n}'s programs over one and two keywords (insertions, sessions, insertions in a session, loading of a file, "
         "searches in both modes, restarts of both sides (of the client also during a session), files that do not parse, a second set-up), and of 4 (6) operations with every placement of lost requests, lost replies and broken streams; "
         "1-700 results on 1-16 cores; every operation before the set-up, malformed messages, failures of the set-up, altered directories; two concurrent calls, and the "
         "threads of searches and loading, within 0-2 preemptions (one more in the thorough tier within a time limit).",
         assumptions=["gRPC is a stand-in within the process (messages in serialised form, concurrent handlers, faults by the harness); protobuf is real, generated from the schemes' definitions",
                      "cryptography and the file parser are ideal stand-ins, the key-value store is an in-memory one",
                      "no call is made while a session is started or ended by another thread"] + SCHED_ASSUME)

# ------------------------------------------------------------------ P30
GEN = ["lib/utils/db_generator.cpp", "lib/utils/logger.cpp"]
GENFLAGS = "-include {here}/harness/random_hook.h -I{repo}/lib/include/sse/schemes -O2"
unit("p30", "p30_generator.cpp", "plain", tag="-gen", repo=GEN, extra=CRYPTO, inc=["standins"], flags=GENFLAGS, libs="-lspdlog -lfmt")
unit("p30s", "p30s_generator.cpp", "sched", tag="-gen", repo=GEN, extra=CRYPTO, inc=["standins"], flags=GENFLAGS, libs="-lspdlog -lfmt")
prop("P30", ["p30", "p30s"],
     "every number of documents, number of threads and pattern of document numbers is one execution; schedules: every interleaving within the preemption bound is one execution",
     "exhaustive enumeration of sizes and schedules on the real generator against the announced groups",
     "Every number of documents up to 250 (thorough 500) with 1-4 threads, numbers around one to six hundred with 1-8, around the thousands (1-2 threads) and ten thousand (thorough: a "
     "hundred thousand), with four patterns of document numbers (consecutive, all in the same random groups, large, scattered); 1-3 threads and up to 4 documents on every schedule within 1-2 preemptions.",
     assumptions=["document numbers are distinct", "the numbers drawn are chosen by the harness"] + SCHED_ASSUME)

# ------------------------------------------------------------------ P29
unit("p29", "p29_logging.cpp", "plain", repo=["lib/utils/logger.cpp"], libs="-lspdlog -lfmt")
unit("p29s", "p29s_logging.cpp", "sched", repo=["lib/utils/logger.cpp"], libs="-lspdlog -lfmt")
prop("P29", ["p29", "p29s"],
     "every operation sequence up to the depth bound is one execution in its own process; schedules: every interleaving within the preemption bound is one execution",
     "exhaustive enumeration of operation sequences and of schedules on the real logger against a reference model",
     "All sequences of up to 4 (thorough 5) operations (messages of two levels, three loggers, silencing, levels, loggers of the application with the same names) and of up to 3 (4) "
     "benchmarks and changes of file with every way of stopping and counting, 2 (3) with eight messages; every pair of operations of two threads, also as first use, and three first uses, "
     "on every schedule within 1-2 preemptions.",
     assumptions=["time is the harness's", "the benchmark file is not changed while benchmarks run in other threads"] + SCHED_ASSUME)

# ------------------------------------------------------------------ P31
for n, r in (("sophos", SOPHOS_RUN), ("diana", DIANA_RUN)):
    unit("p31" + n[0], [f"p31_{n}.cpp", f"p31_{n}_client.cpp", f"p31_{n}_server.cpp", "mem_db.cpp"], "plain", tag="-run", repo=r, extra=CRYPTO + RUNNER,
         inc=["standins"], protos=[n], flags=RUNFLAGS, libs=ROCKS + " -lprotobuf")
prop("P31", ["p31s", "p31d"],
     "every sequence of runs of the server and client programs up to the depth bound is one execution, each run being a call of the program's own main()",
     "exhaustive enumeration of histories of runs of the real programs (arguments, signals, restarts, files, generated documents) against a reference database",
     "All histories of 3 (thorough 4) runs among: server starts synchronous/asynchronous and ends by SIGINT/SIGTERM/SIGQUIT, clients which load one or two files, generate 1/50/51/99/230 "
     "documents from 1-3 threads, search (options before and after keywords), give wrong options or a missing file, belong to another user, or do everything at once; and the default directories. "
     "Every result printed is compared with the reference database, which is also searched at the end of each history.",
     assumptions=["ideal cryptography, an in-memory key-value store and an in-process network replace libsodium, RocksDB and gRPC", "the programs run as functions of one process, one client at a time",
                  "the random generator (P30) is replaced by numbered documents"])
