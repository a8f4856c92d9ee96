#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
L = "lib/include/sse/schemes/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- storage layer
prop("P01", "The persistent key-value store behaves as a map over every history",
 "After any sequence of put, remove, get, flush and close/reopen operations, looking a key up in the persistent key-value store succeeds exactly when the last operation on that key was a put, and then returns the value of that put. Operations on one key never change what another key returns, and put/remove report success when they took effect.",
 ["histories"], "all operation sequences up to a bounded length over a small set of keys and values, including flushes and reopens at every position",
 "The existing tests run a couple of fixed sequences (insert, read, delete, read, one reopen); they never combine overwrite, remove, flush and reopen in all orders.",
 [L+"utils/rocksdb_wrapper.hpp"],
 [("RockDBWrapper::put/get/remove/flush", L+"utils/rocksdb_wrapper.hpp"), ("RockDBWrapper constructor (store options)", L+"utils/rocksdb_wrapper.hpp")],
 ["return values and data of RockDBWrapper"])

prop("P02", "Persistent counters count exactly, over every history, failure and schedule",
 "Over every sequence of counter operations, reopenings and failing store accesses, a keyword's counter is the value a plain in-memory counter would have: absent at first, the first increment yields the default value (zero unless given), each further increment adds one, set overwrites, removal makes it absent again. A counter operation that could not read or write the store reports failure and leaves the counter as it was, so a value is never handed out twice for the same keyword. The same holds for operations made by several threads at once: their results and the final counters are those of some sequential order.",
 ["histories", "fault_sequences", "schedules"], "all operation sequences up to a bounded length over a small set of keywords, with every choice of failing store access",
 "Tests exercise a handful of increments on a healthy store; no test injects a store failure or mixes set, remove and increment in every order.",
 ["lib/utils/rocksdb_wrapper.cpp", L+"utils/rocksdb_wrapper.hpp"],
 [("RocksDBCounter::get/get_and_increment/increment/set/remove_key", "lib/utils/rocksdb_wrapper.cpp")],
 ["return values and out-parameters of RocksDBCounter"])

prop("P03", "The persistent list store returns exactly the last stored list",
 "After any sequence of stores, lookups, flushes and reopenings, looking a key up in the persistent list store returns the elements of the last list stored under this key, in order and with no leftover of what the output list held before; a key that was never stored is reported missing and yields an empty list.",
 ["histories", "inputs"], "all operation sequences up to a bounded length over small keys and lists (including empty lists and empty elements)",
 "Tests store and read back one list of each kind; they do not cover overwriting, pre-filled outputs, empty lists or missing keys together.",
 [L+"utils/rocksdb_wrapper.hpp"],
 [("RockDBListStore::put/get", L+"utils/rocksdb_wrapper.hpp")],
 ["return values and lists of RockDBListStore"])

prop("P04", "Acknowledged store updates survive a process kill at any point",
 "If the process is killed at any point of a history of updates to a persistent store (key-value, counter or list), reopening the store succeeds and shows the state after some prefix of the history that contains every update whose call had returned successfully. No update is applied partially and no value appears that was never written.",
 ["crash_points", "histories"], "every file-system mutation point of every bounded history of updates, flushes and reopens",
 "Tests never kill the process; they only close the store cleanly.",
 [L+"utils/rocksdb_wrapper.hpp", "lib/utils/rocksdb_wrapper.cpp"],
 [("write options of the stores (write-ahead log on)", L+"utils/rocksdb_wrapper.hpp"), ("RocksDBCounter writes", "lib/utils/rocksdb_wrapper.cpp")],
 ["contents of the store reopened after the kill"])

prop("P05", "The append-only vector returns what was appended, over every history",
 "Over every sequence of appends (blocking or asynchronous), reservations, commit, access-mode switches, moves and reopenings, the append-only vector returns consecutive positions starting at zero, has as its size the number of appended values, and once committed every blocking, asynchronous or batched read at a position below the size yields the value whose append returned that position. Appending to a committed vector, reading an uncommitted one, and reading at or beyond the size are all rejected with an error, and never change the contents. A read that the I/O layer refuses, fails or cuts short delivers no value and disturbs no other read.",
 ["histories"], "all operation sequences up to a bounded length, for both input/output back ends and both access modes",
 "The existing tests append a fixed number of values through one back end, commit and read them back; positions at the boundary, mixed append kinds, moves and mode switches are not combined.",
 [L+"abstractio/awonvm_vector.hpp", L+"abstractio/scheduler.hpp"],
 [("push_back / async_push_back position assignment", L+"abstractio/awonvm_vector.hpp"), ("commit and reopening", L+"abstractio/awonvm_vector.hpp"), ("get / async_get / async_gets bound and state checks", L+"abstractio/awonvm_vector.hpp")],
 ["return values, exceptions and read-back contents of the vector"])

prop("P06", "Concurrent appends and reads on the append-only vector are never mixed up",
 "When several threads append to the append-only vector at the same time, every append returns a distinct position, the positions are exactly zero up to the number of appends, and after the commit each position holds the value whose append returned it. When several threads read a committed vector at the same time, each read returns the value of its own position and each asynchronous callback runs exactly once, also when a reader learns only from the vector itself that another thread has committed it.",
 ["schedules"], "all thread interleavings (up to a preemption bound) of small sets of concurrent appends and reads",
 "Tests only append from one thread; a wrong interleaving of position reservation and file write needs a specific schedule.",
 [L+"abstractio/awonvm_vector.hpp"],
 [("atomic position counter", L+"abstractio/awonvm_vector.hpp"), ("positional read and write", L+"abstractio/awonvm_vector.hpp")],
 ["returned positions and read-back contents"])

prop("P07", "Kernel asynchronous I/O: each accepted request completes exactly once",
 "For every schedule and every behaviour of the kernel (full queue, partial acceptance, completion in any order, short or failed transfers, interrupted waits, rejected submissions), each request the kernel-backed asynchronous I/O scheduler accepts has its callback called exactly once, with its own data pointer and the kernel's result, and each request it reports as rejected has its callback never called. Waiting for completions returns only after all those callbacks have returned, and always terminates; submissions afterwards and misaligned requests are rejected with an error.",
 ["schedules", "fault_sequences"], "all interleavings up to a preemption bound of submitting threads, notification thread and a model kernel with every allowed reply",
 "Tests use the real kernel, which practically never fills the queue, accepts partially, gets interrupted or reorders in a harmful way.",
 ["lib/abstractio/linux_aio_scheduler.cpp", "lib/abstractio/linux_aio_scheduler.hpp"],
 [("submit_iocbs (retry and wait on a full queue)", "lib/abstractio/linux_aio_scheduler.cpp"), ("notify_loop (delivery and shutdown condition)", "lib/abstractio/linux_aio_scheduler.cpp"), ("wait_completions", "lib/abstractio/linux_aio_scheduler.cpp")],
 ["callback invocations, return codes, termination"])

prop("P08", "Thread-pool I/O: each request completes exactly once and teardown is safe",
 "For every interleaving, each read or write submitted to the thread-pool asynchronous I/O scheduler transfers the requested bytes at the requested offset and has its callback called exactly once with its own data pointer and the number of bytes transferred. Waiting for completions or destroying the scheduler returns only once all these callbacks have returned, always terminates, and no worker touches the scheduler after it is destroyed.",
 ["schedules"], "all interleavings up to a preemption bound of submitting threads and pool workers",
 "Tests run it on one schedule with long gaps; the use of the scheduler's lock after its destruction needs an exact interleaving.",
 ["lib/abstractio/thread_pool_aio_scheduler.cpp", "lib/abstractio/thread_pool_aio_scheduler.hpp", L+"utils/thread_pool.hpp"],
 [("running-request counter and its condition variable", "lib/abstractio/thread_pool_aio_scheduler.cpp")],
 ["callback invocations, file contents, memory accesses after destruction"])

prop("P09", "The thread pool runs every accepted task exactly once, whatever the schedule",
 "For every interleaving of any number of submitting threads, workers and a join or destruction, each task accepted by the thread pool runs exactly once, its future delivers its result or its exception, and joining or destroying the pool returns only after all accepted tasks have finished, without deadlock. Submitting to a stopped pool is rejected with an exception and the task does not run.",
 ["schedules"], "all interleavings up to a preemption bound of small pools, tasks (including tasks that submit tasks or throw) and shutdown",
 "Tests use the pool only indirectly, on the schedules the machine happens to produce.",
 [L+"utils/thread_pool.hpp"],
 [("task queue under mutex and condition variable", L+"utils/thread_pool.hpp"), ("stop flag and draining of the queue", L+"utils/thread_pool.hpp")],
 ["task executions, futures, termination"])

# ---------------------------------------------------------------- Tethys allocation
prop("P10", "The allocation graph's flow is a maximum flow for every graph",
 "For every allocation graph, the computed flow respects edge capacities, conserves flow at every inner vertex, and carries from source to sink exactly as much as the minimum cut of the graph allows. Each edge's reported flow and residual capacity add up to its capacity, and the per-vertex and total flow reports agree with the per-edge reports.",
 ["inputs"], "all small directed multigraphs (vertices, edges incl. self-loops and parallel edges, source/sink attachments, capacities) up to a bound",
 "Tests check a few hand-written graphs; an augmenting-path error shows only on particular topologies.",
 ["lib/tethys/tethys_graph.cpp", L+"tethys/details/tethys_graph.hpp"],
 [("compute_residual_maxflow / transform_residual_to_flow", "lib/tethys/tethys_graph.cpp"), ("find_source_sink_path", "lib/tethys/tethys_graph.cpp")],
 ["edge, vertex and total flows reported by the graph"])

prop("P11", "Parallel flow computation equals the sequential one on every schedule",
 "For every small allocation graph, every number of workers and every interleaving, computing the flow component by component on a thread pool terminates and yields a valid flow with the same total and the same validity guarantees as the sequential computation.",
 ["schedules", "inputs"], "all interleavings up to a preemption bound on a set of multi-component graphs; all small graphs on the default schedule",
 "Tests run the parallel version on whatever schedule occurs.",
 ["lib/tethys/tethys_graph.cpp", L+"utils/thread_pool.hpp"],
 [("parallel_compute_residual_maxflow", "lib/tethys/tethys_graph.cpp"), ("compute_connected_components", "lib/tethys/tethys_graph.cpp")],
 ["edge and total flows after the parallel computation"])

prop("P12", "Graph structure queries are right and misuse is rejected for every graph",
 "For every graph and operation order, two vertices that edges connect get the same component label and vertices in different non-trivial components get different ones, a source-to-sink path is found exactly when one with spare capacity exists and it is a genuine chained path, and operations with out-of-range vertices or in the wrong phase (adding edges after the computation started, reading flows before it finished) are rejected with an error and leave the graph unchanged.",
 ["inputs", "histories"], "all small graphs and all short sequences of graph operations",
 "Tests sample a few graphs and a few misuses.",
 ["lib/tethys/tethys_graph.cpp", L+"tethys/details/tethys_graph.hpp"],
 [("find_source_sink_path", "lib/tethys/tethys_graph.cpp"), ("compute_connected_components", "lib/tethys/tethys_graph.cpp"), ("phase and range checks", "lib/tethys/tethys_graph.cpp")],
 ["paths, component labels and exceptions"])

prop("P13", "List allocation never overflows a bucket, loses nothing, stashes minimally",
 "For every set of lists with their two candidate buckets, the allocation places each list's entries into its two buckets and the stash so that the parts add up to the list's length, no bucket receives more than its capacity, and the total number of stashed entries is the least possible. The lists reported as stashed are exactly those with a non-empty stashed part, and inserting a list longer than a bucket, inserting after allocating, allocating twice or reading results before allocating is rejected.",
 ["inputs", "histories"], "all instances up to a bounded number of buckets, lists and list lengths, for sequential and pooled allocation",
 "No existing test that builds here covers the allocator at all; minimality needs comparison with every alternative placement.",
 ["lib/tethys/tethys_allocator.cpp", L+"tethys/details/tethys_allocator.hpp", "lib/tethys/tethys_graph.cpp"],
 [("TethysAllocator::insert / allocate", "lib/tethys/tethys_allocator.cpp")],
 ["per-list flows, stash, exceptions"])

prop("P14", "A built Tethys store returns exactly the list inserted under each key",
 "For every set of lists inserted under distinct keys, building the Tethys store and reopening it yields, for each key, exactly the inserted values (none lost, added or duplicated), whether they ended up in a bucket, split over two buckets or in the stash, and for plain and encrypted bucket encodings alike. Inserting lists that are too long is rejected, and building twice or inserting after building is rejected.",
 ["inputs", "histories"], "all insertion sets up to a bounded number of lists, lengths and colliding candidate buckets",
 "The store tests cannot even be built here and use random keys, so particular collision patterns (full buckets, same two candidates, stash overflow) are a matter of luck.",
 [L+"tethys/tethys_store.hpp", L+"tethys/tethys_store_builder.hpp", L+"tethys/encoders/encode_separate.hpp", L+"tethys/encoders/encode_encrypt.hpp"],
 [("TethysStoreBuilder::insert_list / build", L+"tethys/tethys_store_builder.hpp"), ("EncodeSeparateEncoder / decoder", L+"tethys/encoders/encode_separate.hpp"), ("stash serialization", L+"tethys/tethys_store_builder.hpp"), ("TethysStore::get_list", L+"tethys/tethys_store.hpp")],
 ["lists returned by the reopened store"])

prop("P15", "Asynchronous Tethys lookups equal blocking ones on every completion order",
 "For every interleaving and completion order of the underlying bucket reads, an asynchronous lookup in a Tethys store calls its callback exactly once with exactly the values the blocking lookup returns, including when several lookups are in flight or both candidate buckets are the same. Destroying the store waits for lookups in flight.",
 ["schedules"], "all interleavings up to a preemption bound of lookups and completions, with both reads completing in either order or concurrently",
 "Tests see the completion order of a fast local disk, essentially always the submission order on one thread.",
 [L+"tethys/tethys_store.hpp", L+"abstractio/awonvm_vector.hpp"],
 [("async_get_list completion counter", L+"tethys/tethys_store.hpp")],
 ["callback invocations and delivered lists"])

# ---------------------------------------------------------------- Oceanus / Pluto / Tethys schemes
prop("P16", "A built cuckoo hash table finds every inserted pair and nothing else",
 "For every set of distinct keys the builder accepts, the committed cuckoo hash table returns for each key exactly the value inserted with it, after reopening and through blocking and asynchronous lookups alike, and reports keys that were not inserted as absent. Building needs no more than the configured number of slots and the temporary file of the builder is removed.",
 ["inputs", "histories", "schedules"], "all patterns of candidate positions for bounded tables and key sets, including eviction chains",
 "Tests use random keys and a sparse table; long eviction chains, cycles and full tables are hardly reached.",
 [L+"oceanus/cuckoo.hpp", L+"oceanus/details/cuckoo.hpp", "lib/oceanus/cuckoo.cpp", L+"oceanus/oceanus.hpp"],
 [("CuckooAllocator::insert (eviction loop)", "lib/oceanus/cuckoo.cpp"), ("CuckooBuilder::insert / commit", L+"oceanus/cuckoo.hpp"), ("CuckooHashTable::get / async_get", L+"oceanus/cuckoo.hpp")],
 ["values returned by the hash table"])

prop("P17", "Pluto search returns exactly the indexes inserted for the keyword",
 "For every inverted index inserted into the Pluto builder, after building and reopening, searching a keyword returns exactly the multiset of document indexes inserted under it, whatever the list length relative to the block sizes, and searching an unknown keyword returns nothing. This holds for both complete-list back ends.",
 ["inputs"], "all list-length vectors around the block boundaries for a bounded number of keywords",
 "Pluto's tests need libraries that are absent here and use a few random databases.",
 [L+"pluto/pluto_builder.hpp", L+"pluto/pluto_server.hpp", L+"pluto/pluto_client.hpp", L+"pluto/rocksdb_store.hpp", "lib/pluto/rocksdb_store.cpp"],
 [("PlutoBuilder::insert_list / build", L+"pluto/pluto_builder.hpp"), ("PlutoServer::search", L+"pluto/pluto_server.hpp")],
 ["search results"])

prop("P18", "Tethys search returns exactly the indexes inserted for the keyword",
 "For every inverted index inserted into the Tethys builder, after building and reopening with the same keys, searching a keyword and decoding the answer returns exactly the multiset of document indexes inserted under it, whatever the list length relative to the bucket size; unknown keywords yield nothing. What the server stores for buckets is encrypted: it only becomes readable with the client's key.",
 ["inputs"], "all list-length vectors around the block boundaries for a bounded number of keywords",
 "Tethys' tests need libraries that are absent here and use a few random databases.",
 [L+"tethys/tethys_builder.hpp", L+"tethys/tethys_client.hpp", L+"tethys/tethys_server.hpp", L+"tethys/encoders/encode_encrypt.hpp"],
 [("TethysBuilder::insert_list / build", L+"tethys/tethys_builder.hpp"), ("TethysClient::search_request / decode_search_results", L+"tethys/tethys_client.hpp")],
 ["search results, bucket file contents"])

# ---------------------------------------------------------------- dynamic schemes
prop("P19", "Sophos search returns exactly the inserted indexes, over every history",
 "Over every sequence of insertions, searches and client or server restarts, a Sophos search for a keyword returns exactly the multiset of document indexes inserted under it so far, with every offered search procedure (blocking or callback, sequential, parallel or lightly parallel). Searching never changes later results, and updates of one keyword never affect another.",
 ["histories"], "all operation sequences up to a bounded length over small keyword and index sets, each search run through all procedures",
 "Sophos' tests need libraries that are absent here and check one fixed insertion sequence.",
 ["lib/sophos/sophos_client.cpp", "lib/sophos/sophos_server.cpp", L+"sophos/sophos_client.hpp", L+"sophos/sophos_server.hpp"],
 [("SophosClient::insertion_request / search_request", "lib/sophos/sophos_client.cpp"), ("SophosServer::search*", "lib/sophos/sophos_server.cpp")],
 ["search results"])

prop("P20", "Parallel Sophos searches are exact on every schedule",
 "For every interleaving and every number of workers, each parallel Sophos search procedure terminates and delivers each matching document index exactly once, reading all its deliveries before it returns.",
 ["schedules"], "all interleavings up to a preemption bound for small result counts and worker counts",
 "A lost or duplicated result needs a specific interleaving of token derivation, access and decryption tasks.",
 ["lib/sophos/sophos_server.cpp", L+"utils/thread_pool.hpp"],
 [("search_parallel / search_parallel_light / *_callback", "lib/sophos/sophos_server.cpp")],
 ["search results"])

prop("P21", "Diana search returns exactly the inserted indexes, over every history",
 "Over every sequence of single and bulk insertions, keyword removals, searches and client or server restarts, a Diana search for a keyword returns exactly the multiset of document indexes inserted under it (since it was last removed), with every offered search procedure; result vectors are in insertion order. Deleting a keyword's results on the server removes exactly these entries. The number of matches the client reports for a keyword is the number of insertions since it was last removed.",
 ["histories"], "all operation sequences up to a bounded length over small keyword and index sets, each search run through all procedures",
 "Diana's tests need libraries that are absent here and check one fixed insertion sequence.",
 [L+"diana/diana_client.hpp", L+"diana/diana_server.hpp", "lib/diana/diana_common.cpp"],
 [("DianaClient::insertion_request / search_request", L+"diana/diana_client.hpp"), ("DianaServer::search*", L+"diana/diana_server.hpp")],
 ["search results"])

prop("P22", "Parallel Diana searches are exact on every schedule",
 "For every interleaving and every number of workers, each parallel Diana search procedure terminates and delivers each matching document index exactly once, and has delivered all of them when it returns.",
 ["schedules"], "all interleavings up to a preemption bound for small result counts and worker counts",
 "A lost or duplicated result needs a specific interleaving of the leaf-range workers.",
 [L+"diana/diana_server.hpp"],
 [("DianaServer::search_parallel", L+"diana/diana_server.hpp")],
 ["search results"])

prop("P23", "Janus search returns inserted-and-not-deleted indexes, over every history",
 "Over every sequence of insertions, deletions, searches and restarts in which no index is re-inserted for a keyword it was deleted from, a Janus search for a keyword returns exactly the indexes inserted and not deleted since, whether or not they were already returned and cached by an earlier search. Keywords do not affect each other, and both search procedures agree.",
 ["histories"], "all operation sequences up to a bounded length over small keyword and index sets",
 "Janus' tests need libraries that are absent here and follow one scenario.",
 ["lib/janus/janus_client.cpp", "lib/janus/janus_server.cpp"],
 [("JanusClient::insertion_request / deletion_request / search_request", "lib/janus/janus_client.cpp"), ("JanusServer::search (cache update)", "lib/janus/janus_server.cpp")],
 ["search results"])

prop("P24", "Dynamic updates are forward private over every history",
 "In Sophos, Diana and Janus, over every history of updates and searches, the location token of each update is fresh (never equal to any token used before), and everything the server can derive from all the search requests it has seen so far lets it compute none of the tokens of later updates, except for keywords searched again. Tokens and stored values carry no fixed relation to the keyword or index that the server could compute without a search request. A request for a keyword without updates carries only fixed values.",
 ["histories"], "all operation sequences up to a bounded length, against the server's full derivation closure over an ideal cryptographic library",
 "Functional tests do not look at what the server could compute; one leaked reusable key or repeated counter passes all of them.",
 ["lib/sophos/sophos_client.cpp", L+"diana/diana_client.hpp", "lib/janus/janus_client.cpp"],
 [("SophosClient token derivation", "lib/sophos/sophos_client.cpp"), ("constrained keys of DianaClient", L+"diana/diana_client.hpp"), ("per-epoch keys of JanusClient", "lib/janus/janus_client.cpp")],
 ["requests sent to the server"])

prop("P25", "Sophos client/server sessions stay exact across restarts and misuse",
 "Over every sequence of set-up, update sessions, single updates, searches and restarts of the client and server programs, the Sophos client receives for each search exactly the indexes of the updates that completed, through the synchronous and the asynchronous interface, and calls lost by the network never add or alter results. A second set-up, operations before set-up, malformed messages and requests on an unknown database are refused with an error and leave the stored data intact, and a set-up that fails leaves nothing behind. Calls that run at the same time, also during a set-up, behave as if they ran one after the other.",
 ["histories", "fault_sequences", "schedules"], "all operation sequences up to a bounded length over an in-process transport, with every loss of calls and replies, and all bounded interleavings of concurrent calls; result counts around the server's strategy thresholds",
 "The runner tests need gRPC, absent here, and check one session.",
 ["lib/sophos/sophos_client_runner.cpp", "lib/sophos/sophos_server_runner.cpp"],
 [("SophosImpl::setup/search/insert/bulk_insert", "lib/sophos/sophos_server_runner.cpp"), ("SophosClientRunner", "lib/sophos/sophos_client_runner.cpp")],
 ["client-side results and statuses"])

prop("P26", "Diana client/server sessions stay exact across restarts and misuse",
 "Over every sequence of set-up, update sessions, single updates, searches and restarts of the client and server programs, the Diana client receives for each search exactly the indexes of the updates that completed, through the synchronous and the asynchronous interface, and calls lost by the network never add or alter results. A second set-up, operations before set-up, malformed messages and requests on an unknown database are refused with an error and leave the stored data intact, and a set-up that fails leaves nothing behind. Calls that run at the same time, also during a set-up, behave as if they ran one after the other.",
 ["histories", "fault_sequences", "schedules"], "all operation sequences up to a bounded length over an in-process transport, with every loss of calls and replies, and all bounded interleavings of concurrent calls; result counts around the server's strategy thresholds",
 "The runner tests need gRPC, absent here, and check one session.",
 ["lib/diana/client_runner.cpp", "lib/diana/server_runner.cpp"],
 [("DianaImpl::setup/search/insert/bulk_insert", "lib/diana/server_runner.cpp"), ("DianaClientRunner", "lib/diana/client_runner.cpp")],
 ["client-side results and statuses"])

# ---------------------------------------------------------------- utilities
prop("P27", "Directory removal deletes the given tree and nothing outside it",
 "For every directory tree (nested directories, files, links to files or directories inside or outside, dangling links), removing a directory deletes all of it and nothing else, in particular not what links point to; removing a missing directory succeeds without effect. The existence, file, directory, creation and removal helpers report what is really on the file system.",
 ["inputs"], "all small file-system trees up to a bound",
 "Tests only remove a couple of fixed plain directories.",
 ["lib/utils/utils.cpp", L+"utils/utils.hpp"],
 [("remove_directory (physical walk, children first)", "lib/utils/utils.cpp"), ("is_file/is_directory/exists/create_directory/remove_file", "lib/utils/utils.cpp")],
 ["file-system contents, return values"])

prop("P28", "Serialization round-trips and formatting helpers are exact for every input",
 "Writing any sequence of key-value pairs with the serializers and reading it back yields the same pairs in the same order; iterating over two concatenated containers visits the elements of the first, then those of the second, once each. Hexadecimal formatting gives two lower-case digits per byte in order, and masking a 64-bit value twice with the same mask restores it.",
 ["inputs"], "all small inputs up to a bound (container sizes incl. empty, pair sequences, byte strings)",
 "Tests cover a couple of strings and non-empty containers.",
 [L+"utils/concat_iterator.hpp", L+"abstractio/kv_serializer.hpp", L+"utils/utils.hpp", "lib/utils/utils.cpp"],
 [("concat_iterator", L+"utils/concat_iterator.hpp"), ("KVSerializer / deserialize", L+"abstractio/kv_serializer.hpp"), ("hex_string / xor_mask", L+"utils/utils.hpp")],
 ["returned values"])

prop("P29", "Log messages reach exactly the current logger; every benchmark is recorded once",
 "Whatever the sequence of logger replacements, silencings and level changes, and whatever loggers the application registered itself, using the library's logger never fails and each message goes once to the logger then set, if its level passes. Threads may use, set and replace the logger concurrently, including at first use, without a data race or a lost logger. Every benchmark, however it is stopped or destroyed, leaves exactly one well-formed record (message, item count, elapsed time until its first stop, time per item) in the benchmark file current at that time.",
 ["history", "schedule"], "all short operation sequences and all schedules of concurrent uses up to a preemption bound",
 "Tests log a few messages from one thread and never look at what is written.",
 ["lib/utils/logger.cpp", L+"utils/logger.hpp"],
 [("logger / set_logger / set_logging_level", "lib/utils/logger.cpp"), ("Benchmark, SearchBenchmark", "lib/utils/logger.cpp")],
 ["messages received by each logger", "records of the benchmark file"])

prop("P30", "The random database generator produces exactly the announced keywords",
 "For every number of documents and of threads, exactly that many documents are generated, each with the percentage keywords which its number determines and in exactly one group of each fixed size (10, 20, 30, 60, 10^2 to 10^6) of its thread; these groups are filled in order and all but the last have exactly their announced size. The random groups named 10^k never exceed 10^k documents, and no document is in one twice. All callbacks happen before the generation returns, under every schedule of the threads.",
 ["inputs", "schedule"], "all document and thread counts up to a bound, all schedules of small generations up to a preemption bound",
 "The generator is not tested at all.",
 ["lib/utils/db_generator.cpp", L+"utils/db_generator.hpp"],
 [("generation_job", "lib/utils/db_generator.cpp"), ("gen_db", "lib/utils/db_generator.cpp")],
 ["keyword-document pairs passed to the callback"])

prop("P31", "The programs show exactly what was inserted, over any history of runs",
 "For every history of runs of the command-line client and server of Sophos and Diana (loading files, generating random documents, searching, wrong options, another user's client, servers started in either search mode, ended by SIGINT, SIGTERM or SIGQUIT and restarted), every search prints exactly the documents ever inserted for the keyword, once each. A client without server, with wrong options or of another user prints no result and leaves the data unchanged. A server ended by a signal stops listening, exits with status 0 and loses nothing.",
 ["history", "inputs"], "all histories of program runs up to a depth",
 "The programs are not tested at all.",
 ["src/sophos_client.cpp", "src/sophos_server.cpp", "src/diana_client.cpp", "src/diana_server.cpp"],
 [("main of the clients", "src/sophos_client.cpp"), ("main and exit_handler of the servers", "src/diana_server.cpp")],
 ["standard output and status of the programs"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
