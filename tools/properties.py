#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

V = "vsa.go"
CORE = "internal/ratelimiter/core/"
PERS = "internal/ratelimiter/persistence/"
CH = "internal/ratelimiter/telemetry/churn/"
TFD = "plugin/tfd/"
vstate = [("scalar", "durable base S", V), ("net vector", "sum of stripes minus committed offset, V", V)]

prop("C01", "Accumulator obeys its sequential contract in every configuration",
 "For every sequence of accumulator operations and every combination of tuning options, availability equals S - |V|; an update adds its value to V; a consumption of n>0 is granted exactly when availability is at least n and then lowers availability by n, and n<=0 is refused; a refund returns min(n, V) units exactly when n>0 and V>0 and never touches S. A commit moves at most |V| units towards zero, lowers S by the same magnitude and leaves availability unchanged; the commit check reports V exactly when |V| reaches the threshold. Tuning options (stripes, update choosers, grouped scan, hierarchical sums, fast path, cached gate) never change these results, except that the cached gate may refuse, never over-grant, a request while its cached value is stale.",
 ["programs", "inputs", "configurations"],
 "all operation sequences up to the depth bound over a small value alphabet, all listed option combinations, all initial scalars of the alphabet",
 "The unit tests run a handful of hand-written sequences on a few option sets; agreement must hold for every sequence and every option combination, including sequences that wrap the round-robin and grouped-scan cursors.",
 [V], [("Update/TryConsume/TryRefund/Commit/CheckCommit/State/Available", V), ("option handling", "vsa.go NewWithOptions")], vstate, ["results and State/Available after every operation"])

prop("C02", "Concurrent requests are never granted beyond availability",
 "However concurrent consumptions, refunds, commits and updates interleave, the granted consumptions can be ordered consistently with real time so that each found at least its requested units available. In particular N units of budget never admit more than N units, in every tuning configuration, including the lock-free fast path and the cached and grouped gates.",
 ["schedules", "programs", "configurations"],
 "all interleavings up to a preemption bound of 3-4 threads running programs over a small alphabet, per configuration",
 "Stress tests sample schedules; an over-grant needs a specific preemption between check and consume, between the fast-path estimate and its reservation, or across a commit.",
 [V], [("check-and-reserve", "vsa.go TryConsume"), ("lock-free reservation", "vsa.go TryConsume fast path"), ("commit", "vsa.go Commit")], vstate, ["results of concurrent TryConsume calls"])

prop("C03", "Gated operations are linearizable: nothing is refused or lost wrongly",
 "In configurations with exact admission, every concurrent history of consumptions, refunds, commits and raw updates is explained by some sequential order consistent with real time: a request is refused only if some such order leaves too little available, a refund is refused only if nothing was pending. No unit is lost or invented: once the operations have finished, S and V are those of such an order and exactly the remaining availability can still be consumed.",
 ["schedules", "programs", "configurations"],
 "all interleavings up to a preemption bound of 2-3 threads with 1-2 operations each over a small alphabet, followed by draining the accumulator",
 "Tests only count admissions under sampled schedules; spurious refusals and lost updates need a specific overlap of a multi-step update with a scan or a commit.",
 [V], [("gate lock and running net", "vsa.go TryConsume/TryRefund"), ("lock-free update", "vsa.go Update")], vstate, ["results of concurrent operations", "final State and Available"])

prop("C04", "Committing moves units from vector to scalar without creating or losing any",
 "Applying a commit, with the current vector or with one that has gone stale because of concurrent consumptions, refunds, updates or other commits, never changes availability: S falls by exactly the magnitude V moves towards zero. It never commits more than is pending, never flips the sign of the vector, and S changes only through commits and only downwards.",
 ["schedules", "programs", "configurations"],
 "all interleavings up to a preemption bound of committers (using snapshots taken earlier) with consumers, refunders and updaters",
 "The stale-vector window lies between a snapshot and the commit that uses it; tests commit freshly read vectors or sample schedules.",
 [V], [("clamped commit under the gate lock", "vsa.go Commit")], vstate, ["State/Available around concurrent commits"])

prop("C05", "Availability and state reads are consistent under concurrency",
 "Every availability, (S, V) pair and commit-check value read while other operations run is one that some order of those operations produces, where a lock-free update still in progress may or may not be seen. With gated operations only, reported availability is never negative, never above the initial budget, and a commit in progress is never half visible.",
 ["schedules", "programs", "configurations"],
 "all interleavings up to a preemption bound of readers with consumers, refunders, committers and updaters",
 "Torn reads need a preemption between two loads inside one read; the tests read only at rest.",
 [V], [("consistent reads", "vsa.go Available/State/CheckCommit")], vstate, ["values returned by concurrent reads"])

prop("C06", "Closing an accumulator always stops its background work and nothing else",
 "An accumulator with a cached gate runs exactly one background refresher, one without runs none; closing it, any number of times and from any goroutines concurrently, neither panics nor hangs and stops the refresher. Between refreshes and after closing, all operations keep working; while open, the refresher brings the cached value up to date every interval, so budget beyond the configured slack is granted within one interval of becoming available.",
 ["schedules", "configurations", "programs"],
 "all interleavings up to a preemption bound of closers, users and the refresher, with every tick position within the bound",
 "Leaks and double-close panics depend on races between Close, the ticker and creation; tests check one goroutine count after sleeping.",
 [V], [("refresher loop", "vsa.go runAggregator"), ("idempotent close", "vsa.go Close")], [], ["live goroutines and timers after Close", "results after Close"])

prop("C07", "The store gives every live key one accumulator and forgets only on deletion",
 "At any time a key maps to a single accumulator starting with the configured budget and options: concurrent first accesses all receive the same one, later accesses return it until the key is deleted, and distinct keys never share one. Every access refreshes the key's idle clock; deletion and closing the store stop the background work of every accumulator ever created for a key, including those discarded in creation races.",
 ["schedules", "histories", "configurations"],
 "all interleavings up to a preemption bound of accesses, deletions and close on 1-2 keys, and all sequences of store operations up to a depth",
 "Losing a creation race needs a preemption between miss and publish; tests sample it and do not look at the discarded instance.",
 [CORE + "store.go"], [("load-or-store publication", CORE + "store.go GetOrCreate"), ("delete and close", CORE + "store.go Delete/CloseAll")], [("counters", "key to accumulator map", CORE + "store.go")], ["identity of returned accumulators", "live goroutines"])

prop("C08", "Each admitted unit reaches storage exactly once",
 "With the background worker running and then stopped after traffic has ended, the vectors in successfully persisted batches sum, per key, to units admitted minus units refunded: nothing is persisted twice by overlapping commit, eviction and final-flush cycles, nothing is skipped, and a batch that storage rejected is not counted as persisted but offered again. While running, a failed batch never changes the in-memory accumulator, and an in-memory commit happens only after storage accepted exactly that vector.",
 ["schedules", "fault_sequences", "configurations", "histories"],
 "all interleavings up to a preemption and timer bound of request threads with the commit loop, eviction loop and shutdown, with every batch either accepted or rejected within the fault bound",
 "Double persistence needs an eviction and a commit cycle to overlap; tests call single cycles in isolation.",
 [CORE + "worker.go", CORE + "store.go", V], [("commit cycle", CORE + "worker.go runCommitCycle"), ("eviction cycle", CORE + "worker.go runEvictionCycle"), ("final flush", CORE + "worker.go runFinalFlush")], [], ["batches received by the storage adapter", "State of the accumulators"])

prop("C09", "The worker commits and evicts exactly when its policy says so",
 "Each commit interval, a key whose |vector| reached the commit threshold is persisted, with its full current vector and one entry per key, provided it is armed; with a low watermark a key that committed is armed again only after |vector| has been at or below the watermark, and without one every key over the threshold commits at every interval; a failed batch keeps its keys eligible. A non-zero remainder idle for the maximum age is persisted even below the threshold (never, if that age is zero), and no other key is. Keys idle longer than the eviction age are removed at the eviction interval, after persisting their remainder, and kept if that persistence fails or if touched meanwhile; fresher keys stay.",
 ["histories", "fault_sequences", "configurations", "inputs"],
 "all sequences of request, refund, time-passing and storage-failure events up to a depth, per policy configuration, against a reference policy",
 "The policy combines thresholds, hysteresis, ages, failures and time; tests check single transitions of it.",
 [CORE + "worker.go"], [("threshold, hysteresis and max-age decision", CORE + "worker.go runCommitCycle"), ("idle scan", CORE + "worker.go runEvictionCycle")], [("armed", "eligible for a threshold commit", CORE + "store.go")], ["batches persisted at each tick", "keys surviving each eviction scan"])

prop("C10", "Graceful shutdown persists everything that was admitted",
 "When the rate-limiter service receives a termination signal at any moment, it stops admitting, finishes the requests in progress and persists every pending remainder before it exits: per key the persisted vectors sum to admitted minus released requests, whatever requests, commits or evictions were in progress. It exits in bounded time, stops its background work, and prints its final summary once, after the last commit.",
 ["schedules", "crash_points", "configurations"],
 "all interleavings up to a preemption and timer bound of requests and the signal with the real service entry point, in several flag configurations",
 "The loss window is a request admitted between the final flush and the end of the listener; end-to-end tests send the signal after traffic has stopped.",
 ["cmd/ratelimiter-api/main.go", CORE + "worker.go"], [("shutdown order", "cmd/ratelimiter-api/main.go main"), ("final flush", CORE + "worker.go Stop")], [], ["HTTP answers", "persisted batches printed by the service", "exit"])

prop("C11", "The HTTP API enforces the per-key limit and reports it faithfully",
 "For every sequence and interleaving of requests, each key is admitted (200) exactly while it has budget and refused (429) otherwise, releases (204, also when nothing is pending) return one pending unit, a missing key gets 400 and changes nothing, and keys never affect each other. Every answer to a check carries the configured limit, the status OK or Exceeded matching its code, and a remaining count equal to the key's availability at some moment between the decision and the answer, never negative; refusals carry Retry-After.",
 ["schedules", "histories", "inputs"],
 "all request sequences up to a depth over two keys and all interleavings up to a preemption bound of 3-4 requests",
 "Tests issue a few sequential requests; header consistency and isolation must hold for every mix and interleaving.",
 ["internal/ratelimiter/api/server.go"], [("check handler", "internal/ratelimiter/api/server.go handleCheckRateLimit"), ("release handler", "internal/ratelimiter/api/server.go handleRelease")], [], ["HTTP status, headers and body"])

prop("C12", "Telemetry counts exactly what happened",
 "When telemetry is enabled, admitted requests, persisted rows, batch sizes and failed batches are each counted exactly once, from every path that persists or admits, and the windowed ratios, tracked-key count and top key follow from those counts; when disabled nothing is counted. Sampling is a deterministic function of the key: rate 0 selects no key, rate 1 every key, and a higher rate selects a superset; reconfiguring leaves exactly one reporting loop or none, and the final summary reports attempts, admissions, refunds, rows and batches exactly.",
 ["schedules", "histories", "configurations", "inputs"],
 "all sequences of telemetry events and reconfigurations up to a depth, concurrent recorders up to a preemption bound, a sweep of sampling rates over a key set",
 "Tests check single counters after single calls; exactness over all paths, concurrent recording and reconfiguration is not sampled.",
 [CH + "prom_counters.go", CH + "exporter.go", CORE + "metrics.go", CORE + "persistence.go"], [("recorders", CH + "prom_counters.go"), ("exporter lifecycle and KPIs", CH + "exporter.go"), ("final summary", CORE + "persistence.go PrintFinalMetrics")], [], ["metrics registry values", "printed summaries", "live goroutines"])

prop("C13", "Redis commits apply each commit id exactly once, whatever fails",
 "After any history of batches, retries, duplicates, and failures or lost answers at any step, the Redis counter of each key equals minus the sum of the vectors of its distinct applied commit ids, each applied at most once and, once a batch has succeeded, exactly once. Entries of different keys or ids never suppress each other, an entry without an id is rejected, an error is reported whenever some entry may be missing, and every marker expires after the configured lifetime, not earlier.",
 ["fault_sequences", "histories", "inputs"],
 "all batches up to a size over a small alphabet of keys, ids and vectors, all placements of up to two faults (before or after the effect) with retries, run on an interpreter of the real script",
 "Tests only look at the arguments handed to a fake; the atomicity and idempotency live in the script and in error handling under partial failure.",
 [PERS + "redis.go"], [("marker-guarded script", PERS + "redis.go redisLuaScript"), ("entry loop", PERS + "redis.go CommitBatch")], [], ["Redis commands executed by the script", "returned errors"])

prop("C14", "Postgres commits are atomic, idempotent and fenced",
 "A batch takes effect entirely or not at all, whatever statement or commit fails; each commit id changes its counter at most once over any retries and duplicates, within a batch too, and exactly once when a batch reported success, the scalar falling by the vector. An entry whose fencing token is below the key's last token changes neither scalar nor token, other entries raise the token to the maximum; missing counters are created at zero only if so configured, and failures are reported with no transaction left open.",
 ["fault_sequences", "histories", "inputs", "configurations"],
 "all batches up to a size over a small alphabet, all positions of up to two faults with retries, on a database model executing the real statements transactionally",
 "Tests use a driver stub that affirms every statement; effects, rollback and fencing depend on statement order and row counts.",
 [PERS + "postgres.go"], [("single transaction with applied-commit marker", PERS + "postgres.go CommitBatch"), ("fencing", PERS + "postgres.go CommitBatch")], [("counters", "scalar and last token per key", PERS + "postgres.go"), ("applied_commits", "ids already applied", PERS + "postgres.go")], ["tables after each history", "returned errors"])

prop("C15", "Kafka commits carry stable ids so that consumers can deduplicate",
 "Every entry of a batch is produced once per attempt, in order, to the configured topic, with its commit id as message key and a JSON payload holding exactly its key, vector, commit id and, only if given, fencing token. Production stops at the first failure, which is reported, so that retrying the batch and deduplicating by commit id yields each vector exactly once; an entry without an id is rejected rather than produced.",
 ["fault_sequences", "histories", "inputs"],
 "all batches up to a size over a small alphabet, all placements of up to two faults with retries, against a deduplicating consumer",
 "Tests inspect one successful message; exactly-once materialisation must hold under every partial failure.",
 [PERS + "kafka.go"], [("produce loop", PERS + "kafka.go CommitBatch")], [], ["messages produced", "returned errors"])

prop("C16", "Adapters deliver the worker's commits faithfully with fresh ids",
 "Through the adapter shim each worker commit becomes exactly one entry with the same key and vector, in order, with a non-empty id unique over all entries and batches, concurrent ones included; errors of the adapter are passed on and an empty batch does nothing. The adapter selector returns the adapter named (mock by default), wired so that what the worker commits reaches it with the configured topic and marker lifetime or their defaults, and reports an error for unknown or unavailable adapters.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "all batches up to a size, all selector names and option combinations, concurrent batches up to a preemption bound",
 "Tests cover the happy path for one commit; uniqueness and faithful mapping must hold for every batch and schedule.",
 [PERS + "shim.go", PERS + "factory.go", PERS + "clients.go"], [("entry mapping and id generation", PERS + "shim.go CommitBatch"), ("selector", PERS + "factory.go BuildPersister")], [], ["entries reaching the adapter", "adapter output"])

prop("C17", "Only order-insensitive operations take the scalar lane; disjointness is sound",
 "An operation is classified scalar exactly when it has a key, touches a single key, is a conservative delta and is not backdated, cross-key, policy-changing, externally decided or global; its footprint names that key and bucket, or all buckets if none is given, and its amount is unchanged; an operation without a key is an error. Two footprints are reported disjoint exactly if both are scalar and concern different keys or different specific buckets, a symmetric relation, so that operations reported disjoint always commute.",
 ["inputs", "programs"],
 "all combinations of the classification flags, keys, buckets and amounts; all pairs of footprints",
 "Tests pick a few flag combinations; soundness quantifies over all combinations and all pairs.",
 [TFD + "classifier.go", TFD + "types.go"], [("classification rules", TFD + "classifier.go Classify"), ("disjointness", TFD + "types.go Disjoint")], [], ["channel, footprint and amount returned", "disjointness verdicts"])

prop("C18", "The scalar accumulator conserves every delta per key and bucket",
 "For every sequence of ingested envelopes, single-shard or sharded, of any table size including overflow and colliding hashes, and any interleaved flushes (whole or by key), the flushed batches contain per (key, bucket) exactly the sum of its scalar deltas since the previous flush and the highest sequence mark among them, one batch per pair. Nothing is merged across pairs, dropped, duplicated or left behind, vector envelopes are ignored, and ingestion always terminates.",
 ["histories", "inputs", "configurations"],
 "all ingest/flush sequences up to a depth over keys and buckets chosen to collide, for small table and shard counts, against a map",
 "Tests use well-spread keys in large tables; loss needs colliding or overflowing tables or chains cut by a partial flush.",
 [TFD + "saccumulator.go", TFD + "saccumulator_wrap.go"], [("open-addressed table", TFD + "saccumulator.go"), ("sharding", TFD + "saccumulator_wrap.go")], [], ["flushed batches"])

prop("C19", "Compression preserves every per-cell net effect",
 "Compressing any list of scalar batches yields at most one batch per (key, bucket), whose delta is the sum of that pair's input deltas and whose sequence mark is their maximum, and omits exactly the pairs whose sum is zero. The result is independent of the input order and of the list's length, is never longer than the input, and compressing again changes nothing.",
 ["inputs", "configurations"],
 "all lists up to a length over a small alphabet with colliding pairs, and all such lists extended past the internal size switch",
 "Tests compress two or three batches; the long-list path, collisions and in-place reuse are not enumerated.",
 [TFD + "vsa_integration.go"], [("compression", TFD + "vsa_integration.go Compress")], [], ["compressed batches"])

prop("C20", "The scalar service delivers every accepted delta exactly once",
 "Every scalar envelope whose ingest returned before stop was called, or was reported accepted before stop returned, is reflected in the delivered batches exactly once, whatever the interleaving of producers, periodic flushes, explicit flushes, a full buffer and stop; refused envelopes (full buffer, non-blocking, or a stopped service) never are. When an explicit flush returns, everything accepted before it was called has been delivered; without one it is delivered within two flush intervals. Flush and stop of a running service always return, may be repeated and overlap, and after stop nothing is delivered, nothing blocks and no background work remains.",
 ["schedules", "histories", "configurations"],
 "all interleavings up to a preemption and timer bound of 1-2 producers with flushers and stoppers, buffers of 1-2 entries, before and after start",
 "Lost deltas and hangs need stop or flush to land between a send and the drain; tests sleep between steps.",
 [TFD + "sservice.go", TFD + "pipeline.go"], [("service loop", TFD + "sservice.go run"), ("flush barrier", TFD + "sservice.go Flush"), ("drain on stop", TFD + "sservice.go Stop")], [], ["batches delivered to the sink", "termination of calls"])

prop("C21", "The vector lane keeps per-key order and an audit link",
 "Vector envelopes of one key are drained in exactly the order they were enqueued, each once, unchanged except for an audit link that is a fixed function of key and sequence mark; keys are independent and a drained queue is empty. Routing a vector operation through the pipeline persists that same envelope, link included, exactly once and never reaches the scalar lane, scalar operations never reach the vector lane, and all of this holds under concurrent requests.",
 ["schedules", "histories", "inputs"],
 "all sequences of operations up to a depth over two keys and all interleavings up to a preemption bound of 2-3 concurrent handlers",
 "Tests enqueue a few envelopes sequentially; concurrent handlers and the persisted copy are not exercised.",
 [TFD + "vactors.go", TFD + "pipeline.go"], [("per-key queue", TFD + "vactors.go"), ("routing", TFD + "pipeline.go Handle")], [], ["drained and persisted envelopes"])

prop("C22", "Replaying the logs reconstructs exactly the applied state",
 "For every list of operations, applying them one by one in arrival order and reconstructing from their scalar batches (in any order, split or coalesced in any way) plus their vector envelopes (in any order) give the same value for every (key, bucket) cell. Reconstruction in several steps equals reconstruction at once, and no other cell appears with a non-zero value.",
 ["inputs", "histories", "schedules"],
 "all operation lists up to a length over a small alphabet, all permutations and all ways to split the scalar operations into flushes, through the real accumulator and compression",
 "Tests compare one or two orders; the claim quantifies over all orders, splits and coalescings.",
 [TFD + "reconstruct.go"], [("reconstruction", TFD + "reconstruct.go Reconstruct"), ("baseline", TFD + "reconstruct.go BaselineApply")], [], ["cells of the reconstructed state"])

prop("C23", "Log files keep every flushed record through crashes and reopening",
 "After any history of appends, flushes, closes, crashes at any byte of unflushed output and reopenings, reading a log returns, in order and unaltered, every record flushed or closed before each crash plus possibly a prefix of the later ones, never a record that was not appended, and records appended after reopening are never lost to a torn line before them. Concurrent appends are neither lost nor torn nor reordered within an appender.",
 ["crash_points", "histories", "schedules"],
 "all append/flush/close histories up to a depth, a crash at every byte of the unflushed tail, a second session after it, and all interleavings up to a preemption bound of concurrent appenders",
 "Tests write and read back without crashes; torn tails need a cut at a particular byte followed by reopening.",
 ["internal/sinks/sbatch_file_sink.go", "internal/sinks/venv_file_sink.go"], [("buffered append", "internal/sinks/"), ("torn-tail repair", "internal/sinks/sbatch_file_sink.go endTornLine"), ("tolerant reader", "internal/sinks/ ReadAllSLog/ReadAllVLog")], [], ["records read back"])

prop("C24", "The TFD proxy's state equals the operations it accepted",
 "For every sequence and interleaving of accepted requests, a state query answers with exactly the sum, per key and bucket, of the consumptions minus the reversals accepted before it (and possibly some concurrent with it), in every form of the query: whole, one key, one bucket, or sums. Requests without a key are refused with 400 and have no effect; after a termination signal at any moment everything accepted is in the logs, and a restart on the same logs continues from that state.",
 ["schedules", "histories", "crash_points"],
 "all request sequences up to a depth and all interleavings up to a preemption bound of requests, state queries and the signal with the real service entry point and real log files, including restarts",
 "No test runs the service; loss needs a signal or a query between acceptance and flush.",
 ["cmd/tfd-proxy/main.go", TFD + "pipeline.go", "internal/sinks/sbatch_file_sink.go"], [("request handlers", "cmd/tfd-proxy/main.go"), ("shutdown order", "cmd/tfd-proxy/main.go main")], [], ["HTTP answers", "log files after exit"])

prop("C25", "The public API is free of data races",
 "No two goroutines using the documented concurrency-safe operations (accumulator, store, worker, HTTP handlers, telemetry, adapters, scalar service, vector lane, log sinks) ever make conflicting unsynchronised accesses to shared memory, in any interleaving. Values handed to persisters, adapters, producers, sinks and callbacks, or returned to callers, are not modified by the giver after the hand-over.",
 ["schedules", "programs", "configurations"],
 "all interleavings up to a preemption bound of two or three calls of each component, each execution judged by a happens-before race detector that sees only the code's own synchronisation",
 "The race detector of the test run judges only the schedules the tests happen to take and only the pairs of calls they make.",
 [V, CORE, CH, TFD, "internal/sinks/", "internal/ratelimiter/api/server.go"], [("atomics and locks of each component", "vsa.go, internal/, plugin/tfd/")], [], ["happens-before races in each explored execution"])

prop("C26", "The rate-limiter service does what its flags say",
 "Started with any combination of its flags, the rate-limiter service behaves accordingly, with the documented default for each flag that is absent. The per-key limit is the configured one and is the one reported; batches are persisted at multiples of the commit interval, for exactly the keys at the commit threshold or idle for the maximum age; keys idle longer than the eviction age are persisted and forgotten at the eviction interval; it listens on exactly the configured addresses; telemetry counts and reports only if enabled, at the configured interval and with the configured sampling, top count and hash length. Engine flags that promise exact admission never change an answer, and the final summary lists every configured value.",
 ["configurations", "histories"],
 "all combinations of flag values and all histories of requests and time up to a length, through the real service entry point in virtual time, against a model of the configured policy",
 "No test starts the service with flags; a flag wired to the wrong parameter shows only for particular combinations and histories.",
 ["cmd/ratelimiter-api/main.go", CORE + "worker.go", CH], [("flag wiring", "cmd/ratelimiter-api/main.go main")], [], ["HTTP answers", "persisted batches and their times", "reports and the final summary"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
