#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of harnesses that exist."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
INT = "stateless model checking of the implementation: all interleavings of the instrumented code up to a preemption bound, brute-force linearizability oracle"
SCH = "stateless model checking of the implementation: all interleavings up to preemption/timer/fault bounds"
SEQ = "exhaustive enumeration of operation sequences on the implementation against a reference model"
T = {
 "C01": (SEQ, "every operation sequence to the depth bound, per option set, compared with a two-integer model after every step"),
 "C02": (INT, "all schedules of 3-4 threads up to the preemption bound per configuration; admissions must be explained by a sequential order"),
 "C03": (INT, "all schedules up to the preemption bound; full linearizability plus draining afterwards"),
 "C04": (INT, "all schedules of stale and fresh commits with other operations; linearizability and unit conservation"),
 "C05": (INT, "all schedules of readers with writers; every value read must be explained"),
 "C06": (SCH, "all schedules and tick positions of close, use and refresh; virtual threads and timers are counted at the end"),
 "C07": (SCH, "all schedules of accesses, deletions and close; identity, configuration and live threads checked"),
 "C08": (SCH, "all schedules, tick positions and storage failures within bounds; durable ledger compared with admissions"),
 "C09": ("exhaustive enumeration of event sequences (requests, time, storage failures) on the real worker in virtual time against a reference policy", "every event sequence to the depth bound per policy configuration"),
 "C10": ("stateless model checking of the real service entry point under a virtual HTTP listener, clock and signal", "all schedules of requests and the signal up to the bounds; printed batches compared with answers"),
 "C11": (SCH + ", and exhaustive request sequences", "sequences against a per-key model, interleavings against admissible remaining counts"),
 "C12": ("exhaustive enumeration of event sequences and interleavings against counting reference models", "counters, gauges and printed summaries compared after every sequence and schedule"),
 "C13": ("exhaustive fault enumeration: the real script runs on an interpreter of the Redis commands, every batch and fault position explored", "all batches, retries and fault positions to the bounds, counters compared with a set-of-ids model"),
 "C14": ("exhaustive fault enumeration on a transactional model of the two tables behind database/sql, every batch and fault position explored", "all batches, retries and fault positions to the bounds"),
 "C15": ("exhaustive fault enumeration of produce attempts with a deduplicating consumer model", "all batches, retries and fault positions to the bounds"),
 "C16": ("exhaustive enumeration of batches, selector options and interleavings", "entries compared with commits; ids pairwise distinct"),
 "C17": ("exhaustive enumeration of inputs and pairs against the stated rules", "every flag combination and every pair of footprints of the alphabet"),
 "C18": (SEQ, "every ingest/flush sequence to the depth bound over colliding keys, compared with a map"),
 "C19": (SEQ, "every list to the length bound, each padded past the size switch, compared with a map"),
 "C20": (SCH, "all schedules and tick positions of producers, flushes and stop; delivered sums compared with accepted ones"),
 "C21": (SCH + ", and exhaustive operation sequences", "drained and persisted envelopes compared with per-key queues"),
 "C22": ("exhaustive enumeration of operation lists, permutations and splits through the real pipeline parts", "reconstruction compared with baseline and with an independent map"),
 "C23": ("exhaustive crash-point enumeration on real log files: every byte of the unflushed tail, then reopening", "records read back compared with the history"),
 "C24": ("stateless model checking of the real service entry point under a virtual HTTP listener, clock and signal, with real log files", "state answers and logs compared with accepted operations"),
 "C25": ("systematic schedule exploration with a happens-before race detector judging each execution", "all schedules up to the bound of pairs of public operations"),
 "C26": ("exhaustive enumeration of flag combinations and event histories on the real service entry point in virtual time against a reference policy", "answers, persisted batches and their times, reports and summary compared with the configured policy"),
}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(root, "overlay/internal/gomc/h", p.lower(), "main.go")):
        t, note = T[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "technique": "model checking: " + t, "level": "model_checking", "level_note": note + "; bounds in DESIGN.md and in the evidence file"})
    else:
        na.append({"property": p, "reason": "applicable, but its check is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the instrumentation is generated from the working tree at check time and applied with go build -overlay."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
