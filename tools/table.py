"""The checks: what runs, for how long, and how the evidence is to be read."""
BIN = "cv"
# variant -> (cargo features of the harness, sanitizer)
VARIANTS = {
    "std": ((), None),
    "agg": (("agg",), None),
    "asan": (("plain",), "address"),
    "tsan": (("plain",), "thread"),
}
ASSUME = [
    "file-system effects go through libc symbols (interposed) and the page cache survives the death of a process",
    "x86-64 Linux, tmpfs scratch directories; debug assertions and overflow checks are on",
]
CHECKS = {}


def both(q, t, w):
    """the default build, then shortly the one with flush aggregation"""
    return [dict(variant="std", quick=q, thorough=t, workers=w),
            dict(variant="agg", quick=12, thorough=t // 4, workers=w, group="agg")]


def chk(cid, technique, rule, note, quick=40, thorough=600, workers=8, level="exploration", runs=None, **kw):
    CHECKS[cid] = dict(
        technique=technique, rule=rule, note=note, level=level,
        runs=runs or [dict(variant="std", quick=quick, thorough=thorough, workers=workers)],
        assumptions=ASSUME, **kw)


SEQ = ("A case is one generated history on fresh files: key pool style (short, binary, separators, one row, one shard "
       "range, colliding hashes, zero signatures), store configuration, background thread parked or free. It counts as "
       "non-trivial if a split or compaction happened; distinct by the hash of its event trace (thread class, call, "
       "file kind).")
CONC = ("A case is one concurrent round: 2-8 client threads on shared hot keys with injected delays, preemption signals "
        "at arbitrary instructions and a parked/stepped compaction thread. Distinct and non-trivial: different hash of "
        "the observed event interleaving, with at least one reorganisation.")

chk("C01", "differential runtime monitor (map model) over hostile histories", SEQ,
    "Every call's result and the whole contents are compared with an in-memory map; sampled histories, no exhaustiveness.", runs=both(40, 600, 8))
chk("C02", "differential runtime monitor across close/reopen", SEQ,
    "All kinds of data are compared with models after each reopen under changed configurations; sampled histories.")
chk("C03", "linearizability checking of recorded concurrent histories under injected delays", CONC,
    "Each key's recorded history is decided exactly by a linearizability checker; schedules are sampled.", runs=both(40, 600, 4))
chk("C05", "differential runtime monitor (insertion-ordered map model)", SEQ,
    "Every list call and full iteration in both directions compared with the model; sampled histories.")
chk("C06", "differential runtime monitor (indexed deque model)", SEQ,
    "Every queue call and full iteration in both directions compared with the model; sampled histories.")
chk("C07", "linearizability checking of recorded list and queue histories", CONC,
    "Each collection's history including a final drain is decided by a linearizability checker; schedules are sampled.",
    workers=4)
chk("C09", "differential runtime monitor over related names of all kinds", SEQ,
    "Independent models per kind; names are derived from what the store holds internally.", bin="cvtyped")
chk("C14", "differential runtime monitor for big values", SEQ,
    "Byte equality for boundary and random lengths, leftovers via raw enumeration.", quick=30)
chk("C17", "progress watchdog (thread states, CPU, event counts) over hostile mixes", CONC,
    "A deadlock is reported only with every thread asleep without CPU or events over several samples; non-termination "
    "by event and CPU bounds.", runs=both(40, 600, 4))
chk("C22", "differential runtime monitor of the typed API", SEQ,
    "Typed models over many key and value types; sampled values.", quick=30, bin="cvtyped")

CRASH = ("A case is one history during which the directory is copied at sampled crash points (before stores to mapped "
         "headers and before file-system calls, torn writes in two halves) of client operations, background compaction, "
         "merge, clear, open and recovery; every copy is reopened by the real code and judged. evaluations = crash points "
         "recovered and judged; distinct = different (operation, event kind, file kind, thread class, position bucket).")
chk("C04", "crash-point fault enumeration with before/after oracle; SIGKILL of multi-threaded children", CRASH,
    "Process-crash model: all effects issued so far are visible after the crash. Crash points are sampled densely, "
    "including nested crashes during recovery; contents must equal before or after, then later calls are compared too.",
    quick=45, level="fault_enumeration", eval_counter="crash_points_recovered")
chk("C08", "crash-point fault enumeration inside list and queue operations", CRASH,
    "As C04 for collections: untouched items exact, touched item before/after, lookup agrees with iteration, later "
    "behaviour differential. Lengths, promotion and list compaction are not claimed.",
    quick=45, level="fault_enumeration", eval_counter="crash_points_recovered")

FAULT = ("A case is a start directory (also as left by a killed process) and a script of 1-5 steps; the file operations of "
         "the script matching a plan (kinds, file kinds, thread class, errno, count, short writes) fail from the n-th on, "
         "n = 0..10 and sampled. evaluations = runs in which a failure was injected; distinct = different (kinds of steps, "
         "kind of the last failing event, plan, position).")
chk("C15", "fault injection into file operations with before/after oracle and differential aftermath", FAULT,
    "Failures are injected at libc symbols; every failed call is judged, then exact differential use, reopening and "
    "verification. Big values and list compaction are bystanders only; SIGBUS on a full disk is out of scope.",
    quick=45, level="fault_enumeration", eval_counter="failure_points_run")
chk("C19", "online sync-state monitor over page-protected mappings, with injected sync failures",
    "Sequential: every flush with the background compaction parked in mid-file; concurrent: flushers beside modifying "
    "threads, merges, clears; flush aggregation: every successful modifying call. Each file's last modification (writes, "
    "and stores through write-protected mappings) is ordered against its last fdatasync. evaluations = flushes checked.",
    "A shard file present at the return of flush must have been synced after its last modification before the call. "
    "Directory entries and reorganisations after the flush are not judged.", eval_counter="flushes_checked",
    runs=[dict(variant="std", quick=25, thorough=400, workers=6),
          dict(variant="agg", quick=20, thorough=300, workers=4, check="C19", arg="agg", group="agg")])
chk("C10", "differential monitor of iterations and cookies; truth and completeness monitors under modification",
    "A case is one of: an idle store iterated completely and resumed from every cookie (evidence counts resumptions); several "
    "iterations interleaved with changes, merges and background steps in one thread; iterating threads beside modifying "
    "and merging threads with injected delays. Distinct: different event trace with at least one reorganisation.",
    "Idle: exactly once, and exactly the rest after each sampled cookie. Otherwise keys that are never touched must be "
    "returned with their value, and every returned pair must have been stored. Iterations resumed by cookie while merges run "
    "are judged for truth and termination only; schedules are sampled.")

chk("C11", "differential monitor around merges, with layout and completeness oracles",
    "A case grows a store over balanced, unbalanced or grown-and-emptied shapes with the background compaction parked at a "
    "chosen point, merges it (repeatedly, after reopening, beside other threads) and compares return value, shard files, "
    "contents and later behaviour. Distinct: different event trace with at least one reorganisation.",
    "Contents exact before/after; true exactly when the number of shards changed; no mergeable neighbours left while more "
    "shards than needed exist; sampled shapes and schedules.")
chk("C12", "differential monitor of the statistics against raw enumeration and counted calls",
    "A case is a history (sequential, concurrent, or with merges and reopening); at quiescent points the figures are compared "
    "with the raw entries and with the calls made. Distinct: different event trace with at least one reorganisation.",
    "Exact equality at quiescence; no panic, hang or negative figure at any instant; sampled histories.")
chk("C13", "differential monitor at the size limits",
    "A case is a shard size and a set of key/value lengths around the limits (0, 1, maximum, maximum+1, shard size +-1) for "
    "every kind of call. Distinct: different (call, length class, outcome) sequence.",
    "Result, error and all observable state compared around each call; sampled lengths near each boundary.", quick=30)
chk("C16", "ownership monitor over racing opens of threads and processes, closes and deaths",
    "A case is a second open of an owned store (same process, thread, process, alias path), an open during a slow close, a "
    "race of threads and processes, or the death of an owning process. Distinct: different event trace or point of death.",
    "Exactly one owner at a time, refused opens change no byte, the next open after a close or death succeeds with the "
    "acknowledged contents; schedules are sampled.", quick=30, workers=6)
chk("C20", "differential monitor of clear against a twin store; linearizability with concurrent clears",
    "A case is a history interrupted by clears with the background compaction parked at a chosen point, continued beside a "
    "freshly created twin that gets the same calls; or a concurrent round of plain keys or collections with clearing "
    "threads. Distinct: different event trace with at least one reorganisation.",
    "After clear: nothing visible, the files and layout of a fresh store, figures at zero, then the same results as the twin. "
    "Concurrent: every key's and collection's history is decided with clears as operations; schedules are sampled.")
chk("C21", "differential monitor of opening foreign, unsupported, damaged and left-over files",
    "A case is a directory with a foreign or unsupported version of some of its files, leftovers of interrupted work, or "
    "unknown files, and a number of opens with different settings. Distinct: different (kind, outcome) sequence.",
    "A refused open changes no byte; an accepted one clears exactly what it may; foreign files are never touched; leftovers "
    "are gone after opening; sampled directories.", quick=30)
chk("C18", "AddressSanitizer and ThreadSanitizer builds, debug assertions and overflow checks under hostile mixes",
    "A case is a mix of all calls by 2-7 threads (shared keys, lists, queues, typed and big values, iterations with changes in "
    "between, merges, clears, the last client closing the store), a long single-threaded history over hostile keys, or rows "
    "filled beyond their width; run with injected delays, with ThreadSanitizer and with AddressSanitizer. Distinct and "
    "non-trivial: different outcome statistics with at least one split or compaction.",
    "Sanitizers see the executions that happen; a panic in any thread, a sanitizer report or a crash counts. "
    "Memory kept out of the sanitizers' view (the kernel's accesses to the mapping) is not watched.",
    runs=[dict(variant="std", quick=20, thorough=300, workers=4, group="std"),
          dict(variant="tsan", quick=35, thorough=900, workers=5, group="san"),
          dict(variant="asan", quick=35, thorough=600, workers=3, group="san")],
    eval_counter="calls_watched")
chk("C23", "space monitor (files, counters, mappings, descriptors) over long churn histories",
    "A case is a long history of overwriting and removing with bounded live data (fixed keys, a window of new keys, collections, "
    "growing/shrinking/merging, several threads). evaluations = checkpoints judged. Distinct: different event trace with at "
    "least one reorganisation.",
    "Every split must be justified by the live data in the shard at that time (sequential) or at most (concurrent); after an "
    "insertion into each shard waste is below the level; files, mappings and descriptors are accounted for. Levels of waste of "
    "up to a third of the shard size.", eval_counter="checkpoints_judged")
chk("C24", "power-failure simulation: directories rebuilt from what each file's last sync handed over, opened and compared",
    "A case is a history of 1-4 threads with their own keys and list items under flush aggregation, with merges, clears, "
    "reopening, delays, parked and failing compactions. At sampled instants (file-system calls, writes, stores) a directory is "
    "built holding each file as of its last sync (or zero-extended, or as it is) and opened by the real code. evaluations = "
    "power failures judged. Distinct: different event trace.",
    "The store must open and hold every entry whose last call had returned; entries with a call in progress (or failed) are not "
    "judged. Directory changes are assumed to be kept, in order; files are reverted as a whole.", eval_counter="power_failures",
    runs=[dict(variant="agg", quick=40, thorough=900, workers=6)])
chk("C25", "offline checking of recorded walks against the recorded lifetimes of elements",
    "A case is one round of 1-3 changing and 1-3 walking threads on up to three lists and queues, with injected delays, "
    "preemption, parked compactions, splits, and merges; every change and every step of every walk is recorded with call and "
    "return stamps. Distinct and non-trivial: different event interleaving with at least one reorganisation; the evidence counts "
    "walks during which something changed, elements present throughout and ordered pairs compared.",
    "Lifetimes are intervals (call of the creation to return of the removal), so a verdict never depends on an order the "
    "stamps do not prove; schedules are sampled; promotion and list compaction are left out.", workers=8, eval_counter="walks")
