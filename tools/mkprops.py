import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe,hook_needed=None)))
S="src/shard.rs";R="src/router.rs";ST="src/store.rs";L="src/lists.rs";Q="src/queues.rs"

p("C01","Plain key-value operations behave exactly like a map",
"For every sequence of set, get, contains, remove, replace (with or without an expected value) and get_or_create, each call returns exactly what the same call on an ordinary in-memory map would return, and iterating the idle store yields exactly the map's entries. This holds for every key and value content (empty, binary, equal hash prefixes) and every valid configuration, no matter how many shard splits, compactions or merges the sequence triggers.",
["histories","inputs","configurations"],"all finite single-client histories of plain operations, all keys/values within the limits, all configurations (shard size, compaction threshold, thread count, hash seed, expected keys, truncate_up)",
"The suite walks a handful of fixed key patterns with one or two configurations; it never compares whole random histories with a model and never forces hash-signature collisions together with splits, compaction in progress, slot reuse and key replacement.",
[S,R,ST,"src/hashing.rs"],[("row lookup / try_replace / insert",S),("split, background compaction",S),("span routing",R)],["return value of every call","full iteration at quiescence"],
[("shard header rows","signature and offset/size tables","src/shard.rs ShardHeader"),("router tree","span -> shard","src/router.rs ShardNode")])

p("C02","Closing and reopening loses nothing and changes nothing",
"After any history of operations, closing the store and opening the same directory again - with the same hash seed but otherwise any configuration - yields exactly the same contents: every plain and typed key with its value, every list with its items in order, every queue with its items, order and indices, every big value. The reopened store keeps behaving according to that contents under all further operations, for any number of close/reopen cycles.",
["histories","configurations"],"all histories and all pairs of configurations at close and reopen, at every reorganisation state (split trees, compaction just started, merged)",
"Tests reopen after one scripted sequence with an identical configuration; they never close at arbitrary points of the split/compaction life cycle nor change the configuration.",
[S,R,ST],[("shard open, compaction resume",S),("directory scan, span consolidation, tree building",R)],["contents before close vs. after open"])

p("C03","Concurrent plain operations are linearizable",
"With any number of threads sharing one store, every plain key-value operation appears to take effect atomically at some instant between its call and its return: get_or_create creates exactly once, a conditional replace succeeds only against the current value, remove returns the value it removed, and no acknowledged write is lost, duplicated or resurrected. This also holds for operations that overlap shard splits, background compactions and merging of small shards.",
["schedules","histories"],"all interleavings of concurrent client threads with each other and with splits, background compaction and merges",
"The multi-threaded tests use disjoint work or check only final counts under the scheduler's natural timing; a lost update needs an interleaving with a row being copied, a file swap or a split.",
[S,R],[("row locks and file lock",S),("background compaction hand-over",S),("router node locks",R)],["call/return history of every operation"])

p("C04","A process crash at any instant loses at most the operation in flight",
"If the process dies at any instant - during an operation, a split, a background compaction, a merge, the first open, a clear, or the recovery of an earlier crash - the store can be opened again, every operation that had returned is fully present with its exact value, and each operation that was still running is either completely applied or not applied at all (for a clear or first open: the old contents, or an empty store). The recovered store keeps working correctly for all further operations and further crashes.",
["crash_points","histories"],"all histories and all crash points between any two memory-mapped stores or file-system calls (including torn data writes), followed by recovery and further crashes during recovery",
"The crasher example kills at random times and checks counts for one workload; almost none of the windows between the individual stores and renames of a split, compaction, merge or recovery is ever hit.",
[S,R],[("offset-before-signature store order, append-only data",S),("temp files + rename in split/compaction/merge",S),("consolidation of overlapping spans, temp file removal",R)],["directory snapshot at every store/syscall, reopened by the real code"])

p("C05","Lists behave as insertion-ordered maps with access at both ends",
"For every sequence of list operations, each call returns what an insertion-ordered map per list would return: set, get, replace (with or without expected value), get_or_create, remove, peek and pop at head and tail, forward and backward iteration in insertion order, length, discard, promoting an item to the tail, and compacting the list, which changes nothing observable. Updating an item keeps its position, and items, lists and removed items never reappear, disappear or mix; a discarded list leaves nothing behind in the store.",
["histories","inputs"],"all single-client histories over any number of lists and items, including holes, emptied and re-created lists, lists compaction and shard reorganisation underneath",
"Tests check a few scripted sequences; they do not compare arbitrary interleavings of removals in the middle, pops, promotions, conditional replaces and compactions with a model.",
[L],[("list header, chain entries, item index suffix",L)],["return value of every call","full forward/backward iteration"])

p("C06","Queues behave as double-ended queues with stable indices",
"For every sequence of queue operations, each call returns what an indexed double-ended queue would return: push, pop and peek at head and tail, removal by index, extending with many items, forward and backward iteration, length and discard. An item's index is the one returned when it was pushed and never changes, pushed items are never lost, and popped or removed items never come back, and a discarded queue leaves nothing behind in the store. An iterator goes over the indices the queue had when the iterator was created, whatever is changed between its steps.",
["histories","inputs"],"all single-client histories over any number of queues, including removals at ends and in the middle, emptied and re-created queues, empty extends",
"Tests cover a few scripted sequences and do not explore combinations of removal by index with pushes and pops at both ends.",
[Q],[("queue header and indexed items",Q)],["return value of every call","full iteration"])

p("C07","Concurrent list and queue operations are atomic and deliver exactly once",
"With any number of threads working on the same lists and queues, every set, get_or_create, replace, remove, push, pop, peek, extend and discard appears to take effect atomically at some instant between its call and its return. In particular every pushed or inserted item is delivered by at most one pop or remove, with its latest value, none is lost, pops respect the collection's order, and a pop or peek reports empty only if the collection was empty at some instant during the call. Compacting the list meanwhile changes none of this.",
["schedules","histories"],"all interleavings of client threads on shared collections (with few or many lock slots), together with splits and compactions",
"The existing multi-threaded list test uses one operation mix with its own natural timing and checks final counts only.",
[L,Q,ST],[("keyed locks per list/queue",ST),("pop/remove under lock",L)],["call/return history per collection"])

p("C08","A crash during a list or queue operation never corrupts the collection",
"If the process dies at any instant during a list set, replace, get_or_create, remove, pop or discard, or a queue push, pop, removal by index, extend or discard, then after reopening each item that the operation did not touch is present with its value and position, and each touched item is present as before, or as after, the operation. Lookup by key and iteration agree about which items exist, and all further operations on the recovered collection behave as a list or queue with those items.",
["crash_points","histories"],"all histories of list/queue operations (except the operations documented as not crash-safe) and all crash points inside them, also nested",
"No test crashes inside a list or queue operation; the intermediate states between the 2-4 underlying writes are never observed.",
[L,Q],[("order of header, chain and item writes",L),("order of header and item writes",Q)],["snapshots at every store/syscall, reopened by the real code"])

p("C09","Different kinds of data and different collections never interfere",
"Plain keys, typed keys of each type, lists, queues and typed lists and queues that use equal or related byte strings as names are fully independent: no operation on one is ever visible through, or changes, another. Plain iteration of the store yields only plain keys, unmodified.",
["inputs","histories"],"all sets of names, including names that are prefixes/suffixes of each other or contain the internal separators, over all operation kinds",
"Tests use distinct, friendly names for the different kinds of data.",
[ST,L,Q,"src/typed.rs"],[("namespace suffixes, type ids",ST)],["all return values against independent models"])

p("C10","Iteration is complete, duplicate-free on an idle store, and resumable",
"Iterating an idle store yields every plain entry exactly once, and an iteration resumed from the cookie obtained after any step - including the last - yields exactly the entries not yet returned. When other threads modify the store or splits, compactions and merges happen during the iteration, every key that exists throughout and is not modified is still returned at least once, only key-value pairs that were really stored are returned, and the iteration terminates.",
["histories","schedules"],"all store shapes and sizes, all cookie positions, all modifications and reorganisations between any two iteration steps",
"Tests iterate idle stores and a single scripted modification; they never reorganise shards between steps nor resume at every cookie.",
[ST,S],[("iterator cursor (span, row, column) and cookie",ST)],["every yielded item"])

p("C11","Merging small shards preserves everything and always finishes",
"Merging small shards returns on every shard layout, in every state of background compaction and concurrently with other operations, and never changes the contents of the store. It reports true exactly when the number of shards changed, never goes below the number of shards needed for the configured expected number of keys, and otherwise leaves no two neighbouring half-ranges that are both small enough to be merged. The merged store keeps working and reopens with the same contents.",
["histories","configurations","schedules"],"all shard trees reachable by splits (balanced or not), fill levels, and concurrent activity",
"The only merge test uses one balanced tree after removing most keys; unbalanced trees, in-flight compactions and concurrent use are never merged.",
[R,S],[("recursive pairwise merge and tree reload",R),("shard merge",S)],["contents before/after, return value, shard count"])

p("C12","Statistics agree with the actual contents",
"At any quiescent point of any history, also after reopening, splits, compactions and merges, the reported number of entries equals the number of entries present, the reported data bytes equal the total size of their keys and values, and inserts, updates, lookups and the written-size histogram count the operations performed. A store from which everything was removed or discarded reports no entries. Querying statistics while other threads work never panics, blocks forever or reports negative figures.",
["histories","schedules"],"all fault-free histories, at quiescent points; queries at arbitrary instants for the no-panic part",
"Tests compare a few counters after one scripted workload; drift would show only after particular sequences (remove during compaction, merge after removals, reopen).",
["src/stats.rs",S,ST],[("per-shard header counters",S),("global counters and histogram","src/stats.rs")],["stats() vs raw enumeration"])

p("C13","Size limits are enforced exactly and a rejected call has no effect",
"Every key and value up to the documented maximum sizes is accepted and read back unchanged as long as the shard has room for the entry (for an update: beside the version it replaces), and a plain call beyond a limit is rejected with the matching error, never with a panic or a hang. A rejected call of any kind - plain, typed, list, queue - leaves all observable state (contents, lengths, order) as it was.",
["inputs","configurations"],"all key and value lengths around every limit, for every operation kind and shard size",
"Tests try one oversized key and value on the plain API; collections and small shard sizes are not exercised at the limits.",
[ST,L,Q,"src/lib.rs"],[("size checks before insertion",ST)],["result and full state around each call"])

p("C14","Big values of any size are stored and retrieved exactly",
"After set_big, get_big returns exactly the bytes stored, for every length including empty, one byte, and lengths around multiples of the chunk size; overwriting replaces the value completely, set_big and remove_big report truthfully whether a value existed, and a removed value is gone with all its chunks. Other keys are unaffected.",
["inputs","histories"],"all value lengths and all sequences of set/get/remove of big values over several keys",
"One test stores one size; boundaries (empty, exact multiples), shrinking overwrites and leftovers are not covered.",
[ST,Q],[("chunking over a queue",ST)],["return values, raw entry count after removal"])

p("C15","Failing system calls never cost acknowledged data",
"When file operations fail (no space, I/O error, too many open files) at any point of any operation, split, compaction, merge, flush or clear, the store does not panic or hang, the failing call reports an error or succeeds, and it is then either completely applied or not at all. No previously acknowledged plain entry is lost or altered, and once the failures stop the store works normally - immediately and after reopening.",
["fault_sequences","histories"],"all histories and all placements of failing calls (single, repeated, persistent) on data writes, reads, file creation, sizing, mapping, renames, removals and syncs",
"No test injects any fault.",
[S,R],[("error propagation and recovery in split, compaction, merge",S),("tree update after failed merge/split",R)],["results and contents under injected errno"])

p("C16","A store directory is owned by one store at a time",
"While a store is open, every further attempt to open the same directory, from the same or another process, fails and changes nothing. Once the owner is closed or its process has died, the next open succeeds.",
["histories","schedules"],"all orders of opens, closes and deaths by several threads/processes, including racing opens",
"No test opens a directory twice or from two processes.",
[ST],[("lock file",ST)],["open results, directory contents"])

p("C17","Every operation finishes",
"No interleaving of client operations, iteration, statistics, flushes, merges, clears and background compaction deadlocks, and no history makes an operation loop forever, for every valid configuration including the smallest shards and any number of compaction threads. Opening and closing the store finish as well.",
["schedules","configurations","histories"],"all interleavings and configurations; bounded form: every call completes unless all threads are blocked or it repeats reorganisation without end",
"A deadlock needs a specific interleaving of the locks of shard, file, row, compaction handle and router; the suite has none of the relevant mixes.",
[S,R,ST],[("lock order: router node, compaction handle, files, rows",S),("split retry loop",R)],["completion of every call, thread states, reorganisation counts"])

p("C18","No memory errors, data races or internal assertion failures",
"No sequence of public API calls from any number of threads on valid directories causes an out-of-bounds or use-after-free access, a data race on the store's memory, an arithmetic overflow, or an internal panic - in the calling threads or in background threads.",
["schedules","inputs","histories"],"all public API uses with documented-valid inputs under all interleavings",
"Tests run without sanitizers and only in a few interleavings; the code shares memory-mapped tables through raw pointers.",
[S],[("raw pointers into the memory map guarded by row locks",S)],["sanitizer reports, panics"])

p("C19","Flushed data has reached stable storage",
"When flush returns successfully, all file contents written by operations that completed before the flush was called have been handed to stable storage, including entries whose shard is being compacted, split or was just reorganised. With flush aggregation configured, every modifying operation returns only after its own data was handed to stable storage, under any concurrency, and never deadlocks.",
["histories","schedules"],"all histories with flush at any point (in particular with a background compaction at any stage); all interleavings of modifying threads under flush aggregation",
"The tests only call flush; whether anything was synced is invisible to them.",
[S],[("per-shard data sync",S),("aggregated sync",S)],["sync calls per file vs writes and mapped stores per file"])

p("C20","Clear empties the store completely, and it stays usable",
"After clear returns, the store contains no plain, typed, list, queue or big data, its statistics are those of an empty store, no data of the past reappears later or after reopening, and it behaves like a newly created store. This holds for every preceding history, including running background compactions, and when other threads operate concurrently each of their writes is either erased or fully present.",
["histories","schedules"],"all histories before clear, at every stage of background compaction, and concurrent operations",
"One test clears a small idle store.",
[R,ST],[("file removal and initial shard creation under the root lock",R)],["contents, stats, directory"])

p("C21","Opening tolerates leftovers and foreign files and rejects unknown formats",
"Opening ignores files that are not its own, removes or completes its own unfinished temporary files without losing data, and never deletes or alters foreign files. A store file of an unsupported version or format is rejected with an error and left untouched unless clearing was configured, in which case the store opens empty and usable.",
["inputs","configurations"],"all combinations of foreign file names, leftover temporary files of each kind, overlapping spans and damaged or foreign headers",
"One test covers one version mismatch; leftovers and foreign names are not tried.",
[R,S],[("directory scan",R),("header check",S)],["directory before/after, open result, contents"])

p("C22","The typed API round-trips every value and matches the untyped semantics",
"For every supported key and value type and every value of it, typed stores, lists and queues return exactly the values stored, distinguish all distinct keys and never confuse keys of different types, and each operation's result corresponds to the documented untyped operation. Borrowed and owned forms of a key are equivalent, and all wrappers over one store see the same data.",
["inputs","histories"],"all values of all built-in key types and user-defined types; all histories of typed operations",
"Tests use a few fixed values of two or three types.",
["src/typed.rs"],[("serialisation, type id, namespace","src/typed.rs")],["return values against typed models"])

p("C23","Overwriting and removing forever needs only bounded space",
"However long a workload keeps replacing and removing entries while its live data stays bounded, the number of shards and the space occupied stay bounded: once wasted space exceeds the configured threshold the next insertion makes it be reclaimed, and no unfinished temporary file remains at quiescence. Removing or discarding everything leaves no entries behind. A reorganisation never increases the data stored.",
["histories","configurations"],"all churn histories (fixed live set, any sizes) under all configurations",
"The suite checks that a compaction happens once; it never runs churn long enough to see leaks of space, shards or files.",
[S,R],[("wasted byte accounting and compaction trigger",S)],["file sizes, shard count, stats over a long run"])

p("C24","Aggregated flushes make acknowledged changes survive a power failure",
"With flush aggregation configured, no call that modified the store, or set what another thread was just setting to the same value, and returned successfully is lost if the whole machine fails at any later instant. When every file falls back to what had last been handed to stable storage (or holds what it holds, file by file, as the kernel may have written it back meanwhile) and changes of the directory are kept in the order they were made, the store opens and shows the effect of every call that had returned - also when shards were split, compacted or merged, a compaction failed and was taken up again, or the store was cleared or reopened since.",
["crash points","histories","schedules"],"all instants of all histories of concurrent modifying threads under flush aggregation, including opening, clearing, splits, compactions (failed and resumed ones too) and merges",
"The suite never builds with flush aggregation and could not see what was synced; losing data takes a power failure right after a file that was never synced took the place of one that was.",
[S,R],[("sync of a file before it takes over",S),("aggregated sync",S),("creation of shard files",S)],["contents of every file at its last sync vs. acknowledged calls"])

p("C25","Walking a list or queue while it changes returns what stays in it, in order",
"While other threads insert, update, remove, pop, push, extend and discard, and shards are split, compacted and merged underneath, an iteration of a list or queue in either direction ends and returns every element that is in it from before the iteration to after it exactly once and in the collection's order. It returns no element twice, no value that was not the element's value at some instant of the step that returned it, and queue elements with their own index, monotonically. Lengths and index ranges read meanwhile agree with the elements present.",
["schedules","histories"],"all interleavings of iterations with modifying threads and with reorganisations underneath, except promotion and list compaction (which move elements)",
"The suite iterates only idle collections; skipping a present element or returning a dead one takes a removal or insertion between two particular reads of an iteration.",
[L,Q,ST],[("list iterator: chain entry, then item by hash",L),("queue iterator over the index range",Q),("range taken under the collection's lock",L)],["every step of every iteration against recorded lifetimes"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
