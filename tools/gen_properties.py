#!/usr/bin/env python3
"""Writes properties.jsonl. The statements live here so they can be edited as text."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,
      **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),hook_needed=None)))
R="src/raw/mod.rs"; M="src/map.rs"; S="src/set.rs"; A="src/raw/alloc.rs"; PR="src/raw/probe.rs"; PK="src/raw/utils/parker.rs"; CN="src/raw/utils/counter.rs"; ST="src/raw/utils/stack.rs"; TG="src/raw/utils/tagged.rs"; UM="src/raw/utils/mod.rs"; SD="src/serde_impls.rs"; LB="src/lib.rs"

p("C01","HashMap agrees with a plain map for every sequential history",
 "For every sequence of HashMap calls made one after another (point operations, atomic updates, bulk operations, iteration, reserve, len), each return value, each closure argument and call count, and the resulting contents equal those of an ordinary associative map. This holds for every hasher consistent with equality, every resize mode and chunk size, every initial capacity, every collector configuration, every kind of guard or pin, and for lookups through any equivalent borrowed form of the key.",
 ["histories","inputs","configurations"],"every finite operation sequence x every (resize mode, chunk, capacity, hasher, batch size, guard kind) configuration; hash clusters small enough that a table of reachable size can hold them (see DESIGN.md)",
 "The unit tests run fixed scripts with one key pattern and the default hasher; tombstone/probe-chain/partial-resize states reached only by particular histories are sampled by a handful of scripts.",
 [M,R,PR,A,TG],[("probe/insert/remove/compute loops",R+": get, insert_inner, remove_if, compute_with"),("resize",R+": get_or_alloc_next, help_copy*"),("public wrappers",M)],
 ["return values of HashMap/HashMapRef methods","iteration contents"])
p("C02","HashSet agrees with a plain set for every sequential history",
 "For every sequence of HashSet calls made one after another, each return value and the resulting contents equal those of an ordinary mathematical set keyed by equality, for every configuration, guard kind and borrowed key form.",
 ["histories","inputs","configurations"],"every finite HashSet operation sequence x configuration",
 "basic_set.rs repeats a few fixed scripts; HashSet has its own wrapper code (bool results, retain, extend, iteration) reached only partly.",
 [S,R],[("set wrappers over the raw table",S)],["return values of HashSet/HashSetRef methods","iteration contents"])
p("C03","Point operations are linearizable per key under every schedule",
 "In every concurrent history, the lookups, inserts, conditional inserts and removals on each key can be ordered into one sequence, consistent with real time, in which every result is what a sequential map would have returned. In particular no completed write is lost, no lookup returns a value that was never current during the call, and two conditional inserts never both succeed on one presence interval.",
 ["schedules","histories","configurations"],"every interleaving of every set of concurrent point operations, in both resize modes, including while the table is being allocated, grown, shrunk or rebuilt",
 "stress tests sample OS schedules of a few fixed workloads and assert only coarse end states; they do not check per-key histories nor force preemption inside an operation.",
 [R,M],[("CAS on entry slots and metadata publication",R+": insert_at, update_at"),("COPYING/COPIED protocol",R+": copy_at_incremental, copy_at_blocking, wait_copied")],
 ["invocation/response history of get, get_key_value, contains_key, insert, try_insert, remove, remove_entry, remove_if"],
 [("entry slot","tagged pointer: null, tombstone, value, COPYING, COPIED, BORROWED",R)])
p("C04","Atomic updates apply exactly one closure result to the state it saw",
 "Under every schedule, update, update_or_insert(_with), get_or_insert(_with), try_insert_with, compute and remove_if take effect atomically: the committed change is the closure's output for precisely the value that was current at that instant, aborted operations change nothing, and no concurrent update is lost. Closures documented as run once are never run twice, and the reported outcome (inserted/updated/removed/aborted with old and new entries) is the one applied.",
 ["schedules","histories","inputs"],"every interleaving of concurrent read-modify-write operations with each other, with point writes and with resizes; every pattern of closure decisions",
 "Tests check counters under a few contended loops; the retry/memoisation paths after failed CAS in each state (copied, deleted, replaced) are scheduling dependent.",
 [R,M],[("compute state cache",R+": ComputeState, compute_with"),("remove_if loop",R+": remove_if")],
 ["closure inputs/outputs and return values"])
p("C05","Resizing never loses, duplicates, resurrects or stales an entry",
 "Growing, shrinking, rebuilding and reserving are invisible: at every point of every schedule, with any number of nested or aborted resizes in flight, each key has the single value (or absence) given by the operations applied to it. Once all operations have finished, lookup, iteration and length agree with each other and with the history.",
 ["schedules","histories","configurations"],"every interleaving of operations that overlap one or more resizes x resize mode, chunk size, hash distribution and reserve arguments",
 "The stress cfg and tests exercise resizes under OS scheduling with large chunks; multi-level resizes interrupted at each instruction are not enumerated.",
 [R,A],[("help_copy_incremental / help_copy_blocking / try_promote / insert_copy",R),("next-table allocation",R+": get_or_alloc_next")],
 ["histories plus quiescent get/iter/len"],[("table.next / claim / copied / status","resize progress",R+": State")])
p("C06","Iteration is a weak snapshot of live entries",
 "Every entry an iterator yields was the current entry of its key at some moment between the iterator's creation and the yield, and a key is yielded again only if it was removed and inserted again in the meantime. A key present throughout the whole iteration is yielded, so an iteration with no concurrent modification yields exactly the contents.",
 ["schedules","histories"],"every interleaving of iter/keys/values (and clone/eq/debug built on them) with writers and resizes; iterators held across later resizes",
 "Tests iterate while other threads insert but cannot state which yields were legal without the full history.",
 [R,M],[("linearize and Iter::next",R)],["yielded pairs with their time relative to writer calls"])
p("C07","clear and retain remove exactly what they may under concurrency",
 "A clear removes every entry present throughout it; a retain shows its predicate every entry present throughout it and removes an entry only if the predicate rejected exactly that key and value. Neither affects an entry the predicate kept, nor undoes a write that happened after it returned.",
 ["schedules","histories"],"every interleaving of clear/retain with writers, removers and resizes",
 "Tests call clear/retain concurrently but check only that a final clear empties the map.",
 [R,M,S],[("clear/retain loops with COPYING retry",R+": clear, retain")],["predicate calls, per-key history around the call"])
p("C08","len and is_empty are exact whenever no write is in flight",
 "Whenever no modifying call is in progress, len equals the number of keys a lookup would find and is_empty is true exactly when it is zero, whatever concurrent history came before and whichever threads performed it. len never panics or wraps while writes are in flight.",
 ["schedules","histories","configurations"],"every concurrent history followed by quiescence x number of CPUs/shards x thread ids",
 "Tests compare len after simple workloads on the machine's own CPU count only.",
 [CN,R],[("sharded counter",CN),("count updates at each commit point",R)],["len(), is_empty() vs. lookups"])
p("C09","References stay valid for as long as their guard",
 "A key or value reference obtained through a guard or pin keeps denoting the same intact, undropped entry until that guard is released or refreshed, whatever other threads remove, replace, clear, resize or reclaim meanwhile. No operation ever touches freed memory, including through owned guards moved between threads.",
 ["schedules","histories"],"every interleaving of readers holding references with writers, resizes and reclamation x batch size x guard kind",
 "A use-after-free needs a reclaim to land between a load and a dereference; ordinary tests without sanitizers would not notice one.",
 [R,UM,ST],[("guard-protected loads and deferred retirement",R+": defer_retire, drop_table, Drop"),("BORROWED tag and deferred stack",R+", "+ST)],
 ["contents and drop state of held references; every memory access checked against the allocation's lifetime"])
p("C10","Every key, value and allocation is released exactly once",
 "Over the life of a map every key and value handed to it is dropped exactly once - replaced, removed, rejected, cleared, unused or still present when the map is dropped - and every internal allocation is freed exactly once by the time the map and its guards are gone. This includes maps dropped in the middle of an incremental resize and tables discarded by an aborted resize.",
 ["schedules","histories","inputs"],"every concurrent or sequential history ending in dropping the map",
 "Tests do not count drops per object nor audit allocations, and leaks or double frees on rare retry paths leave assertions intact.",
 [R,A,ST],[("entry/table drop",R+": Drop for HashMap, drop_entries, drop_table"),("LazyEntry and failed inserts",R+": compute, insert")],
 ["per-object drop counter; allocation ledger after the map is dropped"])
p("C11","Removed entries are reclaimed while the map lives",
 "Once no guard that could see them is held, entries that were replaced or removed are dropped while the map is still in use, so the amount of unreclaimed garbage is bounded by the collector's batching and not by the number of operations performed. Superseded tables are likewise freed, so memory stays proportional to contents under unbounded churn.",
 ["histories","configurations","schedules"],"every history of inserts/removes/replacements/resizes with periodically released guards x batch size x resize mode",
 "Tests never measure live garbage; retaining everything until the map is dropped would pass all of them.",
 [R,ST],[("defer_retire",R),("table retirement at promotion",R+": try_promote")],["live object and byte counts after guards are released"])
p("C12","Reads happen-after the writes they observe; no data races",
 "Whenever one thread obtains an entry published by another, everything the publisher did before publishing happens-before the reader's use of it under the language memory model, and likewise everything any reader did with an entry happens-before its destruction. No execution of the safe API contains a data race on keys, values or internal state.",
 ["schedules","configurations"],"every interleaving, judged by the declared memory orderings rather than by what the host CPU happens to do",
 "x86 hardware hides missing acquire/release edges, and the tests do not run under a race detector.",
 [R,A,PK,ST,CN],[("Acquire/Release orderings on meta, entry, table and state words",R),("parker SeqCst protocol",PK)],["vector-clock happens-before check of every access to arena memory"])
p("C13","Every operation finishes: no deadlock, lost wake-up or livelock",
 "Under every schedule in which each thread keeps being scheduled, every operation returns: no thread waits forever for a resize, an entry copy or a table allocation that has already completed, aborted or been superseded. Spurious or foreign wake-ups never cause a missed or premature one.",
 ["schedules","histories","configurations"],"every interleaving of operations that may block (resizing, copying, allocating) x resize mode, chunk, hash clustering, spurious unparks",
 "A lost wake-up needs a preemption inside a window of a few instructions; the tests would simply have to be unlucky enough to hang.",
 [PK,R],[("Parker::park/unpark",PK),("waits in help_copy*, wait_copied, get_or_alloc_next",R)],["deadlock (no runnable thread) or step bound under a fair scheduler"])
p("C14","Reads never wait for other threads",
 "A lookup (get, get_key_value, contains_key), len or is_empty completes in a bounded number of its own steps without blocking even if every other thread is suspended forever at an arbitrary instruction, including in the middle of a resize, an entry copy or a removal.",
 ["schedules"],"every interleaving prefix followed by suspension of all threads but the reader",
 "Tests cannot suspend a thread at a chosen instruction.",
 [R],[("get loop without waiting",R+": get, root, next_table")],["own-step count and blocking calls of the reader while others are frozen"])
p("C15","Capacity contract: lazy, pre-sized, bounded, never below initial",
 "A map created with capacity 0 allocates no table before the first insert; a map created with or reserved for n elements accepts n well-distributed elements without growing again (slots whose element was removed count as used until the next resize); the table never shrinks below the initial capacity. For any capacity or reserve argument in range, no operation panics or grows the table without bound: table size stays proportional to the larger of the requested and the live number of elements.",
 ["inputs","histories","configurations"],"every capacity/reserve argument (not only powers of two) x every churn history x resize mode",
 "Tests use a few capacities and never observe allocations.",
 [A,PR,R],[("entries_for / Table::alloc",PR+", "+A),("next capacity heuristic",R+": get_or_alloc_next, reserve, init")],["sizes of allocations performed by the map"])
p("C16","Conversions, cloning and comparison agree with the contents",
 "FromIterator, From<array>, Extend (owned and by reference), Clone, PartialEq/Eq, Debug, Default and IntoIterator for maps, sets and their pinned views agree with the same operation on an ordinary map or set with equal contents; a clone is independent of the original and keeps its hasher. Equality is insensitive to insertion order, hasher state, capacity and deletion history.",
 ["inputs","histories"],"every element sequence including duplicates x every pair of construction histories",
 "Tests use two or three literal collections.",
 [M,S],[("trait impls",M+", "+S)],["results of trait calls compared with std"])
p("C17","A guard from another collector is always rejected, without effect",
 "Calling any guarded operation with a guard that does not belong to the map's collector panics before any key is looked up, inserted, moved or dropped twice, and leaves the map's contents unchanged; every guard of the map's own collector (local, owned, from a builder-supplied collector) is accepted. This holds for every operation of maps and sets, whatever the state of the map.",
 ["inputs","histories","programs"],"every public guarded operation x every map state x every guard source",
 "One test tries one operation with a foreign guard.",
 [R,M,S],[("HashMap::verify",R),("raw() calls in each wrapper",M+", "+S)],["panic and unchanged contents"])
p("C18","A panic in user code leaves the map intact",
 "If user code called by an operation panics (an update, insert, compute, retain or remove_if closure, a clone or element iterator, or the hash or comparison of the operation's own key), the map keeps exactly the contents it had plus whatever the operation had already committed, remains fully usable by all threads, and never drops anything twice. A request that panics because the capacity is impossible leaves the map usable too, and a hasher that panics in the middle of a resize never causes memory unsafety.",
 ["fault_sequences","histories","inputs"],"a panic injected at every user callback invocation x every operation x every map state",
 "Tests never panic inside callbacks.",
 [R],[("closure call sites before commit",R),("LazyEntry::init",R),("count updates after commit",R)],["contents, len, drop counts, further operations after the panic"])
p("C19","The map works for every key and value layout and allocator",
 "All guarantees hold for any key/value size and alignment - zero-sized, byte-aligned, over-aligned, large - and with any global allocator that honours only the requested size and alignment. Pointer tags never collide with real entry addresses.",
 ["inputs","configurations"],"key/value type layouts x allocator placement choices x operation histories",
 "Tests use usize/String-like types on an allocator that happens to return 16-byte aligned blocks.",
 [R,A,TG],[("tag bits in entry pointers",R+": Entry, "+TG),("table layout",A)],["model agreement per layout; requested layouts audited"])
p("C20","Maps, sets and views are Send/Sync exactly when that is sound",
 "Sharing or sending a map, set, guard, guard-backed view or iterator across threads is only permitted when the key, value and hasher types make it sound: shared access can move keys and values to another thread and drop them there, so sharing requires both Send and Sync of them. Types that are sound to share are accepted.",
 ["programs"],"every combination of Send/Sync of key, value, hasher and guard types for every public type",
 "Negative trait bounds are not tested; an over-permissive unsafe impl compiles and passes everything.",
 [R,M,S],[("unsafe impl Send/Sync",R+", "+M+", "+S)],["trait-bound probes over generated type combinations"])
p("C21","Serialization round-trips and malformed input is rejected cleanly",
 "With the serde feature, serializing any map, set or pinned view yields the same data an ordinary map or set with the same contents would, deserializing it gives back equal contents (last duplicate wins), and any malformed or wrongly typed input produces an error without panicking, leaking or unbounded allocation from a lying size hint.",
 ["inputs"],"every content and every byte string / token stream offered to the deserializer",
 "One or two literal round trips are tested.",
 [SD],[("Serialize/Deserialize visitors",SD)],["serde_json text and custom token streams vs std collections"])
p("C22","Stored keys are the ones the documentation says are kept",
 "When an operation finds its key already present, an equal but distinguishable new key does not displace the stored one for insert, and for every operation documented to change nothing (conditional inserts, failed removals, aborted updates) the stored key object is untouched; lookups by an equivalent key return the stored key.",
 ["inputs","histories"],"every history over keys that compare equal without being identical",
 "Tests only use keys that are identical when equal.",
 [M,S,R],[("entry replacement",R+": insert_inner, update_at")],["identity of keys returned by get_key_value/iter/remove_entry"])
p("C23","No safe program can make a reference outlive its guard or its map",
 "Every program written against the public API in which a reference, iterator or other result is used after its guard or pin was released, refreshed or moved, or after its map was dropped, moved or replaced, or in which a map outlives data it borrows, is rejected by the compiler. Programs that use results only while their guard is held are accepted, including helpers that tie a result to a guard rather than to the borrow of the map, and shared access never yields mutable or owned keys and values.",
 ["programs"],"every program composed of the public operations, guard kinds and scopes",
 "One compile_fail doc test shows one misuse; a lifetime in a signature that is too long compiles and passes every test.",
 [M,S,UM],[("lifetimes of results and guards in every signature",M+", "+S)],["compiler verdict on generated programs"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
