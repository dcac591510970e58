import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    if hook: a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

SC="src/sync/cache.rs";SB="src/sync/base_cache.rs";FC="src/future/cache.rs";FB="src/future/base_cache.rs"
HOOK="guarded hook in src/lib.rs that rebinds std's atomics, locks, sleep and clock to the model checker's"
p("C01","Reads and writes of one key are linearizable",
  "While nothing is evicted or expired, concurrent lookups, presence checks, inserts, removals and invalidations of a cache behave as if each took effect at one instant between its call and its return, per key, against a plain map. A lookup never returns a value that was already replaced or removed before it began, and a removal returns exactly the value that was live.",
  ["schedules","histories"],"all interleavings (up to a preemption bound) of 2-3 threads/tasks doing 1-3 operations on colliding keys, with a maintenance thread, for the synchronous, segmented and asynchronous caches",
  "The tests run threads freely on a few CPUs and check final contents; they visit a handful of the interleavings of the lock-free table and never check a concurrent history for linearizability.",
  ["src/cht/segment.rs","src/cht/map/bucket.rs","src/cht/map/bucket_array_ref.rs",SC,SB,FC,FB],
  [("lock-free bucket CAS insert/modify/remove","src/cht/map/bucket.rs"),("insert path and its two counters","src/sync/base_cache.rs do_insert_with_hash"),("read path","src/sync/base_cache.rs do_get_with_hash")],
  [("bucket pointer tags","live, tombstone or relocated entry","src/cht/map/bucket.rs")],["Cache::get","Cache::insert","Cache::remove","Cache::invalidate","Cache::contains_key"],HOOK)
p("C02","Growing or compacting the table loses and resurrects nothing",
  "While the key table grows, is compacted or shrinks under concurrent use, every key that is present and untouched stays visible to every lookup, no removed key comes back, and no key appears twice. The number of stored keys the table reports afterwards equals the keys really in it.",
  ["schedules","histories"],"all interleavings (preemption bounded) of operations that trigger or race with a rehash, on tables small enough to be enumerated, plus all short operation sequences crossing resize thresholds",
  "Existing stress tests need thousands of random operations to hit a rehash and only compare totals; the windows between copying a bucket and publishing the new array are a few instructions wide.",
  ["src/cht/segment.rs","src/cht/map/bucket.rs","src/cht/map/bucket_array_ref.rs"],
  [("rehash, sentinel and borrowed tags","src/cht/map/bucket.rs rehash"),("swing of the current array","src/cht/map/bucket_array_ref.rs swing")],
  [("tombstone count / len","trigger for growth, shrink and compaction","src/cht/map/bucket.rs")],["Cache::get","Cache::iter","internal table through a guarded hook"],HOOK)
p("C03","get_with runs one initializer per missing key and shares its value",
  "When several callers of one form (the infallible ones, the optional ones, or the fallible ones of one error type) concurrently ask to get or initialize the same absent key, at most one initializer runs at a time, and every such caller whose call overlaps a successful initialization returns that value or a value inserted later, without running its own initializer. No initializer runs when a live value was present for the whole call.",
  ["schedules","histories"],"all interleavings (preemption bounded) of 2-3 callers of the get_with family, mixed with inserts, removals and invalidations of the key, synchronous and asynchronous",
  "The tests serialize callers with sleeps of hundreds of milliseconds; the windows around registering and removing a waiter are never exercised.",
  ["src/sync/value_initializer.rs","src/future/value_initializer.rs",SC,FC],
  [("waiter registration and ReadExisting","src/sync/value_initializer.rs try_init_or_read"),("re-check after taking the waiter lock","src/sync/cache.rs get_or_insert_with_hash_and_fun")],
  [("waiter map","one in-flight initialization per key and result type","src/sync/value_initializer.rs")],["Cache::get_with","Cache::entry().or_insert_with"],HOOK)
p("C04","A failed, panicking or abandoned initializer never wedges or poisons a key",
  "If an initializer returns an error or no value, every caller waiting on it gets that same error or absence and nothing is stored; if it, a condition or the weigher panics, or its future is dropped, waiting callers take over and some caller's initializer still runs to completion. Afterwards the key behaves as if the failed attempt had never happened.",
  ["schedules","fault_sequences"],"all interleavings (preemption bounded) and all placements of error, none, panic and cancellation outcomes over 2-3 concurrent callers",
  "Tests cover one failure placement each, ordered by sleeps; the combinations of failure outcome and waiter timing are never enumerated.",
  ["src/sync/value_initializer.rs","src/future/value_initializer.rs"],
  [("catch_unwind and waiter value states","src/sync/value_initializer.rs"),("WaiterGuard drop","src/future/value_initializer.rs")],
  [("WaiterValue","Computing, Ready, ReadyNone, Panicked, Aborted","src/sync/value_initializer.rs")],["Cache::try_get_with","Cache::optionally_get_with","Cache::get_with"],HOOK)
p("C05","Computes on one key are serialized and see the latest value",
  "Compute and upsert operations on one key never overlap each other: each closure sees the value left by the previous operation, and its decision (put, remove, nothing) is applied atomically with respect to other computes, so no update is lost. The reported outcome (inserted, replaced, removed, unchanged, still none) states exactly what happened to the cache.",
  ["schedules","histories"],"all interleavings (preemption bounded) of 2-3 concurrent computes on one or two keys with plain reads and maintenance, including closures that fail, panic, pend or are cancelled",
  "Tests check a counter incremented by a few tasks; one unlucky interleaving is needed to lose an update and outcomes are not compared with a sequential reference.",
  ["src/sync/value_initializer.rs","src/future/value_initializer.rs","src/sync/entry_selector.rs","src/future/entry_selector.rs","src/ops.rs",SC,FC],
  [("per-key compute waiter lock","src/sync/value_initializer.rs try_compute"),("result classification","src/sync/value_initializer.rs try_compute")],None,["and_compute_with","and_try_compute_with","and_upsert_with"],HOOK)
p("C06","Time-to-live and time-to-idle are exact",
  "An entry is never returned, reported present or iterated at or after its time-to-live since its last write or its time-to-idle since its last write or read, whichever is earlier. Strictly before that moment it is not dropped because of time, whatever maintenance ran.",
  ["histories","inputs"],"all operation sequences up to a depth over a few keys, values and clock steps on and around the deadlines, with and without maintenance between any two steps, for every on/off combination of the two policies, all cache flavours",
  "Tests follow a few hand-written timelines with a mock clock; off-by-one instants and sequences mixing reads, updates and maintenance around the deadline are not enumerated.",
  ["src/common/concurrent.rs","src/common/concurrent/entry_info.rs",SB,FB,"src/common/time/clock.rs"],
  [("is_expired_entry_ao / _wo","src/sync/base_cache.rs"),("evict_expired_entries_using_deqs","src/sync/base_cache.rs")],
  [("last_accessed / last_modified","instants that deadlines are computed from","src/common/concurrent/entry_info.rs")],["Cache::get","Cache::contains_key","Cache::iter"],HOOK)
p("C07","Per-entry expiry follows the user's Expiry callbacks",
  "With a custom expiry, an entry's deadline is set by what the callback returned at its creation, last update or last read (an unchanged answer keeps the previous remaining time, none means no deadline), never later than the cache-wide limits, and each callback is called exactly at its event with the right key, value, instants and remaining duration. The entry is visible strictly before its deadline and invisible from it on (deadlines are kept with a resolution of 4096 nanoseconds), however many reschedulings came before.",
  ["histories","inputs"],"all operation sequences up to a depth over callback answers (none, short, long, unchanged), keys and clock steps from below to far above every timer granularity, all cache flavours",
  "Tests use one callback table on one timeline; combinations of create/read/update answers with clock steps are not covered.",
  ["src/policy.rs","src/common/timer_wheel.rs","src/common/concurrent/entry_info.rs",SB,FB],
  [("expire_after_create / read / update","src/sync/base_cache.rs"),("timer rescheduling","src/common/timer_wheel.rs")],
  [("expiration_time","packed deadline and generation of an entry","src/common/concurrent/entry_info.rs")],["Expiry callbacks","Cache::get"],HOOK)
p("C08","invalidate_all hides exactly what was inserted before it",
  "Once invalidate_all has returned, no read, presence check or iteration started afterwards yields a value written before the call; a value written after the call returned is unaffected by it, however maintenance is interleaved. Invalidated entries are eventually removed and counted out by maintenance.",
  ["schedules","histories"],"all operation sequences up to a depth and all interleavings (preemption bounded) of invalidate_all with inserts, reads, loads and maintenance, all cache flavours",
  "Tests call it once on an idle cache; races between the invalidation timestamp, pending writes and maintenance are not explored.",
  [SB,FB,SC,FC,"src/sync/segment.rs"],[("valid_after comparison","src/sync/base_cache.rs"),("physical removal of invalidated entries","src/sync/base_cache.rs remove_expired_wo")],
  [("valid_after","entries last written before it are dead","src/sync/base_cache.rs")],["Cache::invalidate_all","Cache::get","Cache::iter"],HOOK)
p("C09","invalidate_entries_if removes exactly the matching older entries",
  "After invalidate_entries_if returns, no read returns an entry written before the call for which the predicate holds, and no entry that fails the predicate, or whose write began after the call returned, is ever dropped because of it. Maintenance eventually removes all matching entries physically, also when several predicates are pending.",
  ["schedules","histories"],"all operation sequences up to a depth with several predicates, and all interleavings (preemption bounded) of registration, inserts, reads and background scanning",
  "Tests register one or two predicates on an idle cache; registration during a running scan, updates during a scan and several pending predicates are not explored.",
  ["src/sync/invalidator.rs","src/future/invalidator.rs",SB,FB],[("predicate registration and scan","src/sync/invalidator.rs"),("apply_predicates on read","src/sync/base_cache.rs do_get_with_hash")],
  [("scan context","predicates being applied by the background scan","src/sync/invalidator.rs")],["Cache::invalidate_entries_if","Cache::get"],HOOK)
p("C10","The cache comes back within its maximum capacity",
  "Whenever pending maintenance has been run to completion and no operation is in flight, the total weight of the entries in a bounded cache is at most its maximum capacity, whatever was inserted, updated to another weight, read, removed or expired before. A capacity of zero stores nothing.",
  ["histories","schedules","configurations"],"all operation sequences up to a depth with weights 0, 1, several, exactly and over capacity, for both eviction policies, and all preemption-bounded interleavings of concurrent writers",
  "Tests check one hand-made sequence per policy; weight-changing updates while a previous write is unprocessed are not enumerated.",
  [SB,FB],[("admission and handle_upsert","src/sync/base_cache.rs handle_upsert"),("evict_lru_entries","src/sync/base_cache.rs")],
  [("weighted size","sum of policy weights","src/sync/base_cache.rs EvictionCounters")],["Cache::weighted_size","Cache::iter"],HOOK)
p("C11","entry_count and weighted_size are exact once maintenance has settled",
  "After pending maintenance has run with no operation in flight, the reported entry count equals the number of entries in the cache, and the reported weighted size equals the sum of the weights of exactly those entries. Both return to zero when the cache is emptied by any route.",
  ["histories","schedules"],"all operation sequences up to a depth mixing inserts, weight-changing updates, removals, expirations, invalidations and evictions; all preemption-bounded interleavings of racing writers and removers of the same key",
  "Counter drift needs an update racing with a removal or eviction of the same key; tests compare counts after sequential use only.",
  [SB,FB,"src/common/concurrent/deques.rs","src/common/concurrent/entry_info.rs"],[("counter updates in handle_upsert / handle_remove","src/sync/base_cache.rs"),("is_admitted and policy weight","src/common/concurrent/entry_info.rs")],
  [("entry_count, weighted_size","published counters","src/sync/base_cache.rs")],["Cache::entry_count","Cache::weighted_size","Cache::iter"],HOOK)
p("C12","Eviction follows the configured policy",
  "Under the LRU policy, when the cache is over capacity the entries dropped are always the least recently used ones and new entries are always admitted if they fit. Under the default policy a newcomer replaces residents only if it has been asked for more often than they have, so a resident used more often than the newcomers is never displaced by them.",
  ["histories"],"all access and insert sequences up to a depth over a few more keys than the capacity, with maintenance after each step, weights included, against a reference policy model; all sequences of popularity increments for the estimator",
  "Tests replay three hand-made traces; tie and order cases of recency lists and the popularity estimator are not enumerated.",
  [SB,FB,"src/common/deque.rs","src/common/frequency_sketch.rs"],[("admit","src/sync/base_cache.rs"),("frequency estimate, aging","src/common/frequency_sketch.rs"),("move_to_back","src/common/deque.rs")],
  [("access-order deque","recency order","src/common/concurrent/deques.rs")],["Cache::contains_key","Cache::iter"],HOOK)
p("C13","Each departed entry is reported to the listener exactly once, with its cause",
  "For every value that leaves the cache (replaced, removed, expired or evicted) the eviction listener is called exactly once with that key and value, and never for a value that is still in the cache. The cause is the true one: replaced for an overwritten live value, explicit for removals and invalidations, expired for a passed deadline, size for capacity. (A value already covered by a pending bulk invalidation predicate when it is overwritten may be reported as replaced or explicit; a listener that panicked is not called again.)",
  ["schedules","histories"],"all operation sequences up to a depth over every way an entry can leave, and all preemption-bounded interleavings of operations racing for the same entry, all cache flavours",
  "Tests compare notifications of sequential scenarios; duplicates or losses need two removal routes racing for one entry.",
  [SB,FB,SC,FC,"src/notification/notifier.rs","src/future/notifier.rs"],[("notify_upsert / notify_invalidate / notify_entry_removal","src/sync/base_cache.rs"),("EvictionState","src/sync/base_cache.rs")],None,["eviction listener calls"],HOOK)
p("C14","Listener calls per key are ordered and listener panics are contained",
  "Notifications for one key are delivered one at a time and in the order in which the values left the cache, and the notification of a value is finished before the operation that replaced or removed it returns (what an abandoned asynchronous operation left over is finished later). A panic in the listener never reaches the caller, and the cache keeps working as without a listener.",
  ["schedules","fault_sequences"],"all preemption-bounded interleavings of writers, removers and maintenance on one key with a listener that takes several steps, and listener panics at every call",
  "Out-of-order delivery needs a preemption between the map update and the notification; tests have no such schedules.",
  ["src/sync/key_lock.rs","src/future/key_lock.rs","src/notification/notifier.rs","src/future/notifier.rs",SB,FB],[("per-key lock around update and notification","src/sync/key_lock.rs"),("catch_unwind in notifier","src/notification/notifier.rs")],None,["eviction listener calls"],HOOK)
p("C15","Iteration yields every stable entry exactly once and nothing dead",
  "An iterator yields each key at most once, yields every entry that is live and untouched during the whole iteration, and never yields an entry that was expired, removed or invalidated before the iterator reached it. Iterating does not change recency or popularity.",
  ["schedules","histories"],"all operation sequences up to a depth and all preemption-bounded interleavings of one iteration with inserts, removals, invalidations and table growth",
  "Tests iterate on idle caches or only check that a mixed run terminates.",
  ["src/cht/iter.rs","src/common/iter.rs","src/cht/segment.rs",SC,FC,"src/sync/segment.rs"],[("key snapshot per table segment and re-lookup","src/common/iter.rs")],None,["Cache::iter"],HOOK)
p("C16","Dropping a pending future never loses a write or a notification",
  "If the future of any asynchronous operation is dropped while pending, the cache stays consistent: either the operation had no effect, or its effect is completed later by other operations or maintenance, including its listener notification and its accounting. Other tasks using the same key are never blocked by it.",
  ["fault_sequences","schedules"],"every await point at which each operation can be dropped, combined with preemption-bounded interleavings of other tasks and listeners that pend",
  "Tests cancel two hand-picked operations at one point; the drop points of every operation are not enumerated.",
  [FC,FB,"src/future.rs","src/future/housekeeper.rs","src/future/notifier.rs"],[("CancelGuard and interrupted-op channel","src/future.rs"),("shared maintenance task resumed after a drop","src/future/housekeeper.rs")],
  [("interrupted op channel","work left by dropped futures","src/future/base_cache.rs")],["future::Cache operations"],HOOK)
p("C17","Keys and values are dropped exactly once and memory is never used after free",
  "Every key and value given to a cache is dropped exactly once, not before the last reader is done with it and at the latest when the cache itself is gone and readers have left; nothing is leaked. No operation, in any interleaving, touches memory that was already freed or sees contents that are not yet fully published.",
  ["schedules","histories"],"all preemption-bounded interleavings of readers with removers, updaters, table growth and cache drop under the most aggressive legal reclamation, and all short operation sequences with full allocation accounting",
  "The stress tests can only notice a double drop or crash if the scheduler happens to produce it; use after free usually reads intact memory and passes.",
  ["src/cht/map/bucket.rs","src/cht/map/bucket_array_ref.rs","src/cht/segment.rs","src/common/concurrent/arc.rs","src/common/deque.rs","src/common/timer_wheel.rs"],[("deferred destruction","src/cht/map/bucket.rs defer_destroy_bucket"),("reference counted entry pointer","src/common/concurrent/arc.rs")],None,["Drop of user keys and values","instrumented allocator"],HOOK)
p("C18","Operations always finish: no deadlock, no lost wakeup, no unbounded spin",
  "Every operation completes once the callbacks it waits for complete, under every fair schedule: concurrent operations, maintenance, a full write queue and listeners that are slow or call back into the cache for other keys never deadlock or starve each other. Waiting asynchronous callers are always woken.",
  ["schedules"],"all preemption-bounded interleavings of small mixes of operations with maintenance, saturated queues and slow callbacks",
  "A deadlock or lost wakeup in a few instructions of window shows up in tests as a rare hang, if at all.",
  ["src/common/concurrent/housekeeper.rs","src/future/housekeeper.rs",SB,FB,SC,FC],[("schedule_write_op retry loop","src/sync/base_cache.rs, src/sync/cache.rs"),("write queue ready event","src/future/base_cache.rs"),("housekeeper try-lock","src/common/concurrent/housekeeper.rs")],None,["completion of every call"],HOOK)
p("C19","A segmented cache behaves like one cache",
  "A segmented cache answers every operation as an unsegmented cache with the same configuration would, with per-segment capacity: lookups, loads, removals, bulk invalidation, iteration, counts, listener and policy reports cover all segments. No key is ever visible in two segments or unreachable.",
  ["histories","configurations"],"all operation sequences up to a depth over keys spread over all segments, for 1 to several segments, compared step by step with the unsegmented cache",
  "Tests repeat a subset of scenarios on the segmented type with one segment count.",
  ["src/sync/segment.rs","src/sync/builder.rs"],[("segment selection by hash and fan-out","src/sync/segment.rs")],None,["SegmentedCache API"],HOOK)
p("C20","Entry selectors report truthfully what they did",
  "Every entry operation returns an entry whose key and value are the ones now in the cache, is marked fresh exactly when this call stored the value, and as replacing exactly when it replaced a live value; conditional forms replace the value only when the condition accepts it. By-reference and owned forms agree, and all accessors of the returned entry work.",
  ["histories","inputs"],"all operation sequences up to a depth over every entry and get_with form on present, absent, expired and invalidated keys, synchronous and asynchronous",
  "Tests call each form a few times and rarely look at the key or flags of the returned entry, nor at expired or invalidated starting states.",
  ["src/sync/entry_selector.rs","src/future/entry_selector.rs","src/common/entry.rs",SC,FC,"src/sync/value_initializer.rs","src/future/value_initializer.rs"],[("OwnedKeyEntrySelector / RefKeyEntrySelector","src/sync/entry_selector.rs"),("Entry","src/common/entry.rs")],None,["Entry::key, value, is_fresh, is_old_value_replaced"],HOOK)
p("C21","Expired entries are physically removed by maintenance, on time",
  "When maintenance runs at or after an entry's deadline plus the documented timer granularity, the entry is removed from memory, counted out and reported as expired, whatever its deadline's distance (milliseconds to years) and however often it was rescheduled. Maintenance never removes an entry before its deadline. (Cache-wide time limits are enforced in order of last use or write: an expired entry may be kept while one used or written before it is still live.)",
  ["histories","inputs"],"all schedules of deadlines and clock advances on and around every boundary of every timer level, with updates, reads and removals in between, at the timer structure and through the cache",
  "Timer tests walk one fixed timeline; boundary and cascading combinations are not enumerated.",
  ["src/common/timer_wheel.rs","src/common/deque.rs",SB,FB],[("schedule, advance, cascade","src/common/timer_wheel.rs"),("evict_expired_entries_using_timers / _deqs","src/sync/base_cache.rs")],
  [("wheel levels and cursors","timers by remaining time","src/common/timer_wheel.rs")],["Cache::entry_count after run_pending_tasks","eviction listener"],HOOK)
p("C22","The asynchronous cache is equivalent to the synchronous one",
  "Any sequence of operations performed one after another gives the same results, the same contents, the same listener notifications and the same counts on the asynchronous cache as on the synchronous cache with the same configuration. This holds in every configuration of capacity, weights, expiry, invalidation and listener.",
  ["histories","configurations"],"all operation sequences up to a depth over the common API for a matrix of configurations, both implementations driven in lock step",
  "The two implementations are separate copies of thousands of lines; tests cover each by its own hand-written scenarios and never compare them.",
  [FC,FB,SC,SB,"src/future/value_initializer.rs","src/sync/value_initializer.rs"],[("duplicated cache logic","src/future/base_cache.rs vs src/sync/base_cache.rs")],None,["both cache APIs"],HOOK)
p("C23","Builder settings are honoured and reported",
  "A built cache reports exactly the configured name, capacity, time limits and sizes, applies the configured weigher, listener, expiry, hasher and policies, and rejects only the documented out-of-range durations. Settings that are documented as hints never change the results of operations.",
  ["configurations"],"every combination of the builder's settings over small domains, for all cache flavours, each followed by a probe sequence",
  "Tests build a few configurations; interactions of settings are not enumerated.",
  ["src/sync/builder.rs","src/future/builder.rs","src/common/builder_utils.rs","src/policy.rs",SC,FC,"src/sync/segment.rs"],[("builders","src/sync/builder.rs, src/future/builder.rs"),("Policy","src/policy.rs")],None,["Cache::policy, name, behaviour of built caches"],HOOK)
p("C24","Maintenance happens by itself",
  "Without any explicit call of run_pending_tasks, a write or a get performs the pending maintenance once 64 writes or 64 reads have been recorded since the last run, or 300 ms have passed since it: recorded writes are counted and admitted or evicted, and expired and invalidated entries are removed and reported to the listener. At most 64 recorded writes therefore stay unapplied behind operations that follow one another, whatever happened before, including an operation that was dropped while it ran maintenance or a run that found another one under way.",
  ["histories","schedules"],"all sequences of operations repeated in bursts around the thresholds and of clock steps around the interval, for all flavours and kinds of caches; all preemption-bounded interleavings (and drop points) of operations that find maintenance due, after which operations alone must settle the cache",
  "Tests call run_pending_tasks explicitly after every step; the automatic path, its thresholds, and its state after races or cancellation are not exercised.",
  ["src/common/concurrent/housekeeper.rs","src/common/concurrent/constants.rs",SB,FB,SC,FC],[("Housekeeper::should_apply_reads / should_apply_writes, try_run_pending_tasks","src/common/concurrent/housekeeper.rs"),("apply_reads_writes_if_needed","src/sync/base_cache.rs, src/future/base_cache.rs")],
  [("run_after","when maintenance is next due by time","src/common/concurrent/housekeeper.rs")],["Cache::get","Cache::insert","Cache::remove"],HOOK)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
