import json
SEQ="stateless model checking of the real caches: exhaustive enumeration of operation/clock/callback-answer sequences, each step checked against a reference model"
CON="stateless model checking of the real caches under a controlled scheduler: all interleavings up to a preemption bound with visited-state pruning, every history checked against a sequential reference model"
BOTH=CON+"; plus "+SEQ.split(': ',1)[1]
A=" Real code: every atomic, lock, channel, epoch pin, allocation and clock read of moka runs on the model-checked runtime; sequentially consistent interleavings plus happens-before race detection."
N={
"C01":(CON,"2-3 threads x 1-2 operations on 1-2 keys (incl. colliding hashes) + maintenance, 3 flavours; quick 1-2 preemptions, thorough 3-4; per-key linearizability search over every history."+A),
"C02":(CON,"tables of 16 (growth, compaction) and 512 (shrinking) buckets per segment prefilled to the brink, then 2-3 threads; quick 1-2, thorough 2-3 preemptions; stable keys must stay visible, final contents compared with the history."+A),
"C03":(CON,"2-3 callers of the get_with/entry families mixed with inserts, removals, invalidation; quick 1-2, thorough 3 preemptions; initializer runs are intervals checked for overlap, coalescing and necessity."+A),
"C04":(BOTH,"every placement of value/none/error/panic (and, asynchronous, drop; panicking conditions and weighers) over 2-3 callers; quick 1-2, thorough 3 preemptions; plus all short sequences of every form."+A),
"C05":(BOTH,"2-3 concurrent computes/upserts with readers, writers and maintenance; every outcome compared with the linearized history; quick 1-2, thorough 3 preemptions."+A),
"C06":(BOTH,"all sequences of 4-5 (thorough 6) steps over 10-14 letters incl. clock steps to just before/at each deadline, ttl/tti/both, listener on/off, 3 flavours; plus 2-thread interleavings around deadlines. Virtual clock."+A),
"C07":(BOTH,"all sequences of 4 (thorough 5) steps x all answers of the three Expiry callbacks, alone and with ttl/tti; callback arguments checked exactly; 2-thread interleavings. Deadlines on moka's 4096 ns grid."+A),
"C08":(BOTH,"all sequences of 5 (thorough 6) steps with invalidate_all; 2-thread interleavings with reads, writes, loads and maintenance; quick 1-2, thorough 3 preemptions."+A),
"C09":(BOTH,"all sequences of 5 (thorough 6) steps with three predicates; scans over 384-1200 entries with an update, read or removal at each batch edge; interleavings of registration, scan, reads and writes; quick 1-2, thorough 3 preemptions."+A),
"C10":(BOTH,"capacities 0-4, weights 0..over capacity, LRU and TinyLFU; sequences of writes/updates/reads/removals, and 2-3 racing writers; after maintenance weighted_size <= capacity and equal to the stored weights."+A),
"C11":(BOTH,"in every sequence and every interleaving of the other units the counters are compared with the cache contents after maintenance has settled, and with zero after the cache was emptied; one key rewritten with different weights, expired and removed by two threads."+A),
"C12":(BOTH,"exact reference model of LRU and TinyLFU admission incl. estimator aging and weights up to 2^32-1; entries worn by up to 131073 updates; interleavings of oversized and light values (nothing that fits may be evicted)."+A),
"C13":(BOTH,"every departure in every explored sequence/interleaving is matched with exactly one listener call and its cause."+A),
"C14":(CON,"listener that takes steps, panics at any call, or re-enters the cache; per-key order and non-overlap of notifications, completion before the operation returns; quick 1, thorough 2-3 preemptions."+A),
"C15":(BOTH,"iterations interleaved with writers, removers and table growth; and an iteration letter in the sequence units."+A),
"C16":(CON,"every pending point of every asynchronous operation as drop point (1, thorough 2 drops) x 1-2 preemptions with slow listeners and pending closures; afterwards contents, counters, notifications and progress are checked."+A),
"C17":(CON,"every execution of every unit runs with an allocator that poisons freed blocks and reports leaks, values with drop checks, eager epoch reclamation and race detection; dedicated units with scheduling points at reference-count operations."+A),
"C18":(CON,"every explored schedule must terminate within the step horizon without deadlock or lost wakeup, spin loops yield under fairness; slow and re-entrant listeners, write queue full from the start."+A),
"C19":(SEQ,"segmented (1,2,4 segments) and unsegmented cache driven in lock step by the same sequences; all answers, contents, counts, notifications and policy reports compared; every segment filled through every route."+A),
"C20":(SEQ,"all sequences of 3 (thorough 4) steps over ~50 forms (owned/by-ref, conditional, failing, panicking) on present/absent/expired/invalidated keys; flags, key and value of the returned entry compared."+A),
"C21":(BOTH,"expiry deadlines on and around every boundary of every level of the timer wheel with clock jumps on and around them; deadlines for ever, counters worn past their wrap-around, 384-1200 entries expiring at once; plus emptiness after expiry in all timed units."+A),
"C22":(SEQ,"asynchronous and synchronous cache driven in lock step by the same sequences over a matrix of configurations; answers, contents, notifications and counts compared."+A),
"C23":(SEQ,"every combination of builder settings over small domains for every flavour, each followed by a probe sequence against the reference model."+A),
"C24":(BOTH,"bursts of 1-70 writes or reads and clock steps up to and past the interval between observations, all sequences of 4 (thorough 5) letters, 6 kinds of caches x 3 flavours, against a model of when maintenance is due; 2-thread interleavings (and drops) of operations that find it due, after which two further operations alone must settle the cache; quick 1-2, thorough 2-3 preemptions."+A),
}
import sys
have=sys.argv[1:]
json.dump({k:{"technique":v[0],"note":v[1]} for k,v in N.items() if k in have},open('/verif/tools/notes.json','w'),indent=1)
